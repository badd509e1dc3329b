from cxx2why.unit import Unit
from .evalcommon import REPO_SRC
B = 'src/buildtool/build_engine/base_maps/'
H, D = B + 'entity_name.hpp', B + 'entity_name_data.hpp'
SOURCES = [H, D]
HARNESS = dict(src='h_entity.cpp', repo=REPO_SRC + ['src/buildtool/common/repository_config.cpp', 'src/buildtool/build_engine/base_maps/entity_name_data.cpp'], quick_s=10, thorough_s=120, hunt_s=60)
RULE = 'random names (strings, lists of all lengths and markers, non-strings, upwards and redundant modules), given as JSON and as expressions, seen from random modules, with random bindings of repositories; compared with an own resolver'
ASSUMPTIONS = [
    'std::filesystem::path operations (lexically_normal, /, lexically_relative, parent_path) are uninterpreted functions of their arguments; what they give for modules is compared with an own walk in the bounded harness',
    'RepositoryConfig::GlobalName gives the repository bound to a local name (decided for the real class in the bounded harness)',
    'the current entity a name is resolved from is a named target for success (for anonymous ones nothing is resolved)',
    'what a relative module given as absolute path denotes is left open']
TU = '''#include <string>
#include "%s"
bool instantiate(ExpressionPtr const& e, nlohmann::json const& j, BuildMaps::Base::EntityName const& c, RepositoryConfig const* r) {
  return BuildMaps::Base::ParseEntityNameFromJson(j, c, r) == BuildMaps::Base::ParseEntityNameFromExpression(e, c, r);
}
''' % H
SPEC = r'''
  type anon
  type repos
  type named = { n_repository : str; n_module : str; n_name : str; n_ref : int }
  type entity = or2 named anon
  (* module names are normalised relative to the root of the workspace *)
  function norm_module (m: str) : str = path_parent (path_relative (path_norm (cat (cat B"/" m) B"/")) B"/")
  function ent (r m n: str) (t: int) : entity = In1 { n_repository = r; n_module = norm_module m; n_name = n; n_ref = t }
  (* the repository bound to a local name *)
  function global_name (c: repos) (repo local: str) : option str
  val repo_global_name (c: repos) (repo local: str) : option str ensures { result = global_name c repo local }
  (* an entry of a list of names *)
  type item = IStr str | INone | IOther
  function ei (e: expr) : item = match view e with VStr s -> IStr s | VNone -> INone | _ -> IOther end
  function ji (e: json) : item = match jview e with JStr s -> IStr s | JNull -> INone | _ -> IOther end
  predicate outside (m: str) = m = B".." \/ (3 <= len m /\ sub m 0 3 = B"../")
  function reference (s: str) : int = if s = B"FILE" then 1 else if s = B"GLOB" then 3 else if s = B"SYMLINK" then 4 else 2
  predicate fs_marker (s: str) = s = B"FILE" \/ s = B"TREE" \/ s = B"GLOB" \/ s = B"SYMLINK"
  function two (x: named) (i0 i1: item) : option entity =
    match i0, i1 with IStr m, IStr n -> Some (ent x.n_repository m n 0) | _ -> None end
  function fsref (x: named) (s: str) (n: int) (i1 i2: item) : option entity =
    match i2 with IStr name -> if n = 3 /\ (match i1 with INone -> true | IStr m -> m = B"." \/ m = x.n_module | _ -> false end)
      then Some (ent x.n_repository x.n_module name (reference s)) else None | _ -> None end
  function relative (x: named) (n: int) (i1 i2: item) : option entity =
    match i1, i2 with IStr rel, IStr name -> if n = 3 /\ not (outside (path_norm (path_app x.n_module rel)))
      then Some (ent x.n_repository (path_norm (path_app x.n_module rel)) name 0) else None | _ -> None end
  function located (c: repos) (x: named) (n: int) (i1 i2 i3: item) : option entity =
    match i1, i2, i3 with IStr repo, IStr m, IStr name -> if n = 4 then
      match global_name c x.n_repository repo with Some g -> Some (ent g m name 0) | None -> None end else None | _ -> None end
  function three (c: repos) (x: named) (n: int) (i0 i1 i2 i3: item) : option entity =
    match i0 with IStr s -> if s = B"./" then relative x n i1 i2 else if s = B"@" then located c x n i1 i2 i3
      else if fs_marker s then fsref x s n i1 i2 else None | _ -> None end
  (* the paths of modules are relative; what an absolute "relative module" denotes is left open *)
  predicate absrel (i0 i1: item) = match i0, i1 with IStr s, IStr r -> s = B"./" /\ path_is_abs r | _ -> false end
  function listed (c: repos) (x: named) (n: int) (i0 i1 i2 i3: item) : option entity =
    if n = 2 then two x i0 i1 else if n >= 3 then three c x n i0 i1 i2 i3 else None
  function ent_e (c: repos) (x: named) (e: expr) : option entity = match view e with VStr s -> Some (ent x.n_repository x.n_module s 0)
    | VList l -> listed c x (len l) (ei (nth l 0)) (ei (nth l 1)) (ei (nth l 2)) (if len l >= 4 then ei (nth l 3) else IOther) | _ -> None end
  function ent_j (c: repos) (x: named) (e: json) : option entity = match jview e with JStr s -> Some (ent x.n_repository x.n_module s 0)
    | JArr l -> listed c x (len l) (ji (nth l 0)) (ji (nth l 1)) (ji (nth l 2)) (if len l >= 4 then ji (nth l 3) else IOther) | _ -> None end
  predicate open_e (e: expr) = match view e with VList l -> absrel (ei (nth l 0)) (ei (nth l 1)) | _ -> false end
  predicate open_j (e: json) = match jview e with JArr l -> absrel (ji (nth l 0)) (ji (nth l 1)) | _ -> false end
'''


def units():
    u = Unit('Entity', use='Json')
    u.spec(SPEC)
    u.rec(['NamedTarget', 'BuildMaps::Base::NamedTarget'], 'named', [('repository', 'n_repository', ('str',)), ('module', 'n_module', ('str',)), ('name', 'n_name', ('str',)), ('reference_t', 'n_ref', ('enum', 'ReferenceType'))])
    u.abst(['AnonymousTarget', 'BuildMaps::Base::AnonymousTarget'], 'anon')
    ENT = ('var', ('rec', 'named'), ('abs', 'anon'))
    for q in ('EntityName', 'BuildMaps::Base::EntityName'):
        u.extra_types[q] = ENT
    u.abst(['RepositoryConfig'], 'repos')
    u.enum(['ReferenceType', 'BuildMaps::Base::ReferenceType'], dict(kTarget=0, kFile=1, kTree=2, kGlob=3, kSymlink=4))
    u.extern('GlobalName', 'repo_global_name', ('opt', ('str',)), of='repos', eff=True)
    four = lambda d: len([c for c in d['inner'] if c['kind'] == 'ParmVarDecl']) == 4
    u.fn('NamedTarget::normal_module_name', TU, contract='ensures { result = norm_module p1 }', filter='NamedTarget::normal_module_name')
    u.fn('NamedTarget::NamedTarget', TU, contract='ensures { In1 result = ent p1 p2 p3 p4 }', filter='NamedTarget::NamedTarget', rtype=('rec', 'named'), why='mk_named', pick=four)
    u.fn('EntityName::EntityName', TU, contract='ensures { result = ent p1 p2 p3 p4 }', filter='EntityName::EntityName', rtype=ENT, why='mk_entity', pick=four)
    u.fn('EntityName::GetNamedTarget', TU, contract='raises { Cxx -> match c with In1 _ -> false | _ -> true end }\n    ensures { c = In1 result }', filter='EntityName::GetNamedTarget',
         this=[('entity_name_', 'c', ENT, False)], pick=lambda d: 'const' in d['type']['qualType'].split(')')[-1], why='get_named')
    u.methods[('var', 'GetNamedTarget')] = lambda tr, x, args, n: tr.app('get_named', [x], ('rec', 'named'), True)
    for T, w, it, lst, req, SZ in (('ExpressionPtr', 'e', 'ei', 'p{}', 'list_v', ''), ('json', 'j', 'ji', '(jarr p{})', 'jarr', '')):
        istempl = (lambda T, N: lambda d: (T == 'json') == ('basic_json' in d['type']['qualType'] or 'json' in d['type']['qualType'].split('(')[1][:40]))(T, 0)
        I = lambda p, k: '(%s (nth %s %d))' % (it, lst.format(p), k)
        arr = lambda p: 'true' if w == 'e' else 'j_arr_v p%d' % p
        N = lambda p: 'len ' + lst.format(p)
        def f(name, contract, **k):
            u.fn(name, TU, contract=contract, filter='ParseEntityName', pick=istempl, why=name[0].lower() + name[1:] + '_' + w, **k)
        cur = lambda p, b: 'match p%d with In1 x -> %s | _ -> result = None end' % (p, b)
        f('ParseEntityName_2', f'requires {{ {arr(1)} /\\ {N(1)} = 2 }}\n    ensures {{ {cur(2, f"result = two x {I(1,0)} {I(1,1)}")} }}')
        f('ParseEntityNameFSReference', f'requires {{ {arr(2)} /\\ {N(2)} = p3 /\\ p3 >= 3 }}\n    ensures {{ {cur(4, f"result = fsref x p1 p3 {I(2,1)} {I(2,2)}")} }}')
        f('ParseEntityNameRelative', f'requires {{ {arr(1)} /\\ {N(1)} = p2 /\\ p2 >= 3 }}\n    ensures {{ {cur(3, f"result = relative x p2 {I(1,1)} {I(1,2)}")} \\/ absrel (IStr B"./") {I(1,1)} }}')
        f('ParseEntityNameLocation', f'requires {{ {arr(1)} /\\ {N(1)} = p2 /\\ p2 >= 3 }}\n    ensures {{ {cur(3, f"result = located p4 x p2 {I(1,1)} {I(1,2)} (if p2 >= 4 then {I(1,3)} else IOther)")} }}', vartypes={'repo_name': ('opt', ('str',))})
        f('ParseEntityName_3', f'requires {{ {arr(1)} /\\ {N(1)} = p2 /\\ p2 >= 3 }}\n    ensures {{ {cur(3, f"result = three p4 x p2 {I(1,0)} {I(1,1)} {I(1,2)} (if p2 >= 4 then {I(1,3)} else IOther)")} \\/ absrel {I(1,0)} {I(1,1)} }}')
        f('ParseEntityName', f'ensures {{ {cur(2, f"result = ent_{w} p3 x p1")} \\/ open_{w} p1 }}')
    return [u]
