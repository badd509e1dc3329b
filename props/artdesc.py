import os
import re
from cxx2why import ast as AST
from cxx2why.ast import ExtractError
from cxx2why.unit import Unit
from cxx2why.tr import X
S = 'src/buildtool/common/artifact_description.cpp'
H, OT, DF = 'src/buildtool/common/artifact_description.hpp', 'src/buildtool/file_system/object_type.hpp', 'src/buildtool/common/artifact_digest_factory.cpp'
SOURCES = [S, H, OT, DF, 'src/buildtool/common/artifact_digest.hpp', 'src/utils/cpp/json.hpp']
C = 'src/buildtool/crypto/'
HARNESS = dict(src='h_artdesc.cpp', repo=[S, DF, 'src/buildtool/common/bazel_digest_factory.cpp', C + 'hash_function.cpp', C + 'hash_info.cpp', C + 'hasher.cpp', 'src/utils/cpp/incremental_reader.cpp'], quick_s=10, thorough_s=120, hunt_s=60)
RULE = 'random artifact descriptions of all kinds (parts that are empty, equal, swapped or look like kinds; sizes around 2^31, 2^32, 2^53, 2^63 and 2^64; all file types, both hash functions), their JSON, their neighbours, and JSON with missing, additional or ill-typed parts and with hashes that are none, compared with an independent description'
ASSUMPTIONS = [
    'ExtractValueAs gives a field of an object if it has the type asked for, and nothing otherwise (nlohmann::json; exercised in the bounded harness); a size_t written as JSON number is read back as it was',
    'std::holds_alternative and std::get access the alternative named in the source text, std::get throws if it is another; the constructor of ArtifactDescription stores the data given and the id of its JSON (exercised in the bounded harness)',
    'HashInfo::Create accepts exactly hex strings of the length of the hash function and no trees for plain SHA256 (proved for the real code under C13)']
TRUSTED = []
SPEC = r'''
  type hash_info = { hi_hash : str; hi_type : int; hi_tree : bool }
  type digest = { dg_info : hash_info; dg_size : int }
  constant git : int = 0
  function hash_len (t: int) : int = if t = git then 40 else 64
  predicate all_hex (s: str) = forall i [nth s i]. 0 <= i < len s -> is_hex (nth s i)
  predicate digest_ok (t: int) (h: str) (tree: bool) = (tree = true -> t = git) /\ len h = hash_len t /\ all_hex h
  (* contract of HashInfo::Create, proved under C13 *)
  val info_create (t: int) (h: str) (tree: bool) : option hash_info
    requires { 0 <= t <= 1 }
    ensures { match result with None -> not (digest_ok t h tree) | Some r -> digest_ok t h tree /\ r = { hi_hash = h; hi_type = t; hi_tree = tree } end }
  let function mk_digest (i: hash_info) (n: int) : digest = { dg_info = i; dg_size = n }
  (* contract of ArtifactDigestFactory::Create, proved in unit ArtifactDigest *)
  predicate created (r: option digest) (t: int) (h: str) (n: int) (tree: bool) = let b = (if t = git then tree else false) in
    match r with None -> not (digest_ok t h b) | Some d -> digest_ok t h b /\ d = { dg_info = { hi_hash = h; hi_type = t; hi_tree = b }; dg_size = n } end
  val digest_create (t: int) (h: str) (n: int) (tree: bool) : option digest requires { 0 <= t <= 1 } ensures { created result t h n tree }
  (* what an artifact is described by *)
  type adesc = ALocal str str | AKnown digest int (option str) | AAction str str | ATree str | AOverlay str
  val is_Local (a: adesc) : bool ensures { result <-> match a with ALocal _ _ -> true | _ -> false end }
  val is_Known (a: adesc) : bool ensures { result <-> match a with AKnown _ _ _ -> true | _ -> false end }
  val is_Action (a: adesc) : bool ensures { result <-> match a with AAction _ _ -> true | _ -> false end }
  val is_Tree (a: adesc) : bool ensures { result <-> match a with ATree _ -> true | _ -> false end }
  val is_TreeOverlay (a: adesc) : bool ensures { result <-> match a with AOverlay _ -> true | _ -> false end }
  type tree_t = { tt_id : str }
  type overlay_t = { ot_id : str }
  val get_Local (a: adesc) : (str, str) raises { Cxx -> match a with ALocal _ _ -> false | _ -> true end } ensures { match a with ALocal x y -> result = (x, y) | _ -> false end }
  val get_Known (a: adesc) : (digest, int, option str) raises { Cxx -> match a with AKnown _ _ _ -> false | _ -> true end } ensures { match a with AKnown x y z -> result = (x, y, z) | _ -> false end }
  val get_Action (a: adesc) : (str, str) raises { Cxx -> match a with AAction _ _ -> false | _ -> true end } ensures { match a with AAction x y -> result = (x, y) | _ -> false end }
  val get_Tree (a: adesc) : tree_t raises { Cxx -> match a with ATree _ -> false | _ -> true end } ensures { match a with ATree x -> result = { tt_id = x } | _ -> false end }
  val get_TreeOverlay (a: adesc) : overlay_t raises { Cxx -> match a with AOverlay _ -> false | _ -> true end } ensures { match a with AOverlay x -> result = { ot_id = x } | _ -> false end }
  let function mk_Local (x: (str, str)) : adesc = let (a, b) = x in ALocal a b
  let function mk_Action (x: (str, str)) : adesc = let (a, b) = x in AAction a b
  let function mk_Known (x: (digest, int, option str)) : adesc = let (a, b, c) = x in AKnown a b c
  let function mk_Tree (x: tree_t) : adesc = ATree x.tt_id
  let function mk_TreeOverlay (x: overlay_t) : adesc = AOverlay x.ot_id
  (* JSON *)
  val function mk_jsize (n: int) : json
  function size_of (j: json) : option int
  axiom size_jsize : forall n [mk_jsize n]. 0 <= n < 18446744073709551616 -> size_of (mk_jsize n) = Some n
  axiom size_range : forall j n [size_of j, Some n]. size_of j = Some n -> 0 <= n < 18446744073709551616
  function field (j: json) (k: str) : option json = match jview j with JObj m -> mget m k | _ -> None end
  function str_field (j: json) (k: str) : option str = match field j k with Some v -> match jview v with JStr s -> Some s | _ -> None end | None -> None end
  function size_field (j: json) (k: str) : option int = match field j k with Some v -> size_of v | None -> None end
  val extract_str (j: json) (k: str) : option str ensures { result = str_field j k }
  val extract_size (j: json) (k: str) : option int ensures { result = size_field j k }
  val extract_json (j: json) (k: str) : option json ensures { result = field j k }
  (* kinds of objects *)
  function char_of (t: int) : int = if t = 0 then 102 else if t = 1 then 120 else if t = 2 then 116 else 108
  function type_of (c: int) : int = if c = 120 then 1 else if c = 116 then 2 else if c = 108 then 3 else 0
  function obj (t: str) (d: json) : json = mk_jobj (mset (mset mempty L"type" (mk_jstr t)) L"data" d)
  function data1 (k: str) (x: json) : json = mk_jobj (mset mempty k x)
  function data2 (k: str) (x: json) (l: str) (y: json) : json = mk_jobj (mset (mset mempty k x) l y)
  function known_data (h: str) (n: int) (c: str) : json = mk_jobj (mset (mset (mset mempty L"id" (mk_jstr h)) L"size" (mk_jsize n)) L"file_type" (mk_jstr c))
  function art_json (a: adesc) : json = match a with
    | ALocal p r -> obj L"LOCAL" (data2 L"path" (mk_jstr p) L"repository" (mk_jstr r))
    | AKnown d t _ -> obj L"KNOWN" (known_data d.dg_info.hi_hash d.dg_size (snoc empty (char_of t)))
    | AAction i p -> obj L"ACTION" (data2 L"id" (mk_jstr i) L"path" (mk_jstr p))
    | ATree i -> obj L"TREE" (data1 L"id" (mk_jstr i))
    | AOverlay i -> obj L"TREE_OVERLAY" (data1 L"id" (mk_jstr i)) end
  function parse_local (d: json) : option adesc = match str_field d L"path", str_field d L"repository" with Some p, Some r -> Some (ALocal p r) | _ -> None end
  function parse_action (d: json) : option adesc = match str_field d L"id", str_field d L"path" with Some p, Some r -> Some (AAction p r) | _ -> None end
  function parse_tree (d: json) : option adesc = match str_field d L"id" with Some i -> Some (ATree i) | _ -> None end
  function parse_overlay (d: json) : option adesc = match str_field d L"id" with Some i -> Some (AOverlay i) | _ -> None end
  function known_of (ht: int) (h: str) (n: int) (t: int) : option adesc =
    if digest_ok ht h (if t = 2 && ht = git then true else false) then Some (AKnown { dg_info = { hi_hash = h; hi_type = ht; hi_tree = (if t = 2 && ht = git then true else false) }; dg_size = n } t None) else None
  function parse_known (ht: int) (d: json) : option adesc = match str_field d L"id", size_field d L"size", str_field d L"file_type" with
    | Some h, Some n, Some c -> if len c = 1 then known_of ht h n (type_of (sext8 (nth c 0))) else None
    | _ -> None end
  function parse (ht: int) (j: json) : option adesc = match str_field j L"type", field j L"data" with
    | Some t, Some d -> if t = L"LOCAL" then parse_local d else if t = L"KNOWN" then parse_known ht d else if t = L"ACTION" then parse_action d
      else if t = L"TREE" then parse_tree d else if t = L"TREE_OVERLAY" then parse_overlay d else None
    | _ -> None end
  predicate obj_type (t: int) = 0 <= t <= 3
'''
ST, B, J = ('str',), ('bool',), ('json',)
HT, OTY, SZ = ('int', 8, False), ('int', 8, True), ('int', 64, False)
DG, AD = ('rec', 'digest'), ('abs', 'adesc')
ALT = dict(Local=('pair', ST, ST), Known=('tuple', DG, OTY, ('opt', ST)), Action=('pair', ST, ST), Tree=('rec', 'tree_t'), TreeOverlay=('rec', 'overlay_t'))


ROUND = r'''
  (* an artifact that can be: its digest fits the hash function and, for the native protocol, the file type *)
  predicate valid (ht: int) (a: adesc) = match a with
    | AKnown d t _ -> obj_type t /\ 0 <= d.dg_size < 18446744073709551616 /\ created (Some d) ht d.dg_info.hi_hash d.dg_size (if t = 2 then true else false)
    | _ -> true end
  (* kind and parts; the repository a known artifact comes from is not part of its description *)
  function parts (a: adesc) : adesc = match a with AKnown d t _ -> AKnown d t None | _ -> a end
  let ghost names () : unit
    ensures { L"type" <> L"data" /\ L"path" <> L"repository" /\ L"id" <> L"size" /\ L"id" <> L"file_type" /\ L"size" <> L"file_type" /\ L"id" <> L"path" }
    ensures { L"LOCAL" <> L"KNOWN" /\ L"LOCAL" <> L"ACTION" /\ L"LOCAL" <> L"TREE" /\ L"LOCAL" <> L"TREE_OVERLAY" /\ L"KNOWN" <> L"ACTION" }
    ensures { L"KNOWN" <> L"TREE" /\ L"KNOWN" <> L"TREE_OVERLAY" /\ L"ACTION" <> L"TREE" /\ L"ACTION" <> L"TREE_OVERLAY" /\ L"TREE" <> L"TREE_OVERLAY" } = ()
  let ghost obj_fields (t: str) (d: json) : unit
    ensures { str_field (obj t d) L"type" = Some t /\ field (obj t d) L"data" = Some d }
  = names (); assert { field (obj t d) L"type" = Some (mk_jstr t) }
  let ghost data_1 (k x: str) : unit ensures { str_field (data1 k (mk_jstr x)) k = Some x } = assert { field (data1 k (mk_jstr x)) k = Some (mk_jstr x) }
  let ghost data_2 (k x l y: str) : unit requires { k <> l }
    ensures { str_field (data2 k (mk_jstr x) l (mk_jstr y)) k = Some x /\ str_field (data2 k (mk_jstr x) l (mk_jstr y)) l = Some y }
  = assert { field (data2 k (mk_jstr x) l (mk_jstr y)) k = Some (mk_jstr x) }; assert { field (data2 k (mk_jstr x) l (mk_jstr y)) l = Some (mk_jstr y) }
  let ghost data_3 (h: str) (n: int) (c: str) : unit requires { 0 <= n < 18446744073709551616 }
    ensures { str_field (known_data h n c) L"id" = Some h /\ size_field (known_data h n c) L"size" = Some n /\ str_field (known_data h n c) L"file_type" = Some c }
  = names (); let ghost k = known_data h n c in
    assert { field k L"id" = Some (mk_jstr h) }; assert { field k L"size" = Some (mk_jsize n) }; assert { field k L"file_type" = Some (mk_jstr c) }
  let ghost kinds (t: int) : unit requires { obj_type t } ensures { let c = snoc empty (char_of t) in len c = 1 /\ type_of (sext8 (nth c 0)) = t } = ()
  (* reading what was written gives the same kind and parts *)
  let ghost round_trip (ht: int) (a: adesc) : unit
    requires { 0 <= ht <= 1 /\ valid ht a }
    ensures { parse ht (art_json a) = Some (parts a) }
  = names ();
    match a with
    | ALocal p r -> obj_fields L"LOCAL" (data2 L"path" (mk_jstr p) L"repository" (mk_jstr r)); data_2 L"path" p L"repository" r
    | AAction i p -> obj_fields L"ACTION" (data2 L"id" (mk_jstr i) L"path" (mk_jstr p)); data_2 L"id" i L"path" p
    | ATree i -> obj_fields L"TREE" (data1 L"id" (mk_jstr i)); data_1 L"id" i
    | AOverlay i -> obj_fields L"TREE_OVERLAY" (data1 L"id" (mk_jstr i)); data_1 L"id" i
    | AKnown d t _ -> let ghost c = snoc empty (char_of t) in
      obj_fields L"KNOWN" (known_data d.dg_info.hi_hash d.dg_size c); data_3 d.dg_info.hi_hash d.dg_size c; kinds t;
      assert { parse ht (art_json a) = parse_known ht (known_data d.dg_info.hi_hash d.dg_size c) };
      assert { parse_known ht (known_data d.dg_info.hi_hash d.dg_size c) = known_of ht d.dg_info.hi_hash d.dg_size t } end
  (* so different artifacts have different JSON *)
  let ghost different (ht: int) (a b: adesc) : unit
    requires { 0 <= ht <= 1 /\ valid ht a /\ valid ht b /\ art_json a = art_json b }
    ensures { parts a = parts b }
  = round_trip ht a; round_trip ht b
  (* what is read can be *)
  let ghost read_valid (ht: int) (j: json) (a: adesc) : unit
    requires { 0 <= ht <= 1 /\ parse ht j = Some a }
    ensures { valid ht a /\ parts a = a }
  = match str_field j L"type", field j L"data" with
    | Some t, Some d -> if eqv t L"KNOWN" then
        match str_field d L"id", size_field d L"size", str_field d L"file_type" with
        | Some h, Some n, Some c -> assert { known_of ht h n (type_of (sext8 (nth c 0))) = Some a }; assert { obj_type (type_of (sext8 (nth c 0))) }
        | _ -> () end
      else ()
    | _ -> () end
'''


def refs(n):
    if n.get('kind') == 'DeclRefExpr':
        yield n
    for c in n.get('inner', []):
        yield from refs(c)


def alternative(tr, n, what):
    """The alternative named in std::get<A>(data_) or std::holds_alternative<A>(data_): clang's JSON AST omits
    template arguments, so it is read from the source text of the reference (and must be one of the five)."""
    for r in refs(n['inner'][0]):
        b, e = r['range']['begin'], r['range']['end']
        if 'offset' in b and 'offset' in e:
            t = open(os.path.join(AST.REPO, tr.spec.tu), 'rb').read()[b['offset']:e['offset'] + e['tokLen']].decode()
            m = re.fullmatch(r'(?:std\s*::\s*)?%s\s*<\s*(?:ArtifactDescription\s*::\s*)?(\w+)\s*>' % what, t)
            if m and m.group(1) in ALT:
                return m.group(1)
    raise ExtractError('alternative of std::%s not recognised' % what)


def common(u):
    u.extra_types['std::variant<Local, Known, Action, Tree, TreeOverlay>'] = AD
    u.abst(['ArtifactDescription'], 'adesc')
    u.extra_types['HashFunction::Type'] = HT
    u.extra_types['ObjectType'] = OTY
    u.enums.update(File=0, Executable=1, Tree=2, Symlink=3)
    u.rec(['ArtifactDescription::Tree', 'Tree'], 'tree_t', [('tree', 'tt_id', ST)])
    u.rec(['ArtifactDescription::TreeOverlay', 'TreeOverlay'], 'overlay_t', [('tree_overlay', 'ot_id', ST)])
    u.rec(['ArtifactDigest'], 'digest', [('hash_info_', 'dg_info', ('rec', 'hash_info')), ('size_', 'dg_size', SZ)])
    u.rec(['HashInfo'], 'hash_info', [('hash_', 'hi_hash', ST), ('hash_type_', 'hi_type', HT), ('is_tree_', 'hi_tree', B)])
    for t, n in (('Local', 'Local'), ('Known', 'Known'), ('Action', 'Action')):
        u.extra_types[t] = ALT[t]
        u.extra_types['ArtifactDescription::' + t] = ALT[t]
    u.methods[('digest', 'hash')] = lambda tr, x, args, n: X('%s.dg_info.hi_hash' % x.code, ST, x.eff)
    u.methods[('digest', 'size')] = lambda tr, x, args, n: X('%s.dg_size' % x.code, SZ, x.eff)
    u.conv[(SZ, J)] = 'mk_jsize'

    def holds(tr, args, n):
        return tr.app('is_' + alternative(tr, n, 'holds_alternative'), [tr.E(args[0])], B, True)

    def get(tr, args, n):
        a = alternative(tr, n, 'get')
        return tr.app('get_' + a, [tr.E(args[0])], ALT[a], True)
    u.fncalls['holds_alternative'] = holds
    u.fncalls['get'] = get

    def extract(tr, args, n):
        t = tr.ty(n)
        f = {('opt', ST): 'extract_str', ('opt', SZ): 'extract_size', ('opt', J): 'extract_json'}.get(t)
        if f is None:
            raise ExtractError('ExtractValueAs as %r' % (t,))
        return tr.app(f, [tr.E(a) for a in args[:2]], t, True)
    u.fncalls['ExtractValueAs'] = extract

    def ctor(tr, cs, n):
        q = cs[0]['type']
        q = q.get('desugaredQualType', q['qualType'])
        q = re.sub(r'\b(const|std::|__cxx11::|class |struct )', '', q).strip()
        for p, a in (('pair<filesystem::path', 'Local'), ('pair<basic_string', 'Action'), ('tuple<ArtifactDigest', 'Known'), ('ArtifactDescription::TreeOverlay', 'TreeOverlay'), ('ArtifactDescription::Tree', 'Tree')):
            if q.startswith(p):
                return tr.app('mk_' + a, [tr.E(cs[0])], AD, False)
        raise ExtractError('ArtifactDescription from %s' % q)
    u.conv[('ctor', AD)] = ctor


def units():
    u = Unit('ArtifactDescription', use='Json')
    common(u)
    u.spec(SPEC)
    N = 'ArtifactDescription::'
    me = dict(this=[('data_', 'd', AD, False)], thisval=('d', AD))
    u.fn('ToChar', OT and S, contract='requires { obj_type p1 }\n    ensures { result = char_of p1 }', filter='ToChar')
    u.fn('FromChar', S, contract='ensures { result = type_of (sext8 p1) }', filter='FromChar')
    u.fn('IsTreeObject', S, contract='ensures { result <-> p1 = 2 }', filter='IsTreeObject')
    u.fn(N + 'CreateLocal', S, contract='ensures { result = ALocal p1 p2 }', filter=N + 'CreateLocal')
    u.fn(N + 'CreateAction', S, contract='ensures { result = AAction p1 p2 }', filter=N + 'CreateAction')
    u.fn(N + 'CreateKnown', S, contract='ensures { result = AKnown p1 p2 p3 }', filter=N + 'CreateKnown')
    u.fn(N + 'CreateTree', S, contract='ensures { result = ATree p1 }', filter=N + 'CreateTree', pick=lambda d: not d['name'].endswith('Overlay'))
    u.fn(N + 'CreateTreeOverlay', S, contract='ensures { result = AOverlay p1 }', filter=N + 'CreateTreeOverlay')
    u.fn('DescribeLocalArtifact', S, contract='ensures { result = art_json (ALocal p1 p2) }', filter='DescribeLocalArtifact')
    u.fn('DescribeKnownArtifact', S, contract='requires { obj_type p3 }\n    ensures { result = obj L"KNOWN" (known_data p1 p2 (snoc empty (char_of p3))) }', filter='DescribeKnownArtifact')
    u.fn('DescribeActionArtifact', S, contract='ensures { result = art_json (AAction p1 p2) }', filter='DescribeActionArtifact')
    u.fn('DescribeTreeArtifact', S, contract='ensures { result = art_json (ATree p1) }', filter='DescribeTreeArtifact')
    u.fn('DescribeTreeOverlayArtifact', S, contract='ensures { result = art_json (AOverlay p1) }', filter='DescribeTreeOverlayArtifact')
    u.fn(N + 'ToJson', S, contract='requires { match d with AKnown _ t _ -> obj_type t | _ -> true end }\n    ensures { result = art_json d }', filter=N + 'ToJson', **me)
    u.extern('Create', 'digest_create', ('opt', DG))
    u.fn('CreateLocalArtifactDescription', S, contract='ensures { result = parse_local p1 }', filter='CreateLocalArtifactDescription')
    u.fn('CreateKnownArtifactDescription', S, contract='requires { 0 <= p1 <= 1 }\n    ensures { result = parse_known p1 p2 }', filter='CreateKnownArtifactDescription')
    u.fn('CreateActionArtifactDescription', S, contract='ensures { result = parse_action p1 }', filter='CreateActionArtifactDescription')
    u.fn('CreateTreeArtifactDescription', S, contract='ensures { result = parse_tree p1 }', filter='CreateTreeArtifactDescription')
    u.fn('CreateTreeOverlayArtifactDescription', S, contract='ensures { result = parse_overlay p1 }', filter='CreateTreeOverlayArtifactDescription')
    u.fn(N + 'FromJson', S, contract='requires { 0 <= p1 <= 1 }\n    ensures { result = parse p1 p2 }', filter=N + 'FromJson')
    v = Unit('ArtifactDigest', use='Json')
    common(v)
    v.spec(SPEC)
    v.enums.update(GitSHA1=0, PlainSHA256=1)
    v.extern('HashInfo::Create', 'info_create', ('opt', ('rec', 'hash_info')))
    v.fncalls['Create'] = lambda tr, args, n: tr.app('info_create', [tr.E(a) for a in args], ('opt', ('rec', 'hash_info')), True)
    v.fn('ArtifactDigest::ArtifactDigest', DF, contract='ensures { result = mk_digest p1 p2 }', filter='ArtifactDigest::ArtifactDigest', rtype=DG, why='digest_ctor', pick=lambda d: len([c for c in d['inner'] if c['kind'] == 'ParmVarDecl']) == 2)
    v.fn('ArtifactDigestFactory::Create', DF, contract='requires { 0 <= p1 <= 1 }\n    ensures { created result p1 p2 p3 p4 }', filter='ArtifactDigestFactory::Create', why='factory_create')
    w = Unit('ArtifactJson', use='Json')
    w.spec(SPEC)
    w.spec(ROUND)
    return [u, v, w]
