from cxx2why.unit import Unit
from cxx2why.tr import X
from props.evalcommon import REPO_SRC
S = 'src/buildtool/build_engine/expression/expression.cpp'
N = 'src/buildtool/build_engine/expression/target_node.cpp'
SOURCES = [S, 'src/buildtool/build_engine/expression/expression.hpp', N]
HARNESS = dict(src='h_values.cpp', repo=REPO_SRC, quick_s=10, thorough_s=120, hunt_s=60)
RULE = 'random JSON values (nested, with strings that look like other values) converted to a value and back, and random values with artifacts, names, target results and nodes at any depth, compared with an independent computation'
ASSUMPTIONS = [
    'the memoised Expression::IsCacheable gives what ComputeIsCacheable computes (SetOnceAndGet)',
    'JSON values are finite trees; conversion of a JSON number to a double and back is an uninterpreted function',
    'the JSON of an artifact, a result, a node or a name is uninterpreted']
TRUSTED = []
SPEC = r'''
  type target_result = { tr_stage : expr; tr_prov : expr; tr_run : expr; tr_cach : bool }
  type target_node
  type abstract_node = { an_type : str; an_str : expr; an_tgt : expr }
  type entity_name
  function res_of (e: expr) : target_result
  function node_of (e: expr) : target_node
  val e_result (e: expr) : target_result raises { Cxx -> view e <> VResult } ensures { view e = VResult /\ result = res_of e }
  val e_node (e: expr) : target_node raises { Cxx -> view e <> VNode } ensures { view e = VNode /\ result = node_of e }
  function name_of (e: expr) : entity_name
  val e_name (e: expr) : entity_name raises { Cxx -> view e <> VName } ensures { view e = VName /\ result = name_of e }
  val predicate node_cach (x: target_node)
  (* the value of a JSON value *)
  val function j_num (j: json) : num
  val j_get_num (j: json) : num raises { Cxx -> match jview j with JNum _ -> false | _ -> true end } ensures { jview j = JNum result }
  val function j_elems (j: json) : seq json
  axiom j_elems_def : forall j [j_elems j]. match jview j with JArr l -> j_elems j = l | _ -> true end
  val function j_items (j: json) : seq (str, json)
  axiom j_items_def : forall j [j_items j]. match jview j with JObj l -> j_items j = items l | _ -> true end
  function e_of (j: json) : expr
  function es_of (l: seq json) (n: int) : seq expr
  axiom es_of_0 : forall l. es_of l 0 = empty
  axiom es_of_s : forall l n [es_of l (n+1)]. 0 <= n < len l -> es_of l (n+1) = snoc (es_of l n) (e_of (nth l n))
  predicate e_at (m: fmap str json) (r: fmap str expr) (k: str) = match mget m k with None -> mget r k = None | Some v -> mget r k = Some (e_of v) end
  function em_of (m: fmap str json) : fmap str expr
  axiom em_of_def : forall m k [mget (em_of m) k]. e_at m (em_of m) k
  axiom e_of_def : forall j [e_of j, jview j]. match jview j with JNull -> e_of j = e_none | JBool b -> e_of j = mk_bool b | JNum x -> e_of j = mk_num x | JStr s -> e_of j = mk_str s
    | JArr l -> e_of j = mk_list (es_of l (len l)) | JObj m -> e_of j = mk_map (em_of m) | JOther -> e_of j = e_null end
  predicate ems_to (l: seq (str, json)) (n: int) (m: fmap str expr) =
    (forall i [nth l i]. 0 <= i < n -> mget m (fst_ (nth l i)) = Some (e_of (snd_ (nth l i)))) /\
    (forall k [mget m k]. mget m k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
  (* values are finite *)
  function jdepth (j: json) : int
  axiom jdepth_pos : forall j [jdepth j]. 0 <= jdepth j
  axiom jdepth_arr : forall j l i [jview j, nth l i]. jview j = JArr l -> 0 <= i < len l -> jdepth (nth l i) < jdepth j
  axiom jdepth_obj : forall j m i [jview j, nth (items m) i]. jview j = JObj m -> 0 <= i < len (items m) -> jdepth (snd_ (nth (items m) i)) < jdepth j
  function depth (e: expr) : int
  axiom depth_pos : forall e [depth e]. 0 <= depth e
  axiom depth_list : forall e l i [view e, nth l i]. view e = VList l -> 0 <= i < len l -> depth (nth l i) < depth e
  axiom depth_map : forall e m i [view e, nth (items m) i]. view e = VMap m -> 0 <= i < len (items m) -> depth (snd_ (nth (items m) i)) < depth e
  (* the JSON of a value; mode 0: all, 1: nodes by their identifier only, 2: null for what is not JSON *)
  function art_json (a: artifact) : json
  function node_json (a: target_node) : json
  function name_json (a: entity_name) : json
  val art_to_json (a: artifact) : json ensures { result = art_json a }
  val node_to_json (a: target_node) : json ensures { result = node_json a }
  val name_to_json (a: entity_name) : json ensures { result = name_json a }
  function res_map (x: target_result) : expr = mk_map (map_of_pairs (snoc (snoc (snoc empty (L"artifact_stage", x.tr_stage)) (L"runfiles", x.tr_run)) (L"provides", x.tr_prov)))
  axiom depth_res : forall e [res_of e]. view e = VResult -> depth (res_map (res_of e)) < depth e
  function j_of (mode: int) (e: expr) : json
  function js_of (mode: int) (l: seq expr) (n: int) : seq json
  axiom js_of_0 : forall d l. js_of d l 0 = empty
  axiom js_of_s : forall d l n [js_of d l (n+1)]. 0 <= n < len l -> js_of d l (n+1) = snoc (js_of d l n) (j_of d (nth l n))
  predicate j_at_ (d: int) (m: fmap str expr) (r: fmap str json) (k: str) = match mget m k with None -> mget r k = None | Some v -> mget r k = Some (j_of d v) end
  function jm_of (mode: int) (m: fmap str expr) : fmap str json
  axiom jm_of_def : forall d m k [mget (jm_of d m) k]. j_at_ d m (jm_of d m) k
  axiom j_of_def : forall d e [j_of d e, view e]. match view e with VBool b -> j_of d e = mk_jbool b | VNum x -> j_of d e = mk_jnum x | VStr s -> j_of d e = mk_jstr s
    | VArtifact -> j_of d e = if d = 2 then mk_jnull else art_json (art_of e)
    | VResult -> j_of d e = if d = 2 then mk_jnull else j_of 1 (res_map (res_of e))
    | VNode -> j_of d e = if d = 2 then mk_jnull else if d = 0 then node_json (node_of e) else mk_jobj (mset (mset mempty L"type" (mk_jstr L"NODE")) L"id" (mk_jstr (e_identifier e)))
    | VName -> j_of d e = if d = 2 then mk_jnull else name_json (name_of e)
    | VList l -> j_of d e = mk_jarr (js_of d l (len l)) | VMap m -> j_of d e = mk_jobj (jm_of d m) | _ -> j_of d e = mk_jnull end
  predicate jms_to (d: int) (l: seq (str, expr)) (n: int) (m: fmap str json) =
    (forall i [nth l i]. 0 <= i < n -> mget m (fst_ (nth l i)) = Some (j_of d (snd_ (nth l i)))) /\
    (forall k [mget m k]. mget m k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
  (* cacheable: no name, and no result or node that is not *)
  predicate cach_of (e: expr) = match view e with
    | VName -> false | VResult -> (res_of e).tr_cach | VNode -> node_cach (node_of e)
    | VList l -> forall i [nth l i]. 0 <= i < len l -> is_cacheable (nth l i)
    | VMap m -> forall i [nth (items m) i]. 0 <= i < len (items m) -> is_cacheable (snd_ (nth (items m) i))
    | _ -> true end
'''

RT = r'''
  (* only what JSON has, no entry of another kind, at any depth *)
  predicate plain_json (j: json)
  axiom pure_def : forall j [plain_json j]. plain_json j -> match jview j with JOther -> false | JArr l -> (forall i [nth l i]. 0 <= i < len l -> plain_json (nth l i)) | JObj m -> (forall i [nth (items m) i]. 0 <= i < len (items m) -> plain_json (snd_ (nth (items m) i))) | _ -> true end
  axiom json_ext : forall j [jview j]. match jview j with JNull -> j = mk_jnull | JBool b -> j = mk_jbool b | JNum x -> j = mk_jnum x | JStr s -> j = mk_jstr s | JArr l -> j = mk_jarr l | JObj m -> j = mk_jobj m | JOther -> true end
  let lemma es_step (l: seq json) (m: int) : unit requires { 0 <= m < len l } ensures { es_of l (m+1) = snoc (es_of l m) (e_of (nth l m)) } = ()
  let rec ghost es_nth (l: seq json) (n i: int) : unit
    requires { 0 <= n <= len l } ensures { len (es_of l n) = n } ensures { 0 <= i < n -> nth (es_of l n) i = e_of (nth l i) } variant { n }
  = if n > 0 then begin es_nth l (n-1) i; es_step l (n-1) end
  let lemma js_step (d: int) (l: seq expr) (m: int) : unit requires { 0 <= m < len l } ensures { js_of d l (m+1) = snoc (js_of d l m) (j_of d (nth l m)) } = ()
  let rec ghost js_nth (d: int) (l: seq expr) (n i: int) : unit
    requires { 0 <= n <= len l } ensures { len (js_of d l n) = n } ensures { 0 <= i < n -> nth (js_of d l n) i = j_of d (nth l i) } variant { n }
  = if n > 0 then begin js_nth d l (n-1) i; js_step d l (n-1) end
  (* converting a JSON value and back gives that JSON value *)
  let rec ghost round_trip (d: int) (j: json) : unit
    requires { plain_json j } ensures { j_of d (e_of j) = j } variant { jdepth j, 0 }
  = assert { match jview j with JNull -> view (e_of j) = VNone | JBool b -> view (e_of j) = VBool b | JNum x -> view (e_of j) = VNum x | JStr s -> view (e_of j) = VStr s | JArr l -> view (e_of j) = VList (es_of l (len l)) | JObj m -> view (e_of j) = VMap (em_of m) | _ -> false end };
    if j_is_array j then begin
      let ghost l = jarr j in let ghost k = es_of l (len l) in es_nth l (len l) 0;
      let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> nth (js_of d k (len k)) i = nth l i } variant { jdepth j, n }
      = if n > 0 then begin all (n-1); round_trip d (nth l (n-1)); es_nth l (len l) (n-1); js_nth d k (len k) (n-1) end in
      all (len l); js_nth d k (len k) 0; assert { eqs (js_of d k (len k)) l } end
    else if j_is_object j then begin
      let ghost m = jobj j in let ghost k = em_of m in
      let rec ghost all (n: int) : unit requires { 0 <= n <= len (items m) } ensures { forall i [nth (items m) i]. 0 <= i < n -> j_of d (e_of (snd_ (nth (items m) i))) = snd_ (nth (items m) i) } variant { jdepth j, n }
      = if n > 0 then begin all (n-1); round_trip d (snd_ (nth (items m) (n-1))) end in
      all (len (items m));
      assert { forall x [mget m x]. mget m x <> None -> 0 <= item_idx m x < len (items m) /\ nth (items m) (item_idx m x) = (x, the (mget m x)) };
      assert { forall x [mget m x]. mget m x <> None -> snd_ (nth (items m) (item_idx m x)) = the (mget m x) };
      assert { forall x [item_idx m x]. 0 <= item_idx m x < len (items m) -> j_of d (e_of (snd_ (nth (items m) (item_idx m x)))) = snd_ (nth (items m) (item_idx m x)) };
      assert { forall x [mget m x]. mget m x <> None -> j_of d (e_of (the (mget m x))) = the (mget m x) };
      assert { forall x [mget m x]. (mget (jm_of d k) x = mget m x by e_at m k x && j_at_ d k (jm_of d k) x) };
      assert { meqs m (jm_of d k) } end
  (* a name inside, at any depth, makes a value non-cacheable *)
  axiom memo : forall e [is_cacheable e]. view e <> VNull -> (is_cacheable e <-> cach_of e)
  predicate child (e x: expr) = match view e with VList l -> exists i. 0 <= i < len l /\ x = nth l i | VMap m -> exists i. 0 <= i < len (items m) /\ x = snd_ (nth (items m) i) | _ -> false end
  predicate chain (s: seq expr) = 0 < len s /\ (forall i [nth s i]. 0 <= i < len s -> view (nth s i) <> VNull) /\ (forall i [nth s i]. 0 <= i < len s - 1 -> child (nth s i) (nth s (i+1)))
  let rec ghost name_inside (s: seq expr) (n: int) : unit
    requires { chain s /\ 0 <= n < len s /\ view (nth s (len s - 1)) = VName } ensures { not (is_cacheable (nth s n)) } variant { len s - n }
  = if n = len s - 1 then assert { not (cach_of (nth s n)) } else begin
      name_inside s (n+1);
      assert { child (nth s n) (nth s (n+1)) };
      assert { not (cach_of (nth s n)) } end
'''


def units():
    u = Unit('Values', use='Json')
    u.spec(SPEC)
    ST, B = ('str',), ('bool',)
    u.rec(['TargetResult', 'result_t', 'Expression::result_t'], 'target_result', [('artifact_stage', 'tr_stage', ('expr',)), ('provides', 'tr_prov', ('expr',)), ('runfiles', 'tr_run', ('expr',)), ('is_cacheable', 'tr_cach', B)])
    u.abst(['TargetNode'], 'target_node')
    u.methods[('target_node', 'IsCacheable')] = lambda tr, x, args, n: X('(node_cach %s)' % x.code, B, x.eff)
    u.rec(['TargetNode::Abstract', 'Abstract'], 'abstract_node', [('node_type', 'an_type', ST), ('string_fields', 'an_str', ('expr',)), ('target_fields', 'an_tgt', ('expr',))])
    u.fn('TargetNode::Abstract::IsCacheable', N, contract='ensures { result <-> is_cacheable tgt }', filter='TargetNode::Abstract::IsCacheable', this=[('target_fields', 'tgt', ('expr',), False)], why='abstract_cacheable')
    u.fn('Expression::ComputeIsCacheable', S, contract='requires { view e <> VNull }\n    ensures { result <-> cach_of e }', filter='Expression::ComputeIsCacheable', this=[('e', 'e', ('expr',), False)], thisval=('e', ('expr',)), why='computeIsCacheable',
         loops={1: dict(inv=['forall i [nth sq1 i]. 0 <= i < it1 -> is_cacheable (nth sq1 i)']), 2: dict(inv=['forall i [nth sq2 i]. 0 <= i < it2 -> is_cacheable (snd_ (nth sq2 i))'])})
    u.methods[('pair', 'key')] = lambda tr, x, args, n: X('(fst_ %s)' % x.code, ST, x.eff)
    u.methods[('pair', 'value')] = lambda tr, x, args, n: X('(snd_ %s)' % x.code, ('json',), x.eff)
    u.fn('Expression::FromJson', S, contract='ensures { result = e_of p1 }', filter='Expression::FromJson', why='fromJson', decreases='jdepth p1',
         loops={1: dict(inv=['$l<seq expr> = es_of sq1 it1']), 2: dict(inv=['ems_to sq2 it2 $m<fmap str expr>'])})
    # access; the rvalue overloads only by the bounded harness
    me = dict(this=[('e', 'e', ('expr',), False)], thisval=('e', ('expr',)))
    par0 = lambda d: [c for c in d['inner'] if c['kind'] == 'ParmVarDecl'][0]['type']['qualType']
    lv = lambda d: 'const &' in d['type']['qualType'].split(')')[-1] or 'const &' in d['type']['qualType'].split('->')[0].split(')')[-1]
    u.fn('Expression::operator[]', S, contract='raises { Cxx -> match view e with VMap m -> mget m p1 = None | _ -> true end }\n    ensures { match view e with VMap m -> mget m p1 = Some result | _ -> false end }',
         filter='Expression::operator[]', why='e_sub_key', pick=lambda d: 'string' in par0(d) and lv(d), **me)
    u.fn('Expression::operator[]', S, contract='requires { 0 <= p1 }\n    raises { Cxx -> match view e with VList l -> not (p1 < len l) | _ -> true end }\n    ensures { match view e with VList l -> p1 < len l /\\ result = nth l p1 | _ -> false end }',
         filter='Expression::operator[]', why='e_sub_pos', pick=lambda d: 'size_t' in par0(d) and lv(d), **me)
    u.fn('Expression::At', S, contract='raises { Cxx -> match view e with VMap _ -> false | _ -> true end }\n    ensures { match view e with VMap m -> result = mget m p1 | _ -> false end }',
         filter='Expression::At', why='e_at_fn', pick=lambda d: 'reference_wrapper' in d['type']['qualType'], **me)
    # both directions
    for P, M, R, AT, V, T, S1, d0, d1 in (('ems_to', 'json', 'expr', 'e_at', 'e_of v', 'em_of', '', '', ''), ('jms_to', 'expr', 'json', 'j_at_ d', 'j_of d v', 'jm_of d', '', 'd ', 'd ')):
        u.lemma(P + '_0', 'forall %sl [%s %s(items l) 0 mempty]. %s %s(items l) 0 mempty' % (d0, P, d1, P, d1))
        u.lemma(P + '_s', 'forall %sl n m k s [%s %s(items l) n m, mins m k s]. 0 <= n < len (items l) -> %s %s(items l) n m -> k = fst_ (nth (items l) n) -> s = %s (snd_ (nth (items l) n)) -> (%s %s(items l) (n+1) (mins m k s) by mget m k = None && mget (mins m k s) k = Some s && (forall j [nth (items l) j]. 0 <= j < n -> fst_ (nth (items l) j) <> k) && (forall x [mget (mins m k s) x]. x <> k -> mget (mins m k s) x = mget m x))' % (d0, P, d1, P, d1, V[:-2], P, d1))
        u.lemma(P + '_k', 'forall %sl m k [%s %s(items l) (len (items l)) m, %s l m k]. %s %s(items l) (len (items l)) m -> (%s l m k by mget l k = None \\/ (0 <= item_idx l k < len (items l) /\\ nth (items l) (item_idx l k) = (k, the (mget l k))))' % (d0, P, d1, AT, P, d1, AT))
        u.lemma(P + '_m', 'forall %sl m [%s %s(items l) (len (items l)) m]. %s %s(items l) (len (items l)) m -> (m = %s l by meqs m (%s l) by forall k [mget m k]. (mget m k = mget (%s l) k by %s l m k))' % (d0, P, d1, P, d1, T, T, T, AT))
    u.abst(['EntityName', 'BuildMaps::Base::EntityName', 'name_t'], 'entity_name')
    u.abst(['ArtifactDescription', 'artifact_t'], 'artifact')
    u.enums.update(SerializeAll=0, SerializeAllButNodes=1, NullForNonJson=2)
    for q in ('JsonMode', 'Expression::JsonMode'):
        u.extra_types[q] = ('int', 64, True)
    for k in ('art', 'node', 'name'):
        u.methods[(dict(art='artifact', node='target_node', name='entity_name')[k], 'ToJson')] = lambda tr, x, args, n, k=k: X('(%s_to_json %s)' % (k, x.code), ('json',), True)
    u.methods[('expr', 'ToJson')] = lambda tr, x, args, n: tr.app('toJson', [x, tr.E(args[0])], ('json',), True)
    u.thiscalls['ToIdentifier'] = lambda tr, args, n: X('(e_identifier e)', ST)
    u.fn('Expression::ToJson', S, contract='requires { 0 <= p1 <= 2 }\n    ensures { result = j_of p1 e }', filter='Expression::ToJson', this=[('e', 'e', ('expr',), False)], thisval=('e', ('expr',)), why='toJson', decreases='depth e',
         loops={1: dict(inv=['$json<json> = mk_jarr (js_of p1 sq1 it1)']), 2: dict(inv=['jms_to p1 sq2 it2 (jobj $json<json>)', 'j_obj_v $json<json>'])})
    w = Unit('ValuesRT', use='Json')
    w.spec(SPEC)
    w.spec(RT)
    return [u, w]
