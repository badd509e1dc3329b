from cxx2why.unit import Unit
from cxx2why.tr import X
from props.evalcommon import REPO_SRC
R = 'src/buildtool/build_engine/expression/target_result.cpp'
SOURCES = [R, 'src/buildtool/build_engine/expression/target_result.hpp', 'src/buildtool/common/artifact_description.cpp', 'src/buildtool/build_engine/expression/expression.cpp', 'src/buildtool/build_engine/expression/target_node.cpp']
HARNESS = dict(src='h_cache.cpp', repo=REPO_SRC, quick_s=12, thorough_s=120, hunt_s=60)
RULE = 'random target results (nested results and nodes, shared values, maps that look like artifacts or like stored entries), with and without replacements, some missing, stored, printed, parsed and read back, compared with an independent description of the values'
ASSUMPTIONS = [
    'different values have different hashes (for hashes: C14; up to SHA256 collisions); a value is finite, its parts are smaller',
    'a known artifact is read back from its JSON as it was (ArtifactDescription::ToJson and FromJson, proved for the real code under C18); names and null pointers are not stored (only cacheable results are)',
    'Expression::ToJson and FromJson on scalars, artifacts and maps of artifacts (proved for the real code under C16)',
    'nlohmann::json objects, arrays and printing and parsing of JSON text (the latter in the bounded harness only)']
TRUSTED = []
SPEC = r'''
  type info = { oi_digest : int; oi_type : int; oi_failed : bool }
  type target_result = { tr_stage : expr; tr_prov : expr; tr_run : expr; tr_cach : bool }
  type target_node
  type abstract_node = { an_type : str; an_str : expr; an_tgt : expr }
  type nview = NVal expr | NAbs abstract_node
  function nview (x: target_node) : nview
  val function n_val (e: expr) : target_node
  val function n_abs (a: abstract_node) : target_node
  axiom nview_val : forall e [n_val e]. nview (n_val e) = NVal e
  axiom nview_abs : forall e [n_abs e]. nview (n_abs e) = NAbs e
  val n_is_value (x: target_node) : bool ensures { result <-> match nview x with NVal _ -> true | _ -> false end }
  val n_value (x: target_node) : expr requires { match nview x with NVal _ -> true | _ -> false end } ensures { nview x = NVal result }
  val n_abstract (x: target_node) : abstract_node requires { match nview x with NAbs _ -> true | _ -> false end } ensures { nview x = NAbs result }
  function res_of (e: expr) : target_result
  function node_of (e: expr) : target_node
  val e_result (e: expr) : target_result raises { Cxx -> view e <> VResult } ensures { view e = VResult /\ result = res_of e }
  val e_node (e: expr) : target_node raises { Cxx -> view e <> VNode } ensures { view e = VNode /\ result = node_of e }
  val function mk_result (x: target_result) : expr
  val function mk_node (x: target_node) : expr
  axiom view_result : forall x [mk_result x]. view (mk_result x) = VResult /\ res_of (mk_result x) = x
  axiom view_node : forall x [mk_node x]. view (mk_node x) = VNode /\ node_of (mk_node x) = x
  (* artifacts *)
  constant ht : int
  val predicate known (a: artifact)
  val function known_artifact (d: int) (t: int) : artifact
  val function art_json (a: artifact) : json
  function parse_art (ht: int) (j: json) : option artifact
  val art_from_json (ht: int) (j: json) : option artifact ensures { result = parse_art ht j }
  predicate am_at (m: fmap str expr) (r: fmap str json) (k: str) = match mget m k with None -> mget r k = None | Some v -> view v = VArtifact -> mget r k = Some (art_json (art_of v)) end
  function art_map (m: fmap str expr) : fmap str json
  axiom art_map_def : forall m k [mget (art_map m) k]. am_at m (art_map m) k
  val e_to_json (e: expr) : json ensures { match view e with
    | VNone -> result = mk_jnull | VBool b -> result = mk_jbool b | VNum x -> result = mk_jnum x | VStr s -> result = mk_jstr s
    | VArtifact -> result = art_json (art_of e) | VMap m -> result = mk_jobj (art_map m) | _ -> true end }
  axiom art_json_obj : forall a [art_json a]. j_obj_v (art_json a)
  predicate has_rep (m: fmap artifact info) (a: artifact) = m = mempty \/ known a \/ mget m a <> None
  function rep (m: fmap artifact info) (a: artifact) : artifact = if m = mempty \/ known a then a else known_artifact (the (mget m a)).oi_digest (the (mget m a)).oi_type
  (* the hash of a value stands for the value *)
  val function to_hex (s: str) : str
  function hid (e: expr) : str = to_hex (e_hash e)
  function of_hid (s: str) : expr
  axiom hid_inj : forall e [e_hash e]. of_hid (hid e) = e
  (* the values inside a value, and its size *)
  function depth (e: expr) : int
  axiom depth_pos : forall e [depth e]. 0 <= depth e
  axiom depth_list : forall e l i [view e, nth l i]. view e = VList l -> 0 <= i < len l -> depth (nth l i) < depth e
  axiom depth_map : forall e m i [view e, nth (items m) i]. view e = VMap m -> 0 <= i < len (items m) -> depth (snd_ (nth (items m) i)) < depth e
  axiom depth_res : forall e [res_of e]. view e = VResult -> depth (res_of e).tr_stage < depth e /\ depth (res_of e).tr_prov < depth e /\ depth (res_of e).tr_run < depth e
  axiom depth_node : forall e [node_of e]. view e = VNode -> match nview (node_of e) with NVal x -> depth x < depth e | NAbs a -> depth a.an_str < depth e /\ depth a.an_tgt < depth e end
  (* what is stored for one value *)
  predicate hm_at (m: fmap str expr) (r: fmap str str) (k: str) = match mget m k with None -> mget r k = None | Some v -> mget r k = Some (hid v) end
  function hid_map (m: fmap str expr) : fmap str str
  axiom hid_map_def : forall m k [mget (hid_map m) k]. hm_at m (hid_map m) k
  predicate hms_to (l: seq (str, expr)) (n: int) (m: fmap str str) =
    (forall i [nth l i]. 0 <= i < n -> mget m (fst_ (nth l i)) = Some (hid (snd_ (nth l i)))) /\
    (forall k [mget m k]. mget m k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
  function hid_list (l: seq expr) (n: int) : seq str
  axiom hid_list_0 : forall l. hid_list l 0 = empty
  axiom hid_list_s : forall l n [hid_list l (n+1)]. 0 <= n < len l -> hid_list l (n+1) = snoc (hid_list l n) (hid (nth l n))
  function ent_node (x: nview) : json = match x with
    | NVal v -> mk_jobj (mset (mset mempty L"type" (mk_jstr L"VALUE_NODE")) L"result" (mk_jstr (hid v)))
    | NAbs a -> mk_jobj (mset (mset (mset (mset mempty L"type" (mk_jstr L"ABSTRACT_NODE")) L"node_type" (mk_jstr a.an_type)) L"string_fields" (mk_jstr (hid a.an_str))) L"target_fields" (mk_jstr (hid a.an_tgt))) end
  function ent_res (r: target_result) : json = mk_jobj (mset (mset (mset mempty L"artifact_stage" (mk_jstr (hid r.tr_stage))) L"runfiles" (mk_jstr (hid r.tr_run))) L"provides" (mk_jstr (hid r.tr_prov)))
  function ent (m: fmap artifact info) (e: expr) : json
  axiom ent_def : forall m e [ent m e]. match view e with
    | VNone -> ent m e = mk_jnull | VBool b -> ent m e = mk_jbool b | VNum x -> ent m e = mk_jnum x | VStr s -> ent m e = mk_jstr s
    | VArtifact -> ent m e = art_json (rep m (art_of e)) | VResult -> ent m e = ent_res (res_of e) | VNode -> ent m e = ent_node (nview (node_of e))
    | VList l -> ent m e = mk_jstrs (hid_list l (len l)) | VMap x -> ent m e = mk_jstrmap (hid_map x) | _ -> true end
  (* what can be stored: no names, and known artifacts after replacement *)
  predicate nice (m: fmap artifact info) (e: expr)
  axiom nice_def : forall m e [nice m e]. nice m e -> match view e with
    | VName -> false | VNull -> false | VArtifact -> has_rep m (art_of e) -> parse_art ht (art_json (rep m (art_of e))) = Some (rep m (art_of e))
    | VResult -> nice m (res_of e).tr_stage /\ nice m (res_of e).tr_prov /\ nice m (res_of e).tr_run
    | VNode -> match nview (node_of e) with NVal v -> nice m v | NAbs a -> nice m a.an_str /\ nice m a.an_tgt end
    | VList l -> forall i [nth l i]. 0 <= i < len l -> nice m (nth l i) | VMap x -> forall i [nth (items x) i]. 0 <= i < len (items x) -> nice m (snd_ (nth (items x) i)) | _ -> true end
  predicate replaced (m: fmap artifact info) (e: expr)
  axiom replaced_def : forall m e [replaced m e]. replaced m e <-> match view e with
    | VArtifact -> has_rep m (art_of e)
    | VResult -> replaced m (res_of e).tr_stage /\ replaced m (res_of e).tr_prov /\ replaced m (res_of e).tr_run
    | VNode -> match nview (node_of e) with NVal v -> replaced m v | NAbs a -> replaced m a.an_str /\ replaced m a.an_tgt end
    | VList l -> forall i [nth l i]. 0 <= i < len l -> replaced m (nth l i) | VMap x -> forall i [nth (items x) i]. 0 <= i < len (items x) -> replaced m (snd_ (nth (items x) i)) | _ -> true end
  (* the store: every entry is that of the value its key is the hash of, with the entries of the values inside *)
  predicate has (n: fmap str json) (e: expr) = mget n (hid e) <> None
  predicate kids_in (n: fmap str json) (e: expr) = match view e with
    | VResult -> has n (res_of e).tr_stage /\ has n (res_of e).tr_prov /\ has n (res_of e).tr_run
    | VNode -> match nview (node_of e) with NVal v -> has n v | NAbs a -> has n a.an_str /\ has n a.an_tgt end
    | VList l -> forall i [nth l i]. 0 <= i < len l -> has n (nth l i) | VMap x -> forall i [nth (items x) i]. 0 <= i < len (items x) -> has n (snd_ (nth (items x) i)) | _ -> true end
  predicate mem (s: seq str) (k: str) = exists i. 0 <= i < len s /\ nth s i = k
  predicate marked (a d r: seq str) (e: expr) = match view e with VArtifact -> mem a (hid e) | VNode -> mem d (hid e) | VResult -> mem r (hid e) | _ -> true end
  predicate ok_at (m: fmap artifact info) (n: fmap str json) (a d r: seq str) (k: str) =
    mget n k <> None -> k = hid (of_hid k) /\ mget n k = Some (ent m (of_hid k)) /\ kids_in n (of_hid k) /\ marked a d r (of_hid k) /\ nice m (of_hid k) /\ replaced m (of_hid k)
  predicate store (m: fmap artifact info) (n: fmap str json) (a d r: seq str) = forall k [mget n k]. ok_at m n a d r k
  predicate tags_a (a: seq str) = forall i [nth a i]. 0 <= i < len a -> view (of_hid (nth a i)) = VArtifact
  predicate tags_d (a: seq str) = forall i [nth a i]. 0 <= i < len a -> view (of_hid (nth a i)) = VNode
  predicate tags_r (a: seq str) = forall i [nth a i]. 0 <= i < len a -> view (of_hid (nth a i)) = VResult
  predicate arts (m: fmap str expr) = forall i [nth (items m) i]. 0 <= i < len (items m) -> view (snd_ (nth (items m) i)) = VArtifact
  predicate allrep (m: fmap artifact info) (x: fmap str expr) = forall i [nth (items x) i]. 0 <= i < len (items x) -> has_rep m (art_of (snd_ (nth (items x) i)))
  predicate rm_at (m: fmap artifact info) (x: fmap str expr) (r: fmap str json) (k: str) = match mget x k with None -> mget r k = None | Some v -> mget r k = Some (art_json (rep m (art_of v))) end
  function rep_map (m: fmap artifact info) (x: fmap str expr) : fmap str json
  axiom rep_map_def : forall m x k [mget (rep_map m x) k]. rm_at m x (rep_map m x) k
  predicate rms_to (m: fmap artifact info) (l: seq (str, expr)) (n: int) (r: fmap str json) =
    (forall i [nth l i]. 0 <= i < n -> mget r (fst_ (nth l i)) = Some (art_json (rep m (art_of (snd_ (nth l i)))))) /\
    (forall k [mget r k]. mget r k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
  (* the whole of what is stored *)
  function jstrs_of (j: json) : seq str
  axiom jstrs_of_def : forall l [mk_jstrs l]. jstrs_of (mk_jstrs l) = l
  predicate jstrs_v (j: json) = j = mk_jstrs (jstrs_of j)
  function fld (j: json) (k: str) : json = the (mget (jobj j) k)
  predicate saved (m: fmap artifact info) (e: expr) (j: json) =
    j_obj_v j /\ mget (jobj j) L"entry" = Some (mk_jstr (hid e)) /\ mget (jobj j) L"nodes" <> None /\ mget (jobj j) L"provided_artifacts" <> None /\ mget (jobj j) L"provided_nodes" <> None /\ mget (jobj j) L"provided_results" <> None /\
    j_obj_v (fld j L"nodes") /\ jstrs_v (fld j L"provided_artifacts") /\ jstrs_v (fld j L"provided_nodes") /\ jstrs_v (fld j L"provided_results") /\
    (let n = jobj (fld j L"nodes") in let a = jstrs_of (fld j L"provided_artifacts") in let d = jstrs_of (fld j L"provided_nodes") in let r = jstrs_of (fld j L"provided_results") in
     store m n a d r /\ tags_a a /\ tags_d d /\ tags_r r /\ has n e)
  predicate saved_map (m: fmap artifact info) (e: expr) (j: json) = j = mk_jobj (rep_map m (map_v e)) /\ allrep m (map_v e)
  predicate saved_result (m: fmap artifact info) (t: target_result) (j: json) =
    j_obj_v j /\ mget (jobj j) L"artifacts" <> None /\ mget (jobj j) L"runfiles" <> None /\ mget (jobj j) L"provides" <> None /\
    saved_map m t.tr_stage (fld j L"artifacts") /\ saved_map m t.tr_run (fld j L"runfiles") /\ saved m t.tr_prov (fld j L"provides")
  predicate nice_map (m: fmap artifact info) (e: expr) = is_map_v e /\ arts (map_v e) /\ nice m e
  predicate nice_res (m: fmap artifact info) (t: target_result) = nice_map m t.tr_stage /\ nice_map m t.tr_run /\ nice m t.tr_prov
  predicate grows (n n1: fmap str json) = forall k [mget n1 k]. mget n k <> None -> mget n1 k <> None
  predicate longer (a b: seq str) = len a <= len b /\ forall i [nth b i | nth a i]. 0 <= i < len a -> nth b i = nth a i
'''

READ = r"""
  constant rm : fmap artifact info
  val j_eq_str (j: json) (s: str) : bool ensures { result <-> jview j = JStr s }
  val function j_elems (j: json) : seq json
  axiom j_elems_def : forall j [j_elems j]. match jview j with JArr l -> j_elems j = l | _ -> true end
  val function j_items (j: json) : seq (str, json)
  axiom j_items_def : forall j [j_items j]. match jview j with JObj l -> j_items j = items l | _ -> true end
  val e_from_json (j: json) : expr ensures { match jview j with JNull -> result = e_none | JBool b -> result = mk_bool b | JNum x -> result = mk_num x | JStr s -> result = mk_str s | _ -> true end }
  (* a value with its artifacts replaced *)
  function drep (e: expr) : expr
  predicate dm_at (m: fmap str expr) (r: fmap str expr) (k: str) = match mget m k with None -> mget r k = None | Some v -> mget r k = Some (drep v) end
  function drep_map (m: fmap str expr) : fmap str expr
  axiom drep_map_def : forall m k [mget (drep_map m) k]. dm_at m (drep_map m) k
  function drep_list (l: seq expr) (n: int) : seq expr
  axiom drep_list_0 : forall l. drep_list l 0 = empty
  axiom drep_list_s : forall l n [drep_list l (n+1)]. 0 <= n < len l -> drep_list l (n+1) = snoc (drep_list l n) (drep (nth l n))
  axiom drep_def : forall e [drep e]. match view e with
    | VNone -> drep e = e_none | VBool b -> drep e = mk_bool b | VNum x -> drep e = mk_num x | VStr s -> drep e = mk_str s
    | VArtifact -> drep e = mk_art (rep rm (art_of e))
    | VResult -> drep e = mk_result { tr_stage = drep (res_of e).tr_stage; tr_prov = drep (res_of e).tr_prov; tr_run = drep (res_of e).tr_run; tr_cach = true }
    | VNode -> match nview (node_of e) with NVal v -> drep e = mk_node (n_val (drep v)) | NAbs a -> drep e = mk_node (n_abs { an_type = a.an_type; an_str = drep a.an_str; an_tgt = drep a.an_tgt }) end
    | VList l -> drep e = mk_list (drep_list l (len l)) | VMap x -> drep e = mk_map (drep_map x) | _ -> true end
  (* the store read back *)
  predicate marked_s (a d r: fset str) (k: str) = match view (of_hid k) with VArtifact -> smem k a | VNode -> smem k d | VResult -> smem k r | _ -> true end
  predicate ok_s (n: fmap str json) (a d r: fset str) (k: str) =
    mget n k <> None -> k = hid (of_hid k) /\ mget n k = Some (ent rm (of_hid k)) /\ kids_in n (of_hid k) /\ marked_s a d r k /\ nice rm (of_hid k) /\ replaced rm (of_hid k)
  predicate store_s (n: fmap str json) (a d r: fset str) = forall k [mget n k]. ok_s n a d r k
  predicate only_a (a: fset str) = forall k [smem k a]. smem k a -> view (of_hid k) = VArtifact
  predicate only_d (a: fset str) = forall k [smem k a]. smem k a -> view (of_hid k) = VNode
  predicate only_r (a: fset str) = forall k [smem k a]. smem k a -> view (of_hid k) = VResult
  predicate sofar (n: fmap str json) (f: fmap str expr) = forall k [mget f k]. match mget f k with None -> true | Some v -> mget n k <> None /\ v = drep (of_hid k) end
  predicate set_of_a (s: fset str) (l: seq str) (n: int) = forall i [nth l i]. 0 <= i < n -> smem (nth l i) s
  predicate set_of_b (s: fset str) (l: seq str) (n: int) = forall k [smem k s]. smem k s -> exists i. 0 <= i < n /\ nth l i = k
  predicate set_of (s: fset str) (l: seq str) (n: int) = set_of_a s l n /\ set_of_b s l n
  (* reading a map of hashes, of artifacts *)
  function hj (x: fmap str expr) : fmap str json = jobj (mk_jstrmap (hid_map x))
  predicate dms_to_a (x: fmap str expr) (l: seq (str, json)) (n: int) (r: fmap str expr) = forall i [nth l i]. 0 <= i < n -> mget r (fst_ (nth l i)) = Some (drep (the (mget x (fst_ (nth l i)))))
  predicate dms_to_b (l: seq (str, json)) (n: int) (r: fmap str expr) = forall k [mget r k]. mget r k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i)
  predicate dms_to (x: fmap str expr) (l: seq (str, json)) (n: int) (r: fmap str expr) = dms_to_a x l n r /\ dms_to_b l n r
  predicate parsable (m: fmap str json) = forall i [nth (items m) i]. 0 <= i < len (items m) -> parse_art ht (snd_ (nth (items m) i)) <> None
  function parsed (j: json) : expr = mk_art (the (parse_art ht j))
  predicate pm_at (m: fmap str json) (r: fmap str expr) (k: str) = match mget m k with None -> mget r k = None | Some j -> mget r k = Some (mk_art (the (parse_art ht j))) end
  function parse_map (m: fmap str json) : fmap str expr
  axiom parse_map_def : forall m k [mget (parse_map m) k]. pm_at m (parse_map m) k
  predicate pms_to_a (l: seq (str, json)) (n: int) (r: fmap str expr) = forall i [nth l i]. 0 <= i < n -> mget r (fst_ (nth l i)) = Some (mk_art (the (parse_art ht (snd_ (nth l i)))))
  predicate pms_to_b (l: seq (str, json)) (n: int) (r: fmap str expr) = forall k [mget r k]. mget r k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i)
  predicate pms_to (l: seq (str, json)) (n: int) (r: fmap str expr) = pms_to_a l n r /\ pms_to_b l n r
  (* an arbitrary target result and value that was stored *)
  constant stored : target_result
"""

KEEP = 'grows (old p1) p1 /\\ longer (old p2) p2 /\\ longer (old p3) p3 /\\ longer (old p4) p4'
INV = 'store p6 p1 p2 p3 p4 /\\ tags_a p2 /\\ tags_d p3 /\\ tags_r p4'


ST, B, E = ('str',), ('bool',), ('expr',)


def chain(u, nm, q, fs):
    u.lemma(nm + '_names', ' /\\ '.join(f'L"{k}" <> L"{l}"' for i, (k, _) in enumerate(fs) for l, _ in fs[i + 1:]))
    m = 'mempty'
    for k, v in fs:
        m = f'(mset {m} L"{k}" {v})'
    u.lemma(nm, f'forall {q} [{m}]. ' + ' /\\ '.join(f'mget {m} L"{k}" = Some {v}' for k, v in fs))
    u.lemma(nm + '_f', f'forall {q} [mk_jobj {m}]. ' + ' /\\ '.join(f'mget (jobj (mk_jobj {m})) L"{k}" = Some {v} /\\ fld (mk_jobj {m}) L"{k}" = {v}' for k, v in fs))


def common(u):
    u.extra_types['HashFunction::Type'] = ('int', 8, False)
    u.spec(SPEC)
    u.rec(['TargetResult', 'result_t', 'Expression::result_t'], 'target_result', [('artifact_stage', 'tr_stage', E), ('provides', 'tr_prov', E), ('runfiles', 'tr_run', E), ('is_cacheable', 'tr_cach', B)])
    u.rec(['Artifact::ObjectInfo', 'ObjectInfo'], 'info', [('digest', 'oi_digest', ('int', 64, False)), ('type', 'oi_type', ('int', 8, True)), ('failed', 'oi_failed', B)])
    u.rec(['TargetNode::Abstract', 'Abstract'], 'abstract_node', [('node_type', 'an_type', ST), ('string_fields', 'an_str', E), ('target_fields', 'an_tgt', E)])
    u.abst(['TargetNode'], 'target_node')
    u.abst(['ArtifactDescription', 'artifact_t'], 'artifact')
    u.extra_types['ArtifactDigest'] = ('int', 64, False)
    u.extra_types['ObjectType'] = ('int', 8, True)

def units():
    u = Unit('CacheWrite', use='Json')
    common(u)
    u.extern('IsValue', 'n_is_value', B, of='target_node')
    u.extern('GetValue', 'n_value', E, of='target_node')
    u.extern('GetAbstract', 'n_abstract', ('rec', 'abstract_node'), of='target_node')
    u.extern('IsKnown', 'known', B, of='artifact', eff=False)
    u.extern('ToJson', 'art_json', ('json',), of='artifact', eff=False)
    u.extern('CreateKnown', 'known_artifact', ('abs', 'artifact'), [0, 1], eff=False)
    u.extern('ToHexString', 'to_hex', ST, eff=False)
    u.methods[('expr', 'ToJson')] = lambda tr, x, args, n: tr.app('e_to_json', [x], ('json',), True)
    u.fn('SerializeArtifactDescription', R, contract="""raises { Cxx -> view p1 <> VArtifact \\/ not (has_rep p2 (art_of p1)) }
    ensures { view p1 = VArtifact -> has_rep p2 (art_of p1) /\\ result = art_json (rep p2 (art_of p1)) }""", filter='SerializeArtifactDescription', why='ser_artifact')
    u.fn('SerializeExpression', R, filter='SerializeExpression', why='ser', decreases='depth p5', contract=f"""requires {{ nice p6 p5 }}
    requires {{ {INV} }}
    raises {{ Cxx -> not (replaced p6 p5) }}
    ensures {{ {INV} }}
    ensures {{ {KEEP} }}
    ensures {{ result = hid p5 /\\ has p1 p5 }}""",
         loops={1: dict(inv=[INV, KEEP, 'hms_to sq1 it1 $hashes<fmap str str>', 'forall i [nth sq1 i]. 0 <= i < it1 -> has p1 (snd_ (nth sq1 i)) /\\ replaced p6 (snd_ (nth sq1 i))'], after='assert { $hashes<fmap str str> = hid_map $map<fmap str expr> /\\ kids_in p1 p5 /\\ replaced p6 p5 };'),
                2: dict(inv=[INV, KEEP, '$hashes<seq str> = hid_list sq2 it2', 'forall i [nth sq2 i]. 0 <= i < it2 -> has p1 (nth sq2 i) /\\ replaced p6 (nth sq2 i)'], after='assert { $hashes<seq str> = hid_list sq2 (len sq2) /\\ kids_in p1 p5 /\\ replaced p6 p5 };')})
    u.fn('SerializeArtifactMap', R, filter='SerializeArtifactMap', why='ser_map', contract="""requires { is_map_v p1 /\\ arts (map_v p1) }
    raises { Cxx -> not (allrep p2 (map_v p1)) }
    ensures { saved_map p2 p1 result /\\ allrep p2 (map_v p1) }""", loops={1: dict(inv=['rms_to p2 sq1 it1 $artifacts<fmap str json>', 'forall i [nth sq1 i]. 0 <= i < it1 -> has_rep p2 (art_of (snd_ (nth sq1 i)))'])})
    u.fn('SerializeProvidesMap', R, filter='SerializeProvidesMap', why='ser_provides', contract="""requires { nice p2 p1 }
    raises { Cxx -> not (replaced p2 p1) }
    ensures { saved p2 p1 result }""")
    MISS = 'not (allrep p2 (map_v p1.tr_stage)) \\/ not (allrep p2 (map_v p1.tr_run)) \\/ not (replaced p2 p1.tr_prov)'
    u.fn('SerializeTargetResultWithReplacement', R, filter='SerializeTargetResultWithReplacement', why='ser_result', contract="""requires { nice_res p2 p1 }
    raises { Cxx -> %s }
    ensures { saved_result p2 p1 result }""" % MISS, pick=lambda d: any(c['kind'] == 'CompoundStmt' for c in d['inner']))
    TH = [('artifact_stage', 'th.tr_stage', E, False), ('provides', 'th.tr_prov', E, False), ('runfiles', 'th.tr_run', E, False), ('is_cacheable', 'th.tr_cach', B, False)]
    me = dict(this=[('th', 'th', ('rec', 'target_result'), False)], thisval=('th', ('rec', 'target_result')))
    u.fn('TargetResult::ToJson', R, filter='TargetResult::ToJson', why='result_to_json', contract="""requires { nice_res mempty th }
    ensures { saved_result mempty th result }""", **me)
    u.fn('TargetResult::ReplaceNonKnownAndToJson', R, filter='TargetResult::ReplaceNonKnownAndToJson', why='result_replaced', contract="""requires { nice_res p1 th }
    ensures { match result with Some j -> saved_result p1 th j | None -> %s end }""" % MISS.replace('p1', 'th').replace('p2', 'p1'), **me)
    u.lemma('replaced_none', 'forall e [replaced mempty e]. replaced mempty e', r"""
  let rec lemma rep_none (e: expr) : unit ensures { replaced mempty e } variant { depth e, 0 }
  = if is_list e then begin
      let ghost l = list_v e in
      let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> replaced mempty (nth l i) } variant { depth e, n + 1 }
      = if n > 0 then begin all (n-1); rep_none (nth l (n-1)) end in
      all (len l) end
    else if is_map e then begin
      let ghost l = items (map_v e) in
      let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> replaced mempty (snd_ (nth l i)) } variant { depth e, n + 1 }
      = if n > 0 then begin all (n-1); rep_none (snd_ (nth l (n-1))) end in
      all (len l) end
    else if is_node e then begin
      match nview (node_of e) with NVal v -> rep_none v | NAbs a -> rep_none a.an_str; rep_none a.an_tgt end end
    else if is_result e then begin let ghost x = res_of e in rep_none x.tr_stage; rep_none x.tr_prov; rep_none x.tr_run end
""")
    u.lemma('allrep_none', 'forall x [allrep mempty x]. allrep mempty x')
    J = '(mk_jobj (mset (mset (mset (mset (mset mempty L"entry" (mk_jstr x)) L"nodes" (mk_jobj n)) L"provided_artifacts" (mk_jstrs a)) L"provided_nodes" (mk_jstrs d)) L"provided_results" (mk_jstrs r)))'
    RJ = '(mk_jobj (mset (mset (mset mempty L"artifacts" x) L"runfiles" y) L"provides" z))'
    chain(u, 'p_fields', 'x n a d r', [('entry', '(mk_jstr x)'), ('nodes', '(mk_jobj n)'), ('provided_artifacts', '(mk_jstrs a)'), ('provided_nodes', '(mk_jstrs d)'), ('provided_results', '(mk_jstrs r)')])
    chain(u, 'r_fields', 'x y z: json', [('artifacts', 'x'), ('runfiles', 'y'), ('provides', 'z')])
    u.lemma('saved_intro', f'forall m e x n a d r [saved m e {J}]. x = hid e -> store m n a d r -> tags_a a -> tags_d d -> tags_r r -> has n e -> saved m e {J}')
    u.lemma('saved_res_intro', f'forall m t x y z [saved_result m t {RJ}]. saved_map m t.tr_stage x -> saved_map m t.tr_run y -> saved m t.tr_prov z -> saved_result m t {RJ}')
    u.lemma('mem_longer', 'forall a b k [longer a b, mem b k]. longer a b -> mem a k -> (mem b k by exists i. 0 <= i < len a && nth a i = k && 0 <= i < len b && nth b i = k)')
    u.lemma('mem_snoc', 'forall a k [snoc a k]. mem (snoc a k) k by nth (snoc a k) (len a) = k')
    u.lemma('longer_snoc', 'forall a k [snoc a k]. longer a (snoc a k)')
    u.lemma('longer_trans', 'forall a b c [longer a b, longer b c]. longer a b -> longer b c -> longer a c')
    u.lemma('grows_trans', 'forall a b c [grows a b, grows b c]. grows a b -> grows b c -> (grows a c by forall k [mget c k]. mget a k <> None -> mget c k <> None by mget b k <> None)')
    u.lemma('grows_has', 'forall a b e [grows a b, has a e]. grows a b -> has a e -> has b e')
    u.lemma('grows_set', 'forall a k j [mset a k j]. grows a (mset a k j)')
    u.lemma('kids_grow', 'forall a b e [grows a b, kids_in b e]. grows a b -> kids_in a e -> kids_in b e')
    u.lemma('marked_more', 'forall a d r a1 d1 r1 e [marked a d r e, marked a1 d1 r1 e]. longer a a1 -> longer d d1 -> longer r r1 -> marked a d r e -> marked a1 d1 r1 e')
    u.lemma('store_more', 'forall m n a d r a1 d1 r1 [store m n a d r, store m n a1 d1 r1]. longer a a1 -> longer d d1 -> longer r r1 -> store m n a d r -> (store m n a1 d1 r1 by forall k [mget n k]. ok_at m n a1 d1 r1 k by ok_at m n a d r k)')
    u.lemma('store_set', 'forall m n a d r k j [store m (mset n k j) a d r]. store m n a d r -> ok_at m (mset n k j) a d r k -> (store m (mset n k j) a d r by forall x [mget (mset n k j) x]. ok_at m (mset n k j) a d r x by x = k \\/ (ok_at m n a d r x /\\ mget (mset n k j) x = mget n x))')
    for i, (x, y) in enumerate((('(snoc a x) d r', 'longer a (snoc a x)'), ('a (snoc d x) r', 'longer d (snoc d x)'), ('a d (snoc r x)', 'longer r (snoc r x)'))):
        u.lemma('store_tag%d' % i, f'forall m n a d r x [store m n {x}]. store m n a d r -> (store m n {x} by {y} && longer a a && longer d d && longer r r)')
    for t, v in (('a', 'VArtifact'), ('d', 'VNode'), ('r', 'VResult')):
        u.lemma('tags_snoc_' + t, f'forall a x [tags_{t} (snoc a x)]. tags_{t} a -> view (of_hid x) = {v} -> tags_{t} (snoc a x)')
    u.lemma('store_ent', 'forall m n a d r e j [store m (mset n (to_hex (e_hash e)) j) a d r]. store m n a d r -> j = ent m e -> kids_in n e -> marked a d r e -> nice m e -> replaced m e -> (store m (mset n (hid e) j) a d r by of_hid (hid e) = e && grows n (mset n (hid e) j) && kids_in (mset n (hid e) j) e && mget (mset n (hid e) j) (hid e) = Some j && ok_at m (mset n (hid e) j) a d r (hid e))')
    u.lemma('rms_to_0', 'forall x l [rms_to x (items l) 0 mempty]. rms_to x (items l) 0 mempty')
    u.lemma('rms_to_s', 'forall x l n m k s [rms_to x (items l) n m, mset m k s]. 0 <= n < len (items l) -> rms_to x (items l) n m -> k = fst_ (nth (items l) n) -> s = art_json (rep x (art_of (snd_ (nth (items l) n)))) -> (rms_to x (items l) (n+1) (mset m k s) by mget (mset m k s) k = Some s && (forall j [nth (items l) j]. 0 <= j < n -> fst_ (nth (items l) j) <> k && mget (mset m k s) (fst_ (nth (items l) j)) = mget m (fst_ (nth (items l) j))) && (forall j [nth (items l) j]. 0 <= j < n -> fst_ (nth (items l) j) <> k) && (forall y [mget (mset m k s) y]. y <> k -> mget (mset m k s) y = mget m y))')
    u.lemma('rms_to_k', 'forall x l m k [rms_to x (items l) (len (items l)) m, rm_at x l m k]. rms_to x (items l) (len (items l)) m -> (rm_at x l m k by mget l k = None \\/ (0 <= item_idx l k < len (items l) /\\ nth (items l) (item_idx l k) = (k, the (mget l k))))')
    u.lemma('rms_to_m', 'forall x l m [rms_to x (items l) (len (items l)) m]. rms_to x (items l) (len (items l)) m -> (m = rep_map x l by meqs m (rep_map x l) by forall k [mget m k]. (mget m k = mget (rep_map x l) k by rm_at x l m k))')
    u.lemma('arts_k', 'forall m k [arts m, mget m k]. arts m -> mget m k <> None -> (view (the (mget m k)) = VArtifact by 0 <= item_idx m k < len (items m) /\\ nth (items m) (item_idx m k) = (k, the (mget m k)))')
    u.lemma('art_map_rep', 'forall m [art_map m]. arts m -> (art_map m = rep_map mempty m by meqs (art_map m) (rep_map mempty m) by forall k [mget (art_map m) k]. (mget (art_map m) k = mget (rep_map mempty m) k by am_at m (art_map m) k && rm_at mempty m (rep_map mempty m) k))')
    u.lemma('hms_to_0', 'forall l [hms_to (items l) 0 mempty]. hms_to (items l) 0 mempty')
    u.lemma('hms_to_s', 'forall l n m k s [hms_to (items l) n m, mset m k s]. 0 <= n < len (items l) -> hms_to (items l) n m -> k = fst_ (nth (items l) n) -> s = hid (snd_ (nth (items l) n)) -> (hms_to (items l) (n+1) (mset m k s) by mget (mset m k s) k = Some s && (forall j [nth (items l) j]. 0 <= j < n -> fst_ (nth (items l) j) <> k) && (forall x [mget (mset m k s) x]. x <> k -> mget (mset m k s) x = mget m x))')
    u.lemma('hms_to_k', 'forall l m k [hms_to (items l) (len (items l)) m, hm_at l m k]. hms_to (items l) (len (items l)) m -> (hm_at l m k by mget l k = None \\/ (0 <= item_idx l k < len (items l) /\\ nth (items l) (item_idx l k) = (k, the (mget l k))))')
    u.lemma('hms_to_m', 'forall l m [hms_to (items l) (len (items l)) m]. hms_to (items l) (len (items l)) m -> (m = hid_map l by meqs m (hid_map l) by forall k [mget m k]. (mget m k = mget (hid_map l) k by hm_at l m k))')
    w = Unit('CacheRead', use='Json')
    common(w)
    w.spec(READ)
    w.extern('ArtifactDescription::FromJson', 'art_from_json', ('opt', ('abs', 'artifact')))
    w.fncalls['FromJson'] = lambda tr, args, n: tr.app('art_from_json', tr.Es(args), ('opt', ('abs', 'artifact')), True) if len(args) == 2 else tr.app('e_from_json', tr.Es(args[:1]), E, True)
    w.absctor['target_node'] = lambda tr, cs, n: tr.app('n_val', [tr.E(cs[0])], ('abs', 'target_node'), False) if tr.ty(cs[0]) == E else tr.app('n_abs', [tr.E(cs[0])], ('abs', 'target_node'), False)
    w.absexpr.update(artifact='mk_art', target_node='mk_node', target_result='mk_result')
    w.eqfun['json'] = 'j_eq_str'
    w.absbool['expr'] = 'e_not_null'
    w.fieldinits[('target_result', 'is_cacheable')] = lambda tr, v: X('(is_cacheable %s)' % v['provides'].code, B)
    w.fn('JsonSet', R, filter='JsonSet', contract="""requires { jstrs_v p1 }
    ensures { set_of result (jstrs_of p1) (len (jstrs_of p1)) }""", loops={1: dict(inv=['set_of $result<fset str> (jstrs_of p1) it1'])})
    IS = 'store_s (jobj p3) p4 p5 p6 /\\ only_a p4 /\\ only_d p5 /\\ only_r p6'
    w.fn('DeserializeExpression', R, filter='DeserializeExpression', why='deser', decreases='depth (of_hid (jstr p2))', contract=f"""requires {{ p1 = ht /\\ j_str_v p2 /\\ j_obj_v p3 /\\ mget (jobj p3) (jstr p2) <> None }}
    requires {{ {IS} }}
    requires {{ sofar (jobj p3) p7 }}
    ensures {{ result = drep (of_hid (jstr p2)) }}
    ensures {{ sofar (jobj p3) p7 }}""",
         loops={1: dict(body='assert { $val<json> = mk_jstr (hid (the (mget (map_v (of_hid (jstr p2))) $key<str>))) /\\ nice rm (the (mget (map_v (of_hid (jstr p2))) $key<str>)) }; assert { view (drep (the (mget (map_v (of_hid (jstr p2))) $key<str>))) <> VNull };', inv=['sofar (jobj p3) p7', 'dms_to (map_v (of_hid (jstr p2))) sq1 it1 $map<fmap str expr>']), 2: dict(body='assert { drep_list (list_v (of_hid (jstr p2))) it2 = snoc (drep_list (list_v (of_hid (jstr p2))) (it2 - 1)) (drep (nth (list_v (of_hid (jstr p2))) (it2 - 1))) }; assert { of_hid (hid (nth (list_v (of_hid (jstr p2))) (it2 - 1))) = nth (list_v (of_hid (jstr p2))) (it2 - 1) }; assert { $val<json> = mk_jstr (hid (nth (list_v (of_hid (jstr p2))) (it2 - 1))) /\\ nice rm (nth (list_v (of_hid (jstr p2))) (it2 - 1)) /\\ has (jobj p3) (nth (list_v (of_hid (jstr p2))) (it2 - 1)) }; assert { view (drep (nth (list_v (of_hid (jstr p2))) (it2 - 1))) <> VNull /\\ depth (nth (list_v (of_hid (jstr p2))) (it2 - 1)) < depth (of_hid (jstr p2)) };', inv=['sofar (jobj p3) p7', '$list<seq expr> = drep_list (list_v (of_hid (jstr p2))) it2'])})
    w.fn('DeserializeProvidesMap', R, filter='DeserializeProvidesMap', why='deser_provides', contract="""requires { p1 = ht /\\ saved rm stored.tr_prov p2 }
    ensures { result = drep stored.tr_prov }""")
    w.fn('DeserializeArtifactMap', R, filter='DeserializeArtifactMap', why='deser_map', contract="""requires { p1 = ht }
    ensures { if j_obj_v p2 && parsable (jobj p2) then result = mk_map (parse_map (jobj p2)) else result = e_null }""",
         loops={1: dict(inv=['pms_to sq1 it1 $map<fmap str expr>', 'forall i [nth sq1 i]. 0 <= i < it1 -> parse_art ht (snd_ (nth sq1 i)) <> None'])})
    w.fn('TargetResult::FromJson', R, filter='TargetResult::FromJson', why='result_from_json', contract="""requires { p1 = ht /\\ saved_result rm stored p2 /\\ nice_res rm stored }
    ensures { result = Some { tr_stage = drep stored.tr_stage; tr_prov = drep stored.tr_prov; tr_run = drep stored.tr_run; tr_cach = is_cacheable (drep stored.tr_prov) } }""")
    chain(w, 'rn_fields', 'x y z: json', [('artifact_stage', 'x'), ('runfiles', 'y'), ('provides', 'z')])
    chain(w, 'vn_fields', 'x y: json', [('type', 'x'), ('result', 'y')])
    chain(w, 'an_fields', 'w x y z: json', [('type', 'w'), ('node_type', 'x'), ('string_fields', 'y'), ('target_fields', 'z')])
    w.lemma('node_names', 'L"ABSTRACT_NODE" <> L"VALUE_NODE"')
    def link(nm, view, concl, extra=''):
        w.lemma('link_' + nm, f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> view (of_hid k) = {view} -> ({concl} by ok_s n a d r k && mget n k = Some (ent rm (of_hid k)))')
    def sub(e, f, o='v'):
        return f'mget (jobj (the (mget n k))) L"{f}" = Some (mk_jstr (hid {e})) /\\ has n {e} /\\ depth {e} < depth (of_hid k) /\\ nice rm {e}'
    X_ = '(res_of (of_hid k))'
    link('res', 'VResult', 'j_obj_v (the (mget n k)) /\\ smem k r /\\ ' + ' /\\ '.join(sub(f'{X_}.{t}', f) for t, f in (('tr_stage', 'artifact_stage'), ('tr_run', 'runfiles'), ('tr_prov', 'provides'))))
    w.lemma('ent_node_obj', 'forall x [ent_node x]. match x with NVal _ -> j_obj_v (ent_node x) | NAbs _ -> j_obj_v (ent_node x) end')
    w.lemma('ent_node_obj2', 'forall x [ent_node x]. j_obj_v (ent_node x) by match x with NVal _ -> j_obj_v (ent_node x) | NAbs _ -> j_obj_v (ent_node x) end')
    NV = '(nview (node_of (of_hid k)))'
    link('node', 'VNode', 'j_obj_v (the (mget n k)) /\\ smem k d /\\ the (mget n k) = ent_node ' + NV)
    w.lemma('link_nkind', f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> view (of_hid k) = VNode -> (match {NV} with NVal v -> mget (jobj (the (mget n k))) L"type" = Some (mk_jstr L"VALUE_NODE") /\\ ' + sub('v', 'result') + ' | NAbs b -> mget (jobj (the (mget n k))) L"type" = Some (mk_jstr L"ABSTRACT_NODE") /\\ mget (jobj (the (mget n k))) L"node_type" = Some (mk_jstr b.an_type) /\\ ' + sub('b.an_str', 'string_fields') + ' /\\ ' + sub('b.an_tgt', 'target_fields') + ' end by ok_s n a d r k && mget n k = Some (ent rm (of_hid k)))')
    w.lemma('hid_list_len', 'forall l n [hid_list l n]. 0 <= n <= len l -> len (hid_list l n) = n', """
  let lemma hls (l: seq expr) (m: int) : unit requires { 0 <= m < len l } ensures { hid_list l (m+1) = snoc (hid_list l m) (hid (nth l m)) } = ()
  let rec lemma hll (l: seq expr) (n: int) : unit requires { 0 <= n <= len l } ensures { len (hid_list l n) = n } variant { n } = if n > 0 then begin hll l (n-1); hls l (n-1) end
""")
    w.lemma('hid_list_nth', 'forall l n i [nth (hid_list l n) i]. 0 <= i < n <= len l -> nth (hid_list l n) i = hid (nth l i)', """
  let lemma hls (l: seq expr) (m: int) : unit requires { 0 <= m < len l } ensures { hid_list l (m+1) = snoc (hid_list l m) (hid (nth l m)) } = ()
  let rec lemma hln (l: seq expr) (n i: int) : unit requires { 0 <= i < n <= len l } ensures { nth (hid_list l n) i = hid (nth l i) } variant { n } = (if i < n-1 then hln l (n-1) i); hls l (n-1); assert { len (hid_list l (n-1)) = n-1 }
""")
    for nm, vw, x, cc in (('map', 'is_map_v', '(map_v (of_hid k))', 'the (mget n k) = mk_jstrmap (hid_map @) /\\ j_obj_v (the (mget n k)) /\\ j_items (the (mget n k)) = items (jobj (mk_jstrmap (hid_map @))) /\\ not (smem k a) /\\ not (smem k d) /\\ not (smem k r)'),
                          ('list', 'is_list_v', '(list_v (of_hid k))', 'the (mget n k) = mk_jstrs (hid_list @ (len @)) /\\ j_arr_v (the (mget n k)) /\\ not (j_obj_v (the (mget n k))) /\\ len (j_elems (the (mget n k))) = len @')):
        w.lemma('link_' + nm, f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> only_a a -> only_d d -> only_r r -> mget n k <> None -> {vw} (of_hid k) -> ({cc.replace("@", x)} by ok_s n a d r k && mget n k = Some (ent rm (of_hid k)))')
    CASES = '(match view (of_hid k) with VNone -> not (j_obj_v J) /\\ not (j_arr_v J) | VBool b -> not (j_obj_v J) /\\ not (j_arr_v J) | VNum x -> not (j_obj_v J) /\\ not (j_arr_v J) | VStr x -> not (j_obj_v J) /\\ not (j_arr_v J) | VName -> false | VNull -> false | VArtifact -> smem k a /\\ j_obj_v J | VNode -> smem k d /\\ j_obj_v J | VResult -> smem k r /\\ j_obj_v J | VMap x -> j_obj_v J | VList x -> j_arr_v J /\\ not (j_obj_v J) end)'.replace('J', '(the (mget n k))')
    w.lemma('link_cases', f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> ({CASES} by ok_s n a d r k && mget n k = Some (ent rm (of_hid k)) && nice rm (of_hid k))')
    w.lemma('link_isobj', f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> j_obj_v (the (mget n k)) -> not (smem k a) -> not (smem k d) -> not (smem k r) -> (is_map_v (of_hid k) by {CASES})')
    w.lemma('link_isarr', f'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> not (j_obj_v (the (mget n k))) -> j_arr_v (the (mget n k)) -> (is_list_v (of_hid k) by {CASES})')
    w.lemma('hid_elems', 'forall x i [nth (j_elems (mk_jstrs (hid_list x (len x)))) i]. 0 <= i < len x -> nth (j_elems (mk_jstrs (hid_list x (len x)))) i = mk_jstr (hid (nth x i))')
    w.lemma('kid_list', 'forall n e i [kids_in n e, nth (list_v e) i]. kids_in n e -> is_list_v e -> 0 <= i < len (list_v e) -> has n (nth (list_v e) i) /\\ depth (nth (list_v e) i) < depth e')
    w.lemma('kid_map', 'forall n e k [kids_in n e, mget (map_v e) k]. kids_in n e -> is_map_v e -> mget (map_v e) k <> None -> (has n (the (mget (map_v e) k)) /\\ depth (the (mget (map_v e) k)) < depth e by 0 <= item_idx (map_v e) k < len (items (map_v e)) && nth (items (map_v e)) (item_idx (map_v e) k) = (k, the (mget (map_v e) k)))')
    w.lemma('drep_list_2', 'forall l n m [drep_list l n, drep_list l m]. n = m + 1 -> 0 <= m < len l -> (drep_list l n = snoc (drep_list l m) (drep (nth l m)) by drep_list l n = drep_list l (m + 1))')
    w.lemma('nice_list_k', 'forall e i [nice rm e, nth (list_v e) i]. nice rm e -> is_list_v e -> 0 <= i < len (list_v e) -> nice rm (nth (list_v e) i)')
    w.lemma('nice_map_k', 'forall e k [nice rm e, mget (map_v e) k]. nice rm e -> is_map_v e -> mget (map_v e) k <> None -> (nice rm (the (mget (map_v e) k)) by 0 <= item_idx (map_v e) k < len (items (map_v e)) && nth (items (map_v e)) (item_idx (map_v e) k) = (k, the (mget (map_v e) k)))')
    w.lemma('link_kids', 'forall n a d r k [mget n k, store_s n a d r]. store_s n a d r -> mget n k <> None -> (mget n k = Some (ent rm (of_hid k)) /\\ kids_in n (of_hid k) /\\ nice rm (of_hid k) /\\ replaced rm (of_hid k) /\\ k = to_hex (e_hash (of_hid k)) by ok_s n a d r k)')
    w.lemma('set_of_0', 'forall l [set_of sempty l 0]. set_of sempty l 0')
    w.lemma('set_of_s', 'forall s l n x [set_of s l n, sadd x s]. 0 <= n < len l -> set_of s l n -> x = nth l n -> (set_of (sadd x s) l (n+1) by (forall i [nth l i]. 0 <= i < n + 1 -> (smem (nth l i) (sadd x s) by i = n \\/ smem (nth l i) s)) && set_of_a (sadd x s) l (n+1) && (forall k [smem k (sadd x s)]. smem k (sadd x s) -> ((exists i. 0 <= i < n + 1 /\\ nth l i = k) by k = x \\/ (exists i. 0 <= i < n /\\ nth l i = k))) && set_of_b (sadd x s) l (n+1))')
    w.lemma('set_elems', 'forall j i [nth (j_elems j) i]. jstrs_v j -> 0 <= i < len (j_elems j) -> (nth (j_elems j) i = mk_jstr (nth (jstrs_of j) i) /\\ len (j_elems j) = len (jstrs_of j) by j = mk_jstrs (jstrs_of j))')
    w.lemma('set_elems_len', 'forall j [j_elems j]. jstrs_v j -> (len (j_elems j) = len (jstrs_of j) /\\ j_arr_v j by j = mk_jstrs (jstrs_of j))')
    for t in 'adr':
        w.lemma('only_' + t, f'forall s l [set_of s l (len l), tags_{t} l]. set_of s l (len l) -> tags_{t} l -> (only_{t} s by forall k [smem k s]. smem k s -> exists i. 0 <= i < len l /\\ nth l i = k)')
    w.lemma('mem_set', 'forall s l k [set_of s l (len l), smem k s, mem l k]. set_of s l (len l) -> mem l k -> smem k s')
    w.lemma('sets_store', 'forall n a d r x y z [store rm n a d r, set_of x a (len a), set_of y d (len d), set_of z r (len r)]. store rm n a d r -> set_of x a (len a) -> set_of y d (len d) -> set_of z r (len r) -> (store_s n x y z by forall k [mget n k]. ok_s n x y z k by ok_at rm n a d r k && (mem a k -> smem k x) && (mem d k -> smem k y) && (mem r k -> smem k z))')
    link('art', 'VArtifact', 'j_obj_v (the (mget n k)) /\\ smem k a /\\ parse_art ht (the (mget n k)) = Some (rep rm (art_of (of_hid k)))')
    w.lemma('hj_items', 'forall x i [nth (items (jobj (mk_jstrmap (hid_map x)))) i]. 0 <= i < len (items (jobj (mk_jstrmap (hid_map x)))) -> (mget x (fst_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i)) <> None /\\ snd_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i) = mk_jstr (hid (the (mget x (fst_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i))))) by mget (jobj (mk_jstrmap (hid_map x))) (fst_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i)) = Some (snd_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i)) && hm_at x (hid_map x) (fst_ (nth (items (jobj (mk_jstrmap (hid_map x)))) i)))')
    w.lemma('drep_some', 'forall e m [nice m e, drep e]. nice m e -> view (drep e) <> VNull')
    w.lemma('sofar_ins', 'forall n f k v [sofar n (mins f k v)]. sofar n f -> mget n k <> None -> v = drep (of_hid k) -> (sofar n (mins f k v) by forall y [mget (mins f k v) y]. mget (mins f k v) y = mget f y \\/ (y = k /\\ mget (mins f k v) y = Some v))')
    w.lemma('sofar_0', 'forall n [sofar n mempty]. sofar n mempty')
    for P, x, XD, KV, T, AT, L in (('dms_to', 'x ', 'x ', 'drep (the (mget x (fst_ (nth (items l) n))))', 'drep_map x', 'dm_at x', 'hj x'), ('pms_to', '', '', 'mk_art (the (parse_art ht (snd_ (nth (items l) n))))', 'parse_map l', 'pm_at l', '')):
        w.lemma(P + '_0', f'forall {x}l [{P} {x}(items l) 0 mempty]. {P} {x}(items l) 0 mempty')
        w.lemma(P + '_s', f'forall {x}l n m k s [{P} {x}(items l) n m, mins m k s]. 0 <= n < len (items l) -> {P} {x}(items l) n m -> k = fst_ (nth (items l) n) -> s = {KV} -> ({P} {x}(items l) (n+1) (mins m k s) by mget m k = None && mget (mins m k s) k = Some s && (forall j [nth (items l) j]. 0 <= j < n -> fst_ (nth (items l) j) <> k && mget (mins m k s) (fst_ (nth (items l) j)) = mget m (fst_ (nth (items l) j))) && (forall y [mget (mins m k s) y]. y <> k -> mget (mins m k s) y = mget m y) && (forall i [nth (items l) i]. 0 <= i < n + 1 -> i = n \\/ i < n) && (forall y [mget (mins m k s) y]. mget (mins m k s) y <> None -> ((exists i. 0 <= i < n + 1 /\\ y = fst_ (nth (items l) i)) by y = k \\/ (exists i. 0 <= i < n /\\ y = fst_ (nth (items l) i)))) && {P}_a {x}(items l) (n+1) (mins m k s) && {P}_b (items l) (n+1) (mins m k s))')
    w.lemma('dms_to_k', 'forall x m k [dms_to x (items (jobj (mk_jstrmap (hid_map x)))) (len (items (jobj (mk_jstrmap (hid_map x))))) m, dm_at x m k]. dms_to x (items (hj x)) (len (items (hj x))) m -> (dm_at x m k by hm_at x (hid_map x) k && (mget x k = None <-> mget (hj x) k = None) && (mget m k <> None -> (mget (hj x) k <> None by exists i. 0 <= i < len (items (hj x)) /\\ k = fst_ (nth (items (hj x)) i))) && (mget (hj x) k = None \\/ (0 <= item_idx (hj x) k < len (items (hj x)) /\\ nth (items (hj x)) (item_idx (hj x) k) = (k, the (mget (hj x) k)) /\\ mget m k = Some (drep (the (mget x k))))))')
    w.lemma('dms_to_m', 'forall x m [dms_to x (items (jobj (mk_jstrmap (hid_map x)))) (len (items (jobj (mk_jstrmap (hid_map x))))) m]. dms_to x (items (hj x)) (len (items (hj x))) m -> (m = drep_map x by meqs m (drep_map x) by forall k [mget m k]. (mget m k = mget (drep_map x) k by dm_at x m k))')
    w.lemma('pms_to_k', 'forall l m k [pms_to (items l) (len (items l)) m, pm_at l m k]. pms_to (items l) (len (items l)) m -> (pm_at l m k by mget l k = None \\/ (0 <= item_idx l k < len (items l) /\\ nth (items l) (item_idx l k) = (k, the (mget l k))))')
    w.lemma('pms_to_m', 'forall l m [pms_to (items l) (len (items l)) m]. pms_to (items l) (len (items l)) m -> (m = parse_map l by meqs m (parse_map l) by forall k [mget m k]. (mget m k = mget (parse_map l) k by pm_at l m k))')
    # an artifact map read back
    w.lemma('rep_parse', 'forall e k [nice_map rm e, mget (map_v e) k]. nice_map rm e -> allrep rm (map_v e) -> (match mget (map_v e) k with None -> true | Some v -> view v = VArtifact /\\ parse_art ht (art_json (rep rm (art_of v))) = Some (rep rm (art_of v)) end by mget (map_v e) k = None \\/ (0 <= item_idx (map_v e) k < len (items (map_v e)) /\\ nth (items (map_v e)) (item_idx (map_v e) k) = (k, the (mget (map_v e) k)) /\\ nice rm (the (mget (map_v e) k)) /\\ view (the (mget (map_v e) k)) = VArtifact /\\ has_rep rm (art_of (the (mget (map_v e) k)))))')
    w.lemma('rep_parsable', 'forall e [nice_map rm e]. nice_map rm e -> allrep rm (map_v e) -> (parsable (rep_map rm (map_v e)) by forall i [nth (items (rep_map rm (map_v e))) i]. 0 <= i < len (items (rep_map rm (map_v e))) -> (parse_art ht (snd_ (nth (items (rep_map rm (map_v e))) i)) <> None by mget (rep_map rm (map_v e)) (fst_ (nth (items (rep_map rm (map_v e))) i)) = Some (snd_ (nth (items (rep_map rm (map_v e))) i)) && rm_at rm (map_v e) (rep_map rm (map_v e)) (fst_ (nth (items (rep_map rm (map_v e))) i)) && mget (map_v e) (fst_ (nth (items (rep_map rm (map_v e))) i)) <> None))')
    w.lemma('rep_parsed', 'forall e [nice_map rm e]. nice_map rm e -> allrep rm (map_v e) -> (parse_map (rep_map rm (map_v e)) = drep_map (map_v e) by meqs (parse_map (rep_map rm (map_v e))) (drep_map (map_v e)) by forall k [mget (parse_map (rep_map rm (map_v e))) k]. (mget (parse_map (rep_map rm (map_v e))) k = mget (drep_map (map_v e)) k by rm_at rm (map_v e) (rep_map rm (map_v e)) k && pm_at (rep_map rm (map_v e)) (parse_map (rep_map rm (map_v e))) k && dm_at (map_v e) (drep_map (map_v e)) k))')
    return [u, w]
