from cxx2why.unit import Unit
from cxx2why.tr import X
from props.evalcommon import REPO_SRC
S = 'src/buildtool/build_engine/target_map/utils.cpp'
A, D = 'src/buildtool/common/action.hpp', 'src/buildtool/common/action_description.hpp'
N, R = 'src/buildtool/build_engine/expression/target_node.cpp', 'src/buildtool/build_engine/expression/target_result.cpp'
SOURCES = [S, A, D, N, R, 'src/buildtool/build_engine/expression/target_node.hpp', 'src/buildtool/build_engine/expression/target_result.hpp', 'src/buildtool/build_engine/expression/expression.cpp']
HARNESS = dict(src='h_action.cpp', repo=REPO_SRC + [S], quick_s=15, thorough_s=180, hunt_s=60)
RULE = 'random components of actions and neighbours of them (parts moved between components, joined, reordered, scales one ulp apart), ids collected in a table; random values with strings that look like their serialisation, hashes collected likewise'
ASSUMPTIONS = [
    'SHA256 (Hasher, PlainHashData) is an uninterpreted function to 32 bytes; "decides" is proved under the hypothesis that the hash function does not give two of the strings hashed for the two actions the same value (hash collisions excluded, for these strings only)',
    'the memoised Expression::ToHash gives what ComputeHash computes (SetOnceAndGet)',
    'the JSON text of null, a boolean, a finite number or a string decides it and begins with none of the marks @ $ = # [ {; artifacts and names are the same if their JSON texts are (nlohmann::json::dump, exercised in the bounded harness)',
    'values are finite trees (every part of a value is less deep than the value)',
    'fmt renders a double with {:+24a} in exactly 24 characters; that the text decides the double is exercised in the bounded harness only',
    'hexadecimal encoding decides the bytes (proved for the real ToHexString under C13)']
TRUSTED = ['member initialisers of Action(id, command, ...) not named in the constructor (is_tree, is_tree_overlay, overlay_disjoint are false)']
SPEC = r'''
  type sha_state = { fed : str }
  function sha (s: str) : str
  axiom sha_len : forall s [sha s]. len (sha s) = 32
  predicate bytes (s: str) = forall i [nth s i]. 0 <= i < len s -> 0 <= nth s i < 256
  axiom sha_bytes : forall s [sha s]. bytes (sha s)
  function hex (s: str) : str
  axiom hex_inj : forall s t [hex s, hex t]. bytes s -> bytes t -> hex s = hex t -> s = t
  val h_make (_h: int) : sha_state ensures { result = { fed = empty } }
  let function h_update (h: sha_state) (s: str) : sha_state = { fed = cat h.fed s }
  val h_final (h: sha_state) : str ensures { result = sha h.fed }
  val h_plain (_h: int) (s: str) : str ensures { result = sha s }
  val h_hex (s: str) : str ensures { result = hex s }
  axiom e_hash_len : forall e [e_hash e]. len (e_hash e) = 32
  val function num_fmt_a (x: num) : str
  axiom fmt_a_len : forall x [num_fmt_a x]. len (num_fmt_a x) = 24
  (* the hashes of the first n strings, joined *)
  function hashes (v: seq str) (n: int) : str
  axiom hashes_0 : forall v. hashes v 0 = empty
  axiom hashes_s : forall v n [hashes v (n+1)]. 0 <= n < len v -> hashes v (n+1) = cat (hashes v n) (sha (nth v n))
  function hvec (v: seq str) : str = sha (hashes v (len v))
  (* the hash of a value: its JSON text with a mark for what is not JSON, or the hashes of its entries *)
  function lhashes (l: seq expr) (n: int) : str
  axiom lhashes_0 : forall l. lhashes l 0 = empty
  axiom lhashes_s : forall l n [lhashes l (n+1)]. 0 <= n < len l -> lhashes l (n+1) = cat (lhashes l n) (e_hash (nth l n))
  function mhashes (l: seq (str, expr)) (n: int) : str
  axiom mhashes_0 : forall l. mhashes l 0 = empty
  axiom mhashes_s : forall l n [mhashes l (n+1)]. 0 <= n < len l -> mhashes l (n+1) = cat (cat (mhashes l n) (sha (fst_ (nth l n)))) (e_hash (snd_ (nth l n)))
  type target_result = { tr_stage : expr; tr_prov : expr; tr_run : expr; tr_cach : bool }
  type target_node
  type abstract_node = { an_type : str; an_str : expr; an_tgt : expr }
  type nview = NVal expr | NAbs abstract_node
  function nview (x: target_node) : nview
  val n_is_value (x: target_node) : bool ensures { result <-> match nview x with NVal _ -> true | _ -> false end }
  val n_index (x: target_node) : int ensures { result = match nview x with NVal _ -> 0 | _ -> 1 end }
  val n_value (x: target_node) : expr raises { Cxx -> match nview x with NVal _ -> false | _ -> true end } ensures { nview x = NVal result }
  val n_abstract (x: target_node) : abstract_node raises { Cxx -> match nview x with NAbs _ -> false | _ -> true end } ensures { nview x = NAbs result }
  function res_of (e: expr) : target_result
  function node_of (e: expr) : target_node
  val e_result (e: expr) : target_result raises { Cxx -> view e <> VResult } ensures { view e = VResult /\ result = res_of e }
  val e_node (e: expr) : target_node raises { Cxx -> view e <> VNode } ensures { view e = VNode /\ result = node_of e }
  (* what is hashed for a value *)
  function pre (e: expr) : str = match view e with
    | VList l -> cat B"[" (lhashes l (len l))
    | VMap m -> cat B"{" (mhashes (items m) (len (items m)))
    | VArtifact -> cat B"@" (e_tostring e) | VName -> cat B"$" (e_tostring e)
    | VResult -> cat (cat (cat B"=" (e_hash (res_of e).tr_stage)) (e_hash (res_of e).tr_run)) (e_hash (res_of e).tr_prov)
    | VNode -> match nview (node_of e) with
      | NVal v -> cat B"#" (e_hash v)
      | NAbs a -> cat (cat (cat B"#" (sha a.an_type)) (e_hash a.an_str)) (e_hash a.an_tgt) end
    | _ -> e_tostring e end
  function hash_of (e: expr) : str = sha (pre e)
  function maybe (o: option str) : seq str = match o with Some s -> snoc empty s | None -> empty end
  (* what is hashed for an action *)
  function enc (files dirs command: seq str) (cwd: str) (env: expr) (mf: option str) (nc: bool) (ts: num) (props inputs: expr) : str =
    cat (cat (cat (cat (cat (cat (cat (cat (cat (cat B"ACTION:" (hvec files)) (hvec dirs)) (hvec command)) (hvec (snoc empty cwd))) (e_hash env))
      (hvec (maybe mf))) (if nc then B"N" else B"Y")) (num_fmt_a ts)) (e_hash props)) (e_hash inputs)
  type action = { a_id : str; a_command : seq str; a_cwd : str; a_env : fmap str str; a_tree : bool; a_overlay : bool; a_disjoint : bool;
    a_mf : option str; a_nc : bool; a_ts : num; a_props : fmap str str }
  type adesc = { d_files : seq str; d_dirs : seq str; d_action : action; d_inputs : fmap str artifact }
  predicate str_at (l: fmap str expr) (m: fmap str str) (k: str) = match mget l k with None -> mget m k = None | Some v -> match view v with VStr s -> mget m k = Some s | _ -> false end end
  predicate art_at (l: fmap str expr) (m: fmap str artifact) (k: str) = match mget l k with None -> mget m k = None | Some v -> view v = VArtifact /\ mget m k = Some (art_of v) end
  predicate str_map (e: expr) (m: fmap str str) = match view e with VMap l -> forall k [mget m k]. str_at l m k | _ -> false end
  predicate art_map (e: expr) (m: fmap str artifact) = match view e with VMap l -> forall k [mget m k]. art_at l m k | _ -> false end
  predicate is_str_e (e: expr) = match view e with VStr _ -> true | _ -> false end
  predicate is_art_e (e: expr) = view e = VArtifact
  predicate str_vals (e: expr) = match view e with VMap l -> forall i [nth (items l) i]. 0 <= i < len (items l) -> is_str_e (snd_ (nth (items l) i)) | _ -> false end
  predicate art_vals (e: expr) = match view e with VMap l -> forall i [nth (items l) i]. 0 <= i < len (items l) -> is_art_e (snd_ (nth (items l) i)) | _ -> false end
  (* what the first n entries give *)
  predicate strs_to (l: seq (str, expr)) (n: int) (m: fmap str str) =
    (forall i [nth l i]. 0 <= i < n -> match view (snd_ (nth l i)) with VStr s -> mget m (fst_ (nth l i)) = Some s | _ -> false end) /\
    (forall k [mget m k]. mget m k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
  predicate arts_to (l: seq (str, expr)) (n: int) (m: fmap str artifact) =
    (forall i [nth l i]. 0 <= i < n -> view (snd_ (nth l i)) = VArtifact /\ mget m (fst_ (nth l i)) = Some (art_of (snd_ (nth l i)))) /\
    (forall k [mget m k]. mget m k <> None -> exists i. 0 <= i < n /\ k = fst_ (nth l i))
'''
IDSPEC = r'''
  (* the id decides the components, unless the hash function gives two of the strings hashed for them the same value *)
  predicate apart (s t: str) = sha s = sha t -> s = t
  let lemma cancel (a b c d: str) : unit
    requires { len b = len d /\ cat a b = cat c d }
    ensures { a = c /\ b = d }
  = assert { len a = len c }; assert { sub (cat a b) 0 (len a) = a /\ sub (cat c d) 0 (len c) = c };
    assert { sub (cat a b) (len a) (len a + len b) = b /\ sub (cat c d) (len c) (len c + len d) = d }
  let lemma hashes_step (v: seq str) (m: int) : unit requires { 0 <= m < len v } ensures { hashes v (m+1) = cat (hashes v m) (sha (nth v m)) } = ()
  let rec ghost hashes_len (v: seq str) (n: int) : unit
    requires { 0 <= n <= len v } ensures { len (hashes v n) = 32 * n } variant { n }
  = if n > 0 then begin hashes_len v (n-1); hashes_step v (n-1) end
  let rec ghost hashes_inj (v w: seq str) (n i: int) : unit
    requires { 0 <= n <= len v /\ n <= len w /\ hashes v n = hashes w n }
    requires { forall j [nth v j]. 0 <= j < n -> apart (nth v j) (nth w j) }
    requires { 0 <= i < n }
    ensures { nth v i = nth w i } variant { n }
  = let m = n - 1 in hashes_step v m; hashes_step w m; cancel (hashes v m) (sha (nth v m)) (hashes w m) (sha (nth w m));
    if i < m then hashes_inj v w m i
  predicate vapart (v w: seq str) = apart (hashes v (len v)) (hashes w (len w)) /\ forall j [nth v j]. 0 <= j < len v -> 0 <= j < len w -> apart (nth v j) (nth w j)
  let ghost hvec_inj (v w: seq str) : unit
    requires { hvec v = hvec w /\ vapart v w } ensures { v = w }
  = hashes_len v (len v); hashes_len w (len w); assert { len v = len w };
    let rec ghost all (n: int) : unit requires { 0 <= n <= len v } ensures { forall i [nth v i]. 0 <= i < n -> nth v i = nth w i } variant { n }
    = if n > 0 then begin all (n-1); hashes_inj v w (len v) (n-1) end in
    all (len v); assert { eqs v w }
  let ghost maybe_inj (a b: option str) : unit
    requires { maybe a = maybe b } ensures { a = b }
  = match a, b with
    | Some x, Some y -> assert { maybe a = snoc empty x /\ maybe b = snoc empty y }; assert { nth (snoc empty x) 0 = x /\ nth (snoc empty y) 0 = y }
    | None, None -> () | Some x, None -> assert { len (snoc empty x) = 1 } | None, Some y -> assert { len (snoc empty y) = 1 } end
  let ghost id_decides (f d c f' d' c': seq str) (cwd cwd': str) (env env': expr) (mf mf': option str) (nc nc': bool) (ts ts': num) (ps ps' ins ins': expr) : unit
    requires { hex (sha (enc f d c cwd env mf nc ts ps ins)) = hex (sha (enc f' d' c' cwd' env' mf' nc' ts' ps' ins')) }
    requires { apart (enc f d c cwd env mf nc ts ps ins) (enc f' d' c' cwd' env' mf' nc' ts' ps' ins') }
    requires { vapart f f' /\ vapart d d' /\ vapart c c' /\ vapart (snoc empty cwd) (snoc empty cwd') /\ vapart (maybe mf) (maybe mf') }
    ensures { f = f' /\ d = d' /\ c = c' /\ cwd = cwd' }
    ensures { mf = mf' }
    ensures { nc = nc' /\ num_fmt_a ts = num_fmt_a ts' }
    ensures { e_hash env = e_hash env' /\ e_hash ps = e_hash ps' /\ e_hash ins = e_hash ins' }
  = let k0 = B"ACTION:" in
    let a1 = cat k0 (hvec f) in let b1 = cat k0 (hvec f') in
    let a2 = cat a1 (hvec d) in let b2 = cat b1 (hvec d') in
    let a3 = cat a2 (hvec c) in let b3 = cat b2 (hvec c') in
    let a4 = cat a3 (hvec (snoc empty cwd)) in let b4 = cat b3 (hvec (snoc empty cwd')) in
    let a5 = cat a4 (e_hash env) in let b5 = cat b4 (e_hash env') in
    let a6 = cat a5 (hvec (maybe mf)) in let b6 = cat b5 (hvec (maybe mf')) in
    let ghost y = (if nc then B"N" else B"Y") in let ghost y' = (if nc' then B"N" else B"Y") in
    let a7 = cat a6 y in let b7 = cat b6 y' in
    let a8 = cat a7 (num_fmt_a ts) in let b8 = cat b7 (num_fmt_a ts') in
    let a9 = cat a8 (e_hash ps) in let b9 = cat b8 (e_hash ps') in
    let ghost e1 = cat a9 (e_hash ins) in let ghost e2 = cat b9 (e_hash ins') in
    assert { e1 = enc f d c cwd env mf nc ts ps ins /\ e2 = enc f' d' c' cwd' env' mf' nc' ts' ps' ins' };
    assert { e1 = e2 };
    assert { len y = 1 /\ len y' = 1 };
    cancel a9 (e_hash ins) b9 (e_hash ins'); cancel a8 (e_hash ps) b8 (e_hash ps'); cancel a7 (num_fmt_a ts) b7 (num_fmt_a ts');
    cancel a6 y b6 y'; cancel a5 (hvec (maybe mf)) b5 (hvec (maybe mf')); cancel a4 (e_hash env) b4 (e_hash env');
    cancel a3 (hvec (snoc empty cwd)) b3 (hvec (snoc empty cwd')); cancel a2 (hvec c) b2 (hvec c'); cancel a1 (hvec d) b1 (hvec d'); cancel k0 (hvec f) k0 (hvec f');
    hvec_inj f f'; hvec_inj d d'; hvec_inj c c'; hvec_inj (snoc empty cwd) (snoc empty cwd'); hvec_inj (maybe mf) (maybe mf');
    assert { nth (snoc empty cwd) 0 = nth (snoc empty cwd') 0 };
    assert { y = y' }; assert { nc <-> nth y 0 = 78 }; assert { nc' <-> nth y' 0 = 78 };
    assert { maybe mf = maybe mf' };
    maybe_inj mf mf'

  (* maps: the hash decides keys and the hashes of the values *)
  axiom memo : forall e [e_hash e]. view e <> VNull -> e_hash e = hash_of e
  let lemma mhashes_step (l: seq (str, expr)) (m: int) : unit requires { 0 <= m < len l }
    ensures { mhashes l (m+1) = cat (cat (mhashes l m) (sha (fst_ (nth l m)))) (e_hash (snd_ (nth l m))) } = ()
  let rec ghost mhashes_len (l: seq (str, expr)) (n: int) : unit
    requires { 0 <= n <= len l } ensures { len (mhashes l n) = 64 * n } variant { n }
  = if n > 0 then begin mhashes_len l (n-1); mhashes_step l (n-1) end
  predicate kapart (l k: seq (str, expr)) = forall j [nth l j]. 0 <= j < len l -> 0 <= j < len k -> apart (fst_ (nth l j)) (fst_ (nth k j))
  let rec ghost mhashes_inj (v w: seq (str, expr)) (n i: int) : unit
    requires { 0 <= n <= len v /\ n <= len w /\ mhashes v n = mhashes w n /\ kapart v w /\ 0 <= i < n }
    ensures { fst_ (nth v i) = fst_ (nth w i) /\ e_hash (snd_ (nth v i)) = e_hash (snd_ (nth w i)) } variant { n }
  = let m = n - 1 in mhashes_step v m; mhashes_step w m;
    cancel (cat (mhashes v m) (sha (fst_ (nth v m)))) (e_hash (snd_ (nth v m))) (cat (mhashes w m) (sha (fst_ (nth w m)))) (e_hash (snd_ (nth w m)));
    cancel (mhashes v m) (sha (fst_ (nth v m))) (mhashes w m) (sha (fst_ (nth w m)));
    if i < m then mhashes_inj v w m i
  predicate mapart (m k: fmap str expr) = apart (cat B"{" (mhashes (items m) (len (items m)))) (cat B"{" (mhashes (items k) (len (items k)))) /\ kapart (items m) (items k)
  let ghost map_decides (e f: expr) (m k: fmap str expr) (i: int) : unit
    requires { view e = VMap m /\ view f = VMap k /\ e_hash e = e_hash f /\ mapart m k }
    ensures { len (items m) = len (items k) }
    ensures { 0 <= i < len (items m) -> fst_ (nth (items m) i) = fst_ (nth (items k) i) /\ e_hash (snd_ (nth (items m) i)) = e_hash (snd_ (nth (items k) i)) }
  = let b = B"{" in let ghost x = mhashes (items m) (len (items m)) in let ghost y = mhashes (items k) (len (items k)) in
    mhashes_len (items m) (len (items m)); mhashes_len (items k) (len (items k));
    assert { cat b x = cat b y }; assert { len x = len y }; cancel b x b y;
    if 0 <= i < len (items m) then mhashes_inj (items m) (items k) (len (items m)) i
  (* the JSON text of a string decides it *)
  axiom text_str : forall v w s t [e_tostring v, e_tostring w, VStr s, VStr t]. view v = VStr s -> view w = VStr t -> e_tostring v = e_tostring w -> v = w
  predicate tapart (m k: fmap str expr) = forall i [nth (items m) i]. 0 <= i < len (items m) -> 0 <= i < len (items k) -> apart (e_tostring (snd_ (nth (items m) i))) (e_tostring (snd_ (nth (items k) i)))
  (* so the hash of a map of strings, such as the environment and the execution properties, decides the map *)
  let ghost strs_decide (e f: expr) (m k: fmap str expr) : unit
    requires { view e = VMap m /\ view f = VMap k /\ e_hash e = e_hash f /\ mapart m k /\ tapart m k /\ str_vals e /\ str_vals f }
    ensures { m = k }
  = map_decides e f m k 0;
    let rec ghost all (n: int) : unit requires { 0 <= n <= len (items m) } ensures { forall i [nth (items m) i]. 0 <= i < n -> nth (items m) i = nth (items k) i } variant { n }
    = if n > 0 then begin all (n-1); let i = n - 1 in map_decides e f m k i;
        assert { is_str_e (snd_ (nth (items m) i)) /\ is_str_e (snd_ (nth (items k) i)) };
        assert { e_tostring (snd_ (nth (items m) i)) = e_tostring (snd_ (nth (items k) i)) };
        assert { snd_ (nth (items m) i) = snd_ (nth (items k) i) } end in
    all (len (items m)); assert { eqs (items m) (items k) }
  (* and the hash of a map of artifacts, such as the inputs, decides the paths and the artifacts' descriptions *)
  let ghost arts_decide (e f: expr) (m k: fmap str expr) (i: int) : unit
    requires { view e = VMap m /\ view f = VMap k /\ e_hash e = e_hash f /\ mapart m k /\ art_vals e /\ art_vals f }
    requires { 0 <= i < len (items m) -> apart (cat B"@" (e_tostring (snd_ (nth (items m) i)))) (cat B"@" (e_tostring (snd_ (nth (items k) i)))) }
    ensures { len (items m) = len (items k) }
    ensures { 0 <= i < len (items m) -> fst_ (nth (items m) i) = fst_ (nth (items k) i) /\ e_tostring (snd_ (nth (items m) i)) = e_tostring (snd_ (nth (items k) i)) }
  = map_decides e f m k i;
    if 0 <= i < len (items m) then begin
      assert { is_art_e (snd_ (nth (items m) i)) /\ is_art_e (snd_ (nth (items k) i)) };
      let ghost x = e_tostring (snd_ (nth (items m) i)) in let ghost y = e_tostring (snd_ (nth (items k) i)) in let b = B"@" in
      assert { cat b x = cat b y }; assert { len x = len y }; cancel b x b y end
'''

EQ = r'''
  type target_result = { tr_stage : expr; tr_prov : expr; tr_run : expr; tr_cach : bool }
  type abstract_node = { an_type : str; an_str : expr; an_tgt : expr }
  type nview = NVal expr | NAbs abstract_node
  type target_node = { tn_data : nview; tn_cach : bool }
  val n_is_value (x: target_node) : bool ensures { result <-> match x.tn_data with NVal _ -> true | _ -> false end }
  val n_index (x: nview) : int ensures { result = match x with NVal _ -> 0 | _ -> 1 end }
  val n_value (x: target_node) : expr requires { match x.tn_data with NVal _ -> true | _ -> false end } ensures { x.tn_data = NVal result }
  val n_abstract (x: target_node) : abstract_node requires { match x.tn_data with NAbs _ -> true | _ -> false end } ensures { x.tn_data = NAbs result }
  (* values are compared by their hashes *)
  predicate eq_val (e f: expr) = e_hash e = e_hash f
  val e_eq (e f: expr) : bool ensures { result <-> eq_val e f }
  predicate node_eq (x y: nview) = match x, y with
    | NVal v, NVal w -> eq_val v w
    | NAbs a, NAbs b -> a.an_type = b.an_type /\ eq_val a.an_str b.an_str /\ eq_val a.an_tgt b.an_tgt
    | _ -> false end
  predicate res_eq (x y: target_result) = eq_val x.tr_stage y.tr_stage /\ eq_val x.tr_run y.tr_run /\ eq_val x.tr_prov y.tr_prov
'''
DECIDE = r'''
  (* the hash of a value decides the value, unless the hash function gives two of the strings hashed the same value *)
  function depth (e: expr) : int
  axiom depth_nonneg : forall e [depth e]. 0 <= depth e
  axiom depth_list : forall e l i [view e, nth l i]. view e = VList l -> 0 <= i < len l -> depth (nth l i) < depth e
  axiom depth_map : forall e m i [view e, nth (items m) i]. view e = VMap m -> 0 <= i < len (items m) -> depth (snd_ (nth (items m) i)) < depth e
  axiom depth_res : forall e [res_of e]. view e = VResult -> depth (res_of e).tr_stage < depth e /\ depth (res_of e).tr_prov < depth e /\ depth (res_of e).tr_run < depth e
  axiom depth_node : forall e [node_of e]. view e = VNode -> match nview (node_of e) with NVal x -> depth x < depth e | NAbs a -> depth a.an_str < depth e /\ depth a.an_tgt < depth e end
  predicate hashed (s: str)
  predicate collision_free = forall s t [sha s, sha t]. hashed s -> hashed t -> sha s = sha t -> s = t
  predicate covered (e: expr)
  axiom covered_def : forall e [covered e]. covered e <-> view e <> VNull /\ hashed (pre e) /\ match view e with
    | VList l -> forall i [nth l i]. 0 <= i < len l -> covered (nth l i)
    | VMap m -> forall i [nth (items m) i]. 0 <= i < len (items m) -> hashed (fst_ (nth (items m) i)) /\ covered (snd_ (nth (items m) i))
    | VResult -> covered (res_of e).tr_stage /\ covered (res_of e).tr_prov /\ covered (res_of e).tr_run
    | VNode -> match nview (node_of e) with NVal v -> covered v | NAbs a -> hashed a.an_type /\ covered a.an_str /\ covered a.an_tgt end
    | _ -> true end
  predicate same (e f: expr)
  predicate same_lists (l k: seq expr) = len l = len k /\ forall i [nth l i]. 0 <= i < len l -> same (nth l i) (nth k i)
  predicate same_pairs (l k: seq (str, expr)) = len l = len k /\ forall i [nth l i]. 0 <= i < len l -> fst_ (nth l i) = fst_ (nth k i) /\ same (snd_ (nth l i)) (snd_ (nth k i))
  predicate same_res (x y: target_result) = same x.tr_stage y.tr_stage /\ same x.tr_run y.tr_run /\ same x.tr_prov y.tr_prov
  predicate same_node (x y: target_node) = match nview x, nview y with
    | NVal v, NVal w -> same v w
    | NAbs a, NAbs b -> a.an_type = b.an_type /\ same a.an_str b.an_str /\ same a.an_tgt b.an_tgt
    | _ -> false end
  axiom same_def : forall e f [same e f]. same e f <-> match view e, view f with
    | VList l, VList k -> same_lists l k
    | VMap m, VMap n -> same_pairs (items m) (items n)
    | VArtifact, VArtifact -> e_tostring e = e_tostring f
    | VName, VName -> e_tostring e = e_tostring f
    | VResult, VResult -> same_res (res_of e) (res_of f)
    | VNode, VNode -> same_node (node_of e) (node_of f)
    | x, y -> x = y end
  (* JSON text of null, a boolean, a (finite) number or a string: it decides the value, and begins with none of the marks *)
  predicate plain (e: expr) = match view e with VNone | VBool _ | VNum _ | VStr _ -> true | _ -> false end
  predicate mark (c: int) = c = 91 \/ c = 123 \/ c = 64 \/ c = 36 \/ c = 61 \/ c = 35
  axiom text_plain : forall e f [e_tostring e, e_tostring f]. plain e -> plain f -> e_tostring e = e_tostring f -> view e = view f
  axiom text_head : forall e [e_tostring e]. plain e -> len (e_tostring e) > 0 /\ not (mark (nth (e_tostring e) 0))
  function kind (e: expr) : int = match view e with VList _ -> 91 | VMap _ -> 123 | VArtifact -> 64 | VName -> 36 | VResult -> 61 | VNode -> 35 | _ -> 0 end
  let lemma head (e: expr) : unit
    ensures { view e <> VNull -> len (pre e) > 0 }
    ensures { view e <> VNull -> if plain e then not (mark (nth (pre e) 0)) else nth (pre e) 0 = kind e }
  = match view e with
    | VList l -> let b = B"[" in assert { nth b 0 = 91 }; assert { nth (cat b (lhashes l (len l))) 0 = nth b 0 }
    | VMap m -> let b = B"{" in assert { nth b 0 = 123 }; assert { nth (cat b (mhashes (items m) (len (items m)))) 0 = nth b 0 }
    | VArtifact -> let b = B"@" in assert { nth b 0 = 64 }; assert { nth (cat b (e_tostring e)) 0 = nth b 0 }
    | VName -> let b = B"$" in assert { nth b 0 = 36 }; assert { nth (cat b (e_tostring e)) 0 = nth b 0 }
    | VResult -> let b = B"=" in assert { nth b 0 = 61 };
      let ghost x = cat b (e_hash (res_of e).tr_stage) in let ghost y = cat x (e_hash (res_of e).tr_run) in
      assert { nth x 0 = 61 /\ len x > 0 }; assert { nth y 0 = 61 /\ len y > 0 }; assert { nth (cat y (e_hash (res_of e).tr_prov)) 0 = 61 }
    | VNode -> let b = B"#" in assert { nth b 0 = 35 };
      match nview (node_of e) with
      | NVal v -> assert { nth (cat b (e_hash v)) 0 = nth b 0 }
      | NAbs a -> let ghost x = cat b (sha a.an_type) in let ghost y = cat x (e_hash a.an_str) in
        assert { nth x 0 = 35 /\ len x > 0 }; assert { nth y 0 = 35 /\ len y > 0 }; assert { nth (cat y (e_hash a.an_tgt)) 0 = 35 } end
    | _ -> () end
  let lemma lhashes_step (l: seq expr) (m: int) : unit requires { 0 <= m < len l } ensures { lhashes l (m+1) = cat (lhashes l m) (e_hash (nth l m)) } = ()
  let rec ghost lhashes_len (l: seq expr) (n: int) : unit
    requires { 0 <= n <= len l } ensures { len (lhashes l n) = 32 * n } variant { n }
  = if n > 0 then begin lhashes_len l (n-1); lhashes_step l (n-1) end
  let rec ghost lhashes_inj (v w: seq expr) (n i: int) : unit
    requires { 0 <= n <= len v /\ n <= len w /\ lhashes v n = lhashes w n /\ 0 <= i < n }
    ensures { e_hash (nth v i) = e_hash (nth w i) } variant { n }
  = let m = n - 1 in lhashes_step v m; lhashes_step w m;
    cancel (lhashes v m) (e_hash (nth v m)) (lhashes w m) (e_hash (nth w m));
    if i < m then lhashes_inj v w m i
  let rec ghost mhashes_inj2 (v w: seq (str, expr)) (n i: int) : unit
    requires { 0 <= n <= len v /\ n <= len w /\ mhashes v n = mhashes w n /\ 0 <= i < n }
    ensures { sha (fst_ (nth v i)) = sha (fst_ (nth w i)) /\ e_hash (snd_ (nth v i)) = e_hash (snd_ (nth w i)) } variant { n }
  = let m = n - 1 in mhashes_step v m; mhashes_step w m;
    cancel (cat (mhashes v m) (sha (fst_ (nth v m)))) (e_hash (snd_ (nth v m))) (cat (mhashes w m) (sha (fst_ (nth w m)))) (e_hash (snd_ (nth w m)));
    cancel (mhashes v m) (sha (fst_ (nth v m))) (mhashes w m) (sha (fst_ (nth w m)));
    if i < m then mhashes_inj2 v w m i
  let ghost same_kind (e f: expr) : unit
    requires { collision_free /\ covered e /\ covered f /\ e_hash e = e_hash f }
    ensures { pre e = pre f /\ (plain e <-> plain f) /\ (not (plain e) -> kind e = kind f) }
  = assert { sha (pre e) = sha (pre f) }; assert { hashed (pre e) /\ hashed (pre f) }; assert { pre e = pre f }; head e; head f
  let ghost list_parts (l k: seq expr) : unit
    requires { cat B"[" (lhashes l (len l)) = cat B"[" (lhashes k (len k)) }
    ensures { len l = len k /\ forall i [nth l i]. 0 <= i < len l -> e_hash (nth l i) = e_hash (nth k i) }
  = lhashes_len l (len l); lhashes_len k (len k); let b = B"[" in
    let ghost x = lhashes l (len l) in let ghost y = lhashes k (len k) in
    assert { cat b x = cat b y }; assert { len x = len y }; cancel b x b y;
    let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> e_hash (nth l i) = e_hash (nth k i) } variant { n }
    = if n > 0 then begin all (n-1); lhashes_inj l k (len l) (n-1) end in all (len l)
  let ghost map_parts (l k: seq (str, expr)) : unit
    requires { cat B"{" (mhashes l (len l)) = cat B"{" (mhashes k (len k)) }
    ensures { len l = len k /\ forall i [nth l i]. 0 <= i < len l -> sha (fst_ (nth l i)) = sha (fst_ (nth k i)) /\ e_hash (snd_ (nth l i)) = e_hash (snd_ (nth k i)) }
  = mhashes_len l (len l); mhashes_len k (len k); let b = B"{" in
    let ghost x = mhashes l (len l) in let ghost y = mhashes k (len k) in
    assert { cat b x = cat b y }; assert { len x = len y }; cancel b x b y;
    let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> sha (fst_ (nth l i)) = sha (fst_ (nth k i)) /\ e_hash (snd_ (nth l i)) = e_hash (snd_ (nth k i)) } variant { n }
    = if n > 0 then begin all (n-1); mhashes_inj2 l k (len l) (n-1) end in all (len l)
  let ghost three (b a1 a2 a3 b1 b2 b3: str) : unit
    requires { len a1 = 32 /\ len a2 = 32 /\ len a3 = 32 /\ len b1 = 32 /\ len b2 = 32 /\ len b3 = 32 }
    requires { cat (cat (cat b a1) a2) a3 = cat (cat (cat b b1) b2) b3 }
    ensures { a1 = b1 /\ a2 = b2 /\ a3 = b3 }
  = cancel (cat (cat b a1) a2) a3 (cat (cat b b1) b2) b3; cancel (cat b a1) a2 (cat b b1) b2; cancel b a1 b b1
  let ghost text_parts (b x y: str) : unit
    requires { cat b x = cat b y } ensures { x = y }
  = assert { len x = len y }; cancel b x b y
  let ghost same_plain (e f: expr) : unit
    requires { plain e /\ plain f /\ e_tostring e = e_tostring f } ensures { same e f }
  = assert { view e = view f };
    match view e with VNone -> assert { view f = VNone } | VBool b -> assert { view f = VBool b } | VNum x -> assert { view f = VNum x } | VStr s -> assert { view f = VStr s } | _ -> absurd end
  let ghost fin_list (e f: expr) (l k: seq expr) : unit requires { view e = VList l /\ view f = VList k /\ same_lists l k } ensures { same e f } = ()
  let ghost fin_map (e f: expr) (m n: fmap str expr) : unit requires { view e = VMap m /\ view f = VMap n /\ same_pairs (items m) (items n) } ensures { same e f } = ()
  let ghost fin_res (e f: expr) (x y: target_result) : unit requires { view e = VResult /\ view f = VResult /\ x = res_of e /\ y = res_of f /\ same_res x y } ensures { same e f } = ()
  let ghost fin_val (e f v w: expr) : unit requires { view e = VNode /\ view f = VNode /\ nview (node_of e) = NVal v /\ nview (node_of f) = NVal w /\ same v w } ensures { same e f }
  = assert { same_node (node_of e) (node_of f) }
  let ghost fin_abs (e f: expr) (a b: abstract_node) : unit
    requires { view e = VNode /\ view f = VNode /\ nview (node_of e) = NAbs a /\ nview (node_of f) = NAbs b }
    requires { a.an_type = b.an_type /\ same a.an_str b.an_str /\ same a.an_tgt b.an_tgt } ensures { same e f }
  = assert { same_node (node_of e) (node_of f) }
  let rec ghost decides (e f: expr) : unit
    requires { collision_free /\ covered e /\ covered f /\ e_hash e = e_hash f }
    ensures { same e f } variant { depth e }
  = same_kind e f;
    match view e, view f with
    | VList l, VList k -> list_parts l k;
      let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> same (nth l i) (nth k i) } variant { depth e, n }
      = if n > 0 then begin all (n-1); decides (nth l (n-1)) (nth k (n-1)) end in all (len l); fin_list e f l k
    | VMap m, VMap n -> let ghost l = items m in let ghost k = items n in map_parts l k;
      let rec ghost all (n: int) : unit requires { 0 <= n <= len l } ensures { forall i [nth l i]. 0 <= i < n -> fst_ (nth l i) = fst_ (nth k i) /\ same (snd_ (nth l i)) (snd_ (nth k i)) } variant { n }
      = if n > 0 then begin all (n-1); decides (snd_ (nth l (n-1))) (snd_ (nth k (n-1))) end in all (len l); fin_map e f m n
    | VArtifact, VArtifact -> text_parts B"@" (e_tostring e) (e_tostring f); assert { same e f }
    | VName, VName -> text_parts B"$" (e_tostring e) (e_tostring f); assert { same e f }
    | VResult, VResult -> let ghost x = res_of e in let ghost y = res_of f in
      three B"=" (e_hash x.tr_stage) (e_hash x.tr_run) (e_hash x.tr_prov) (e_hash y.tr_stage) (e_hash y.tr_run) (e_hash y.tr_prov);
      decides x.tr_stage y.tr_stage; decides x.tr_run y.tr_run; decides x.tr_prov y.tr_prov; fin_res e f x y
    | VNode, VNode ->
      match nview (node_of e), nview (node_of f) with
      | NVal v, NVal w -> text_parts B"#" (e_hash v) (e_hash w); decides v w; fin_val e f v w
      | NAbs a, NAbs b -> three B"#" (sha a.an_type) (e_hash a.an_str) (e_hash a.an_tgt) (sha b.an_type) (e_hash b.an_str) (e_hash b.an_tgt);
        decides a.an_str b.an_str; decides a.an_tgt b.an_tgt;
        assert { hashed a.an_type /\ hashed b.an_type }; fin_abs e f a b
      | NVal v, NAbs b -> assert { len (pre e) = 33 /\ len (pre f) = 97 }; absurd
      | NAbs a, NVal w -> assert { len (pre e) = 97 /\ len (pre f) = 33 }; absurd
      end
    | _ -> assert { plain e /\ plain f }; assert { e_tostring e = e_tostring f }; same_plain e f end
'''


def units():
    u = Unit('Action', use='Expr')
    u.spec(SPEC)
    for P, D, Q, F in (('strs_to', 'str_map', 'str_at', 'view (snd_ (nth (items l) n)) = VStr s'), ('arts_to', 'art_map', 'art_at', '(view (snd_ (nth (items l) n)) = VArtifact /\\ s = art_of (snd_ (nth (items l) n)))')):
        u.lemma(P + '_0', 'forall l [%s (items l) 0 mempty]. %s (items l) 0 mempty' % (P, P))
        u.lemma(P + '_s', 'forall l n m k s [%s (items l) n m, mins m k s]. 0 <= n < len (items l) -> %s (items l) n m -> k = fst_ (nth (items l) n) -> %s -> %s (items l) (n+1) (mins m k s)' % (P, P, F, P))
        u.lemma(P + '_k', 'forall l m k [%s (items l) (len (items l)) m, %s l m k]. %s (items l) (len (items l)) m -> (%s l m k by mget l k = None \\/ (0 <= item_idx l k < len (items l) /\\ nth (items l) (item_idx l k) = (k, the (mget l k))))' % (P, Q, P, Q))
        u.lemma(P + '_e', 'forall e l m [%s (items l) (len (items l)) m, view e]. view e = VMap l -> %s (items l) (len (items l)) m -> %s e m' % (P, P, D))
    V, ST, B = ('vec', ('str',)), ('str',), ('bool',)
    HT = ('int', 8, False)
    for q in ('HashFunction', 'HashFunction::Type'):
        u.extra_types[q] = HT
    u.enums.update(GitSHA1=0, PlainSHA256=1)
    u.abst(['Hasher'], 'sha_state')
    for q in ('Hasher::HashDigest', 'HashDigest'):
        u.extra_types[q] = ST
    u.abst(['ArtifactDescription'], 'artifact')
    u.extra_types['ActionDescription::outputs_t'] = V
    u.extra_types['outputs_t'] = V
    u.extra_types['ActionDescription::inputs_t'] = ('umap', ST, ('abs', 'artifact'))
    SM = ('map', ST, ST)
    u.rec('Action', 'action', [('id_', 'a_id', ST), ('command_', 'a_command', V), ('cwd_', 'a_cwd', ST), ('env_', 'a_env', SM), ('is_tree_', 'a_tree', B), ('is_tree_overlay_', 'a_overlay', B),
                               ('overlay_disjoint_', 'a_disjoint', B), ('may_fail_', 'a_mf', ('opt', ST)), ('no_cache_', 'a_nc', B), ('timeout_scale_', 'a_ts', ('float',)), ('execution_properties_', 'a_props', SM)])
    u.rec(['ActionDescription', 'ActionDescription::Ptr'], 'adesc', [('output_files_', 'd_files', V), ('output_dirs_', 'd_dirs', V), ('action_', 'd_action', ('rec', 'action')), ('inputs_', 'd_inputs', ('umap', ST, ('abs', 'artifact')))])
    for m in ('is_tree_', 'is_tree_overlay_', 'overlay_disjoint_', 'no_cache_'):
        u.fieldinits[('action', m)] = 'false'
    op = lambda sym, t: (lambda tr, x, args, n: tr.app(sym, [x] + [tr.E(a) for a in args], t, True))
    u.methods[('int', 'MakeHasher')] = op('h_make', ('abs', 'sha_state'))
    u.methods[('int', 'PlainHashData')] = op('h_plain', ST)
    u.methods[('sha_state', 'Update')] = lambda tr, x, args, n: X(x.lv.write(tr.app('h_update', [X(x.lv.read(), x.ty), tr.E(args[0])], x.ty).code), ('unit',), True)
    u.extern('Finalize', 'h_final', ST, of='sha_state')
    u.methods[('str', 'HexString')] = op('h_hex', ST)
    u.methods[('str', 'Bytes')] = lambda tr, x, args, n: x
    for k in ('vec', 'map'):
        u.methods[(k, 'get')] = lambda tr, x, args, n: x
    EX = 'src/buildtool/build_engine/expression/expression.cpp'
    u.rec(['TargetResult', 'result_t', 'Expression::result_t'], 'target_result', [('artifact_stage', 'tr_stage', ('expr',)), ('provides', 'tr_prov', ('expr',)), ('runfiles', 'tr_run', ('expr',)), ('is_cacheable', 'tr_cach', B)])
    u.abst(['TargetNode'], 'target_node')
    u.rec(['TargetNode::Abstract', 'Abstract'], 'abstract_node', [('node_type', 'an_type', ST), ('string_fields', 'an_str', ('expr',)), ('target_fields', 'an_tgt', ('expr',))])
    u.extern('IsValue', 'n_is_value', B, of='target_node')
    u.extern('GetValue', 'n_value', ('expr',), of='target_node')
    u.extern('GetAbstract', 'n_abstract', ('rec', 'abstract_node'), of='target_node')
    u.fn('Expression::ComputeHash', EX, contract='requires { view e <> VNull }\n    ensures { result = hash_of e }', filter='Expression::ComputeHash', this=[('e', 'e', ('expr',), False)], thisval=('e', ('expr',)), why='computeHash',
         loops={1: dict(inv=['$hasher<sha_state>.fed = cat B"[" (lhashes sq1 it1)']), 2: dict(inv=['$hasher<sha_state>.fed = cat B"{" (mhashes sq2 it2)'])})
    eight = lambda d: len([c for c in d['inner'] if c['kind'] == 'ParmVarDecl']) == 8
    four = lambda d: len([c for c in d['inner'] if c['kind'] == 'ParmVarDecl']) == 4
    u.fn('Action::Action', S, contract='ensures { result.a_id = p1 /\\ result.a_command = p2 /\\ result.a_cwd = p3 /\\ result.a_env = p4 /\\ result.a_mf = p5 /\\ result.a_nc = p6 /\\ result.a_ts = p7 /\\ result.a_props = p8 /\\ result.a_tree = false /\\ result.a_overlay = false }',
         filter='Action::Action', rtype=('rec', 'action'), why='mk_action', pick=eight)
    u.fn('ActionDescription::ActionDescription', S, contract='ensures { result = { d_files = p1; d_dirs = p2; d_action = p3; d_inputs = p4 } }', filter='ActionDescription::ActionDescription', rtype=('rec', 'adesc'), why='mk_adesc', pick=four)
    u.fn('hash_vector', S, contract='ensures { result = hvec p2 }', filter='hash_vector', loops={1: dict(inv=['$hasher<sha_state>.fed = hashes sq1 it1'])})
    u.fn('BuildMaps::Target::Utils::createAction', S, contract='''ensures { result.d_files = p1 /\\ result.d_dirs = p2 /\\ art_map p10 result.d_inputs }
    ensures { let a = result.d_action in a.a_id = hex (sha (enc p1 p2 p3 p4 p5 p6 p7 p8 p9 p10)) /\\ a.a_command = p3 /\\ a.a_cwd = p4 /\\ str_map p5 a.a_env
      /\\ a.a_mf = p6 /\\ a.a_nc = p7 /\\ a.a_ts = p8 /\\ str_map p9 a.a_props /\\ not a.a_tree /\\ not a.a_overlay }
    raises { Cxx -> not (str_vals p5 /\\ str_vals p9 /\\ art_vals p10) }''', filter='BuildMaps::Target::Utils::createAction', why='createAction',
         loops={1: dict(inv=['strs_to sq1 it1 $env_vars<fmap str str>']), 2: dict(inv=['strs_to sq2 it2 $execution_properties<fmap str str>']), 3: dict(inv=['arts_to sq3 it3 $inputs<fmap str artifact>'])})
    w = Unit('ActionId', use='Expr')
    w.spec(SPEC)
    w.spec(IDSPEC)
    x = Unit('ValueHash', use='Expr')
    x.spec(SPEC)
    x.spec(IDSPEC)
    x.spec(DECIDE)
    y = Unit('Equality', use='Expr')
    y.spec(EQ)
    y.eqfun['expr'] = 'e_eq'
    y.rec(['TargetResult'], 'target_result', [('artifact_stage', 'tr_stage', ('expr',)), ('provides', 'tr_prov', ('expr',)), ('runfiles', 'tr_run', ('expr',)), ('is_cacheable', 'tr_cach', B)])
    y.rec(['TargetNode::Abstract', 'Abstract'], 'abstract_node', [('node_type', 'an_type', ST), ('string_fields', 'an_str', ('expr',)), ('target_fields', 'an_tgt', ('expr',))])
    NV = ('abs', 'nview')
    y.extra_types['std::variant<Value, Abstract>'] = NV
    y.rec(['TargetNode'], 'target_node', [('data_', 'tn_data', NV), ('is_cacheable_', 'tn_cach', B)])
    y.methods[('nview', 'index')] = lambda tr, x, args, n: tr.app('n_index', [x], ('int', 64, False), True)
    for m, sym, t in (('IsValue', 'n_is_value', B), ('GetValue', 'n_value', ('expr',)), ('GetAbstract', 'n_abstract', ('rec', 'abstract_node'))):
        y.extern(m, sym, t, of='target_node')
        y.thiscalls[m] = lambda tr, args, n, sym=sym, t=t: tr.app(sym, [X('{ tn_data = d; tn_cach = false }', ('rec', 'target_node'))], t, True)
    y.fn('TargetNode::operator==', N, contract='ensures { result <-> node_eq d p1.tn_data }', filter='TargetNode::operator==', this=[('data_', 'd', NV, False)], why='node_eq_')
    y.fn('TargetResult::operator==', R, contract='ensures { result <-> res_eq { tr_stage = st; tr_prov = pr; tr_run = ru; tr_cach = true } p1 }', filter='TargetResult::operator==', this=[('artifact_stage', 'st', ('expr',), False), ('provides', 'pr', ('expr',), False), ('runfiles', 'ru', ('expr',), False)], why='result_eq_')
    return [u, w, x, y]
