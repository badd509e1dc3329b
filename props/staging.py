from cxx2why.unit import Unit
from props.evalcommon import REPO_SRC
S = 'src/buildtool/build_engine/target_map/utils.cpp'
SOURCES = [S, 'src/utils/cpp/path.hpp']
HARNESS = dict(src='h_staging.cpp', repo=REPO_SRC + [S], quick_s=10, thorough_s=120, hunt_s=60)
RULE = 'random stages over few path components (redundant, upwards, absolute, nested, with characters sorting before "/"), working directories near the paths of the stage, and random taint lists; compared with component-wise definitions'
ASSUMPTIONS = [
    'std::filesystem::path is described by its components; for relative paths without redundant separators the parent drops the last component, and a path above another one sorts before it (assumed laws, checked in the bounded harness)',
    'Expression::Evaluate is a deterministic function of expression and configuration (its result for "tainted" is any value)',
    'the keys given to tree_conflict are normalised (relative ones have no redundant separators); working directories and stage paths given to add_dir_for are relative',
    'the empty tree created is identified by its content (Tree::Id)']
SPEC = r'''
  constant dot : str = B"."
  constant dotdot : str = B".."
  function strip (n: str) : str = if path_has_filename n then n else path_parent n
  function normal (p: str) : str = if strip (path_norm p) = empty then dot else strip (path_norm p)
  (* what the first n entries, moved to their normalised paths, bind at path k; the first one counts *)
  function placed (l: seq (str, expr)) (n: int) (k: str) : option expr
  axiom placed_0 : forall l k. placed l 0 k = None
  axiom placed_s : forall l n k [placed l (n+1) k]. 0 <= n -> placed l (n+1) k =
    if k = normal (fst_ (nth l n)) then Some (snd_ (nth l n)) else placed l n k
  predicate is_placed (r: fmap str expr) (l: seq (str, expr)) (n: int) = forall k [mget r k]. mget r k = placed l n k
  predicate fits1 (l: seq (str, expr)) (i: int) =
    match placed l i (normal (fst_ (nth l i))) with None -> true | Some v -> v = snd_ (nth l i) end
  predicate fits (l: seq (str, expr)) (n: int) = forall i [nth l i]. 0 <= i < n -> fits1 l i

  (* relative paths without redundant separators *)
  predicate plain (p: str)
  axiom plain_comps : forall p [plain p]. plain p -> p <> empty /\ not (path_is_abs p) /\ 0 < len (path_comps p)
  axiom comps_empty : path_comps (empty : str) = empty
  axiom plain_parent : forall p [path_parent p]. plain p -> path_comps (path_parent p) = init (path_comps p) /\
    (path_parent p = empty \/ plain (path_parent p))
  axiom plain_eq : forall p q [path_comps p, path_comps q]. plain p -> plain q -> path_comps p = path_comps q -> p = q
  (* a lies properly above k *)
  predicate above (a k: str) = len (path_comps a) < len (path_comps k) /\ path_comps a = sub (path_comps k) 0 (len (path_comps a))
  axiom above_lt : forall a k [above a k]. plain a -> plain k -> above a k -> str_lt a k
  predicate stray (k: str) = path_is_abs k \/ path_first k = dotdot
  predicate key (m: fmap str expr) (k: str) = mget m k <> None
  predicate clean (m: fmap str expr) = (forall k [mget m k]. key m k -> not (stray k)) /\
    (key m dot -> msize m <= 1) /\ (forall a k [mget m a, mget m k]. key m a -> key m k -> not (above a k))
  (* the first n keys are fine *)
  predicate cleanto (l: seq (str, expr)) (n: int) = (forall i [nth l i]. 0 <= i < n -> not (stray (fst_ (nth l i)))) /\
    (forall i j [nth l i, nth l j]. 0 <= i < j < n -> not (above (fst_ (nth l i)) (fst_ (nth l j))))
  predicate nodot (l: seq (str, expr)) (n: int) = forall i [nth l i]. 0 <= i < n -> fst_ (nth l i) <> dot
  predicate blocked (b: fset str) (l: seq (str, expr)) (n: int) = forall p [smem p b]. smem p b <-> exists i. 0 <= i < n /\ p = fst_ (nth l i)
  (* p is k or one of the paths above *)
  predicate onway (p k: str) = len (path_comps p) <= len (path_comps k) /\ path_comps p = sub (path_comps k) 0 (len (path_comps p))
  (* nothing in b is above k with more components than p *)
  predicate free (b: fset str) (k p: str) = forall a [smem a b]. smem a b -> plain a -> above a k -> len (path_comps a) <= len (path_comps p)
  (* x is k or one of the directories above *)
  axiom parent_shorter : forall p [path_parent p]. p <> empty -> not (path_is_abs p) -> len (path_parent p) < len p /\ not (path_is_abs (path_parent p))
  predicate reach (x k: str)
  axiom reach_def : forall x k [reach x k, path_parent k]. not (path_is_abs k) -> (reach x k <-> k <> empty /\ (k = x \/ reach x (path_parent k)))
  axiom reach_empty : forall x [reach x empty]. not (reach x empty)
  predicate near (cwd k: str) = k = empty \/ k = dot \/ reach k cwd \/ reach cwd k
  predicate apart (l: seq (str, expr)) (cwd: str) (n: int) = forall i [nth l i]. 0 <= i < n -> not (near cwd (fst_ (nth l i)))
  predicate relatives (l: seq (str, expr)) = forall i [nth l i]. 0 <= i < len l -> not (path_is_abs (fst_ (nth l i)))
  (* taints *)
  predicate strs (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_str_v (nth l i)
  predicate adds (s t: fset str) (l: seq expr) (n: int) = forall x [smem x t]. smem x t <-> smem x s \/ exists i. 0 <= i < n /\ str_v (nth l i) = x
  predicate keeps (s t: fset str) = forall x [smem x s]. smem x s -> smem x t
  predicate nonabove (l: seq (str, expr)) (n: int) (k: str) = forall i [nth l i]. 0 <= i < n -> not (above (fst_ (nth l i)) k)
  predicate plainto (l: seq (str, expr)) (n: int) = forall i [nth l i]. 0 <= i < n -> plain (fst_ (nth l i))
  predicate keylist (r: seq expr) (l: seq (str, expr)) (n: int) = len r = n /\ forall i [nth r i]. 0 <= i < n -> nth r i = mk_str (fst_ (nth l i))
  predicate plains (m: fmap str expr) = forall k [mget m k]. key m k -> path_is_abs k \/ plain k
'''


def units():
    u = Unit('Staging')
    u.spec(SPEC)
    u.lemma('fits_s', 'forall l n [fits l n]. fits l n -> 0 <= n -> fits1 l n -> fits l (n+1)')
    u.lemma('placed_ins', 'forall r l n k v [is_placed r l n, mins r k v]. is_placed r l n -> 0 <= n < len l -> k = normal (fst_ (nth l n)) -> v = snd_ (nth l n) -> fits1 l n -> is_placed (mins r k v) l (n+1)')
    u.lemma('cleanto_s', 'forall l n [cleanto l n]. cleanto l n -> 0 <= n < len l -> not (stray (fst_ (nth l n))) -> nonabove l n (fst_ (nth l n)) -> cleanto l (n+1)')
    u.lemma('free_end', """forall b k p l n [free b k p, blocked b l n]. free b k p -> p = empty -> blocked b l n -> 0 <= n <= len l -> plainto l n ->
      (nonabove l n k by forall i [nth l i]. 0 <= i < n -> (not (above (fst_ (nth l i)) k) by smem (fst_ (nth l i)) b && plain (fst_ (nth l i)) && 0 < len (path_comps (fst_ (nth l i))) && path_comps p = empty && len (path_comps p) = 0))""")
    u.lemma('blocked_add', """forall b l n k [blocked (sadd k b) l (n+1)]. blocked b l n -> 0 <= n < len l -> k = fst_ (nth l n) -> blocked (sadd k b) l (n+1)""")
    u.lemma('free_start', "forall b k p [free b k p]. plain k -> p = path_parent k -> plain k -> free b k p")
    u.lemma('free_step', "forall b k p [free b k (path_parent p)]. free b k p -> plain p -> plain k -> onway p k -> not (smem p b) -> free b k (path_parent p)")
    u.lemma('nonabove_w', 'forall l n k [nonabove l (n+1) k]. 0 <= n -> nonabove l (n+1) k -> nonabove l n k')
    u.lemma('apart_keys', '''forall m a k [mget m a, mget m k]. cleanto (items m) (len (items m)) -> plainto (items m) (len (items m)) ->
      key m a -> key m k -> (not (above a k) by (0 <= item_idx m a < len (items m) && 0 <= item_idx m k < len (items m) && nth (items m) (item_idx m a) = (a, the (mget m a))
        && nth (items m) (item_idx m k) = (k, the (mget m k)) && plain a && plain k && (above a k -> str_lt a k && item_idx m a < item_idx m k && false)))''')
    u.lemma('clean_end', r"""forall m [clean m]. cleanto (items m) (len (items m)) -> plainto (items m) (len (items m)) ->
      (msize m <= 1 \/ nodot (items m) (len (items m))) -> (clean m by
        (forall k [mget m k]. key m k -> (not (stray k) by nth (items m) (item_idx m k) = (k, the (mget m k)))) &&
        (key m dot -> (msize m <= 1 by nth (items m) (item_idx m dot) = (dot, the (mget m dot)))) &&
        (forall a k [mget m a, mget m k]. key m a -> key m k -> not (above a k)))""")
    u.spec('''
  type tree
  val function tree_id (t: tree) : str
  function tree_name (m: fmap str artifact) : str
  val mk_tree (m: fmap str artifact) : tree ensures { tree_id result = tree_name m }
  val function tree_artifact (id: str) : artifact
''')
    u.abst(['Tree', 'Tree::Ptr'], 'tree')
    u.abst(['ArtifactDescription'], 'artifact')
    u.absexpr['artifact'] = 'mk_art'
    u.absctor['tree'] = lambda tr, cs, n: tr.app('mk_tree', [tr.E(cs[0])], ('abs', 'tree'), True) if len(cs) == 1 and tr.ty(cs[0])[0] == 'umap' else None
    u.extern('Id', 'tree_id', ('str',), of='tree', eff=False)
    u.extern('CreateTree', 'tree_artifact', ('abs', 'artifact'), [0], eff=False)
    L = '(items (map_v p1))'
    u.fn('ToNormalPath', S, contract='ensures { result = normal p1 }', filter='ToNormalPath')
    u.fn('keys_expr', S, contract='''raises { Cxx -> not (is_map_v p1) }
    ensures { is_map_v p1 /\\ is_list_v result /\\ keylist (list_v result) (items (map_v p1)) (len (items (map_v p1))) }''',
         filter='keys_expr', loops={1: dict(inv=['keylist $result<seq expr> sq1 it1'])})
    u.fn('artifacts_tree', S, contract=f'''raises {{ Cxx -> not (is_map_v p1) }}
    ensures {{ is_map_v p1 /\\ match result with
       | In1 loc -> exists i. 0 <= i < len {L} /\\ not (fits1 {L} i) /\\ loc = normal (fst_ (nth {L} i))
       | In2 e -> fits {L} (len {L}) /\\ is_map_v e /\\ is_placed (map_v e) {L} (len {L}) end }}''', filter='artifacts_tree',
         loops={1: dict(inv=['fits sq1 it1', 'is_placed $result<fmap str expr> sq1 it1'])})
    M = '(map_v p1)'
    u.fn('tree_conflict', S, contract=f'''requires {{ is_map_v p1 /\\ plains {M} }}
    ensures {{ match result with None -> clean {M}
      | Some l -> not (clean {M}) /\\ key {M} l /\\ (stray l \\/ l = dot \\/ exists k. key {M} k /\\ above l k) end }}''', filter='tree_conflict',
         loops={1: dict(inv=['cleanto sq1 it1', 'plainto sq1 it1', 'blocked $blocked<fset str> sq1 it1', 'msize (map_v p1) <= 1 \\/ nodot sq1 it1']),
                2: dict(inv=['onway $p<str> $path', 'len (path_comps $p<str>) < len (path_comps $path)', '$p<str> = empty \\/ plain $p<str>', 'free $blocked<fset str> $path $p<str>'],
                        variant='len (path_comps $p<str>)')})
    C = '(mset mempty p1 (mk_art (tree_artifact (tree_name mempty))))'
    u.fn('add_dir_for', S, contract=f'''requires {{ is_map_v p2 /\\ not (path_is_abs p1) /\\ relatives (items (map_v p2)) }}
    ensures {{ if p1 = empty \\/ p1 = dot \\/ not (apart (items (map_v p2)) p1 (len (items (map_v p2)))) then result = p2 /\\ p3 = old p3
      else is_map_v result /\\ map_v result = munion (map_v p2) {C} /\\ len p3 = len (old p3) + 1 /\\ init p3 = old p3 /\\ tree_id (last p3) = tree_name mempty }}''',
         filter='add_dir_for', loops={1: dict(inv=['apart sq1 p1 it1', 'p3 = old p3', '$stage<expr> = p2']),
            2: dict(inv=['not (path_is_abs $c<str>)', 'reach $p<str> p1 <-> reach $p<str> $c<str>'], variant='len $c<str>'),
            3: dict(inv=['not (path_is_abs $p<str>)', 'reach p1 $path <-> reach p1 $p<str>'], variant='len $p<str>')})
    u.spec('''
  function evaluated (e c: expr) : expr
  val e_evaluate (e c: expr) : expr ensures { result = evaluated e c }
''')
    u.methods[('expr', 'Evaluate')] = lambda tr, x, args, n: tr.app('e_evaluate', [x, tr.E(args[0])], ('expr',), True)
    u.absbool['expr'] = 'e_not_null'
    v = '(evaluated p3 p2)'
    good = f'(view p3 <> VNull /\\ is_list_v {v} /\\ strs (list_v {v}) (len (list_v {v})))'
    u.fn('getTainted', S, contract=f'''
    ensures {{ result <-> {good} }}
    ensures {{ result -> adds (old p1) p1 (list_v {v}) (len (list_v {v})) }}
    ensures {{ keeps (old p1) p1 }}''', filter='getTainted', loops={1: dict(inv=['strs sq1 it1', 'adds (old p1) p1 sq1 it1'])})
    return [u]
