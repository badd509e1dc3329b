from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn
SOURCES = [EV, 'src/utils/cpp/path.hpp']
HARNESS = harness(5)
ASSUMPTIONS = ASSUME + ['std::filesystem::path operations (lexically_normal, lexically_relative, parent_path, filename, /, begin) are uninterpreted functions of the path text in the proof; the bounded harness compares with an independent component-wise implementation']
RULE = 'random programs whose root is to_subdir or from_subdir over maps with nested, redundant, upwards and conflicting paths, compared with an independent component-wise reference'

SPEC = r'''
  predicate truth (v: expr) = match view v with VNone -> false | VBool b -> b | VNum x -> x <> num_of_int 0
    | VStr s -> len s > 0 | VList l -> len l > 0 | VMap m -> m <> mempty | _ -> true end
  function elist : expr = mk_list empty
  function dot : str = B"."
  (* normal form without trailing slash *)
  function strip (n: str) : str = if path_has_filename n then n else path_parent n
  function normal (p: str) : str = if strip (path_norm p) = empty then dot else strip (path_norm p)
  predicate nonup (p: str) = not (path_is_abs p) /\ path_first (path_norm p) <> B".."
  (* where the entry for k goes *)
  function target (f: bool) (s k: str) : str
  axiom target_def : forall f s k. target f s k = normal (path_app s (if f then path_filename k else k))
  function placed (l: seq (str, expr)) (f: bool) (s: str) (n: int) (k: str) : option expr
  axiom placed_0 : forall l f s k. placed l f s 0 k = None
  axiom placed_s : forall l f s n k [placed l f s (n+1) k]. 0 <= n -> placed l f s (n+1) k =
    if k = target f s (fst_ (nth l n)) then Some (snd_ (nth l n)) else placed l f s n k
  predicate is_placed (r: fmap str expr) (l: seq (str, expr)) (f: bool) (s: str) (n: int) = forall k [mget r k]. mget r k = placed l f s n k
  (* entry i does not clash with an earlier one *)
  predicate fits1 (l: seq (str, expr)) (f: bool) (s: str) (i: int) =
    match placed l f s i (target f s (fst_ (nth l i))) with None -> true | Some v -> v = snd_ (nth l i) /\ is_cacheable v end
  predicate fits (l: seq (str, expr)) (f: bool) (s: str) (n: int) = forall i [nth l i]. 0 <= i < n -> fits1 l f s i
  (* from_subdir *)
  function rel (s k: str) : str = normal (path_relative (normal k) s)
  predicate kept (s k: str) = nonup (rel s k) /\ normal (path_app s (rel s k)) = normal k
  function taken (l: seq (str, expr)) (s: str) (n: int) (k: str) : option expr
  axiom taken_0 : forall l s k. taken l s 0 k = None
  axiom taken_s : forall l s n k [taken l s (n+1) k]. 0 <= n -> taken l s (n+1) k =
    if kept s (fst_ (nth l n)) /\ k = rel s (fst_ (nth l n)) then Some (snd_ (nth l n)) else taken l s n k
  predicate is_taken (r: fmap str expr) (l: seq (str, expr)) (s: str) (n: int) = forall k [mget r k]. mget r k = taken l s n k
  predicate tfits1 (l: seq (str, expr)) (s: str) (i: int) = kept s (fst_ (nth l i)) ->
    match taken l s i (rel s (fst_ (nth l i))) with None -> true | Some v -> v = snd_ (nth l i) /\ is_cacheable v end
  predicate tfits (l: seq (str, expr)) (s: str) (n: int) = forall i [nth l i]. 0 <= i < n -> tfits1 l s i
'''


def units():
    u = Unit('Subdir')
    u.spec(SPEC)
    u.lemma('fits_s', 'forall l f s n [fits l f s n]. fits l f s n -> 0 <= n -> fits1 l f s n -> fits l f s (n+1)')
    u.lemma('tfits_s', 'forall l s n [tfits l s n]. tfits l s n -> 0 <= n -> tfits1 l s n -> tfits l s (n+1)')
    u.lemma('placed_set', 'forall r l f s n k v [is_placed r l f s n, mset r k v]. is_placed r l f s n -> 0 <= n < len l -> k = target f s (fst_ (nth l n)) -> v = snd_ (nth l n) -> is_placed (mset r k v) l f s (n+1)')
    u.lemma('placed_ins', 'forall r l f s n k v [is_placed r l f s n, mins r k v]. is_placed r l f s n -> 0 <= n < len l -> k = target f s (fst_ (nth l n)) -> v = snd_ (nth l n) -> fits1 l f s n -> is_placed (mins r k v) l f s (n+1)')
    u.lemma('taken_ins', 'forall r l s n k v [is_taken r l s n, mins r k v]. is_taken r l s n -> 0 <= n < len l -> kept s (fst_ (nth l n)) -> k = rel s (fst_ (nth l n)) -> v = snd_ (nth l n) -> tfits1 l s n -> is_taken (mins r k v) l s (n+1)')
    u.lemma('taken_skip', 'forall r l s n [is_taken r l s n]. is_taken r l s n -> 0 <= n < len l -> not (kept s (fst_ (nth l n))) -> is_taken r l s (n+1)')
    fn(u, 'ValueIsTrue', 'ensures { result <-> truth p1 }')
    u.fn('ToNormalPath', EV, contract='ensures { result = normal p1 }')
    u.fn('PathIsNonUpwards', EV, contract='ensures { result <-> nonup p1 }')
    D, S, F = 'fres p1 L"$1" p2', 'fres_d p1 L"subdir" (mk_str dot) p2', 'fres_d p1 L"flat" (mk_bool false) p2'
    L, T, B = f'(items (map_v ({D})))', f'(str_v ({S}))', f'(if truth ({F}) then true else false)'
    ok = f'(fok p1 L"$1" p2 /\\ fok_d p1 L"subdir" (mk_str dot) p2 /\\ fok_d p1 L"flat" (mk_bool false) p2 /\\ is_str_v ({S}) /\\ is_map_v ({D}))'
    fn(u, 'ToSubdirExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> not {ok} \\/ not (fits {L} {B} {T} (len {L})) }}
    ensures {{ {ok} /\\ fits {L} {B} {T} (len {L}) /\\ is_map_v result /\\ is_placed (map_v result) {L} {B} {T} (len {L}) }}
''', loops={1: dict(inv=[f'fits sq1 true {T} it1', f'is_placed $result<fmap str expr> sq1 true {T} it1']),
            2: dict(inv=[f'fits sq2 false {T} it2', f'is_placed $result<fmap str expr> sq2 false {T} it2'])})
    S = 'fres_d p1 L"subdir" (mk_str dot) p2'
    T = f'(normal (str_v ({S})))'
    ok = f'(fok p1 L"$1" p2 /\\ fok_d p1 L"subdir" (mk_str dot) p2 /\\ is_str_v ({S}) /\\ is_map_v ({D}))'
    fn(u, 'FromSubdirExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> not {ok} \\/ not (tfits {L} {T} (len {L})) }}
    ensures {{ {ok} /\\ tfits {L} {T} (len {L}) /\\ is_map_v result /\\ is_taken (map_v result) {L} {T} (len {L}) }}
''', loops={1: dict(inv=[f'tfits sq1 {T} it1', f'is_taken $result<fmap str expr> sq1 {T} it1'])})
    return [u]
