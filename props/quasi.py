from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn
SOURCES = [EV]
HARNESS = harness(6)
ASSUMPTIONS = ASSUME
RULE = 'random quasi-quoted terms with nested lists, maps, unquotes and unquote-splices (arguments that are lists, non-lists, failing or absent), compared with an independent reference interpreter'

SPEC = r'''
  (* 1: an unquote, 2: a splicing unquote, 0: neither *)
  function kind (e: expr) : int = match field e L"type" with Some t -> if is_str_v t then (if str_v t = B"," then 1 else if str_v t = B",@" then 2 else 0) else 0 | None -> 0 end
  predicate plain (e: expr) = not (is_list_v e) /\ not (is_map_v e)
  (* expansion in term position (qok: defined, qres: value) and as an entry of a list (lok, lres: the entries it contributes) *)
  predicate qok (e c: expr)
  function qres (e c: expr) : expr
  predicate lok (e c: expr) = if is_map_v e /\ kind e = 2 then match field e L"$1" with None -> true | Some a -> eval_ok a c /\ is_list_v (eval_res a c) end else qok e c
  function lres (e c: expr) : seq expr = if is_map_v e /\ kind e = 2 then match field e L"$1" with None -> empty | Some a -> list_v (eval_res a c) end else snoc empty (qres e c)
  predicate loks (l: seq expr) (c: expr) (n: int)
  axiom loks_def : forall l c n. loks l c n <-> (forall i [nth l i]. 0 <= i < n -> lok (nth l i) c)
  predicate qoks (l: seq (str, expr)) (c: expr) (n: int)
  axiom qoks_def : forall l c n. qoks l c n <-> (forall i [nth l i]. 0 <= i < n -> qok (snd_ (nth l i)) c)
  function flat (l: seq expr) (c: expr) (n: int) : seq expr
  axiom flat_0 : forall l c. flat l c 0 = empty
  axiom flat_s : forall l c n [flat l c (n+1)]. 0 <= n -> flat l c (n+1) = cat (flat l c n) (lres (nth l n) c)
  function qmap (l: seq (str, expr)) (c: expr) (n: int) : fmap str expr
  axiom qmap_0 : forall l c. qmap l c 0 = mempty
  axiom qmap_s : forall l c n [qmap l c (n+1)]. 0 <= n -> qmap l c (n+1) = mset (qmap l c n) (fst_ (nth l n)) (qres (snd_ (nth l n)) c)
  axiom q_plain : forall e c [qres e c|qok e c]. plain e -> qok e c /\ qres e c = e
  axiom q_list : forall e c [qres e c|qok e c]. is_list_v e -> (qok e c <-> loks (list_v e) c (len (list_v e))) /\ qres e c = mk_list (flat (list_v e) c (len (list_v e)))
  axiom q_map : forall e c [qres e c|qok e c]. is_map_v e -> kind e = 0 -> (qok e c <-> qoks (items (map_v e)) c (len (items (map_v e)))) /\ qres e c = mk_map (qmap (items (map_v e)) c (len (items (map_v e))))
  axiom q_unq : forall e c [qres e c|qok e c]. is_map_v e -> kind e = 1 -> match field e L"$1" with None -> qok e c /\ qres e c = e_none | Some a -> (qok e c <-> eval_ok a c) /\ qres e c = eval_res a c end
  axiom q_splice : forall e c [qok e c]. is_map_v e -> kind e = 2 -> not (qok e c)
  (* nesting depth of a value; values are finite *)
  function depth (e: expr) : int
  axiom depth_pos : forall e [depth e]. 0 <= depth e
  axiom depth_list : forall e l i [view e, nth l i]. view e = VList l -> 0 <= i < len l -> depth (nth l i) < depth e
  axiom depth_map : forall e m i [view e, nth (items m) i]. view e = VMap m -> 0 <= i < len (items m) -> depth (snd_ (nth (items m) i)) < depth e
'''


def units():
    u = Unit('Quasi')
    u.spec(SPEC)
    u.lemma('loks_s', 'forall l c n [loks l c n]. loks l c n -> 0 <= n -> lok (nth l n) c -> loks l c (n+1)')
    u.lemma('loks_0', 'forall l c. loks l c 0')
    u.lemma('qoks_s', 'forall l c n [qoks l c n]. qoks l c n -> 0 <= n -> qok (snd_ (nth l n)) c -> qoks l c (n+1)')
    u.lemma('qoks_0', 'forall l c. qoks l c 0')
    u.lemma('loks_not', 'forall l c n i [loks l c n, nth l i]. 0 <= i < n -> not (lok (nth l i) c) -> not (loks l c n)')
    u.lemma('qoks_not', 'forall l c n i [qoks l c n, nth l i]. 0 <= i < n -> not (qok (snd_ (nth l i)) c) -> not (qoks l c n)')
    k = dict(group='qq', decreases='depth p1')
    fn(u, 'ExpandQuasiQuoteListEntry', '''
    raises { Cxx -> not (lok p1 p2) }
    ensures { lok p1 p2 /\\ view result = VList (lres p1 p2) }
''', loops={1: dict(inv=['loks sq1 p2 it1', '$result<seq expr> = flat sq1 p2 it1']), 2: dict(inv=['qoks sq2 p2 it2', '$result<fmap str expr> = qmap sq2 p2 it2'])}, **k)
    fn(u, 'ExpandQuasiQuote', '''
    raises { Cxx -> not (qok p1 p2) }
    ensures { qok p1 p2 /\\ result = qres p1 p2 }
''', loops={1: dict(inv=['loks sq1 p2 it1', '$result<seq expr> = flat sq1 p2 it1']), 2: dict(inv=['qoks sq2 p2 it2', '$result<fmap str expr> = qmap sq2 p2 it2'])}, **k)
    fn(u, 'QuasiQuoteExpr', '''
    requires { is_obj p1 }
    raises { Cxx -> match field p1 L"$1" with None -> false | Some a -> not (qok a p2) end }
    ensures { match field p1 L"$1" with None -> result = e_none | Some a -> qok a p2 /\\ result = qres a p2 end }
''')
    fn(u, 'OnlyInQuasiQuote', 'raises { Cxx -> true }\n    ensures { false }')
    return [u]
