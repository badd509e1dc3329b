from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn
SOURCES = [EV]
HARNESS = harness(2)
ASSUMPTIONS = ASSUME
RULE = 'random well-typed programs whose root is a conditional, logical, comparison, assertion or context built-in, compared with an independent reference interpreter (failing sub-expressions included, to observe which operands are evaluated)'

SPEC = r'''
  (* the documented notion of being logically true *)
  predicate truth (v: expr) = match view v with VNone -> false | VBool b -> b | VNum x -> x <> num_of_int 0
    | VStr s -> len s > 0 | VList l -> len l > 0 | VMap m -> m <> mempty | _ -> true end
  (* entries before n evaluate, to true values (tt) resp. false ones (ff) *)
  predicate tt (l: seq expr) (c: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok (nth l i) c /\ truth (eval_res (nth l i) c)
  predicate ff (l: seq expr) (c: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok (nth l i) c /\ not (truth (eval_res (nth l i) c))
  predicate tv (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> truth (nth l i)
  predicate fv (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> not (truth (nth l i))
  predicate and_true (l: seq expr) (c: expr) = tt l c (len l)
  predicate and_false (l: seq expr) (c: expr) = exists n. 0 <= n < len l /\ tt l c n /\ eval_ok (nth l n) c /\ not (truth (eval_res (nth l n) c))
  predicate and_err (l: seq expr) (c: expr) = exists n. 0 <= n < len l /\ tt l c n /\ not (eval_ok (nth l n) c)
  predicate or_false (l: seq expr) (c: expr) = ff l c (len l)
  predicate or_true (l: seq expr) (c: expr) = exists n. 0 <= n < len l /\ ff l c n /\ eval_ok (nth l n) c /\ truth (eval_res (nth l n) c)
  predicate or_err (l: seq expr) (c: expr) = exists n. 0 <= n < len l /\ ff l c n /\ not (eval_ok (nth l n) c)
  predicate all_true (l: seq expr) = tv l (len l)
  predicate any_true (l: seq expr) = exists n. 0 <= n < len l /\ truth (nth l n)
  (* guard/value pairs *)
  predicate is_pair (e: expr) = is_list_v e /\ len (list_v e) = 2
  function p1st (e: expr) : expr = nth (list_v e) 0
  function p2nd (e: expr) : expr = nth (list_v e) 1
  (* the guards before n are evaluated, to false values *)
  predicate skipped (l: seq expr) (c: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_pair (nth l i) /\ eval_ok (p1st (nth l i)) c /\ not (truth (eval_res (p1st (nth l i)) c))
  predicate taken (l: seq expr) (c: expr) (n: int) = 0 <= n < len l /\ skipped l c n /\ is_pair (nth l n) /\ eval_ok (p1st (nth l n)) c /\ truth (eval_res (p1st (nth l n)) c)
  predicate skipped_eq (l: seq expr) (v c: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_pair (nth l i) /\ eval_ok (p1st (nth l i)) c /\ eval_res (p1st (nth l i)) c <> v
  predicate taken_eq (l: seq expr) (v c: expr) (n: int) = 0 <= n < len l /\ skipped_eq l v c n /\ is_pair (nth l n) /\ eval_ok (p1st (nth l n)) c /\ eval_res (p1st (nth l n)) c = v
  function elist : expr = mk_list empty
'''


def units():
    u = Unit('Truth')
    u.spec(SPEC)
    fn(u, 'ValueIsTrue', 'ensures { result <-> truth p1 }')
    fn(u, 'Not', 'ensures { result = mk_bool (not (truth p1)) }', why='not_')
    fn(u, 'All', '''
    raises { Cxx -> not (is_list_v p1) }
    ensures { is_list_v p1 /\\ (all_true (list_v p1) -> result = mk_bool true) /\\ (not (all_true (list_v p1)) -> result = mk_bool false) }
''', why='all_', loops={1: dict(inv=['tv sq1 it1'])})
    fn(u, 'Any', '''
    raises { Cxx -> not (is_list_v p1) }
    ensures { is_list_v p1 /\\ (any_true (list_v p1) -> result = mk_bool true) /\\ (not (any_true (list_v p1)) -> result = mk_bool false) }
''', why='any_', loops={1: dict(inv=['fv sq1 it1'])})
    a = 'field p1 L"$1"'
    for nm, T, F, tt, k0 in (('And', 'and_true', 'and_false', 'tt', 'true'), ('Or', 'or_true', 'or_false', 'ff', 'false')):
        lo = nm.lower()
        one = '(Some x)'
        fn(u, 'Logical' + nm, f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match {a} with None -> false | Some x -> not (is_list_v x) \\/ {lo}_err (list_v x) p2 end }}
    ensures {{ match {a} with None -> result = mk_bool {k0} | Some x -> is_list_v x /\\
        (({T} (list_v x) p2 /\\ result = mk_bool true) \\/ ({F} (list_v x) p2 /\\ result = mk_bool false)) end }}
''', loops={1: dict(inv=[f'{tt} sq1 p2 it1'])})
        v = {'And': 'all_true', 'Or': 'any_true'}[nm]
        fn(u, nm + 'Expr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match {a} with None -> false | Some x ->
        (is_list_v x /\\ {lo}_err (list_v x) p2) \\/ (not (is_list_v x) /\\ (not (eval_ok x p2) \\/ not (is_list_v (eval_res x p2)))) end }}
    ensures {{ match {a} with None -> result = mk_bool {k0} | Some x ->
        if is_list_v x then ({T} (list_v x) p2 /\\ result = mk_bool true) \\/ ({F} (list_v x) p2 /\\ result = mk_bool false)
        else eval_ok x p2 /\\ is_list_v (eval_res x p2) /\\ (({v} (list_v (eval_res x p2)) /\\ result = mk_bool true) \\/ (not ({v} (list_v (eval_res x p2))) /\\ result = mk_bool false)) end }}
''')
    d = Unit('Branches')
    d.spec(SPEC)
    d.lemma('skipped_s', 'forall l c n [skipped l c n]. skipped l c n -> 0 <= n -> is_pair (nth l n) -> eval_ok (p1st (nth l n)) c -> not (truth (eval_res (p1st (nth l n)) c)) -> skipped l c (n+1)')
    d.lemma('skipped_eq_s', 'forall l v c n [skipped_eq l v c n]. skipped_eq l v c n -> 0 <= n -> is_pair (nth l n) -> eval_ok (p1st (nth l n)) c -> eval_res (p1st (nth l n)) c <> v -> skipped_eq l v c (n+1)')
    fn(d, 'ValueIsTrue', 'ensures { result <-> truth p1 }')
    c = 'fres p1 L"cond" p2'
    sel = f'(if truth ({c}) then dflt p1 L"then" elist else dflt p1 L"else" elist)'
    fn(d, 'IfExpr', f'''
    raises {{ Cxx -> not (fok p1 L"cond" p2) \\/ not (eval_ok {sel} p2) }}
    ensures {{ fok p1 L"cond" p2 /\\ eval_ok {sel} p2 /\\ result = eval_res {sel} p2 }}
''')
    df = 'dflt p1 L"default" elist'
    fn(d, 'CondExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match field p1 L"cond" with
       | None -> not (eval_ok ({df}) p2)
       | Some x -> not (is_list_v x)
          \\/ (exists n. 0 <= n < len (list_v x) /\\ skipped (list_v x) p2 n /\\ (not (is_pair (nth (list_v x) n)) \\/ not (eval_ok (p1st (nth (list_v x) n)) p2)))
          \\/ (exists n. taken (list_v x) p2 n /\\ not (eval_ok (p2nd (nth (list_v x) n)) p2))
          \\/ (skipped (list_v x) p2 (len (list_v x)) /\\ not (eval_ok ({df}) p2)) end }}
    ensures {{ match field p1 L"cond" with
       | None -> eval_ok ({df}) p2 /\\ result = eval_res ({df}) p2
       | Some x -> is_list_v x /\\
          ((exists n. taken (list_v x) p2 n /\\ eval_ok (p2nd (nth (list_v x) n)) p2 /\\ result = eval_res (p2nd (nth (list_v x) n)) p2)
           \\/ (skipped (list_v x) p2 (len (list_v x)) /\\ eval_ok ({df}) p2 /\\ result = eval_res ({df}) p2)) end }}
''', loops={1: dict(inv=['skipped sq1 p2 it1'])})
    e = 'fres p1 L"expr" p2'
    oke = f'(fok p1 L"expr" p2 /\\ is_str_v ({e}))'
    br = f'(match field x (str_v ({e})) with Some y -> y | None -> {df} end)'
    fn(d, 'CaseExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match field p1 L"case" with
       | None -> not (eval_ok ({df}) p2)
       | Some x -> not (is_map_v x) \\/ not {oke} \\/ not (eval_ok {br} p2) end }}
    ensures {{ match field p1 L"case" with
       | None -> eval_ok ({df}) p2 /\\ result = eval_res ({df}) p2
       | Some x -> is_map_v x /\\ {oke} /\\ eval_ok {br} p2 /\\ result = eval_res {br} p2 end }}
''')
    fn(d, 'SeqCaseExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match field p1 L"case" with
       | None -> not (eval_ok ({df}) p2)
       | Some x -> not (is_list_v x) \\/ not (fok p1 L"expr" p2) \\/ not (is_cacheable ({e}))
          \\/ (exists n. 0 <= n < len (list_v x) /\\ skipped_eq (list_v x) ({e}) p2 n /\\ (not (is_pair (nth (list_v x) n)) \\/ not (eval_ok (p1st (nth (list_v x) n)) p2)))
          \\/ (exists n. taken_eq (list_v x) ({e}) p2 n /\\ not (eval_ok (p2nd (nth (list_v x) n)) p2))
          \\/ (skipped_eq (list_v x) ({e}) p2 (len (list_v x)) /\\ not (eval_ok ({df}) p2)) end }}
    ensures {{ match field p1 L"case" with
       | None -> eval_ok ({df}) p2 /\\ result = eval_res ({df}) p2
       | Some x -> is_list_v x /\\ fok p1 L"expr" p2 /\\ is_cacheable ({e}) /\\
          ((exists n. taken_eq (list_v x) ({e}) p2 n /\\ eval_ok (p2nd (nth (list_v x) n)) p2 /\\ result = eval_res (p2nd (nth (list_v x) n)) p2)
           \\/ (skipped_eq (list_v x) ({e}) p2 (len (list_v x)) /\\ eval_ok ({df}) p2 /\\ result = eval_res ({df}) p2)) end }}
''', loops={1: dict(inv=[f'skipped_eq sq1 ({e}) p2 it1'])})
    a, b = 'fres p1 L"$1" p2', 'fres p1 L"$2" p2'
    okq = f'(fok p1 L"$1" p2 /\\ fok p1 L"$2" p2 /\\ is_cacheable ({a}) /\\ is_cacheable ({b}))'
    fn(d, 'EqualExpr', f'''
    raises {{ Cxx -> not {okq} }}
    ensures {{ {okq} /\\ (({a}) = ({b}) -> result = mk_bool true) /\\ (({a}) <> ({b}) -> result = mk_bool false) }}
''')
    w = Unit('Asserts')
    w.spec(SPEC)
    fn(w, 'ValueIsTrue', 'ensures { result <-> truth p1 }')
    fn(w, 'FailExpr', 'raises { Cxx -> true }\n    ensures { false }')
    var = 'dflt p1 L"var" (mk_str L"_")'
    en = f'(c_update p2 (str_v ({var})) ({a}))'
    oka = f'(fok p1 L"$1" p2 /\\ fok p1 L"predicate" {en} /\\ is_str_v ({var}) /\\ truth (fres p1 L"predicate" {en}))'
    fn(w, 'AssertExpr', f'''
    raises {{ Cxx -> not {oka} }}
    ensures {{ {oka} /\\ result = {a} }}
''')
    ne = f'(fok p1 L"$1" p2 /\\ match view ({a}) with VStr s -> len s > 0 | VList l -> len l > 0 | VMap m -> m <> mempty | _ -> false end)'
    fn(w, 'AssertNonEmptyExpr', f'''
    raises {{ Cxx -> not {ne} }}
    ensures {{ {ne} /\\ result = {a} }}
''')
    fn(w, 'ContextExpr', '''
    raises { Cxx -> not (fok_d p1 L"$1" e_none p2) }
    ensures { fok_d p1 L"$1" e_none p2 /\\ result = fres_d p1 L"$1" e_none p2 }
''')
    fn(w, 'QuoteExpr', '''
    requires { is_obj p1 }
    ensures { match field p1 L"$1" with Some x -> result = x | None -> result = e_none end }
''')
    return [u, d, w]
