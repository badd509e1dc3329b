from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn
SOURCES = [EV]
HARNESS = harness(3)
ASSUMPTIONS = ASSUME + ['Configuration::Prune is used through its contract; that contract is discharged for the real code by the check of the configuration property', 'which value wins if foreach_map, zip_with or foldl are given the same name for both variables is left open (not documented)']
RULE = 'random well-typed programs whose root is var, let*, env, foreach, foreach_map, zip_with or foldl, compared with an independent reference interpreter (shadowing and colliding variable names included)'

SPEC = r'''
  predicate is_pair (e: expr) = is_list_v e /\ len (list_v e) = 2
  function p1st (e: expr) : expr = nth (list_v e) 0
  function p2nd (e: expr) : expr = nth (list_v e) 1
  function elist : expr = mk_list empty
  function emap : expr = mk_map mempty
  (* let*: the environment after the first n bindings, each evaluated in the environment of those before it *)
  function letenv (l: seq expr) (c: expr) (n: int) : expr
  axiom letenv_0 : forall l c. letenv l c 0 = c
  axiom letenv_s : forall l c n [letenv l c (n+1)]. 0 <= n -> letenv l c (n+1) =
    c_update (letenv l c n) (str_v (p1st (nth l n))) (eval_res (p2nd (nth l n)) (letenv l c n))
  predicate bound (l: seq expr) (c: expr) (n: int) = is_pair (nth l n) /\ is_str_v (p1st (nth l n)) /\ eval_ok (p2nd (nth l n)) (letenv l c n)
  predicate letok (l: seq expr) (c: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> bound l c i
  predicate strs (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_str_v (nth l i)
  (* the environment restricted to the given variables, unset ones being none *)
  predicate pruned (r c: expr) (vs: seq expr) = is_map_v r /\ forall k [mget (map_v r) k].
    ((exists i. 0 <= i < len vs /\ nth vs i = mk_str k) -> mget (map_v r) k = Some (c_get c k)) /\
    ((forall i. 0 <= i < len vs -> nth vs i <> mk_str k) -> mget (map_v r) k = None)
  val c_prune (c vars: expr) : expr
    raises { Cxx -> not (is_list_v vars /\ strs (list_v vars) (len (list_v vars))) }
    ensures { is_list_v vars /\ strs (list_v vars) (len (list_v vars)) /\ pruned result c (list_v vars) }
  (* iteration *)
  predicate each (l: seq expr) (c b: expr) (v: str) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok b (c_update c v (nth l i))
  predicate outs (r l: seq expr) (c b: expr) (v: str) (n: int) = len r = n /\ forall i [nth r i]. 0 <= i < n -> nth r i = eval_res b (c_update c v (nth l i))
  function env2 (c: expr) (v w: str) (x y: expr) : expr = c_update (c_update c v x) w y
  predicate each2 (l m: seq expr) (c b: expr) (v w: str) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok b (env2 c v w (nth l i) (nth m i))
  predicate outs2 (r l m: seq expr) (c b: expr) (v w: str) (n: int) = len r = n /\ forall i [nth r i]. 0 <= i < n -> nth r i = eval_res b (env2 c v w (nth l i) (nth m i))
  predicate eachm (l: seq (str, expr)) (c b: expr) (v w: str) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok b (env2 c v w (mk_str (fst_ (nth l i))) (snd_ (nth l i)))
  predicate outsm (r: seq expr) (l: seq (str, expr)) (c b: expr) (v w: str) (n: int) = len r = n /\
    forall i [nth r i]. 0 <= i < n -> nth r i = eval_res b (env2 c v w (mk_str (fst_ (nth l i))) (snd_ (nth l i)))
  (* left fold *)
  function fenv (c: expr) (v a: str) (x acc: expr) : expr = c_update (c_update c v x) a acc
  function fold (l: seq expr) (c b: expr) (v a: str) (s: expr) (n: int) : expr
  axiom fold_0 : forall l c b v a s. fold l c b v a s 0 = s
  axiom fold_s : forall l c b v a s n [fold l c b v a s (n+1)]. 0 <= n -> fold l c b v a s (n+1) = eval_res b (fenv c v a (nth l n) (fold l c b v a s n))
  predicate foldok (l: seq expr) (c b: expr) (v a: str) (s: expr) (n: int) = forall i [nth l i]. 0 <= i < n -> eval_ok b (fenv c v a (nth l i) (fold l c b v a s i))
'''


def units():
    u = Unit('Let')
    u.spec(SPEC)
    u.lemma('letok_s', 'forall l c n [letok l c n]. letok l c n -> 0 <= n -> bound l c n -> letok l c (n+1)')
    nm = 'fres0'
    var = '(c_get p2 (str_v (dflt p1 L"name" e_none)))'
    okn = 'match field p1 L"name" with Some x -> is_str_v x | None -> false end'
    fn(u, 'VarExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> not ({okn}) \\/ (view {var} = VNone /\\ not (fok_d p1 L"default" e_none p2)) }}
    ensures {{ {okn} /\\ if view {var} = VNone then fok_d p1 L"default" e_none p2 /\\ result = fres_d p1 L"default" e_none p2 else result = {var} }}
''')
    body = 'dflt p1 L"body" emap'
    fn(u, 'LetExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match field p1 L"bindings" with
       | None -> not (eval_ok ({body}) p2)
       | Some x -> not (is_list_v x) \\/ (exists n. 0 <= n < len (list_v x) /\\ letok (list_v x) p2 n /\\ not (bound (list_v x) p2 n))
           \\/ (letok (list_v x) p2 (len (list_v x)) /\\ not (eval_ok ({body}) (letenv (list_v x) p2 (len (list_v x))))) end }}
    ensures {{ match field p1 L"bindings" with
       | None -> eval_ok ({body}) p2 /\\ result = eval_res ({body}) p2
       | Some x -> is_list_v x /\\ letok (list_v x) p2 (len (list_v x)) /\\ eval_ok ({body}) (letenv (list_v x) p2 (len (list_v x)))
           /\\ result = eval_res ({body}) (letenv (list_v x) p2 (len (list_v x))) end }}
''', loops={1: dict(inv=['letok sq1 p2 it1', '$new_env<expr> = letenv sq1 p2 it1'])})
    vs = '(list_v x)'
    fn(u, 'EnvExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> match field p1 L"vars" with None -> false | Some x -> not (is_list_v x /\\ strs {vs} (len {vs})) end }}
    ensures {{ match field p1 L"vars" with None -> result = emap | Some x -> is_list_v x /\\ strs {vs} (len {vs}) /\\ pruned result p2 {vs} end }}
''', loops={1: dict(inv=['strs sq1 it1'])})
    w = Unit('Iterate')
    w.spec(SPEC)
    # other ways to extend an environment by two different variables
    same = lambda a, b: f'meqs (map_of ({a})) (map_of ({b})) && map_of ({a}) = map_of ({b}) && {a} = {b}'
    e2 = 'c_update (c_update c v x) w y'
    w.lemma('env_swap', f'forall c v w x y [c_update (c_update c w y) v x]. v <> w -> ' + same('c_update (c_update c w y) v x', e2))
    w.lemma('env_both', f'forall c v w x y [c_update_map c (mset (mset mempty v x) w y)]. v <> w -> ' + same('c_update_map c (mset (mset mempty v x) w y)', e2))
    w.lemma('env_one', f'forall c v x [c_update_map c (mset mempty v x)]. ' + same('c_update_map c (mset mempty v x)', 'c_update c v x'))
    w.lemma('each_s', 'forall l c b v n [each l c b v n]. each l c b v n -> 0 <= n -> eval_ok b (c_update c v (nth l n)) -> each l c b v (n+1)')
    w.lemma('each2_s', 'forall l m c b v w n [each2 l m c b v w n]. each2 l m c b v w n -> 0 <= n -> eval_ok b (env2 c v w (nth l n) (nth m n)) -> each2 l m c b v w (n+1)')
    w.lemma('eachm_s', 'forall l c b v w n [eachm l c b v w n]. eachm l c b v w n -> 0 <= n -> eval_ok b (env2 c v w (mk_str (fst_ (nth l n))) (snd_ (nth l n))) -> eachm l c b v w (n+1)')
    w.lemma('outs_s', 'forall r l c b v n [outs r l c b v n]. outs r l c b v n -> 0 <= n -> outs (snoc r (eval_res b (c_update c v (nth l n)))) l c b v (n+1)')
    w.lemma('outs2_s', 'forall r l m c b v w n [outs2 r l m c b v w n]. outs2 r l m c b v w n -> 0 <= n -> outs2 (snoc r (eval_res b (env2 c v w (nth l n) (nth m n)))) l m c b v w (n+1)')
    w.lemma('outsm_s', 'forall r l c b v w n [outsm r l c b v w n]. outsm r l c b v w n -> 0 <= n -> outsm (snoc r (eval_res b (env2 c v w (mk_str (fst_ (nth l n))) (snd_ (nth l n))))) l c b v w (n+1)')
    w.lemma('foldok_s', 'forall l c b v a s n [foldok l c b v a s n]. foldok l c b v a s n -> 0 <= n -> eval_ok b (fenv c v a (nth l n) (fold l c b v a s n)) -> foldok l c b v a s (n+1)')
    R = 'fres_d p1 L"range" elist p2'
    L = f'(list_v ({R}))'
    V = '(str_v (dflt p1 L"var" (mk_str L"_")))'
    vok = 'is_str_v (dflt p1 L"var" (mk_str L"_"))'
    B = '(dflt p1 L"body" elist)'
    okr = f'(fok_d p1 L"range" elist p2 /\\ is_list_v ({R}))'
    fn(w, 'ForeachExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> not {okr} \\/ (len {L} > 0 /\\ not ({vok} /\\ each {L} p2 {B} {V} (len {L}))) }}
    ensures {{ {okr} /\\ is_list_v result /\\ len (list_v result) = len {L} }}
    ensures {{ len {L} > 0 -> {vok} /\\ each {L} p2 {B} {V} (len {L}) /\\ outs (list_v result) {L} p2 {B} {V} (len {L}) }}
''', loops={1: dict(inv=[f'it1 > 0 -> {vok}', f'each sq1 p2 {B} {V} it1', f'outs $result<seq expr> sq1 p2 {B} {V} it1'])})
    EM = '(mk_map (mset mempty L"type" (mk_str L"empty_map")))'  # the expression that evaluates to the empty map
    R = f'(fres_d p1 L"range" {EM} p2)'
    M = f'(items (map_v ({R})))'
    K = '(str_v (dflt p1 L"var_key" (mk_str L"_")))'
    W = '(str_v (dflt p1 L"var_val" (mk_str L"\\x24_")))'
    vok2 = 'is_str_v (dflt p1 L"var_key" (mk_str L"_")) /\\ is_str_v (dflt p1 L"var_val" (mk_str L"\\x24_"))'
    okm = f'(fok_d p1 L"range" {EM} p2 /\\ is_map_v ({R}))'
    fn(w, 'ForeachMapExpr', f'''
    requires {{ is_obj p1 }}
    requires {{ {K} <> {W} }}
    raises {{ Cxx -> not {okm} \\/ (len {M} > 0 /\\ not ({vok2} /\\ eachm {M} p2 {B} {K} {W} (len {M}))) }}
    ensures {{ {okm} /\\ is_list_v result /\\ len (list_v result) = len {M} }}
    ensures {{ len {M} > 0 -> {vok2} /\\ eachm {M} p2 {B} {K} {W} (len {M}) /\\ outsm (list_v result) {M} p2 {B} {K} {W} (len {M}) }}
''', loops={1: dict(inv=[f'it1 > 0 -> {vok2}', f'eachm sq1 p2 {B} {K} {W} it1', f'outsm $result<seq expr> sq1 p2 {B} {K} {W} it1'])})
    A1, A2 = 'fres_d p1 L"range_1" elist p2', 'fres_d p1 L"range_2" elist p2'
    L1, L2 = f'(list_v ({A1}))', f'(list_v ({A2}))'
    N = f'(imin (len {L1}) (len {L2}))'
    V1, V2 = '(str_v (dflt p1 L"var_1" (mk_str L"\\x241")))', '(str_v (dflt p1 L"var_2" (mk_str L"\\x242")))'
    vok3 = 'is_str_v (dflt p1 L"var_1" (mk_str L"\\x241")) /\\ is_str_v (dflt p1 L"var_2" (mk_str L"\\x242"))'
    ok1, ok2 = f'(fok_d p1 L"range_1" elist p2 /\\ is_list_v ({A1}))', f'(fok_d p1 L"range_2" elist p2 /\\ is_list_v ({A2}))'
    fn(w, 'ZipWithExpr', f'''
    requires {{ is_obj p1 }}
    requires {{ {V1} <> {V2} }}
    raises {{ Cxx -> not {ok1} \\/ not {ok2} \\/ not ({vok3} /\\ each2 {L1} {L2} p2 {B} {V1} {V2} {N}) }}
    ensures {{ {ok1} /\\ is_list_v result /\\ (len {L1} > 0 -> {ok2}) /\\ len (list_v result) = (if len {L1} = 0 then 0 else {N}) }}
    ensures {{ len {L1} > 0 /\\ len {L2} > 0 -> {vok3} /\\ each2 {L1} {L2} p2 {B} {V1} {V2} {N} /\\ outs2 (list_v result) {L1} {L2} p2 {B} {V1} {V2} {N} }}
''', loops={1: dict(variant=f'len {L1} - $it_first<int>', inv=[f'0 <= $it_first<int> <= len {L1}', '$it_second<int> = $it_first<int>', f'$it_first<int> <= len {L2}',
        f'$it_first<int> > 0 -> {vok3}', f'each2 {L1} {L2} p2 {B} {V1} {V2} $it_first<int>', f'outs2 $result<seq expr> {L1} {L2} p2 {B} {V1} {V2} $it_first<int>'])})
    R = 'fres p1 L"range" p2'
    L = f'(list_v ({R}))'
    S = '(fres_d p1 L"start" elist p2)'
    A = '(str_v (dflt p1 L"accum_var" (mk_str L"\\x241")))'
    vok4 = f'({vok} /\\ is_str_v (dflt p1 L"accum_var" (mk_str L"\\x241")))'
    okf = f'(fok p1 L"range" p2 /\\ is_list_v ({R}) /\\ fok_d p1 L"start" elist p2)'
    F = f'{L} p2 {B} {V} {A} {S}'
    fn(w, 'FoldLeftExpr', f'''
    requires {{ is_obj p1 }}
    requires {{ {V} <> {A} }}
    raises {{ Cxx -> not {okf} \\/ (len {L} > 0 /\\ not ({vok4} /\\ foldok {F} (len {L}))) }}
    ensures {{ {okf} /\\ result = fold {F} (len {L}) }}
    ensures {{ len {L} > 0 -> {vok4} /\\ foldok {F} (len {L}) }}
''', loops={1: dict(inv=[f'it1 > 0 -> {vok4}', f'foldok sq1 p2 {B} {V} {A} {S} it1', f'$val<expr> = fold sq1 p2 {B} {V} {A} {S} it1'])})
    return [u, w]
