from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn
SOURCES = [EV]
HARNESS = harness(0)
ASSUMPTIONS = ASSUME
RULE = 'random well-typed programs whose root is one of the list built-ins, compared with an independent reference interpreter; seeds and mined literals in the harness'

SPEC = '''
  (* first occurrences among the first n entries, in order *)
  function nubl (l: seq expr) (n: int) : seq expr
  axiom nubl_0 : forall l. nubl l 0 = empty
  axiom nubl_s : forall l n [nubl l (n+1)]. 0 <= n < len l ->
    nubl l (n+1) = if smemb (nth l n) (sub l 0 n) then nubl l n else snoc (nubl l n) (nth l n)
  (* concatenation of the first n entries, all of them lists *)
  function elems (e: expr) : seq expr = match view e with VList x -> x | _ -> empty end
  predicate alllists (l: seq expr) = forall i. 0 <= i < len l -> match view (nth l i) with VList _ -> true | _ -> false end
  function concat (l: seq expr) (n: int) : seq expr
  axiom concat_0 : forall l. concat l 0 = empty
  axiom concat_s : forall l n [concat l (n+1)]. 0 <= n < len l -> concat l (n+1) = cat (concat l n) (elems (nth l n))
  (* position -> entry for the first n entries *)
  function numbered (l: seq expr) (n: int) : fmap str expr
  axiom numbered_0 : forall l. numbered l 0 = mempty
  axiom numbered_s : forall l n [numbered l (n+1)]. 0 <= n < len l -> numbered l (n+1) = mset (numbered l n) (dec_fmt n 10 48) (nth l n)
  (* string -> true for the first n entries *)
  function sval (e: expr) : str = match view e with VStr s -> s | _ -> empty end
  predicate allstrings (l: seq expr) = forall i. 0 <= i < len l -> match view (nth l i) with VStr _ -> true | _ -> false end
  function memb (l: seq expr) (n: int) : fmap str expr
  axiom memb_0 : forall l. memb l 0 = mempty
  axiom memb_s : forall l n [memb l (n+1)]. 0 <= n < len l -> memb l (n+1) = mset (memb l n) (sval (nth l n)) (mk_bool true)
  (* sum and product of numbers, from the left *)
  function nval (e: expr) : num = match view e with VNum x -> x | _ -> num_of_int 0 end
  predicate allnums (l: seq expr) = forall i. 0 <= i < len l -> match view (nth l i) with VNum _ -> true | _ -> false end
  function sum (l: seq expr) (n: int) : num
  axiom sum_0 : forall l. sum l 0 = num_of_int 0
  axiom sum_s : forall l n [sum l (n+1)]. 0 <= n < len l -> sum l (n+1) = num_add (sum l n) (nval (nth l n))
  function prod (l: seq expr) (n: int) : num
  axiom prod_0 : forall l. prod l 0 = num_of_int 1
  axiom prod_s : forall l n [prod l (n+1)]. 0 <= n < len l -> prod l (n+1) = num_mul (prod l n) (nval (nth l n))
'''
NL = 'match view p1 with VList _ -> false | _ -> true end'


def units():
    u = Unit('ListBuiltins')
    nub = 'match view p1 with VList _ -> not (is_cacheable p1) | _ -> true end'
    u.spec(SPEC)
    fn(u, 'NubLeft', '''
    raises { Cxx -> %s }
    ensures { match view p1, view result with VList l, VList r -> is_cacheable p1 /\\ r = nubl l (len l) | _ -> false end }
''' % nub, loops={1: dict(inv=['forall x. smem x $seen<fset expr> <-> smemb x (sub sq1 0 it1)',
                               '$result<seq expr> = nubl sq1 it1'])})
    fn(u, 'NubRight', '''
    raises { Cxx -> %s }
    ensures { match view p1, view result with VList l, VList r -> is_cacheable p1 /\\ rev r = nubl (rev l) (len l) | _ -> false end }
''' % nub, loops={1: dict(inv=['forall x. smem x $seen<fset expr> <-> smemb x (sub sq1 0 it1)',
                               '$reverse_result<seq expr> = nubl sq1 it1'])})
    fn(u, 'Flatten', '''
    raises { Cxx -> match view p1 with VList l -> not (alllists l) | _ -> true end }
    ensures { match view p1, view result with VList l, VList r -> alllists l /\\ r = concat l (len l) | _ -> false end }
''', loops={1: dict(inv=['alllists (sub sq1 0 it1)']), 2: dict(inv=['alllists sq2', '$result<seq expr> = concat sq2 it2'])})
    fn(u, 'Reverse', '''
    raises { Cxx -> %s }
    ensures { match view p1, view result with VList l, VList r -> r = rev l | _ -> false end }
''' % NL)
    fn(u, 'Length', '''
    raises { Cxx -> %s }
    ensures { match view p1, view result with VList l, VNum r -> r = num_of_int (len l) | _ -> false end }
''' % NL)
    fn(u, 'Enumerate', '''
    raises { Cxx -> %s }
    ensures { match view p1, view result with VList l, VMap r -> r = numbered l (len l) | _ -> false end }
''' % NL, loops={1: dict(inv=['$count<int> = it1', '$result<fmap str expr> = numbered sq1 it1'])})
    fn(u, 'Set', '''
    raises { Cxx -> match view p1 with VList l -> not (allstrings l) | _ -> true end }
    ensures { match view p1, view result with VList l, VMap r -> allstrings l /\\ r = memb l (len l) | _ -> false end }
''', loops={1: dict(inv=['allstrings (sub sq1 0 it1)', '$result<fmap str expr> = memb sq1 it1'])}, why='mkset')
    fn(u, 'Addition', '''
    raises { Cxx -> match view p1 with VList l -> not (allnums l) | _ -> true end }
    ensures { match view p1, view result with VList l, VNum r -> allnums l /\\ r = sum l (len l) | _ -> false end }
''', loops={1: dict(inv=['allnums (sub sq1 0 it1)', '$result<num> = sum sq1 it1'])})
    fn(u, 'Multiplication', '''
    raises { Cxx -> match view p1 with VList l -> not (allnums l) | _ -> true end }
    ensures { match view p1, view result with VList l, VNum r -> allnums l /\\ r = prod l (len l) | _ -> false end }
''', loops={1: dict(inv=['allnums (sub sq1 0 it1)', '$result<num> = prod sq1 it1'])})
    fn(u, 'Keys', '''
    raises { Cxx -> match view p1 with VMap _ -> false | _ -> true end }
    ensures { match view p1, view result with VMap m, VList r -> len r = len (items m) /\\
       forall i. 0 <= i < len r -> view (nth r i) = VStr (fst_ (nth (items m) i)) | _ -> false end }
''', loops={1: dict(inv=['len $result<seq expr> = it1', 'forall i. 0 <= i < it1 -> nth $result<seq expr> i = mk_str (fst_ (nth sq1 i))'])})
    fn(u, 'Values', '''
    raises { Cxx -> match view p1 with VMap _ -> false | _ -> true end }
    ensures { match view p1, view result with VMap m, VList r -> len r = len (items m) /\\
       forall i. 0 <= i < len r -> nth r i = snd_ (nth (items m) i) | _ -> false end }
''')
    fn(u, 'Range', '''
    ensures { match view result with VList r -> (forall i. 0 <= i < len r -> nth r i = mk_str (int_str i)) /\\
        len r = match view p1 with VNum x -> if num_gt x (num_of_int 0) then num_round x else 0
                | VStr s -> wrap_u64 (atol_val s) | _ -> 0 end
        | _ -> false end }
''', loops={1: dict(variant='$len<int> - $i<int>', inv=['0 <= $i<int> <= $len<int>', 'len $result<seq expr> = $i<int>', 'forall i. 0 <= i < $i<int> -> nth $result<seq expr> i = mk_str (int_str i)'])})
    u.spec(r'''
  function aidx (k: expr) : int = match view k with VNum x -> num_round x | VStr s -> atol_val s | _ -> 0 end
  (* list position selected by index i: negative ones count from the end *)
  predicate hits (n i: int) = -n <= i < n
  function hit (n i: int) : int = if i < 0 then n + i else i
''')
    okb = 'fok p1 L"index" p2 /\\ fok p1 L"list" p2 /\\ is_list_v (fres p1 L"list" p2)'
    n = 'len (list_v (fres p1 L"list" p2))'
    ix = 'aidx (fres p1 L"index" p2)'
    fn(u, 'ArrayAccessExpr', f'''
    raises {{ Cxx -> not ({okb}) \\/ (not (hits ({n}) ({ix})) /\\ not (fok_d p1 L"default" e_none p2)) }}
    ensures {{ {okb} }}
    ensures {{ result = if hits ({n}) ({ix}) then nth (list_v (fres p1 L"list" p2)) (hit ({n}) ({ix}))
                        else fres_d p1 L"default" e_none p2 }}
''')
    return [u]
