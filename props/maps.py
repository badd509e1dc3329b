from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn, inst
SOURCES = [EV]
HARNESS = harness(1)
ASSUMPTIONS = ASSUME
RULE = 'random well-typed programs whose root is one of map_union, disjoint_map_union, lookup, singleton_map, empty_map, zip_map, compared with an independent reference interpreter'

SPEC = '''
  predicate allmaps (l: seq expr) (i j: int) = forall p. i <= p < j -> is_map_v (nth l p)
  (* value of the last of the maps i..j-1 that has the key *)
  function lastval (l: seq expr) (i j: int) (k: str) : option expr
  (* e is a map that has at every key that value *)
  predicate is_union (e: expr) (l: seq expr) (i j: int) = is_map_v e /\\ forall k [mget (map_v e) k|lastval l i j k]. mget (map_v e) k = lastval l i j k
  axiom lastval_0 : forall l i j k [lastval l i j k]. j <= i -> lastval l i j k = None
  axiom lastval_1 : forall l i k [lastval l i (i+1) k]. lastval l i (i+1) k = mget (map_v (nth l i)) k
  axiom lastval_s : forall l i j k [lastval l i (j+1) k]. i <= j -> lastval l i (j+1) k =
    match mget (map_v (nth l j)) k with Some v -> Some v | None -> lastval l i j k end
'''


# the same definition, unrolled downwards: only in the lemma modules (it would unroll without end elsewhere)
DEF = '''
  axiom lastval_def : forall l i j k [lastval l i j k, unroll j]. i < j -> lastval l i j k =
    match mget (map_v (nth l (j-1))) k with Some v -> Some v | None -> lastval l i (j-1) k end
'''


def split(u):
    u.lemma('lastval_split', 'forall l i m j k [lastval l i j k, lastval l i m k]. i <= m <= j -> lastval l i j k = match lastval l m j k with Some v -> Some v | None -> lastval l i m k end', DEF + '''
  let rec lemma split (l: seq expr) (i m j: int) (k: str) : unit
    requires { i <= m <= j } variant { j - m }
    ensures { lastval l i j k = match lastval l m j k with Some v -> Some v | None -> lastval l i m k end }
  = unroll_ j; if m < j then split l i m (j-1) k
''')


CONF = '''
  (* every one of the maps i..j-1 that has a key gives it the value of the last one that has it: no two of them conflict *)
  predicate agree (l: seq expr) (i j: int) = forall k p [mget (map_v (nth l p)) k]. i <= p < j ->
    mget (map_v (nth l p)) k = None \\/ mget (map_v (nth l p)) k = lastval l i j k
  predicate compat (l: seq expr) (i m j: int) = forall k [lastval l i m k|lastval l m j k].
    lastval l i m k = None \\/ lastval l m j k = None \\/ lastval l i m k = lastval l m j k
  function who (l: seq expr) (i j: int) (k: str) : int
  axiom who_s : forall l i j k [who l i (j+1) k]. i <= j -> who l i (j+1) k =
    match mget (map_v (nth l j)) k with Some _ -> j | None -> who l i j k end
'''


WDEF = '''
  axiom who_def : forall l i j k [who l i j k, unroll j]. i < j -> who l i j k =
    match mget (map_v (nth l (j-1))) k with Some _ -> j-1 | None -> who l i (j-1) k end
'''


def whol(u):
    u.lemma('lastval_none', 'forall l i j k p [lastval l i j k, mget (map_v (nth l p)) k]. i <= p < j -> lastval l i j k = None -> mget (map_v (nth l p)) k = None', DEF + '''
  let rec lemma none_lemma (l: seq expr) (i j: int) (k: str) (p: int) : unit
    requires { i <= p < j } variant { j - i }
    ensures { lastval l i j k = None -> mget (map_v (nth l p)) k = None }
  = unroll_ j; if p < j-1 then none_lemma l i (j-1) k p
''')
    u.lemma('lastval_who', 'forall l i j k [lastval l i j k]. i <= j -> match lastval l i j k with Some v -> i <= who l i j k < j /\\ mget (map_v (nth l (who l i j k))) k = Some v | None -> true end', DEF + WDEF + '''
  let rec lemma who_lemma (l: seq expr) (i j: int) (k: str) : unit
    requires { i <= j } variant { j - i }
    ensures { match lastval l i j k with Some v -> i <= who l i j k < j /\\ mget (map_v (nth l (who l i j k))) k = Some v | None -> true end }
  = unroll_ j; if i < j then who_lemma l i (j-1) k
''')


JOIN = '''
  goal sub0 : forall l i m j k. i <= m <= j -> lastval l i j k = match lastval l m j k with Some v -> Some v | None -> lastval l i m k end
'''


def ujoin(u):
    u.lemma('union_join', 'forall a b l i m j [is_union a l i m, is_union b l m j]. i <= m <= j -> is_union a l i m -> is_union b l m j -> is_union (mk_map (munion (map_v a) (map_v b))) l i j')
    u.lemma('union_left', 'forall a b l i m j [is_union a l i m, is_union b l m j]. i <= m <= j -> is_union a l i m -> is_union b l m j -> map_v b = mempty -> is_union a l i j')
    u.lemma('union_right', 'forall a b l i m j [is_union a l i m, is_union b l m j]. i <= m <= j -> is_union a l i m -> is_union b l m j -> map_v a = mempty -> is_union b l i j')


def ucompat(u):
    u.lemma('union_compat', 'forall a b l i m j [mconflict (map_v a) (map_v b), is_union a l i m, is_union b l m j]. is_union a l i m -> is_union b l m j -> mconflict (map_v a) (map_v b) = None -> compat l i m j')
    u.lemma('union_empty', 'forall a b l i m j [is_union a l i m, is_union b l m j]. is_union a l i m -> is_union b l m j -> (map_v a = mempty \\/ map_v b = mempty) -> compat l i m j')


def join(u):
    u.lemma('agree_join', 'forall l i m j [agree l i m, agree l m j]. i <= m <= j -> agree l i m -> agree l m j -> compat l i m j -> agree l i j', '''
  goal sub1 : forall l i m j k p. i <= m <= j -> agree l i m -> agree l m j -> compat l i m j -> i <= p < m -> mget (map_v (nth l p)) k = None \\/ mget (map_v (nth l p)) k = lastval l i j k
  lemma sub21 : forall l m j k p. agree l m j -> m <= p < j -> mget (map_v (nth l p)) k = None \\/ mget (map_v (nth l p)) k = lastval l m j k
  lemma sub23 : forall l i m j k [lastval l i j k, lastval l m j k]. i <= m <= j -> lastval l i j k = match lastval l m j k with Some v -> Some v | None -> lastval l i m k end
  goal sub2 : forall l i m j k p. i <= m <= j -> agree l m j -> m <= p < j -> mget (map_v (nth l p)) k = None \\/ mget (map_v (nth l p)) k = lastval l i j k
''')


def units():
    u = Unit('MapUnion')
    u.spec(SPEC)
    split(u)
    ujoin(u)
    fn(u, 'Union', '''
    requires { 0 <= p2 /\\ p3 <= len p1 }
    raises { Cxx -> not (allmaps p1 p2 p3) }
    ensures { allmaps p1 p2 p3 /\\ is_union result p1 p2 p3 }
''', why='union3', pick=inst(3, False), decreases='p3 - p2')
    fn(u, 'Union', '''
    raises { Cxx -> match view p1 with VList l -> not (allmaps l 0 (len l)) | _ -> true end }
    ensures { is_list_v p1 /\\ allmaps (list_v p1) 0 (len (list_v p1)) /\\ is_union result (list_v p1) 0 (len (list_v p1)) }
''', why='union1', pick=inst(1, False))
    d = Unit('DisjointUnion')
    d.spec(SPEC + CONF)
    whol(d)
    split(d)
    join(d)
    ujoin(d)
    ucompat(d)
    fn(d, 'Union', '''
    requires { 0 <= p2 /\\ p3 <= len p1 }
    raises { Cxx -> not (allmaps p1 p2 p3 /\\ agree p1 p2 p3) }
    ensures { allmaps p1 p2 p3 }
    ensures { agree p1 p2 p3 }
    ensures { is_union result p1 p2 p3 }
''', why='union3', pick=inst(3, True), decreases='p3 - p2')
    fn(d, 'Union', '''
    raises { Cxx -> match view p1 with VList l -> not (allmaps l 0 (len l) /\\ agree l 0 (len l)) | _ -> true end }
    ensures { is_list_v p1 /\\ allmaps (list_v p1) 0 (len (list_v p1)) /\\ agree (list_v p1) 0 (len (list_v p1)) /\\ is_union result (list_v p1) 0 (len (list_v p1)) }
''', why='union1', pick=inst(1, True))
    ok = '(fok p1 L"$1" p2 /\\ is_cacheable (fres p1 L"$1" p2) /\\ match view (fres p1 L"$1" p2) with VList l -> allmaps l 0 (len l) /\\ agree l 0 (len l) | _ -> false end)'
    fn(d, 'DisjointUnionExpr', f'''
    requires {{ is_obj p1 }}
    raises {{ Cxx -> not {ok} }}
    ensures {{ {ok} /\\ is_union result (list_v (fres p1 L"$1" p2)) 0 (len (list_v (fres p1 L"$1" p2))) }}
''')
    w = Unit('MapAccess')
    w.spec('''
  function zipped (ks vs: seq expr) (n: int) : fmap str expr
  axiom zipped_0 : forall ks vs. zipped ks vs 0 = mempty
  axiom zipped_s : forall ks vs n [zipped ks vs (n+1)]. 0 <= n -> zipped ks vs (n+1) = mset (zipped ks vs n) (str_v (nth ks n)) (nth vs n)
  predicate strs (l: seq expr) (n: int) = forall i. 0 <= i < n -> is_str_v (nth l i)
  function elist : expr = mk_list empty
''')
    k, m = 'fres p1 L"key" p2', 'fres p1 L"map" p2'
    okl = f'(fok p1 L"key" p2 /\\ fok p1 L"map" p2 /\\ is_str_v ({k}) /\\ is_map_v ({m}))'
    found = f'(match mget (map_v ({m})) (str_v ({k})) with Some v -> view v <> VNull | None -> false end)'
    fn(w, 'LookupExpr', f'''
    raises {{ Cxx -> not {okl} \\/ (not {found} /\\ not (fok_d p1 L"default" e_none p2)) }}
    ensures {{ {okl} /\\ if {found} then mget (map_v ({m})) (str_v ({k})) = Some result else result = fres_d p1 L"default" e_none p2 }}
''')
    fn(w, 'EmptyMapExpr', 'ensures { result = mk_map mempty }')
    oks = f'(fok p1 L"key" p2 /\\ fok p1 L"value" p2 /\\ is_str_v ({k}))'
    fn(w, 'SingletonMapExpr', f'''
    raises {{ Cxx -> not {oks} }}
    ensures {{ {oks} /\\ result = mk_map (mset mempty (str_v ({k})) (fres p1 L"value" p2)) }}
''')
    a, b = 'fres_d p1 L"range_key" elist p2', 'fres_d p1 L"range_val" elist p2'
    fn(w, 'ZipMapExpr', f'''
    raises {{ Cxx -> true }}
    ensures {{ fok_d p1 L"range_key" elist p2 /\\ is_list_v ({a}) }}
    ensures {{ len (list_v ({a})) > 0 -> fok_d p1 L"range_val" elist p2 /\\ is_list_v ({b}) }}
    ensures {{ let n = imin (len (list_v ({a}))) (len (list_v ({b}))) in
       if len (list_v ({a})) = 0 then view result = VMap mempty
       else strs (list_v ({a})) n /\\ view result = VMap (zipped (list_v ({a})) (list_v ({b})) n) }}
''', loops={1: dict(variant='len $range_key_list<seq expr> - $it_first<int>', inv=['0 <= $it_first<int> <= len $range_key_list<seq expr>', '$it_second<int> = $it_first<int>', '$it_first<int> <= len $range_val_list<seq expr>',
      'strs $range_key_list<seq expr> $it_first<int>', '$result<fmap str expr> = zipped $range_key_list<seq expr> $range_val_list<seq expr> $it_first<int>'])})
    return [u, d, w]
