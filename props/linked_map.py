from cxx2why.unit import Unit
from cxx2why.tr import X, par
H = 'src/buildtool/build_engine/expression/linked_map.hpp'
SOURCES = [H]
HARNESS = dict(src='h_linked.cpp', repo=[], quick_s=10, thorough_s=120, hunt_s=60, libs=['-lfmt', '-pthread'])
TU = '''#include <string>
#include "%s"
using LMap = LinkedMap<std::string, std::string>;
void instantiate(LMap const& a, LMap const& b) {
  (void)a.contains(""); (void)a.at(""); (void)a.empty(); (void)a.Find(""); (void)a.FindConflictingDuplicate(b); (void)a.size();
  (void)a.Items(); (void)a.Keys(); (void)a.Values(); (void)(a == b);
}
''' % H
RULE = 'random chains (next/content pointers, explicit maps, single items, empty layers) built from random key/value pairs, compared with a std::map merged independently; order of the first size()/Items()/Find() calls is random'
ASSUMPTIONS = ['the class is verified for one instantiation (key and value std::string); the template body is the same for all',
    'a chain of maps is finite (maps are immutable and only refer to maps that existed before); termination of the recursion along the chain is not proved',
    'AtomicValue::SetOnceAndGet returns the result of the given function (its thread safety is a schedule property, not decided here)',
    'all references handed out stay valid as long as the map lives']

SPEC = r'''
  type lptr
  type lm
  type kv = (str, str)
  val predicate lp_notnull (p: lptr)
  function lp_get lptr : lm
  val lp_map (p: lptr) : lm requires { [@expl:null dereference] lp_notnull p } ensures { result = lp_get p }
  (* the mapping a map object stands for *)
  function lview lm : fmap str str
  function pview (p: lptr) : fmap str str
  axiom pview_def : forall p [pview p]. pview p = if lp_notnull p then lview (lp_get p) else mempty
  function content (c: lptr) (m: fmap str str) : fmap str str
  axiom content_def : forall c m [content c m]. content c m = if lp_notnull c then lview (lp_get c) else m
  predicate haskey (s: seq kv) (k: str) = exists i. 0 <= i < len s /\ fst_ (nth s i) = k
  predicate sorted (s: seq kv) = forall i j [nth s i, nth s j]. 0 <= i < j < len s -> str_lt (fst_ (nth s i)) (fst_ (nth s j))
  (* every pair is a binding of m *)
  predicate sound (s: seq kv) (m: fmap str str) = forall i [nth s i]. 0 <= i < len s -> mget m (fst_ (nth s i)) = Some (snd_ (nth s i))
  predicate complete (s: seq kv) (m: fmap str str) = forall k [mget m k|haskey s k]. mget m k <> None -> haskey s k
  predicate is_items (s: seq kv) (m: fmap str str) = sorted s /\ sound s m /\ complete s m
  (* all keys of s before k *)
  predicate below (s: seq kv) (k: str) = forall i [nth s i]. 0 <= i < len s -> str_lt (fst_ (nth s i)) k
  (* the first n pairs of t have keys in s *)
  predicate covers (s t: seq kv) (n: int) = forall i [nth t i]. 0 <= i < n -> haskey s (fst_ (nth t i))
  (* what holds of the merged pairs so far and the position i in the list s: s is covered up to i and the rest comes later *)
  predicate upto (its s: seq kv) (i: int) = 0 <= i <= len s /\ sorted s /\ sorted its /\ covers its s i /\ (i < len s -> below its (fst_ (nth s i)))
'''
CONST = lambda d: 'const' in d['type']['qualType'].split(')')[-1] and '&&' not in d['type']['qualType'].split(')')[-1]
P, M, LM = ('abs', 'lptr'), ('map', ('str',), ('str',)), ('abs', 'lm')
THIS = [('next_', 'n', P, False), ('content_', 'c', P, False), ('map_', 'm', M, False)]
V = '(munion (pview n) (content c m))'


def setup(u):
    u.spec(SPEC)
    u.abst(['LinkedMapPtr<std::basic_string<char>, std::basic_string<char>>', 'Ptr', 'LinkedMapPtr<std::string, std::string>', 'NextPtr'], 'lptr')
    u.abst(['LinkedMap<std::basic_string<char>, std::basic_string<char>>', 'LinkedMap<std::string, std::string>', 'map_t', 'LinkedMap'], 'lm')
    for q in ('items_t', 'LinkedMap<std::basic_string<char>, std::basic_string<char>>::items_t'):
        u.extra_types[q] = ('vec', ('pair', ('str',), ('str',)))
    u.extra_types['underlying_map_t'] = M
    u.extra_types['K'] = u.extra_types['V'] = ('str',)
    u.extra_types['item_t'] = ('pair', ('str',), ('str',))
    u.extra_types['keys_t'] = u.extra_types['values_t'] = ('vec', ('str',))
    A = lambda f, t: (lambda tr, x, args, n: X('(%s %s)' % (f, par(x.code)), t, True))
    u.methods[('lptr', 'IsNotNull')] = A('lp_notnull', ('bool',))
    u.methods[('lptr', 'Map')] = A('lp_map', LM)
    u.methods[('lm', 'empty')] = A('lm_empty', ('bool',))
    u.methods[('lm', 'size')] = A('lm_size', ('int', 64, False))
    u.methods[('lm', 'Items')] = A('lm_items', u.extra_types['items_t'])
    u.methods[('lm', 'Find')] = lambda tr, x, args, n: tr.app('lm_find', [x, tr.E(args[0])], ('opt', ('str',)), True)
    u.spec(r'''
  (* contracts of the methods on another map object, as used along the chain; each is discharged for the body below *)
  val lm_find (x: lm) (k: str) : option str ensures { result = mget (lview x) k }
  val lm_empty (x: lm) : bool ensures { result <-> lview x = mempty }
  val lm_items (x: lm) : seq kv ensures { is_items result (lview x) }
  val lm_size (x: lm) : int ensures { 0 <= result }
  val function this_items (n c: lptr) (m: fmap str str) : seq kv
''')


def uempty(u):
    u.lemma('union_get', 'forall a b: fmap str str, k [mget (munion a b) k]. (mget b k = None -> mget (munion a b) k = mget a k) /\\ (mget b k <> None -> mget (munion a b) k = mget b k)')
    u.lemma('union_empty', 'forall a b: fmap str str [munion a b]. munion a b = mempty <-> a = mempty /\\ b = mempty', '''
  lemma em : forall a: fmap str str. (forall k. mget a k = None) -> meqs a mempty
  lemma em2 : forall a: fmap str str. (forall k. mget a k = None) -> meqs a mempty && a = mempty
  lemma ub : forall a b: fmap str str, k. munion a b = mempty -> mget (munion a b) k = None && mget b k = None && mget a k = None
  lemma uz : forall a b: fmap str str. munion a b = mempty -> (forall k. mget a k = None) && meqs a mempty && a = mempty
  lemma uy : forall a b: fmap str str. munion a b = mempty -> (forall k. mget b k = None) && meqs b mempty && b = mempty
''')


def merging(u):
    H1 = '''
  lemma hk_snoc : forall s: seq kv, x, k. haskey s k -> haskey (snoc s x) k
    by (forall i. 0 <= i < len s /\\ fst_ (nth s i) = k -> nth (snoc s x) i = nth s i)
  lemma hk_new : forall s: seq kv, x. haskey (snoc s x) (fst_ x)
    by (nth (snoc s x) (len s) = x)
  lemma cov_snoc : forall s t: seq kv, n x. covers s t n -> covers (snoc s x) t n
  lemma sorted_snoc : forall s: seq kv, x. sorted s -> below s (fst_ x) -> sorted (snoc s x)
'''
    u.lemma('items_is', 'forall m: fmap str str [items m]. is_items (items m) m', '''
  lemma hk : forall m: fmap str str, k. mget m k <> None -> haskey (items m) k by fst_ (nth (items m) (item_idx m k)) = k
''')
    # the next pair has the key at position i
    u.lemma('upto_hit', 'forall its s: seq kv, i, x [upto its s i, snoc its x]. upto its s i -> i < len s -> fst_ x = fst_ (nth s i) -> upto (snoc its x) s (i+1)', H1 + '''
  lemma bn : forall its s: seq kv, i x. upto its s i -> i + 1 < len s -> fst_ x = fst_ (nth s i) -> below (snoc its x) (fst_ (nth s (i+1)))
  lemma cv : forall its s: seq kv, i x. upto its s i -> i < len s -> fst_ x = fst_ (nth s i) -> covers (snoc its x) s (i+1)
''')
    # the next pair comes before position i
    u.lemma('upto_skip', 'forall its s: seq kv, i, x [upto its s i, snoc its x]. upto its s i -> below its (fst_ x) -> (i < len s -> str_lt (fst_ x) (fst_ (nth s i))) -> upto (snoc its x) s i', H1 + '''
  lemma bn : forall its: seq kv, k x. below its k -> str_lt (fst_ x) k -> below (snoc its x) k
''')
    u.lemma('sound_snoc', 'forall its: seq kv, m x [sound its m, snoc its x]. sound its m -> mget m (fst_ x) = Some (snd_ x) -> sound (snoc its x) m')
    # a key between the pairs so far and the rest of s is not in s
    u.lemma('absent', 'forall its s: seq kv, i m k [upto its s i, mget m k]. upto its s i -> is_items s m -> below its k -> (i < len s -> str_lt k (fst_ (nth s i))) -> mget m k = None', '''
  lemma no : forall its s: seq kv, i k. upto its s i -> below its k -> (i < len s -> str_lt k (fst_ (nth s i))) -> not (haskey s k)
    by (forall p. 0 <= p < len s -> fst_ (nth s p) <> k
        by (p < i -> haskey its (fst_ (nth s p)) && str_lt (fst_ (nth s p)) k)
        /\\ (i <= p -> str_lt k (fst_ (nth s p))))
''')
    T = '''
  lemma hk_catl : forall s t: seq kv, k. haskey s k -> haskey (cat s t) k
    by (forall i. 0 <= i < len s /\\ fst_ (nth s i) = k -> nth (cat s t) i = nth s i)
  lemma hk_catr : forall s t: seq kv, k. haskey t k -> haskey (cat s t) k
    by (forall i. 0 <= i < len t /\\ fst_ (nth t i) = k -> nth (cat s t) (len s + i) = nth t i)
  lemma hk_sub : forall s: seq kv, i p. 0 <= i <= p < len s -> haskey (sub s i (len s)) (fst_ (nth s p))
    by nth (sub s i (len s)) (p - i) = nth s p
  function tail_ (its s: seq kv) (i: int) : seq kv = cat its (sub s i (len s))
  lemma below_rest : forall its s: seq kv, i p. upto its s i -> i <= p < len s -> below its (fst_ (nth s p))
  lemma below_sub : forall its s: seq kv, i p. upto its s i -> 0 <= p < len s - i -> below its (fst_ (nth (sub s i (len s)) p))
  lemma sorted_sub : forall s: seq kv, i. sorted s -> 0 <= i <= len s -> sorted (sub s i (len s))
  lemma sorted_cat : forall s t: seq kv. sorted s -> sorted t -> (forall p. 0 <= p < len t -> below s (fst_ (nth t p))) -> sorted (cat s t)
  lemma tail_sorted : forall its s: seq kv, i. upto its s i -> sorted (tail_ its s i)
  lemma tail_covers : forall its s: seq kv, i p. upto its s i -> 0 <= p < len s -> haskey (tail_ its s i) (fst_ (nth s p))
    by (p < i -> haskey its (fst_ (nth s p))) /\\ (p >= i -> haskey (sub s i (len s)) (fst_ (nth s p)))
  lemma sound_cat : forall s t: seq kv, m. sound s m -> sound t m -> sound (cat s t) m
  lemma sound_sub : forall s: seq kv, m i. sound s m -> 0 <= i <= len s -> sound (sub s i (len s)) m
'''.replace('tail_', 'tl_')
    # the end of the merge: one list is used up, the rest of the other one is appended
    u.lemma('fin_content', 'forall its cs ns: seq kv, cm nm i [upto its cs i, is_items cs cm, is_items ns nm]. upto its cs i -> upto its ns (len ns) -> sound its (munion nm cm) -> is_items cs cm -> is_items ns nm -> is_items (cat its (sub cs i (len cs))) (munion nm cm)', T + '''
  lemma su : forall cs: seq kv, cm nm. sound cs cm -> sound cs (munion nm cm)
  lemma co : forall its cs ns: seq kv, cm nm i k. upto its cs i -> upto its ns (len ns) -> is_items cs cm -> is_items ns nm -> mget (munion nm cm) k <> None -> haskey (tl_ its cs i) k
    by (mget cm k <> None -> haskey cs k) /\\ (mget cm k = None -> mget nm k <> None && haskey ns k && haskey its k)
''')
    u.lemma('fin_next', 'forall its cs ns: seq kv, cm nm j [upto its ns j, is_items cs cm, is_items ns nm]. upto its cs (len cs) -> upto its ns j -> sound its (munion nm cm) -> is_items cs cm -> is_items ns nm -> is_items (cat its (sub ns j (len ns))) (munion nm cm)', T + '''
  lemma ab : forall its cs ns: seq kv, cm j p. upto its cs (len cs) -> upto its ns j -> is_items cs cm -> j <= p < len ns -> mget cm (fst_ (nth ns p)) = None
    by (below its (fst_ (nth ns p))) && not (haskey cs (fst_ (nth ns p)))
  lemma su : forall its cs ns: seq kv, cm nm j. upto its cs (len cs) -> upto its ns j -> is_items cs cm -> is_items ns nm -> sound (sub ns j (len ns)) (munion nm cm)
  lemma co : forall its cs ns: seq kv, cm nm j k. upto its ns j -> upto its cs (len cs) -> is_items cs cm -> is_items ns nm -> mget (munion nm cm) k <> None -> haskey (tl_ its ns j) k
    by (mget cm k = None -> haskey ns k) /\\ (mget cm k <> None -> haskey cs k && haskey its k)
''')


def m(u, name, contract, **k):
    this = THIS + ([('items_', 'cache', ('abs', 'atomic'), False)] if u.name == 'Dups' else [])
    return u.fn('LinkedMap::' + name, TU, contract=contract, filter='LinkedMap', this=this, **k)


def units():
    u = Unit('Layered')
    setup(u)
    uempty(u)
    m(u, 'Find', f'ensures {{ result = mget {V} p1 }}', pick=CONST)
    m(u, 'contains', f'ensures {{ result <-> mget {V} p1 <> None }}')
    m(u, 'at', f'raises {{ Cxx -> mget {V} p1 = None }}\n    ensures {{ mget {V} p1 = Some result }}', pick=CONST)
    m(u, 'empty', f'ensures {{ result <-> {V} = mempty }}')
    s = Unit('Sorted')
    setup(s)
    merging(s)
    C, N = '$citemsit_s', '$nitemsit_s'
    m(s, 'ComputeSortedItems', f'ensures {{ is_items result {V} }}', loops={1: dict(inv=[
        f'is_items {C} (content c m)', f'is_items {N} (pview n)', f'$citemsend_s = {C}', f'$nitemsend_s = {N}', f'$citemsend = len {C}', f'$nitemsend = len {N}',
        f'upto $items {C} $citemsit', f'upto $items {N} $nitemsit', f'sound $items {V}'], variant=f'len {C} + len {N} - $citemsit - $nitemsit')})
    d = Unit('Dups')
    setup(d)
    d.spec('  type atomic')
    d.methods[('atomic', 'SetOnceAndGet')] = lambda tr, x, args, n: tr.lambda_apply(tr.E(args[0]), [], n)
    d.abst(['AtomicValue<items_t>', 'AtomicValue<std::vector<std::pair<std::basic_string<char>, std::basic_string<char>>>>'], 'atomic')
    m(d, 'ComputeSortedItems', f'ensures {{ is_items result {V} }}', abstract=True)
    m(d, 'Items', f'ensures {{ is_items result {V} }}', pick=CONST)
    d.spec('''
  predicate agree (s t: seq kv) (i j: int) = forall p q [nth s p, nth t q]. 0 <= p < len s -> 0 <= q < len t -> (p < i \\/ q < j) -> fst_ (nth s p) = fst_ (nth t q) -> snd_ (nth s p) = snd_ (nth t q)
  predicate conflict (a b: fmap str str) (k: str) = mget a k <> None /\\ mget b k <> None /\\ mget a k <> mget b k
''')
    m(d, 'FindConflictingDuplicate', f'''ensures {{ match result with Some k -> conflict {V} (lview p1) k | None -> forall k. not (conflict {V} (lview p1) k) end }}''', pick=CONST, ptypes={0: LM},
      loops={1: dict(inv=[f'is_items $my_items {V}', 'is_items $other_items (lview p1)', '0 <= $me <= len $my_items', '0 <= $they <= len $other_items', 'agree $my_items $other_items $me $they'],
                     variant='len $my_items + len $other_items - $me - $they')})
    m(d, 'Keys', f'''ensures {{ exists s. is_items s {V} /\\ len result = len s /\\ forall i. 0 <= i < len s -> nth result i = fst_ (nth s i) }}''',
      loops={1: dict(inv=['len $keys = it1', 'forall i. 0 <= i < it1 -> nth $keys i = fst_ (nth sq1 i)'])})
    m(d, 'Values', f'''ensures {{ exists s. is_items s {V} /\\ len result = len s /\\ forall i. 0 <= i < len s -> nth result i = snd_ (nth s i) }}''',
      loops={1: dict(inv=['len $values = it1', 'forall i. 0 <= i < it1 -> nth $values i = snd_ (nth sq1 i)'])})
    m(d, 'size', f'''ensures {{ exists s. is_items s {V} /\\ result = len s }}''')
    return [u, s, d]
