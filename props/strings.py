from cxx2why.unit import Unit
from .evalcommon import harness, EV, ASSUME, fn, inst
SOURCES = [EV]
HARNESS = harness(4)
ASSUMPTIONS = ASSUME + ['a string held by an expression is shorter than 2^60 bytes', 'std::filesystem::path operations (parent_path, stem, filename, /) are uninterpreted functions of the path; their documented meaning is exercised by the bounded harness only',
    'JSON serialisation (nlohmann::json::dump) is an uninterpreted function; exercised by the bounded harness only']
RULE = 'random well-typed programs whose root is join, join_cmd, escape_chars, change_ending, basename, json_encode or concat_target_name, compared with an independent reference interpreter; join_cmd results are additionally tokenised by an independent shell-word parser'

SPEC = r'''
  (* a string with each quote character replaced by quote, backslash, quote, quote *)
  constant sq : str = B"'\\''"
  val function esc (a: str) (n: int) : str
  axiom esc_0 : forall a. esc a 0 = empty
  axiom esc_s : forall a n [esc a (n+1)]. 0 <= n -> esc a (n+1) = if nth a n = 39 then cat (esc a n) sq else snoc (esc a n) (nth a n)
  axiom esc_def : forall a n [esc a n, unroll n]. 0 < n -> esc a n = if nth a (n-1) = 39 then cat (esc a (n-1)) sq else snoc (esc a (n-1)) (nth a (n-1))
  function quoted (a: str) : str = cat (cat B"'" (esc a (len a))) B"'"
'''
SHELL = r'''
  (* how a POSIX shell reads one word: mode 0 outside of quotes, 1 within single quotes, 2 after a backslash, 9 anything else
     (an unquoted character, which might be special); rd is the text read so far *)
  function md (t: str) : int
  function rd (t: str) : str
  axiom md_0 : md (empty : str) = 0 /\ rd (empty: str) = empty
  axiom md_s : forall t c [md (snoc t c)]. md (snoc t c) =
    if md t = 1 then (if c = 39 then 0 else 1) else if md t = 2 then 0 else if md t = 0 then (if c = 39 then 1 else if c = 92 then 2 else 9) else 9
  axiom rd_s : forall t c [rd (snoc t c)]. rd (snoc t c) =
    if md t = 1 then (if c = 39 then rd t else snoc (rd t) c) else if md t = 2 then snoc (rd t) c else rd t
  (* a string that the shell reads as one word, the given one *)
  predicate reads_as (t a: str) = md t = 0 /\ rd t = a
'''
JOIN = r'''
  predicate strs (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_str_v (nth l i)
  function sep (s: str) (n: int) : str
  axiom sep_0 : forall s. sep s 0 = empty
  axiom sep_n : forall s n [sep s n]. 0 < n -> sep s n = s
  function word (e: expr) (q: bool) : str
  axiom word_q : forall e. word e true = quoted (str_v e)
  axiom word_p : forall e. word e false = str_v e
  (* the first n entries, separated *)
  function joined (l: seq expr) (s: str) (q: bool) (n: int) : str
  axiom joined_0 : forall l s q. joined l s q 0 = empty
  axiom joined_s : forall l s q n [joined l s q (n+1)]. 0 <= n -> joined l s q (n+1) =
    cat (cat (joined l s q n) (sep s n)) (word (nth l n) q)
  (* all but the last entry kept, the last one extended *)
  predicate extended (r l: seq expr) (t: str) (n: int) = len r = n /\ forall i [nth r i]. 0 <= i < n ->
    nth r i = if i = len l - 1 then mk_str (cat (str_v (nth l i)) t) else nth l i
'''


def shell(u):
    u.lemma('esc_plain', r'forall a i j [esc a i, esc a j]. 0 <= i <= j <= len a -> (forall m [nth a m]. i <= m < j -> nth a m <> 39) -> esc a j = cat (esc a i) (sub a i j)', r'''
  let rec lemma plain (a: str) (i j: int) : unit
    requires { 0 <= i <= j <= len a } requires { forall m [nth a m]. i <= m < j -> nth a m <> 39 } variant { j - i }
    ensures { esc a j = cat (esc a i) (sub a i j) }
  = if i < j then begin plain a i (j-1); unroll_ j; assert { esc a j = snoc (esc a (j-1)) (nth a (j-1)) }; assert { sub a i ((j-1)+1) = snoc (sub a i (j-1)) (nth a (j-1)) } end
''')
    u.lemma('esc_len', 'forall a n [esc a n]. 0 <= n <= len a -> n <= len (esc a n) <= 4 * n', r'''
  let rec lemma elen (a: str) (n: int) : unit
    requires { 0 <= n <= len a } variant { n } ensures { n <= len (esc a n) <= 4 * n }
  = unroll_ n; if n > 0 then elen a (n-1)
''')
    u.lemma('one_char', r"forall s c i [sub s i (i+1), snoc (empty: str) c]. 0 <= i < len s -> (sub s i (i+1) = snoc empty c <-> nth s i = c)")
    u.lemma('find_quote', r'''forall s pos [str_find s B"'" pos]. 0 <= pos -> len s < npos ->
      (str_find s B"'" pos = npos /\ (forall j [nth s j]. pos <= j < len s -> nth s j <> 39)) \/
      (pos <= str_find s B"'" pos < len s /\ nth s (str_find s B"'" pos) = 39 /\ (forall j [nth s j]. pos <= j < str_find s B"'" pos -> nth s j <> 39))''', r'''
  lemma occ : forall s j [occurs s B"'" j]. 0 <= j < len s -> (occurs s B"'" j <-> nth s j = 39)
  lemma occ2 : forall s j [nth s j]. 0 <= j < len s -> nth s j = 39 -> occurs s B"'" j
''')


def units():
    q = Unit('ShellQuote')
    q.spec(SPEC + SHELL)
    shell(q)
    q.lemma('esc_read', r'forall a n. 0 <= n <= len a -> md (cat B"' + "'" + r'" (esc a n)) = 1 /\ rd (cat B"' + "'" + r'" (esc a n)) = sub a 0 n', r'''
  let rec lemma read (a: str) (n: int) : unit
    requires { 0 <= n <= len a } variant { n }
    ensures { md (cat B"'" (esc a n)) = 1 /\ rd (cat B"'" (esc a n)) = sub a 0 n }
  = if n > 0 then begin read a (n-1);
      assert { esc a ((n-1)+1) = if nth a (n-1) = 39 then cat (esc a (n-1)) sq else snoc (esc a (n-1)) (nth a (n-1)) };
      assert { sub a 0 ((n-1)+1) = snoc (sub a 0 (n-1)) (nth a (n-1)) } end
''')
    q.lemma('quoted_read', r'forall a [quoted a]. reads_as (quoted a) a')
    fn(q, 'ShellQuote', '''
    requires { len p1 < 1152921504606846976 }
    ensures { result = quoted p1 }
''', loops={1: dict(before='let ref g_k = 0 in', body='''
      let g_j = g_k + ($start_pos<int> - len (esc p1 g_k)) in
      assert { g_k <= g_j < len p1 /\\ nth $arg<str> $start_pos<int> = 39 };
      assert { nth p1 g_j = 39 };
      assert { forall m. g_k <= m < g_j -> nth $arg<str> (len (esc p1 g_k) + (m - g_k)) <> 39 };
      assert { forall m. g_k <= m < g_j -> nth $arg<str> (len (esc p1 g_k) + (m - g_k)) = nth p1 m };
      assert { forall m [nth p1 m]. g_k <= m < g_j -> nth p1 m <> 39 };
      assert { esc p1 g_j = cat (esc p1 g_k) (sub p1 g_k g_j) };
      assert { sub $arg<str> 0 $start_pos<int> = cat (esc p1 g_k) (sub p1 g_k g_j) };
      unroll_ (g_j+1); assert { esc p1 (g_j+1) = cat (sub $arg<str> 0 $start_pos<int>) sq };
      assert { len (esc p1 (g_j+1)) = $start_pos<int> + 4 };
      assert { len $arg<str> = len (esc p1 g_k) + (len p1 - g_k) };
      assert { sub $arg<str> ($start_pos<int>+1) (len $arg<str>) = sub (sub p1 g_k (len p1)) (g_j - g_k + 1) (len p1 - g_k) };
      assert { sub $arg<str> ($start_pos<int>+1) (len $arg<str>) = sub p1 (g_j+1) (len p1) };
      g_k <- g_j + 1;''', end='''assert { $arg<str> = cat (esc p1 g_k) (sub p1 g_k (len p1)) };''', after='''
      assert { forall m. g_k <= m < len p1 -> nth $arg<str> (len (esc p1 g_k) + (m - g_k)) <> 39 };
      assert { forall m. g_k <= m < len p1 -> nth $arg<str> (len (esc p1 g_k) + (m - g_k)) = nth p1 m };
      assert { forall m [nth p1 m]. g_k <= m < len p1 -> nth p1 m <> 39 }''', variant='len p1 - g_k', inv=['0 <= g_k <= len p1', '$start_pos<int> = len (esc p1 g_k)', '$arg<str> = cat (esc p1 g_k) (sub p1 g_k (len p1))'])})
    j = Unit('Join')
    j.spec("  function quoted (a: str) : str (* defined in unit ShellQuote *)\n" + JOIN)
    fn(j, 'ShellQuote', '''
    requires { len p1 < 1152921504606846976 }
    ensures { result = quoted p1 }
''', abstract=True)
    l = '(list_v p1)'
    def jn(why, q, allow, **k):
        okl = f'(is_list_v p1 /\\ strs {l} (len {l}))'
        one = 'quoted (str_v p1)' if q == 'true' else 'str_v p1'
        if allow:
            c = f'''
    raises {{ Cxx -> not (is_str_v p1) /\\ not {okl} }}
    ensures {{ is_str_v p1 -> result = mk_str ({one}) }}
    ensures {{ not (is_str_v p1) -> {okl} /\\ result = mk_str (joined {l} p2 {q} (len {l})) }}
'''
        else:
            c = f'''
    raises {{ Cxx -> not {okl} }}
    ensures {{ {okl} /\\ result = mk_str (joined {l} p2 {q} (len {l})) }}
'''
        fn(j, 'Join', c, why=why, loops={1: dict(inv=['strs sq1 it1', '$insert_sep<int> = it1', f'$ss<str> = joined sq1 p2 {q} it1'])}, **k)
    jn('join_plain', 'false', False, pick=inst(2, False, False))
    jn('join_quoted', 'true', False, pick=inst(2, True, False))
    jn('join_any', 'false', True, pick=inst(2, False, True))
    el = '(mk_list empty)'
    a = f'(fres_d p1 L"$1" {el} p2)'
    s = '(fres_d p1 L"separator" (mk_str empty) p2)'
    okj = f'(fok_d p1 L"$1" {el} p2 /\\ fok_d p1 L"separator" (mk_str empty) p2 /\\ is_str_v {s} /\\ is_list_v {a} /\\ strs (list_v {a}) (len (list_v {a})))'
    fn(j, 'JoinExpr', f'''
    raises {{ Cxx -> not {okj} }}
    ensures {{ {okj} /\\ result = mk_str (joined (list_v {a}) (str_v {s}) false (len (list_v {a}))) }}
''')
    okc = f'(fok_d p1 L"$1" {el} p2 /\\ is_list_v {a} /\\ strs (list_v {a}) (len (list_v {a})))'
    fn(j, 'JoinCmdExpr', f'''
    raises {{ Cxx -> not {okc} }}
    ensures {{ {okc} /\\ result = mk_str (joined (list_v {a}) B" " true (len (list_v {a}))) }}
''')
    n = Unit('Names')
    n.spec("  function quoted (a: str) : str\n" + JOIN)
    cat_t = f'''
    requires {{ is_str_v p2 }}
    raises {{ Cxx -> not (is_str_v p1) /\\ not (is_list_v p1 /\\ strs {l} (len {l})) }}
    ensures {{ is_str_v p1 -> result = mk_str (cat (str_v p1) (str_v p2)) }}
    ensures {{ not (is_str_v p1) -> is_list_v p1 /\\ strs {l} (len {l}) /\\ is_list_v result /\\ extended (list_v result) {l} (str_v p2) (len {l}) }}
'''
    fn(n, 'ConcatTargetName', cat_t, loops={1: dict(inv=['$all_string<bool> <-> strs sq1 it1', '$all_string<bool> -> $not_last<int> = len sq1 - it1 /\\ extended $list<seq expr> sq1 (str_v p2) it1'])})
    fn(j, 'ConcatTargetName', cat_t, abstract=True)
    a1, a2 = '(fres_d p1 L"$1" (mk_str empty) p2)', '(fres_d p1 L"$2" (mk_str empty) p2)'
    suf = f'(if is_str_v {a2} then str_v {a2} else joined (list_v {a2}) empty false (len (list_v {a2})))'
    okn = f"""(fok_d p1 L"$1" (mk_str empty) p2 /\\ fok_d p1 L"$2" (mk_str empty) p2 /\\ (is_str_v {a2} \\/ is_list_v {a2} /\\ strs (list_v {a2}) (len (list_v {a2})))
      /\\ (is_str_v {a1} \\/ is_list_v {a1} /\\ strs (list_v {a1}) (len (list_v {a1}))))"""
    fn(j, 'ConcatTargetNameExpr', f'''
    raises {{ Cxx -> not {okn} }}
    ensures {{ {okn} }}
    ensures {{ is_str_v {a1} -> result = mk_str (cat (str_v {a1}) {suf}) }}
    ensures {{ not (is_str_v {a1}) -> is_list_v result /\\ extended (list_v result) (list_v {a1}) {suf} (len (list_v {a1})) }}
''')
    nm, en = '(fres_d p1 L"$1" (mk_str empty) p2)', '(fres_d p1 L"ending" (mk_str empty) p2)'
    okx = f'(fok_d p1 L"$1" (mk_str empty) p2 /\\ fok_d p1 L"ending" (mk_str empty) p2 /\\ is_str_v {nm} /\\ is_str_v {en})'
    fn(n, 'ChangeEndingTo', '''
    raises { Cxx -> not (is_str_v p1 /\\ is_str_v p2) }
    ensures { is_str_v p1 /\\ is_str_v p2 /\\ result = mk_str (cat (path_app (path_parent (str_v p1)) (path_stem (str_v p1))) (str_v p2)) }
''')
    fn(n, 'ChangeEndingExpr', f'''
    raises {{ Cxx -> not {okx} }}
    ensures {{ {okx} /\\ result = mk_str (cat (path_app (path_parent (str_v {nm})) (path_stem (str_v {nm}))) (str_v {en})) }}
''')
    fn(n, 'BaseName', '''
    raises { Cxx -> not (is_str_v p1) }
    ensures { is_str_v p1 /\\ result = mk_str (path_filename (str_v p1)) }
''')
    e = Unit('Escape')
    e.spec(r'''
  predicate cont (b: int) = bw_and b 192 = 128
  (* end of the UTF-8 character starting at i: up to the next byte that is not a continuation byte *)
  function chend (s: str) (i: int) : int
  axiom chend_def : forall s i [chend s i]. 0 <= i < len s -> i < chend s i <= len s /\
    (forall m [nth s m]. i < m < chend s i -> cont (nth s m)) /\ (chend s i = len s \/ not (cont (nth s (chend s i))))
  predicate contains (s p: str) = exists m. occurs s p m
  predicate boundary (s: str) (i: int)
  axiom boundary_0 : forall s. boundary s 0
  axiom boundary_s : forall s i [boundary s i]. boundary s i -> i < len s -> boundary s (chend s i)
  (* the characters before i, each one of cs preceded by p *)
  function escd (s cs p: str) (i: int) : str
  axiom escd_0 : forall s cs p. escd s cs p 0 = empty
  axiom escd_s : forall s cs p i [escd s cs p (chend s i)]. boundary s i -> 0 <= i < len s ->
    escd s cs p (chend s i) = cat (cat (escd s cs p i) (if contains cs (sub s i (chend s i)) then p else empty)) (sub s i (chend s i))
''')
    t, cs, p = ('(fres_d p1 L"$1" (mk_str empty) p2)', '(fres_d p1 L"chars" (mk_str empty) p2)', '(fres_d p1 L"escape_prefix" (mk_str B"\\\\") p2)')
    T = f'(str_v {t})'
    okt = f'(fok_d p1 L"$1" (mk_str empty) p2 /\\ fok_d p1 L"chars" (mk_str empty) p2 /\\ fok_d p1 L"escape_prefix" (mk_str B"\\\\") p2 /\\ is_str_v {t})'
    E = f'(escd {T} (str_v {cs}) (str_v {p}))'
    fn(e, 'EscapeCharsExpr', f'''
    raises {{ Cxx -> not {okt} \\/ not (is_str_v {cs}) \\/ not (is_str_v {p}) }}
    ensures {{ {okt} /\\ result = mk_str ({E} (len {T})) }}
''', loops={1: dict(variant=f'len {T} - $pos<int>', inv=[f'0 <= $pos<int> <= len {T}', f'boundary {T} $pos<int>', f'$ss<str> = {E} $pos<int>']),
            2: dict(variant=f'len {T} - $end<int>', inv=[f'$pos<int> < $end<int> <= len {T}', f'forall m [nth {T} m]. $pos<int> < m < $end<int> -> cont (nth {T} m)'],
                    after=f'assert {{ $end<int> = chend {T} $pos<int> }}')})
    return [q, j, n, e]
