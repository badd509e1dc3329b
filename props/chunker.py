from cxx2why.unit import Unit
from cxx2why.tr import X, kids, skip
C, H = 'src/buildtool/storage/file_chunker.cpp', 'src/buildtool/storage/file_chunker.hpp'
SOURCES = [C, H]
HARNESS = dict(src='h_chunker.cpp', repo=[C], flags=['-O2'], quick_s=12, thorough_s=120, hunt_s=60)
RULE = 'files of all sizes around the chunk and buffer sizes, constant, random, mixed and periodic contents, compared with an own implementation of FastCDC'
ASSUMPTIONS = [
    'std::ifstream::read reads the requested number of bytes, or all that is left and then notices the end of the file; nothing is claimed of what is read after an I/O error',
    'bitwise operations and shifts on 64 bit numbers are uninterpreted functions; the table of random numbers has 256 entries and does not change while chunking']
TRUSTED = ['the constructor of FileChunker establishes the invariant the contracts start from: 0 < least <= average < largest size, a buffer of twice the largest size, nothing read yet (exercised in the bounded harness)']
SPEC = r'''
  (* a file opened for reading: what is still to be read, and the state of the stream *)
  type file = { rest : str; at_eof : bool; broken : bool; is_open : bool; last_read : int }
  predicate bytes (s: str) = forall i [nth s i]. 0 <= i < len s -> 0 <= nth s i < 256
  let function f_good (f: file) : bool = not f.at_eof && not f.broken
  let function f_eof (f: file) : bool = f.at_eof
  let function f_is_open (f: file) : bool = f.is_open
  let function f_gcount (f: file) : int = f.last_read
  (* std::istream::read: reads n bytes, or all that is left, and then the end of the file is noticed *)
  val f_read (f: file) (n: int) : (g: file, s: str)
    requires { [@expl:read from a good stream] not f.at_eof /\ not f.broken /\ 0 <= n }
    ensures { g.is_open = f.is_open /\ g.last_read = len s /\ bytes s /\ len s <= n }
    ensures { not g.broken -> f.rest = cat s g.rest /\ len s = (if n <= len f.rest then n else len f.rest) /\ (g.at_eof <-> len f.rest < n) }
    ensures { not g.broken -> g.at_eof -> g.rest = empty }
  let lemma bytes_sub (s: str) (i j: int) : unit requires { 0 <= i <= j <= len s /\ bytes s } ensures { bytes (sub s i j) } = ()
  let lemma bytes_cat (s t: str) : unit requires { bytes s /\ bytes t } ensures { bytes (cat s t) } = ()
  let put_at (b: str) (i: int) (s: str) : str
    requires { [@expl:write inside of the buffer] 0 <= i /\ i + len s <= len b }
    ensures { len result = len b /\ sub result 0 (i + len s) = cat (sub b 0 i) s }
    ensures { bytes b -> bytes s -> bytes result }
  = cat (cat (sub b 0 i) s) (sub b (i + len s) (len b))
  (* std::string::copy to the begin of the string itself; the ranges must not overlap *)
  let copy_front (b: str) (n pos: int) : str
    requires { [@expl:copied range inside of the buffer] 0 <= n /\ 0 <= pos /\ pos + n <= len b }
    requires { [@expl:copied ranges do not overlap] n = 0 \/ n <= pos }
    ensures { len result = len b /\ sub result 0 n = sub b pos (pos + n) }
    ensures { bytes b -> bytes result }
  = cat (sub b pos (pos + n)) (sub b n (len b))
  val constant gears : seq int
  axiom gears_256 : len gears = 256
  let gear_at (i: int) : int requires { [@expl:index into the table of random numbers] 0 <= i < 256 } ensures { result = nth gears i } = nth gears i
  (* the rolling hash FastCDC uses, from the smallest chunk size on *)
  function fp (s: str) (m i: int) : int
  axiom fp_0 : forall s m. fp s m m = 0
  axiom fp_s : forall s m i [fp s m (i+1)]. m <= i < len s -> fp s m (i+1) = wrap_u64 (shl_u64 (fp s m i) 1 + nth gears (nth s i))
  predicate hit (s: str) (m a i: int) = (if i < a then bw_and (fp s m (i+1)) 4919296317866573824 else bw_and (fp s m (i+1)) 4919295287074422784) = 0
  predicate nohit (s: str) (m a i j: int) = forall k [hit s m a k]. i <= k < j -> not (hit s m a k)
  let ghost step (s: str) (m a k i: int) : unit requires { m <= i < len s }
    ensures { fp s m (i+1) = wrap_u64 (shl_u64 (fp s m i) 1 + nth gears (nth s i)) }
    ensures { nohit s m a k i -> not (hit s m a i) -> nohit s m a k (i+1) } = ()
  (* the length of the first chunk of s, for the given least, average and largest size *)
  predicate cut (s: str) (m a x k: int) =
    if len s <= m then k = len s else
    m <= k <= len s /\ k <= x /\ nohit s m a m k /\ (k = len s \/ k = x \/ hit s m a k)
  let lemma sub_join (s: str) (i j k: int) : unit
    requires { 0 <= i <= j <= k <= len s }
    ensures { cat (sub s i j) (sub s j k) = sub s i k }
  = assert { eqs (cat (sub s i j) (sub s j k)) (sub s i k) }
  (* what is still to be chunked *)
  function content (b: str) (p z: int) (f: file) : str = cat (sub b p z) f.rest
  let rec ghost fp_ext (w r: str) (m i: int) : unit
    requires { 0 <= m <= i <= len w } ensures { fp (cat w r) m i = fp w m i } variant { i }
  = if i > m then begin fp_ext w r m (i-1); let j = i - 1 in step w m m m j; step (cat w r) m m m j end
  let ghost hit_ext (w r: str) (m a i: int) : unit
    requires { 0 <= m <= i < len w } ensures { hit (cat w r) m a i <-> hit w m a i }
  = fp_ext w r m (i+1)
  let rec ghost nohit_ext (w r: str) (m a j: int) : unit
    requires { 0 <= m <= j <= len w /\ nohit w m a m j } ensures { nohit (cat w r) m a m j } variant { j }
  = if j > m then begin nohit_ext w r m a (j-1); hit_ext w r m a (j-1) end
  (* a chunk found in the buffer is the one of the content *)
  let lemma cut_ext (w r: str) (m a x k: int) : unit
    requires { 0 < m <= a < x /\ (len w >= x \/ r = empty) /\ cut w m a x k /\ 0 < k }
    ensures { cut (cat w r) m a x k }
  = if len w >= x then begin nohit_ext w r m a k; if k < len w then hit_ext w r m a k end
'''
INV = '0 < m <= a /\\ a < x <= 1073741824 /\\ len b = 2 * x /\\ 0 <= p <= z /\\ z <= len b /\\ bytes b'


def units():
    u = Unit('Chunker', use='Json')
    u.spec(SPEC)
    U32, U64, ST = ('int', 32, False), ('int', 64, False), ('str',)
    u.abst(['std::ifstream', 'ifstream', 'std::basic_ifstream<char>'], 'file')
    u.globals['gear_table'] = ('gears', ('vec', U64))
    this = [('min_chunk_size_', 'm', U32, False), ('average_chunk_size_', 'a', U32, False), ('max_chunk_size_', 'x', U32, False), ('stream_', 'f', ('abs', 'file'), True),
            ('buffer_', 'b', ST, True), ('size_', 'z', U64, True), ('pos_', 'p', U64, True)]
    for nm, sym, t in (('good', 'f_good', ('bool',)), ('eof', 'f_eof', ('bool',)), ('is_open', 'f_is_open', ('bool',)), ('gcount', 'f_gcount', ('int', 64, True))):
        u.methods[('file', nm)] = (lambda sym, t: lambda tr, x, args, n: X('(%s %s)' % (sym, x.code), t, True))(sym, t)

    def read(tr, x, args, n):
        e = skip(args[0])
        if e['kind'] != 'UnaryOperator' or e['opcode'] != '&' or skip(kids(e)[0])['kind'] != 'CXXOperatorCallExpr' or tr.E(kids(skip(kids(e)[0]))[1]).code != 'b':
            tr.err('read not into the buffer', n)
        p, k = tr.E(kids(skip(kids(e)[0]))[2]), tr.E(args[1])
        return X('(let (g_, s_) = f_read %s %s in %s; %s)' % (x.lv.read(), '(' + k.code + ')', x.lv.write('g_'), 'b <- put_at b %s s_' % ('(' + p.code + ')')), ('unit',), True)
    u.methods[('file', 'read')] = read

    def copy(tr, x, args, n):
        if x.code != 'b' or tr.E(args[0]).code.strip('()') not in ('b', 'str_data b'):
            tr.err('copy not from the buffer to its begin: ' + tr.E(args[0]).code, n)
        return X('(b <- copy_front b (%s) (%s))' % (tr.E(args[1]).code, tr.E(args[2]).code), ('unit',), True)
    u.methods[('str', 'copy')] = copy
    u.fncalls['at'] = lambda tr, args, n: X('(gear_at (%s))' % tr.E(args[1]).code, U64, True)
    W = '(sub b p z)'
    u.fn('FileChunker::NextChunkBoundary', C, this=this, filter='FileChunker::NextChunkBoundary', wrap=True,
         contract='requires { %s /\\ (z - p >= x \\/ f.at_eof) /\\ p < z }\n    ensures { 0 < result /\\ cut %s m a x result }' % (INV, W),
         loops={1: dict(inv=['m <= $i<int> <= $normal_size<int>', '$fp<int> = fp %s m $i<int>' % W, 'nohit %s m a m $i<int>' % W], body='step %s m a m $i<int>;' % W, variant='$normal_size<int> - $i<int>'),
                2: dict(inv=['m <= $i<int> <= $n<int> /\\ ($i<int> < $n<int> -> a <= $i<int>)', '$fp<int> = fp %s m $i<int>' % W, 'nohit %s m a m $i<int>' % W], body='step %s m a m $i<int>;' % W, variant='$n<int> - $i<int>')})
    S2 = '(not f.at_eof -> not f.broken -> z = len b \\/ (z = 0 /\\ p = 0)) /\\ (f.at_eof -> not f.broken -> f.rest = empty)'
    u.fn('FileChunker::NextChunk', C, this=this, filter='FileChunker::NextChunk',
         contract='''requires { %s } requires { %s }
    ensures { %s } ensures { %s }
    ensures { (old f).broken -> not (old f).at_eof -> result = None }
    ensures { not f.broken -> match result with
      | None -> content (old b) (old p) (old z) (old f) = empty /\\ content b p z f = empty /\\ f.at_eof /\\ p = z
      | Some c -> content (old b) (old p) (old z) (old f) = cat c (content b p z f) end }
    ensures { not f.broken -> match result with None -> true | Some c -> 0 < len c <= x /\\ cut (content (old b) (old p) (old z) (old f)) m a x (len c) end }''' % (INV, S2, INV, S2))
    u.fn('FileChunker::Finished', C, this=this, filter='FileChunker::Finished', contract='''requires { %s } requires { %s }
    ensures { result -> not f.broken -> content b p z f = empty }
    ensures { f.at_eof /\\ p = z -> result }''' % (INV, S2))
    return [u]
