from cxx2why.unit import Unit
from cxx2why.tr import X
C = 'src/buildtool/crypto/'
HF, HI, HX = C + 'hash_function.cpp', C + 'hash_info.cpp', 'src/utils/cpp/hex_string.hpp'
SOURCES = [HF, HI, HX, 'src/utils/cpp/incremental_reader.cpp', 'src/utils/cpp/incremental_reader.hpp', C + 'hasher.hpp', C + 'hasher.cpp', C + 'hash_function.hpp', C + 'hash_info.hpp', 'src/buildtool/common/protocol_traits.hpp']
HARNESS = dict(src='h_hash.cpp', repo=[HF, HI, C + 'hasher.cpp', 'src/utils/cpp/incremental_reader.cpp'], quick_s=12, thorough_s=120, hunt_s=60, libs=['-lcrypto', '-lfmt', '-pthread'])
RULE = 'random contents (sizes around the 4048-byte chunk and the SHA block boundaries) as strings and as scratch files, hashed as git blob / tree and plain, compared with one-shot OpenSSL hashes over an independently written header; readers with random chunk sizes; random and mutated hexadecimal strings'
ASSUMPTIONS = [
    'Hasher is described by the bytes fed to it: Update appends, Finalize gives the SHA1/SHA256 value of all of them, Create succeeds (OpenSSL; compared with one-shot hashes in the bounded harness)',
    'a regular file does not change while it is hashed; file_size is the length of its content; reading it in chunks gives the content in order (for memory sources this is proved, for files FILE* reading is assumed and compared in the bounded harness)',
    'std::to_string is injective; isxdigit is that of the C locale; std::stoul on two hexadecimal digits gives their value; hex/setw/setfill formatting of a byte gives two lower-case digits']
HEX = r'''
  predicate bytes (s: str) = forall i [nth s i]. 0 <= i < len s -> 0 <= nth s i < 256
  predicate all_hex (s: str) (n: int) = forall i [nth s i]. 0 <= i < n -> is_hex (nth s i)
  function hexed (s: str) (n: int) : str
  axiom hexed_0 : forall s. hexed s 0 = empty
  axiom hexed_s : forall s n [hexed s (n+1)]. 0 <= n < len s -> hexed s (n+1) = snoc (snoc (hexed s n) (hex_char (div (nth s n) 16))) (hex_char (mod (nth s n) 16))
  (* the byte given by the two digits at 2i *)
  function pair (s: str) (i: int) : int = 16 * hex_digit (nth s (2*i)) + hex_digit (nth s (2*i+1))
  predicate unhexed (r s: str) (n: int) = len r = n /\ forall i [nth r i]. 0 <= i < n -> nth r i = pair s i
'''
ROUND = r'''
  let lemma hexed_step (s: str) (m: int) : unit
    requires { 0 <= m < len s }
    ensures { hexed s (m+1) = snoc (snoc (hexed s m) (hex_char (div (nth s m) 16))) (hex_char (mod (nth s m) 16)) } = ()
  let rec ghost hexed_digits (s: str) (n i: int) : unit
    requires { 0 <= i < n <= len s }
    ensures { len (hexed s n) = 2 * n /\ nth (hexed s n) (2*i) = hex_char (div (nth s i) 16) /\ nth (hexed s n) (2*i+1) = hex_char (mod (nth s i) 16) }
    variant { n }
  = let m = n - 1 in
    hexed_step s m;
    if m = 0 then assert { hexed s 0 = empty } else if i = m then (hexed_digits s m 0; assert { len (hexed s m) = 2 * m }) else (hexed_digits s m i; assert { len (hexed s m) = 2 * m })
  (* decoding the encoding of a byte gives the byte *)
  lemma digit_of_char : forall d. 0 <= d < 16 -> hex_digit (hex_char d) = d /\ is_hex (hex_char d)
  let ghost hex_round_trip (s r: str) (i: int) : unit
    requires { bytes s /\ unhexed r (hexed s (len s)) (len s) /\ 0 <= i < len s }
    ensures { nth r i = nth s i }
  = hexed_digits s (len s) i
'''
SPEC = r'''
  type alg = int
  (* the hash functions: sha a s is the raw hash of s *)
  function sha (a: int) (s: str) : str
  axiom sha_bytes : forall a s [sha a s]. bytes (sha a s)
  function hash_len (a: int) : int
  axiom sha_len : forall a s [sha a s]. len (sha a s) = hash_len a
  type sha_state = { algo : int; fed : str }
  val h_create (a: int) : option sha_state ensures { result = Some { algo = a; fed = empty } }
  let function h_update (h: sha_state) (s: str) : sha_state = { algo = h.algo; fed = cat h.fed s }
  val h_final (h: sha_state) : str ensures { result = sha h.algo h.fed }
  val h_length (h: sha_state) : int ensures { result = 2 * hash_len h.algo }
  constant git : int = 0
  constant nul : str = snoc empty 0
  type tagger
  val constant tag_blob : tagger
  val constant tag_tree : tagger
  function tag (t: tagger) (n: int) : str
  axiom tag_blob_def : forall n. tag tag_blob n = cat (cat B"blob " (int_str n)) nul
  axiom tag_tree_def : forall n. tag tag_tree n = cat (cat B"tree " (int_str n)) nul
  val call_tagger (t: tagger) (n: int) : str ensures { result = tag t n }
  (* the algorithm of a hash function: git uses SHA1, the other one SHA256 *)
  function algo_of (t: int) : int = if t = git then 0 else 1
  function plain_hash (t: int) (s: str) : str = sha (algo_of t) s
  function tagged_hash (t: int) (g: tagger) (s: str) : str = if t = git then sha 0 (cat (tag g (len s)) s) else sha 1 s
  (* the regular files of the file system, unchanged while the function runs *)
  function file_content (p: str) : str
  val file_size (p: str) : int ensures { result = len (file_content p) } raises { Cxx }
  type reader
  val function chunks (r: reader) : seq (option str)
  function joined (s: seq (option str)) (n: int) : str
  axiom joined_0 : forall s. joined s 0 = empty
  axiom joined_s : forall s n [joined s (n+1)]. 0 <= n < len s -> joined s (n+1) = match nth s n with Some c -> cat (joined s n) c | None -> joined s n end
  predicate all_read (s: seq (option str)) (n: int) = forall i [nth s i]. 0 <= i < n -> nth s i <> None
  val reader_from_file (n: int) (p: str) : option reader
    ensures { match result with Some r -> all_read (chunks r) (len (chunks r)) -> joined (chunks r) (len (chunks r)) = file_content p | None -> true end }
  function blob_hash (t: int) (s: str) : str = tagged_hash t tag_blob s
  function tree_hash (t: int) (s: str) : str = tagged_hash t tag_tree s
'''

INFO = r'''
  type hash_info = { hi_hash : str; hi_type : int; hi_tree : bool }
  (* what every HashInfo satisfies *)
  predicate info_ok (r: hash_info) = (r.hi_tree = true -> r.hi_type = git) /\ len r.hi_hash = 2 * hash_len (algo_of r.hi_type) /\ all_hex r.hi_hash (len r.hi_hash)
  (* the HashInfo of a content *)
  predicate info_of (r: hash_info) (t: int) (s: str) (tree: bool) =
    r.hi_type = t /\ r.hi_tree = (tree && t = git) /\ let h = (if tree then tree_hash t s else blob_hash t s) in r.hi_hash = hexed h (len h)
  axiom len_sha1 : hash_len 0 = 20
  axiom len_sha256 : hash_len 1 = 32
  (* contracts of the class HashFunction, proved in unit Hash *)
  val make_hasher (c: int) : sha_state requires { 0 <= c <= 1 } ensures { result = { algo = algo_of c; fed = empty } }
  val hash_blob_data (c: int) (s: str) : str requires { 0 <= c <= 1 } ensures { result = blob_hash c s }
  val hash_tree_data (c: int) (s: str) : str requires { 0 <= c <= 1 } ensures { result = tree_hash c s }
  val hash_blob_file (c: int) (p: str) : option (str, int) requires { 0 <= c <= 1 } raises { Cxx -> true }
    ensures { match result with None -> true | Some (h, n) -> h = blob_hash c (file_content p) /\ n = len (file_content p) end }
  val hash_tree_file (c: int) (p: str) : option (str, int) requires { 0 <= c <= 1 } raises { Cxx -> true }
    ensures { match result with None -> true | Some (h, n) -> h = tree_hash c (file_content p) /\ n = len (file_content p) end }
'''

RD = 'src/utils/cpp/incremental_reader.cpp'
READER = r'''
  type reader = { r_chunk : int; r_size : int }
  (* the chunk at an offset, the offset after it; the end is one past the size *)
  function chunk (s: str) (c o: int) : str = sub s o (if o + c <= len s then o + c else len s)
  function next (c n o: int) : int = if o + c >= n then n + 1 else o + c
  let lemma sub_join (s: str) (i j k: int) : unit
    requires { 0 <= i <= j <= k <= len s }
    ensures { cat (sub s i j) (sub s j k) = sub s i k }
  = assert { eqs (cat (sub s i j) (sub s j k)) (sub s i k) }
  let rec ghost join_chunks (s: str) (c o: int) : str
    requires { 0 < c /\ 0 <= o <= len s + 1 /\ (o = 0 \/ o < len s \/ o = len s + 1) }
    ensures { o = 0 -> result = s }
    ensures { 0 < o <= len s -> result = sub s o (len s) } ensures { o = len s + 1 -> result = empty }
    variant { len s + 1 - o }
  = if o = len s + 1 then empty
    else if o + c >= len s then (let _ = join_chunks s c (len s + 1) in chunk s c o)
    else let r = cat (chunk s c o) (join_chunks s c (next c (len s) o)) in (assert { chunk s c o = sub s o (o + c) }; sub_join s o (o + c) (len s); r)
'''


def units():
    h = Unit('Hex', use='Json')
    h.spec(HEX)
    h.spec(ROUND)
    h.fn('IsHexString', HX, contract='ensures { result <-> all_hex p1 (len p1) }', filter='IsHexString', loops={1: dict(inv=['t1q = true', 'all_hex sq1 it1'])})
    h.fn('ToHexString', HX, contract='requires { bytes p1 }\n    ensures { result = hexed p1 (len p1) }', filter='ToHexString', loops={1: dict(inv=['$ss<str> = hexed sq1 it1'])})
    h.fn('FromHexString', HX, contract='''requires { bytes p1 }
    ensures { match result with None -> not (all_hex p1 (len p1)) | Some r -> all_hex p1 (len p1) /\\ (mod (len p1) 2 = 0 -> unhexed r p1 (div (len p1) 2)) end }''',
         filter='FromHexString', loops={1: dict(inv=['mod $i<int> 2 = 0', '0 <= $i<int> <= len p1 + 1', '$i<int> <= len p1 \\/ mod (len p1) 2 = 1', '$i<int> <= len p1 -> unhexed $ss<str> p1 (div $i<int> 2)'], variant='len p1 - $i<int>')})
    u = Unit('Hash', use='Json')
    u.spec(HEX)
    u.spec(SPEC)
    HT = ('enum', 'HashFunction::Type')
    for q in ('HashFunction', 'HashFunction::Type', 'Type'):
        u.extra_types[q] = HT
    u.enums.update(GitSHA1=0, PlainSHA256=1, SHA1=0, SHA256=1, SHA512=2)
    for q in ('Hasher::HashType', 'HashType'):
        u.extra_types[q] = ('enum', 'Hasher::HashType')
    u.abst(['Hasher'], 'sha_state')
    u.abst(['TagCreator', 'HashFunction::TagCreator'], 'tagger')
    for q in ('Hasher::HashDigest', 'HashDigest'):
        u.extra_types[q] = ('str',)
    this = [('type_', 'c', HT, False)]

    u.fnrefs.update(CreateGitBlobTag='tag_blob', CreateGitTreeTag='tag_tree')
    u.methods[('sha_state', 'Update')] = lambda tr, x, args, n: X(x.lv.write(tr.app('h_update', [X(x.lv.read(), x.ty), tr.E(args[0])], x.ty).code), ('unit',), True)
    u.extern('Finalize', 'h_final', ('str',), of='sha_state')
    u.extern('GetHashLength', 'h_length', ('int', 64, False), of='sha_state')
    u.extern('Create', 'h_create', ('opt', ('abs', 'sha_state')))
    u.fncalls['invoke'] = lambda tr, args, n: tr.app('call_tagger', [tr.E(args[0]), tr.E(args[1])], ('str',), True)
    u.methods[('enum', 'MakeHasher')] = lambda tr, x, args, n: tr.app('makeHasher', [x], ('abs', 'sha_state'), True)
    u.fn('CreateGitTreeTag', HF, contract='ensures { result = tag tag_tree p1 }', filter='CreateGitTreeTag')
    u.fn('CreateGitBlobTag', HF, contract='ensures { result = tag tag_blob p1 }', filter='CreateGitBlobTag')
    F = 'HashFunction::'
    u.fn(F + 'MakeHasher', HF, contract='requires { 0 <= c <= 1 }\n    ensures { result = { algo = algo_of c; fed = empty } }', filter=F + 'MakeHasher', this=this, thisval=('c', HT), why='makeHasher')
    R = 'requires { 0 <= c <= 1 }\n    '
    u.fn(F + 'HashTaggedLine', HF, contract=R + 'ensures { result = match p2 with Some g -> tagged_hash c g p1 | None -> plain_hash c p1 end }', filter=F + 'HashTaggedLine', this=this, thisval=('c', HT), ptypes={1: ('opt', ('abs', 'tagger'))})
    u.fn(F + 'HashBlobData', HF, contract=R + 'ensures { result = blob_hash c p1 }', filter=F + 'HashBlobData', this=this, thisval=('c', HT))
    u.fn(F + 'HashTreeData', HF, contract=R + 'ensures { result = tree_hash c p1 }', filter=F + 'HashTreeData', this=this, thisval=('c', HT))
    u.fn(F + 'PlainHashData', HF, contract=R + 'ensures { result = plain_hash c p1 }', filter=F + 'PlainHashData', this=this, thisval=('c', HT))
    u.iterseq['reader'] = ('(chunks %s)', ('opt', ('str',)))
    u.abst(['IncrementalReader'], 'reader')
    u.extern('FromFile', 'reader_from_file', ('opt', ('abs', 'reader')))
    u.extern('file_size', 'file_size', ('int', 64, False))
    u.fn(F + 'HashTaggedFile', HF, contract=R + '''ensures { match result with None -> true | Some (h, n) -> h = tagged_hash c p2 (file_content p1) /\\ n = len (file_content p1) end }
    raises { Cxx -> true }''',
         filter=F + 'HashTaggedFile', this=this, thisval=('c', HT), ptypes={1: ('abs', 'tagger')}, loops={1: dict(inv=['all_read sq1 it1', '$hasher<sha_state>.algo = algo_of c', '$hasher<sha_state>.fed = cat (if c = git then tag p2 (len (file_content p1)) else empty) (joined sq1 it1)'])})
    for k in ('Blob', 'Tree'):
        u.fn(F + 'Hash%sFile' % k, HF, contract=R + '''ensures { match result with None -> true | Some (h, n) -> h = %s_hash c (file_content p1) /\\ n = len (file_content p1) end }
    raises { Cxx -> true }''' % k.lower(), filter=F + 'Hash%sFile' % k, this=this, thisval=('c', HT))
    # HashInfo: hexadecimal hash, algorithm, tree flag
    i = Unit('HashInfo', use='Json')
    i.spec(HEX)
    i.spec(SPEC)
    i.spec(INFO)
    for q in ('HashFunction', 'HashFunction::Type', 'Type'):
        i.extra_types[q] = HT
    i.enums.update(GitSHA1=0, PlainSHA256=1)
    i.abst(['Hasher'], 'sha_state')
    for q in ('Hasher::HashDigest', 'HashDigest'):
        i.extra_types[q] = ('str',)
    INF = ('rec', 'hash_info')
    i.rec('HashInfo', 'hash_info', [('hash_', 'hi_hash', ('str',)), ('hash_type_', 'hi_type', HT), ('is_tree_', 'hi_tree', ('bool',))])
    i.globals['kSHA1EmptyGitBlobHash'] = ('B"e69de29bb2d1d6434b8b29ae775ad8c2e48c5391"', ('str',))
    opaque = lambda sym, t: (lambda tr, x, args, n: tr.app(sym, [x] + [tr.E(a) for a in args], t, True))
    i.methods[('enum', 'MakeHasher')] = opaque('make_hasher', ('abs', 'sha_state'))
    i.extern('GetHashLength', 'h_length', ('int', 64, False), of='sha_state')
    FH = ('opt', ('pair', ('str',), ('int', 64, False)))
    for k in ('Blob', 'Tree'):
        i.methods[('enum', 'Hash%sData' % k)] = opaque('hash_%s_data' % k.lower(), ('str',))
        i.methods[('enum', 'Hash%sFile' % k)] = opaque('hash_%s_file' % k.lower(), FH)
    i.methods[('enum', 'GetType')] = lambda tr, x, args, n: x
    i.methods[('str', 'HexString')] = lambda tr, x, args, n: tr.app('hexString', [x], ('str',), True)
    i.fn('ToHexString', HX, contract='requires { bytes p1 }\n    ensures { result = hexed p1 (len p1) }', filter='ToHexString', abstract=True)
    i.fn('IsHexString', HX, contract='ensures { result <-> all_hex p1 (len p1) }', filter='IsHexString', abstract=True)
    i.fn('HashDigest::HexString', C + 'hasher.cpp', contract='requires { bytes c }\n    ensures { result = hexed c (len c) }', filter='HexString', this=[('bytes_', 'c', ('str',), False)], why='hexString')
    H = 'HashInfo::'
    three = lambda d: len([c for c in d['inner'] if c['kind'] == 'ParmVarDecl']) == 3
    none = lambda d: not [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl'] and d['type']['qualType'].startswith('void ()')
    i.fn(H + 'HashInfo', HI, contract='ensures { result = { hi_hash = p1; hi_type = p2; hi_tree = p3 } }', filter='HashInfo::HashInfo', rtype=INF, why='mk_info', pick=three)
    i.fn(H + 'HashInfo', HI, contract='ensures { result.hi_type = git /\\ result.hi_tree = false /\\ result.hi_hash = B"e69de29bb2d1d6434b8b29ae775ad8c2e48c5391" }', filter='HashInfo::HashInfo', rtype=INF, why='mk_info_0', pick=none)
    R1 = 'requires { 0 <= p1 <= 1 }\n    '
    OK = '(p3 -> p1 = git) /\\ len p2 = 2 * hash_len (algo_of p1) /\\ all_hex p2 (len p2)'
    i.fn(H + 'ValidateInput', HI, contract=R1 + 'ensures { result = None <-> %s }' % OK, filter=H + 'ValidateInput')
    i.fn(H + 'Create', HI, contract=R1 + 'ensures { match result with None -> not (%s) | Some r -> (%s) /\\ info_ok r /\\ r = { hi_hash = p2; hi_type = p1; hi_tree = p3 } end }' % (OK, OK), filter=H + 'Create')
    i.fn(H + 'HashData', HI, contract=R1 + 'ensures { info_of result p1 p2 p3 }', filter=H + 'HashData')
    i.fn(H + 'HashFile', HI, contract=R1 + '''ensures { match result with None -> true | Some (r, n) -> info_of r p1 (file_content p2) p3 /\\ n = len (file_content p2) end }
    raises { Cxx -> true }''', filter=H + 'HashFile')
    i.fn(H + 'operator==', HI, contract='ensures { result <-> c = p1.hi_hash /\\ t = p1.hi_tree }', filter=H + 'operator==', this=[('hash_', 'c', ('str',), False), ('is_tree_', 't', ('bool',), False)], why='info_eq')
    # IncrementalReader: the chunks of a source, joined, are its content
    r = Unit('Reader', use='Json')
    r.spec(READER)
    IR = 'IncrementalReader::'
    CH, SZ, OF = ('chunk_size_', 'c', ('int', 64, False), False), ('content_size_', 'n', ('int', 64, False), False), ('offset_', 'o', ('int', 64, False), True)
    r.rec('IncrementalReader', 'reader', [('chunk_size_', 'r_chunk', ('int', 64, False)), ('content_size_', 'r_size', ('int', 64, False))])
    r.fn(IR + 'ReadFromMemory', RD, contract='requires { 0 < c /\\ 0 <= p2 /\\ (if len p1 = 0 then p2 = 0 else p2 < len p1) }\n    ensures { result = Some (chunk p1 c p2) }', filter=IR + 'ReadFromMemory', this=[CH], ptypes={0: ('str',)})
    r.fn(IR + 'GetEndOffset', RD, contract='ensures { result = n + 1 }', filter=IR + 'GetEndOffset', this=[SZ])
    r.methods[('rec', 'GetEndOffset')] = lambda tr, x, args, n: X('(%s.r_size + 1)' % x.code, ('int', 64, False))
    r.fn(IR + 'Iterator::operator++', RD, contract='requires { 0 <= o }\n    ensures { o = next w.r_chunk w.r_size (old o) }', filter=IR + 'Iterator::operator++', this=[OF, ('owner_', 'w', ('rec', 'reader'), False)], rtype=('unit',))
    return [h, u, i, r]
