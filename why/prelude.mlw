(* Mathematical theories over which the extracted C++ functions are specified.
   Everything here is a theory of finite sequences, sets, maps, byte strings and C++ standard
   library operations; it is part of the trusted base and is listed in every evidence file.
   *)

module Base
  use export int.Int
  use export int.MinMax
  use export option.Option
  exception Cxx

  val eqv (x y: 'a) : bool ensures { result <-> x = y }
  let function eqb (x y: bool) : bool = (x && y) || (not x && not y)
  let function bor_b (x y: bool) : bool = x || y
  let function band_b (x y: bool) : bool = x && y
  let function is_some (o: option 'a) : bool = match o with Some _ -> true | None -> false end
  val function oget_total (o: option 'a) : 'a
  axiom oget_some : forall x: 'a [oget_total (Some x)]. oget_total (Some x) = x
  function the (o: option 'a) : 'a = oget_total o
  let oget (o: option 'a) : 'a
    requires { [@expl:optional holds a value] o <> None }
    ensures { o = Some result }
  = match o with Some x -> x | None -> absurd end
  let oget_or_throw (o: option 'a) : 'a
    raises { Cxx -> o = None } ensures { o = Some result }
  = match o with Some x -> x | None -> raise Cxx end
  let function oget_or (o: option 'a) (d: 'a) : 'a = match o with Some x -> x | None -> d end
  let function fst_ (p: ('a, 'b)) : 'a = let (x, _) = p in x
  let function snd_ (p: ('a, 'b)) : 'b = let (_, y) = p in y
  let function imin (x y: int) : int = if x <= y then x else y
  let function imax (x y: int) : int = if x <= y then y else x
  let expects (b: bool) : unit requires { [@expl:Expects condition] b } = ()
  val function nullp : unit
  (* marks the indices at which a recursive definition may be unrolled (a trigger; no meaning) *)
  predicate unroll (i: int)
  val unroll_ (i: int) : unit ensures { unroll i }
  type or2 'a 'b = In1 'a | In2 'b
  let get_in1 (x: or2 'a 'b) : 'a
    raises { Cxx -> match x with In1 _ -> false | In2 _ -> true end } ensures { x = In1 result }
  = match x with In1 y -> y | In2 _ -> raise Cxx end
  let get_in2 (x: or2 'a 'b) : 'b
    raises { Cxx -> match x with In1 _ -> true | In2 _ -> false end } ensures { x = In2 result }
  = match x with In1 _ -> raise Cxx | In2 y -> y end
  type or3 'a 'b 'c = J1 'a | J2 'b | J3 'c
end

module Seq
  use export Base
  type seq 'a
  val function len (s: seq 'a) : int
  val function nth (s: seq 'a) (i: int) : 'a
  val constant empty : seq 'a
  val function snoc (s: seq 'a) (x: 'a) : seq 'a
  val function cat (s t: seq 'a) : seq 'a
  val function sub (s: seq 'a) (i j: int) : seq 'a
  val function rev (s: seq 'a) : seq 'a
  val function upd (s: seq 'a) (i: int) (x: 'a) : seq 'a
  val function replicate_ (n: int) (x: 'a) : seq 'a
  predicate eqs (s t: seq 'a)

  axiom len_nonneg : forall s: seq 'a [len s]. 0 <= len s
  axiom len_empty : len (empty: seq 'a) = 0
  axiom len_zero : forall s: seq 'a [len s]. len s = 0 -> s = empty
  axiom len_snoc : forall s: seq 'a, x [snoc s x]. len (snoc s x) = len s + 1
  axiom at_snoc : forall s: seq 'a, x, i [nth (snoc s x) i].
    0 <= i <= len s -> nth (snoc s x) i = if i = len s then x else nth s i
  axiom snoc_inj : forall s t: seq 'a, x y [snoc s x, snoc t y]. snoc s x = snoc t y -> s = t /\ x = y
  axiom len_cat : forall s t: seq 'a [cat s t]. len (cat s t) = len s + len t
  axiom at_cat : forall s t: seq 'a, i [nth (cat s t) i].
    (0 <= i < len s -> nth (cat s t) i = nth s i) /\
    (len s <= i < len s + len t -> nth (cat s t) i = nth t (i - len s))
  axiom cat_empty : forall s: seq 'a [cat s (empty: seq 'a)]. cat s empty = s
  axiom empty_cat : forall s: seq 'a [cat (empty: seq 'a) s]. cat empty s = s
  axiom cat_snoc : forall s t: seq 'a, x [cat s (snoc t x)]. cat s (snoc t x) = snoc (cat s t) x
  axiom cat_assoc : forall s t u: seq 'a [cat s (cat t u)]. cat s (cat t u) = cat (cat s t) u
  axiom len_sub : forall s: seq 'a, i j [sub s i j]. 0 <= i <= j <= len s -> len (sub s i j) = j - i
  axiom at_sub : forall s: seq 'a, i j k [nth (sub s i j) k]. 0 <= i <= j <= len s -> 0 <= k < j - i ->
    nth (sub s i j) k = nth s (i + k)
  axiom sub_empty : forall s: seq 'a, i [sub s i i]. 0 <= i <= len s -> sub s i i = empty
  axiom sub_full : forall s: seq 'a [sub s 0 (len s)]. sub s 0 (len s) = s
  axiom sub_snoc : forall s: seq 'a, i j [sub s i j, nth s j].
    0 <= i <= j < len s -> sub s i (j+1) = snoc (sub s i j) (nth s j)
  axiom sub_sub : forall s: seq 'a, i j k l [sub (sub s i j) k l].
    0 <= i <= j <= len s -> 0 <= k <= l <= j - i -> sub (sub s i j) k l = sub s (i+k) (i+l)
  axiom sub_of_snoc : forall s: seq 'a, x, i j [sub (snoc s x) i j].
    0 <= i <= j <= len s -> sub (snoc s x) i j = sub s i j
  axiom sub_cat_l : forall s t: seq 'a, j [sub (cat s t) 0 j]. j = len s -> sub (cat s t) 0 j = s
  axiom sub_cat_r : forall s t: seq 'a, i j [sub (cat s t) i j]. i = len s -> j = len s + len t -> sub (cat s t) i j = t
  axiom sub_cat : forall s t: seq 'a, i j [sub (cat s t) i j]. 0 <= i <= j <= len s + len t ->
    sub (cat s t) i j = if j <= len s then sub s i j else if len s <= i then sub t (i - len s) (j - len s)
      else cat (sub s i (len s)) (sub t 0 (j - len s))
  axiom len_rev : forall s: seq 'a [rev s]. len (rev s) = len s
  axiom at_rev : forall s: seq 'a, i [nth (rev s) i]. 0 <= i < len s -> nth (rev s) i = nth s (len s - 1 - i)
  axiom rev_empty : rev (empty: seq 'a) = empty
  axiom rev_rev : forall s: seq 'a [rev (rev s)]. rev (rev s) = s
  axiom len_upd : forall s: seq 'a, i x [upd s i x]. 0 <= i < len s -> len (upd s i x) = len s
  axiom at_upd : forall s: seq 'a, i x, j [nth (upd s i x) j]. 0 <= i < len s -> 0 <= j < len s ->
    nth (upd s i x) j = if i = j then x else nth s j
  axiom len_repl : forall n, x: 'a [replicate_ n x]. 0 <= n -> len (replicate_ n x) = n
  axiom at_repl : forall n, x: 'a, i [nth (replicate_ n x) i]. 0 <= i < n -> nth (replicate_ n x) i = x
  axiom ext : forall s t: seq 'a [eqs s t].
    eqs s t <-> (len s = len t /\ forall i [nth s i|nth t i]. 0 <= i < len s -> nth s i = nth t i)
  axiom ext_eq : forall s t: seq 'a [eqs s t]. eqs s t -> s = t

  (* the last element and what precedes it *)
  function last (s: seq 'a) : 'a = nth s (len s - 1)
  function init (s: seq 'a) : seq 'a = sub s 0 (len s - 1)
  axiom snoc_view : forall s: seq 'a [init s]. 0 < len s -> s = snoc (init s) (last s) /\ len (init s) = len s - 1
  axiom init_snoc : forall s: seq 'a, x [init (snoc s x)]. init (snoc s x) = s
  axiom sub_init : forall s: seq 'a, i j [sub (init s) i j]. 0 <= i <= j <= len s - 1 -> sub (init s) i j = sub s i j

  (* membership as a predicate *)
  predicate smemb (x: 'a) (s: seq 'a)
  axiom smemb_empty : forall x: 'a [smemb x empty]. not (smemb x empty)
  axiom smemb_snoc : forall x y: 'a, s [smemb x (snoc s y)]. smemb x (snoc s y) <-> smemb x s \/ x = y
  axiom smemb_cat : forall x: 'a, s t [smemb x (cat s t)]. smemb x (cat s t) <-> smemb x s \/ smemb x t
  axiom smemb_rev : forall x: 'a, s [smemb x (rev s)]. smemb x (rev s) <-> smemb x s
  axiom smemb_at : forall s: seq 'a, i [nth s i]. 0 <= i < len s -> smemb (nth s i) s
  val function idx_of (x: 'a) (s: seq 'a) : int
  axiom smemb_idx : forall s: seq 'a, x [smemb x s]. smemb x s -> 0 <= idx_of x s < len s /\ nth s (idx_of x s) = x

  (* operations with the C++ preconditions *)
  val at_ (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < len s } ensures { result = nth s i }
  val at_thr (s: seq 'a) (i: int) : 'a
    raises { Cxx -> not (0 <= i < len s) } ensures { 0 <= i < len s /\ result = nth s i }
  val upd_ (s: seq 'a) (i: int) (x: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < len s } ensures { result = upd s i x }
  val slice_ (s: seq 'a) (i j: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= i <= j <= len s } ensures { result = sub s i j }
  val pop_back_ (s: seq 'a) : seq 'a
    requires { [@expl:pop_back of a non-empty container] len s > 0 } ensures { result = init s }
  let function singleton (x: 'a) : seq 'a = snoc empty x
  val function resize_ (s: seq 'a) (n: int) (d: 'a) : seq 'a
  axiom resize_def : forall s: seq 'a, n d [resize_ s n d]. 0 <= n ->
    resize_ s n d = (if n <= len s then sub s 0 n else cat s (replicate_ (n - len s) d))
  let function replicate (n: int) (x: 'a) : seq 'a = replicate_ n x
  val function seq_find (s: seq 'a) (x: 'a) : int
  axiom seq_find_def : forall s: seq 'a, x [seq_find s x].
    (smemb x s -> 0 <= seq_find s x < len s /\ nth s (seq_find s x) = x /\
       (forall j. 0 <= j < seq_find s x -> nth s j <> x)) /\
    (not (smemb x s) -> seq_find s x = len s)
  val same_container (s t: seq 'a) : unit requires { [@expl:iterators of one container] s = t }
  val ptr_slice_ (s: seq 'a) (i n: int) : seq 'a
    requires { [@expl:pointer range in bounds] 0 <= i /\ 0 <= n /\ i + n <= len s } ensures { result = sub s i (i+n) }
end

(* machine integers: see DESIGN.md.  Unsigned wrap-around is explicit. *)
module Mach
  use export Base
  use export int.EuclideanDivision
  constant two32 : int = 4294967296
  constant two64 : int = 18446744073709551616
  let constant npos : int = 18446744073709551615
  val function wrap_u8 (x: int) : int
  axiom wrap_u8_id : forall x [wrap_u8 x]. 0 <= x < 256 -> wrap_u8 x = x
  axiom wrap_u8_range : forall x [wrap_u8 x]. 0 <= wrap_u8 x < 256
  axiom wrap_u8_def : forall x [wrap_u8 x]. wrap_u8 x = mod x 256
  val function wrap_s8 (x: int) : int
  axiom wrap_s8_id : forall x [wrap_s8 x]. -128 <= x < 128 -> wrap_s8 x = x
  axiom wrap_s8_def : forall x [wrap_s8 x]. wrap_s8 x = if mod x 256 < 128 then mod x 256 else mod x 256 - 256
  val function wrap_u16 (x: int) : int
  axiom wrap_u16_id : forall x [wrap_u16 x]. 0 <= x < 65536 -> wrap_u16 x = x
  axiom wrap_u16_range : forall x [wrap_u16 x]. 0 <= wrap_u16 x < 65536
  axiom wrap_u16_def : forall x [wrap_u16 x]. wrap_u16 x = mod x 65536
  val function wrap_s16 (x: int) : int
  axiom wrap_s16_id : forall x [wrap_s16 x]. -32768 <= x < 32768 -> wrap_s16 x = x
  axiom wrap_s16_def : forall x [wrap_s16 x]. wrap_s16 x = if mod x 65536 < 32768 then mod x 65536 else mod x 65536 - 65536
  val function wrap_u32 (x: int) : int
  axiom wrap_u32_id : forall x [wrap_u32 x]. 0 <= x < 4294967296 -> wrap_u32 x = x
  axiom wrap_u32_range : forall x [wrap_u32 x]. 0 <= wrap_u32 x < 4294967296
  axiom wrap_u32_def : forall x [wrap_u32 x]. wrap_u32 x = mod x 4294967296
  val function wrap_s32 (x: int) : int
  axiom wrap_s32_id : forall x [wrap_s32 x]. -2147483648 <= x < 2147483648 -> wrap_s32 x = x
  axiom wrap_s32_def : forall x [wrap_s32 x]. wrap_s32 x = if mod x 4294967296 < 2147483648 then mod x 4294967296 else mod x 4294967296 - 4294967296
  val function wrap_u64 (x: int) : int
  axiom wrap_u64_id : forall x [wrap_u64 x]. 0 <= x < 18446744073709551616 -> wrap_u64 x = x
  axiom wrap_u64_range : forall x [wrap_u64 x]. 0 <= wrap_u64 x < 18446744073709551616
  axiom wrap_u64_def : forall x [wrap_u64 x]. wrap_u64 x = mod x 18446744073709551616
  val function wrap_s64 (x: int) : int
  axiom wrap_s64_id : forall x [wrap_s64 x]. -9223372036854775808 <= x < 9223372036854775808 -> wrap_s64 x = x
  axiom wrap_s64_def : forall x [wrap_s64 x]. wrap_s64 x = if mod x 18446744073709551616 < 9223372036854775808 then mod x 18446744073709551616 else mod x 18446744073709551616 - 18446744073709551616
  let function sext8 (x: int) : int = if x < 128 then x else x - 256
  let sub_u64 (x y: int) : int requires { [@expl:unsigned subtraction does not wrap] y <= x } ensures { result = x - y } = x - y
  let sub_u32 (x y: int) : int requires { [@expl:unsigned subtraction does not wrap] y <= x } ensures { result = x - y } = x - y
  let sub_u8 (x y: int) : int requires { [@expl:unsigned subtraction does not wrap] y <= x } ensures { result = x - y } = x - y
  let dec_u64 (x: int) : int requires { [@expl:unsigned decrement does not wrap] 0 < x } ensures { result = x - 1 } = x - 1
  let dec_u32 (x: int) : int requires { [@expl:unsigned decrement does not wrap] 0 < x } ensures { result = x - 1 } = x - 1
  let dec_u8 (x: int) : int requires { [@expl:unsigned decrement does not wrap] 0 < x } ensures { result = x - 1 } = x - 1
  let div_ (x y: int) : int
    requires { [@expl:division by non-zero] y > 0 } requires { 0 <= x } ensures { result = div x y } = div x y
  let mod_ (x y: int) : int
    requires { [@expl:division by non-zero] y > 0 } requires { 0 <= x } ensures { result = mod x y } = mod x y
  val function bw_and (x y: int) : int
  val function bw_or (x y: int) : int
  val function bw_xor (x y: int) : int
  val function bw_not (x: int) : int
  val function pow2 (n: int) : int
  axiom pow2_0 : pow2 0 = 1
  axiom pow2_s : forall n [pow2 (n+1)]. 0 <= n -> pow2 (n+1) = 2 * pow2 n
  val function shr_ (x y: int) : int
  axiom shr_4 : forall x [shr_ x 4]. 0 <= x -> shr_ x 4 = div x 16
  axiom shr_8 : forall x [shr_ x 8]. 0 <= x -> shr_ x 8 = div x 256
  axiom and_15 : forall x [bw_and x 15]. 0 <= x -> bw_and x 15 = mod x 16
  axiom and_192 : forall x [bw_and x 192]. 0 <= x < 256 -> bw_and x 192 = 64 * div x 64
  axiom and_255 : forall x [bw_and x 255]. 0 <= x -> bw_and x 255 = mod x 256
  val function shl_u64 (x y: int) : int
  val function shl_u32 (x y: int) : int
  val function shl_s (x y: int) : int
end

(* byte strings *)
module Str
  use export Seq
  use export Mach
  type str = seq int
  (* numbers the string literals of one unit: different literals are different strings *)
  function lit_tag (s: str) : int
  (* lexicographic order on unsigned bytes: a strict total order *)
  val predicate str_lt (x y: str)
  axiom str_lt_irr : forall x [str_lt x x]. not (str_lt x x)
  axiom str_lt_trans : forall x y z [str_lt x y, str_lt y z]. str_lt x y -> str_lt y z -> str_lt x z
  axiom str_lt_total : forall x y [str_lt x y]. str_lt x y \/ x = y \/ str_lt y x
  let predicate str_gt (x y: str) = str_lt y x
  let predicate str_le (x y: str) = not (str_lt y x)
  let predicate str_ge (x y: str) = not (str_lt x y)
  val function str_compare (x y: str) : int
  axiom str_compare_def : forall x y [str_compare x y].
    (str_compare x y = 0 <-> x = y) /\ (str_compare x y < 0 <-> str_lt x y)

  predicate is_prefix (p s: str) = len p <= len s /\ sub s 0 (len p) = p
  predicate is_suffix (p s: str) = len p <= len s /\ sub s (len s - len p) (len s) = p
  (* p occurs in s at i *)
  predicate occurs (s p: str) (i: int) = 0 <= i <= len s - len p /\ sub s i (i + len p) = p
  val predicate str_starts_with (s p: str)
  axiom starts_with_def : forall s p [str_starts_with s p]. str_starts_with s p <-> is_prefix p s
  val predicate str_ends_with (s p: str)
  axiom ends_with_def : forall s p [str_ends_with s p]. str_ends_with s p <-> is_suffix p s
  val function str_find (s p: str) (pos: int) : int
  axiom str_find_def : forall s p pos [str_find s p pos]. 0 <= pos -> len s < npos ->
    (str_find s p pos = npos /\ (forall j [occurs s p j]. pos <= j -> not (occurs s p j))) \/
    (pos <= str_find s p pos <= len s - len p /\ occurs s p (str_find s p pos) /\
      (forall j [occurs s p j]. pos <= j < str_find s p pos -> not (occurs s p j)))
  val function str_find_char (s: str) (c: int) (pos: int) : int
  axiom str_find_char_def : forall s c pos [str_find_char s c pos]. 0 <= pos -> len s < npos ->
    (str_find_char s c pos = npos /\ (forall j [nth s j]. pos <= j < len s -> nth s j <> c)) \/
    (pos <= str_find_char s c pos < len s /\ nth s (str_find_char s c pos) = c /\
      (forall j [nth s j]. pos <= j < str_find_char s c pos -> nth s j <> c))
  val function str_find_first_of (s cs: str) : int
  axiom str_ffo_def : forall s cs [str_find_first_of s cs]. len s < npos ->
    (str_find_first_of s cs = npos /\ (forall j [nth s j]. 0 <= j < len s -> not (smemb (nth s j) cs))) \/
    (0 <= str_find_first_of s cs < len s /\ smemb (nth s (str_find_first_of s cs)) cs /\
      (forall j [nth s j]. 0 <= j < str_find_first_of s cs -> not (smemb (nth s j) cs)))
  val substr_ (s: str) (pos n: int) : str
    raises { Cxx -> pos > len s }
    ensures { 0 <= pos <= len s -> n >= len s - pos -> result = sub s pos (len s) }
    ensures { 0 <= pos <= len s -> 0 <= n <= len s - pos -> result = sub s pos (pos + n) }
    ensures { pos <= len s }
  val substr1_ (s: str) (pos: int) : str
    raises { Cxx -> pos > len s }
    ensures { 0 <= pos <= len s -> result = sub s pos (len s) }
    ensures { pos <= len s }
  val str_compare3 (s: str) (pos n: int) (t: str) : int
    raises { Cxx -> pos > len s }
    ensures { 0 <= pos <= len s -> 0 <= n ->
      result = str_compare (sub s pos (if n <= len s - pos then pos + n else len s)) t }
    ensures { pos <= len s }
  val str_replace_ (s: str) (pos n: int) (t: str) : str
    requires { [@expl:replace position in bounds] 0 <= pos <= len s }
    ensures { 0 <= n <= len s - pos -> result = cat (cat (sub s 0 pos) t) (sub s (pos + n) (len s)) }
  val function str_prefix_ (s: str) (n: int) : str
  axiom str_prefix_def : forall s n [str_prefix_ s n]. 0 <= n <= len s -> str_prefix_ s n = sub s 0 n
  val function int_str (n: int) : str
  axiom int_str_inj : forall m n [int_str m, int_str n]. int_str m = int_str n -> m = n
  val function dec_fmt (n w f: int) : str
  (* two lower-case hex digits: what `<< hex << setw(2) << setfill('0')` prints for a value below 256 *)
  val function hex_fmt (n w f: int) : str
  function hex_char (d: int) : int = if d < 10 then 48 + d else 87 + d
  axiom hex_fmt_2 : forall n [hex_fmt n 2 48]. 0 <= n < 256 -> hex_fmt n 2 48 = snoc (snoc empty (hex_char (div n 16))) (hex_char (mod n 16))
  val function isxdigit (c: int) : int
  axiom isxdigit_def : forall c [isxdigit c]. isxdigit c <> 0 <-> (48 <= c <= 57 \/ 65 <= c <= 70 \/ 97 <= c <= 102)
  val function isdigit (c: int) : int
  axiom isdigit_def : forall c [isdigit c]. isdigit c <> 0 <-> 48 <= c <= 57
  val str_stoul (_s: str) : int raises { Cxx }
  (* the value of the longest hexadecimal prefix; what is not given by a few digits is left open *)
  function hex_digit (c: int) : int = if 48 <= c <= 57 then c - 48 else if 65 <= c <= 70 then c - 55 else c - 87
  predicate is_hex (c: int) = 48 <= c <= 57 \/ 65 <= c <= 70 \/ 97 <= c <= 102
  val str_stoul_base (s: str) (b: int) : int
    raises { Cxx -> len s = 0 \/ len s > 16 \/ exists i. 0 <= i < len s /\ not (is_hex (nth s i)) }
    ensures { 0 <= result } ensures { b = 16 -> len s = 1 -> is_hex (nth s 0) -> result = hex_digit (nth s 0) }
    ensures { b = 16 -> len s = 2 -> is_hex (nth s 0) -> is_hex (nth s 1) -> result = 16 * hex_digit (nth s 0) + hex_digit (nth s 1) }
  val str_stoi (_s: str) : int raises { Cxx }
  type istream
  val function istream_of (s: str) : istream
  (* remaining input and fail flag *)
  function is_rest istream : str
  val predicate is_fail (s: istream)
  axiom istream_of_def : forall s [istream_of s]. is_rest (istream_of s) = s /\ not (is_fail (istream_of s))
end

module Set
  use export Str
  type fset 'a
  val predicate smem (x: 'a) (s: fset 'a)
  val constant sempty : fset 'a
  val function sadd (x: 'a) (s: fset 'a) : fset 'a
  val function sremove (x: 'a) (s: fset 'a) : fset 'a
  val function sunion (s t: fset 'a) : fset 'a
  val function set_of_seq (s: seq 'a) : fset 'a
  val predicate sis_empty (s: fset 'a)
  val function ssize (s: fset 'a) : int
  axiom smem_empty : forall x: 'a [smem x sempty]. not (smem x sempty)
  axiom smem_add : forall x y: 'a, s [smem x (sadd y s)]. smem x (sadd y s) <-> x = y \/ smem x s
  axiom smem_remove : forall x y: 'a, s [smem x (sremove y s)]. smem x (sremove y s) <-> x <> y /\ smem x s
  axiom smem_union : forall x: 'a, s t [smem x (sunion s t)]. smem x (sunion s t) <-> smem x s \/ smem x t
  axiom smem_of_seq : forall x: 'a, s [smem x (set_of_seq s)]. smem x (set_of_seq s) <-> smemb x s
  axiom ssize_nonneg : forall s: fset 'a [ssize s]. 0 <= ssize s
  axiom ssize_empty : ssize (sempty : fset 'a) = 0
  axiom ssize_add : forall x: 'a, s [ssize (sadd x s)]. ssize (sadd x s) = if smem x s then ssize s else ssize s + 1
  axiom sis_empty_def : forall s: fset 'a [sis_empty s]. sis_empty s <-> s = sempty
  axiom sempty_mem : forall s: fset 'a, x [smem x s, sis_empty s]. smem x s -> not (sis_empty s)
  predicate seqs (s t: fset 'a)
  axiom set_ext : forall s t: fset 'a [seqs s t]. seqs s t <-> (forall x [smem x s|smem x t]. smem x s <-> smem x t)
  axiom set_ext_eq : forall s t: fset 'a [seqs s t]. seqs s t -> s = t
  (* iteration: some order, each element once; ordered sets iterate in increasing order *)
  val function selems (s: fset 'a) : seq 'a
  val function uselems (s: fset 'a) : seq 'a
  axiom selems_mem : forall s: fset 'a, x [smemb x (selems s)]. smemb x (selems s) <-> smem x s
  axiom uselems_mem : forall s: fset 'a, x [smemb x (uselems s)]. smemb x (uselems s) <-> smem x s
  axiom selems_dist : forall s: fset 'a, i j [nth (selems s) i, nth (selems s) j].
    0 <= i < j < len (selems s) -> nth (selems s) i <> nth (selems s) j
  axiom uselems_dist : forall s: fset 'a, i j [nth (uselems s) i, nth (uselems s) j].
    0 <= i < j < len (uselems s) -> nth (uselems s) i <> nth (uselems s) j
  axiom selems_sorted : forall s: fset str, i j [nth (selems s) i, nth (selems s) j].
    0 <= i < j < len (selems s) -> str_lt (nth (selems s) i) (nth (selems s) j)
end

module Map
  use export Set
  type fmap 'k 'v
  val function mget (m: fmap 'k 'v) (k: 'k) : option 'v
  val constant mempty : fmap 'k 'v
  val function mset (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v
  val function mremove (m: fmap 'k 'v) (k: 'k) : fmap 'k 'v
  (* right-biased union *)
  val function munion (l r: fmap 'k 'v) : fmap 'k 'v
  val function msize (m: fmap 'k 'v) : int
  axiom mget_empty : forall k: 'k [mget (mempty : fmap 'k 'v) k]. mget (mempty : fmap 'k 'v) k = None
  axiom mget_set : forall m: fmap 'k 'v, k k' v [mget (mset m k v) k'].
    mget (mset m k v) k' = if k' = k then Some v else mget m k'
  axiom mget_remove : forall m: fmap 'k 'v, k k' [mget (mremove m k) k'].
    mget (mremove m k) k' = if k' = k then None else mget m k'
  axiom mget_union : forall l r: fmap 'k 'v, k [mget (munion l r) k].
    mget (munion l r) k = match mget r k with Some v -> Some v | None -> mget l k end
  predicate meqs (l r: fmap 'k 'v)
  axiom map_ext : forall l r: fmap 'k 'v [meqs l r]. meqs l r <-> (forall k [mget l k|mget r k]. mget l k = mget r k)
  axiom map_ext_eq : forall l r: fmap 'k 'v [meqs l r]. meqs l r -> l = r
  axiom munion_empty_r : forall m: fmap 'k 'v [munion m mempty]. munion m mempty = m
  axiom munion_empty_l : forall m: fmap 'k 'v [munion mempty m]. munion mempty m = m
  val predicate mhas (m: fmap 'k 'v) (k: 'k)
  axiom mhas_def : forall m: fmap 'k 'v, k [mhas m k]. mhas m k <-> mget m k <> None
  val mgetx (m: fmap 'k 'v) (k: 'k) : 'v
    requires { [@expl:map iterator is dereferenceable] mhas m k } ensures { mget m k = Some result }
  let function mgetd (m: fmap 'k 'v) (k: 'k) : 'v = oget_total (mget m k)
  let function mins (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v = if mhas m k then m else mset m k v
  val predicate mis_empty (m: fmap 'k 'v)
  axiom mis_empty_def : forall m: fmap 'k 'v [mis_empty m]. mis_empty m <-> m = mempty
  axiom msize_nonneg : forall m: fmap 'k 'v [msize m]. 0 <= msize m
  axiom msize_empty : forall m: fmap 'k 'v [msize m]. msize m = 0 <-> m = mempty
  axiom msize_set : forall m: fmap 'k 'v, k v [msize (mset m k v)].
    msize (mset m k v) = if mhas m k then msize m else msize m + 1
  val emap_at_ (m: fmap 'k 'v) (k: 'k) : 'v
    raises { Cxx -> mget m k = None } ensures { mget m k = Some result }
  (* insertion of a sequence of pairs: the first pair for a key wins *)
  val function mins_all (m: fmap 'k 'v) (s: seq ('k, 'v)) : fmap 'k 'v
  axiom mins_all_empty : forall m: fmap 'k 'v [mins_all m empty]. mins_all m empty = m
  axiom mins_all_snoc : forall m: fmap 'k 'v, s p [mins_all m (snoc s p)].
    mins_all m (snoc s p) = mins (mins_all m s) (fst_ p) (snd_ p)
  let function map_of_pairs (s: seq ('k, 'v)) : fmap 'k 'v = mins_all mempty s
  (* iteration *)
  val function items (m: fmap 'k 'v) : seq ('k, 'v)
  val function uitems (m: fmap 'k 'v) : seq ('k, 'v)
  axiom items_mem : forall m: fmap 'k 'v, i [nth (items m) i].
    0 <= i < len (items m) -> mget m (fst_ (nth (items m) i)) = Some (snd_ (nth (items m) i))
  axiom uitems_mem : forall m: fmap 'k 'v, i [nth (uitems m) i].
    0 <= i < len (uitems m) -> mget m (fst_ (nth (uitems m) i)) = Some (snd_ (nth (uitems m) i))
  val function item_idx (m: fmap 'k 'v) (k: 'k) : int
  axiom items_all : forall m: fmap 'k 'v, k [item_idx m k]. mget m k <> None ->
    0 <= item_idx m k < len (items m) /\ nth (items m) (item_idx m k) = (k, the (mget m k))
  val function uitem_idx (m: fmap 'k 'v) (k: 'k) : int
  axiom uitems_all : forall m: fmap 'k 'v, k [uitem_idx m k]. mget m k <> None ->
    0 <= uitem_idx m k < len (uitems m) /\ nth (uitems m) (uitem_idx m k) = (k, the (mget m k))
  axiom items_of_items : forall m: fmap 'k 'v [items m]. mins_all mempty (items m) = m
  axiom uitems_of_items : forall m: fmap 'k 'v [uitems m]. mins_all mempty (uitems m) = m
  axiom items_len : forall m: fmap 'k 'v [items m]. len (items m) = msize m
  axiom uitems_len : forall m: fmap 'k 'v [uitems m]. len (uitems m) = msize m
  axiom items_dist : forall m: fmap 'k 'v, i j [nth (items m) i, nth (items m) j].
    0 <= i < j < len (items m) -> fst_ (nth (items m) i) <> fst_ (nth (items m) j)
  axiom uitems_dist : forall m: fmap 'k 'v, i j [nth (uitems m) i, nth (uitems m) j].
    0 <= i < j < len (uitems m) -> fst_ (nth (uitems m) i) <> fst_ (nth (uitems m) j)
  axiom items_sorted : forall m: fmap str 'v, i j [nth (items m) i, nth (items m) j].
    0 <= i < j < len (items m) -> str_lt (fst_ (nth (items m) i)) (fst_ (nth (items m) j))
  val function mvalues (m: fmap 'k 'v) : seq 'v
  val function mkeys (m: fmap 'k 'v) : seq 'k
  axiom mkeys_def : forall m: fmap 'k 'v [mkeys m]. len (mkeys m) = len (items m) /\
    forall i [nth (mkeys m) i]. 0 <= i < len (items m) -> nth (mkeys m) i = fst_ (nth (items m) i)
  axiom mvalues_def : forall m: fmap 'k 'v [mvalues m]. len (mvalues m) = len (items m) /\
    forall i [nth (mvalues m) i]. 0 <= i < len (items m) -> nth (mvalues m) i = snd_ (nth (items m) i)
  (* some key with two different values, if there is one *)
  val function mconflict (l r: fmap 'k 'v) : option 'k
  predicate conflict_at (l r: fmap 'k 'v) (k: 'k) =
    mget l k <> None /\ mget r k <> None /\ mget l k <> mget r k
  axiom mconflict_def : forall l r: fmap 'k 'v [mconflict l r].
    match mconflict l r with
    | Some k -> conflict_at l r k
    | None -> forall k [mget l k|mget r k]. not (conflict_at l r k)
    end
end

(* filesystem::path operations that are only used abstractly *)
module Path
  use export Map
  val function path_norm (p: str) : str
  axiom path_norm_idem : forall p [path_norm (path_norm p)]. path_norm (path_norm p) = path_norm p
  val function path_parent (p: str) : str
  val function path_filename (p: str) : str
  val function path_stem (p: str) : str
  val function path_ext (p: str) : str
  val predicate path_is_abs (p: str)
  axiom path_is_abs_def : forall p [path_is_abs p]. path_is_abs p <-> (0 < len p /\ nth p 0 = 47)
  let predicate path_is_rel (p: str) = not (path_is_abs p)
  val predicate path_has_filename (p: str)
  val predicate path_has_parent (p: str)
  val function path_app (p q: str) : str
  axiom path_app_abs : forall p q [path_app p q]. path_is_abs q -> path_app p q = q
  val function path_relative (p q: str) : str
  val function path_relpart (p: str) : str
  (* components; path_first: what *p.begin() gives (the empty text for the empty path, as in libstdc++) *)
  val function path_comps (p: str) : seq str
  val function path_first (p: str) : str
  axiom path_first_def : forall p [path_first p]. path_first p = if len (path_comps p) = 0 then empty else nth (path_comps p) 0
end

(* the values of the expression language *)
module Expr
  use export Path
  type expr
  type num
  type json
  val constant e_none : expr
  val constant e_null : expr
  val function mk_bool (b: bool) : expr
  val function mk_str (s: str) : expr
  val function mk_num (x: num) : expr
  val function mk_list (l: seq expr) : expr
  val function mk_map (m: fmap str expr) : expr
  (* shape of a value *)
  type view = VNone | VBool bool | VNum num | VStr str | VList (seq expr) | VMap (fmap str expr)
            | VArtifact | VResult | VNode | VName | VNull
  function view (e: expr) : view
  axiom view_none : view e_none = VNone
  axiom view_null : view e_null = VNull
  axiom view_bool : forall b [mk_bool b]. view (mk_bool b) = VBool b
  axiom view_str : forall s [mk_str s]. view (mk_str s) = VStr s
  axiom view_num : forall x [mk_num x]. view (mk_num x) = VNum x
  axiom view_list : forall l [mk_list l]. view (mk_list l) = VList l
  axiom view_map : forall m [mk_map m]. view (mk_map m) = VMap m
  type artifact
  val function mk_art (a: artifact) : expr
  function art_of (e: expr) : artifact
  axiom view_art : forall a [mk_art a]. view (mk_art a) = VArtifact /\ art_of (mk_art a) = a
  axiom inv_art : forall e [art_of e]. view e = VArtifact -> e = mk_art (art_of e)
  val e_artifact (e: expr) : artifact
    raises { Cxx -> view e <> VArtifact } ensures { view e = VArtifact /\ result = art_of e }
  axiom inv_none : forall e [view e]. view e = VNone -> e = e_none
  axiom inv_bool : forall e b [view e, VBool b]. view e = VBool b -> e = mk_bool b
  axiom inv_str : forall e s [view e, VStr s]. view e = VStr s -> e = mk_str s
  axiom inv_num : forall e s [view e, VNum s]. view e = VNum s -> e = mk_num s
  axiom inv_list : forall e s [view e, VList s]. view e = VList s -> e = mk_list s
  axiom inv_map : forall e s [view e, VMap s]. view e = VMap s -> e = mk_map s
  val is_none_e (e: expr) : bool ensures { result <-> view e = VNone }
  val is_bool (e: expr) : bool ensures { result <-> match view e with VBool _ -> true | _ -> false end }
  val is_num (e: expr) : bool ensures { result <-> match view e with VNum _ -> true | _ -> false end }
  val is_string (e: expr) : bool ensures { result <-> match view e with VStr _ -> true | _ -> false end }
  val is_list (e: expr) : bool ensures { result <-> match view e with VList _ -> true | _ -> false end }
  val is_map (e: expr) : bool ensures { result <-> match view e with VMap _ -> true | _ -> false end }
  val is_artifact (e: expr) : bool ensures { result <-> view e = VArtifact }
  val is_result (e: expr) : bool ensures { result <-> view e = VResult }
  val is_node (e: expr) : bool ensures { result <-> view e = VNode }
  val is_name (e: expr) : bool ensures { result <-> view e = VName }
  val predicate is_cacheable (e: expr)
  val e_not_null (e: expr) : bool ensures { result <-> view e <> VNull }
  val e_bool (e: expr) : bool
    raises { Cxx -> match view e with VBool _ -> false | _ -> true end } ensures { view e = VBool result }
  val e_string (e: expr) : str
    raises { Cxx -> match view e with VStr _ -> false | _ -> true end } ensures { view e = VStr result } ensures { len result < 1152921504606846976 }
  val e_number (e: expr) : num
    raises { Cxx -> match view e with VNum _ -> false | _ -> true end } ensures { view e = VNum result }
  val e_list (e: expr) : seq expr
    raises { Cxx -> match view e with VList _ -> false | _ -> true end } ensures { view e = VList result } ensures { len result < 9223372036854775808 }
  val e_map (e: expr) : fmap str expr
    raises { Cxx -> match view e with VMap _ -> false | _ -> true end } ensures { view e = VMap result }
  val emap_of (e: expr) : fmap str expr
    raises { Cxx -> match view e with VMap _ -> false | _ -> true end } ensures { view e = VMap result }
  val function e_tostring (e: expr) : str
  val function e_hash (e: expr) : str
  val function e_identifier (e: expr) : str
  val function e_json (e: expr) : json
  val function e_value_list (e: expr) : option (seq expr)
  axiom e_value_list_def : forall e [e_value_list e]. match view e with VList l -> e_value_list e = Some l | _ -> e_value_list e = None end
  val function e_value_map (e: expr) : option (fmap str expr)
  axiom e_value_map_def : forall e [e_value_map e]. match view e with VMap l -> e_value_map e = Some l | _ -> e_value_map e = None end
  (* Expression::At / Get / operator[] on maps and lists *)
  val e_at (e: expr) (k: str) : option expr
    raises { Cxx -> match view e with VMap _ -> false | _ -> true end }
    ensures { match view e with VMap m -> result = mget m k | _ -> false end }
  val e_get (e: expr) (k: str) (d: expr) : expr
    raises { Cxx -> match view e with VMap _ -> false | _ -> true end }
    ensures { match view e with VMap m -> result = match mget m k with Some v -> v | None -> d end | _ -> false end }
  val e_key (e: expr) (k: str) : expr
    raises { Cxx -> match view e with VMap m -> mget m k = None | _ -> true end }
    ensures { match view e with VMap m -> mget m k = Some result | _ -> false end }
  val e_index (e: expr) (i: int) : expr
    raises { Cxx -> match view e with VList l -> not (0 <= i < len l) | _ -> true end }
    ensures { match view e with VList l -> 0 <= i < len l /\ result = nth l i | _ -> false end }
  (* numbers (IEEE doubles) are abstract *)
  val function num_of_int (i: int) : num
  val function num_add (x y: num) : num
  val function num_mul (x y: num) : num
  val function num_sub (x y: num) : num
  val function num_div (x y: num) : num
  val predicate num_eq (x y: num)
  val predicate num_ne (x y: num)
  val predicate num_lt (x y: num)
  val predicate num_gt (x y: num)
  val predicate num_le (x y: num)
  val predicate num_ge (x y: num)
  val function num_round (x: num) : int
  axiom num_round_range : forall x [num_round x]. -9223372036854775808 <= num_round x < 9223372036854775808
  axiom num_round_pos : forall x [num_round x]. num_gt x (num_of_int 0) -> 0 <= num_round x
  function atol_val (s: str) : int
  val str_atol (s: str) : int ensures { result = atol_val s } ensures { -9223372036854775808 <= result < 9223372036854775808 }
  val predicate num_isfinite (x: num)
  val function num_fmt_a (x: num) : str
  (* configurations are map expressions *)
  let function e_empty_map : expr = mk_map mempty
  function map_of (e: expr) : fmap str expr = match view e with VMap m -> m | _ -> mempty end
  val function c_get (c: expr) (k: str) : expr
  axiom c_get_def : forall c k [c_get c k]. c_get c k = match mget (map_of c) k with Some v -> v | None -> e_none end
  val function c_update (c: expr) (k: str) (v: expr) : expr
  axiom c_update_def : forall c k v [c_update c k v]. view (c_update c k v) = VMap (mset (map_of c) k v)
  val function c_update_map (c: expr) (m: fmap str expr) : expr
  axiom c_update_map_def : forall c m [c_update_map c m]. view (c_update_map c m) = VMap (munion (map_of c) m)
  val function c_update_expr (c e: expr) : expr
  axiom c_update_expr_def : forall c e [c_update_expr c e]. view (c_update_expr c e) = VMap (munion (map_of c) (map_of e))
  val predicate c_fixed (c: expr) (k: str)
  axiom c_fixed_def : forall c k [c_fixed c k]. c_fixed c k <-> mget (map_of c) k <> None
  (* evaluation of a sub-expression: a deterministic partial function of expression and environment *)
  predicate eval_ok (e c: expr)
  function eval_res (e c: expr) : expr
  val eval (e c: expr) : expr raises { Cxx -> not (eval_ok e c) } ensures { eval_ok e c /\ result = eval_res e c }
  (* evaluated fields of an expression e in environment c *)
  predicate is_obj (e: expr) = match view e with VMap _ -> true | _ -> false end
  function field (e: expr) (k: str) : option expr = match view e with VMap m -> mget m k | _ -> None end
  predicate fok (e: expr) (k: str) (c: expr) = match field e k with Some x -> eval_ok x c | None -> false end
  function fres (e: expr) (k: str) (c: expr) : expr = match field e k with Some x -> eval_res x c | None -> e_none end
  function dflt (e: expr) (k: str) (d: expr) : expr = match field e k with Some x -> x | None -> d end
  predicate fok_d (e: expr) (k: str) (d c: expr) = is_obj e /\ eval_ok (dflt e k d) c
  function fres_d (e: expr) (k: str) (d c: expr) : expr = eval_res (dflt e k d) c
  predicate is_list_v (e: expr) = match view e with VList _ -> true | _ -> false end
  predicate is_map_v (e: expr) = match view e with VMap _ -> true | _ -> false end
  predicate is_str_v (e: expr) = match view e with VStr _ -> true | _ -> false end
  predicate is_num_v (e: expr) = match view e with VNum _ -> true | _ -> false end
  predicate is_bool_v (e: expr) = match view e with VBool _ -> true | _ -> false end
  function list_v (e: expr) : seq expr = match view e with VList l -> l | _ -> empty end
  function map_v (e: expr) : fmap str expr = match view e with VMap m -> m | _ -> mempty end
  function str_v (e: expr) : str = match view e with VStr s -> s | _ -> empty end
  function num_v (e: expr) : num = match view e with VNum x -> x | _ -> num_of_int 0 end
end

(* JSON values (nlohmann::json), read only *)
module Json
  use export Expr
  type jview = JNull | JBool bool | JNum num | JStr str | JArr (seq json) | JObj (fmap str json) | JOther
  function jview (j: json) : jview
  predicate j_str_v (j: json) = match jview j with JStr _ -> true | _ -> false end
  predicate j_arr_v (j: json) = match jview j with JArr _ -> true | _ -> false end
  predicate j_obj_v (j: json) = match jview j with JObj _ -> true | _ -> false end
  function jstr (j: json) : str = match jview j with JStr s -> s | _ -> empty end
  function jarr (j: json) : seq json = match jview j with JArr s -> s | _ -> empty end
  function jobj (j: json) : fmap str json = match jview j with JObj s -> s | _ -> mempty end
  val j_is_string (j: json) : bool ensures { result <-> j_str_v j }
  val j_is_array (j: json) : bool ensures { result <-> j_arr_v j }
  val j_is_object (j: json) : bool ensures { result <-> j_obj_v j }
  val j_is_null (j: json) : bool ensures { result <-> jview j = JNull }
  val j_is_bool (j: json) : bool ensures { result <-> match jview j with JBool _ -> true | _ -> false end }
  val j_is_number (j: json) : bool ensures { result <-> match jview j with JNum _ -> true | _ -> false end }
  function jsize (j: json) : int = match jview j with JArr s -> len s | JObj m -> msize m | JNull -> 0 | _ -> 1 end
  val j_size (j: json) : int ensures { result = jsize j } ensures { 0 <= result < 9223372036854775808 }
  val j_is_empty (j: json) : bool ensures { result <-> jsize j = 0 }
  val function j_dump (j: json) : str
  val j_get_string (j: json) : str raises { Cxx -> not (j_str_v j) } ensures { jview j = JStr result }
  val j_get_bool (j: json) : bool raises { Cxx -> match jview j with JBool _ -> false | _ -> true end } ensures { jview j = JBool result }
  (* access to elements: within bounds *)
  val j_index (j: json) (i: int) : json
    requires { [@expl:JSON index within bounds] j_arr_v j /\ 0 <= i < len (jarr j) } ensures { result = nth (jarr j) i }
  val j_has (j: json) (k: str) : bool ensures { result <-> j_obj_v j /\ mget (jobj j) k <> None }
  val j_at (j: json) (k: str) : json
    raises { Cxx -> mget (jobj j) k = None } ensures { mget (jobj j) k = Some result }
  val j_key (j: json) (k: str) : json
    requires { [@expl:JSON key is present] mget (jobj j) k <> None } ensures { mget (jobj j) k = Some result }
  function j_map (j: json) : fmap str json = jobj j
  (* construction *)
  val constant mk_jnull : json
  val function mk_jbool (b: bool) : json
  val function mk_jnum (x: num) : json
  val function mk_jstr (s: str) : json
  val function mk_jarr (l: seq json) : json
  val function mk_jobj (m: fmap str json) : json
  axiom jview_null : jview mk_jnull = JNull
  axiom jview_bool : forall b [mk_jbool b]. jview (mk_jbool b) = JBool b
  axiom jview_num : forall b [mk_jnum b]. jview (mk_jnum b) = JNum b
  axiom jview_str : forall b [mk_jstr b]. jview (mk_jstr b) = JStr b
  axiom jview_arr : forall b [mk_jarr b]. jview (mk_jarr b) = JArr b
  axiom jview_obj : forall b [mk_jobj b]. jview (mk_jobj b) = JObj b
  axiom jarr_mk : forall l [mk_jarr l]. jarr (mk_jarr l) = l
  axiom jobj_mk : forall l [mk_jobj l]. jobj (mk_jobj l) = l
  axiom jinv_obj : forall j [jobj j]. j_obj_v j -> j = mk_jobj (jobj j)
  val function mk_jstrs (l: seq str) : json
  axiom jview_strs : forall l [mk_jstrs l]. match jview (mk_jstrs l) with JArr a -> len a = len l /\ forall i [nth a i]. 0 <= i < len l -> nth a i = mk_jstr (nth l i) | _ -> false end
  val function mk_jstrmap (m: fmap str str) : json
  axiom jview_strmap : forall m [mk_jstrmap m]. j_obj_v (mk_jstrmap m) /\ forall k [mget (jobj (mk_jstrmap m)) k]. mget (jobj (mk_jstrmap m)) k = match mget m k with None -> None | Some s -> Some (mk_jstr s) end
  val j_push (j x: json) : json requires { [@expl:appending to a JSON array] j_arr_v j } ensures { result = mk_jarr (snoc (jarr j) x) }
  (* emplace: an existing entry is kept *)
  val j_emplace (j: json) (k: str) (x: json) : json requires { [@expl:inserting into a JSON object] j_obj_v j } ensures { result = mk_jobj (mins (jobj j) k x) }
  val j_set (j: json) (k: str) (x: json) : json requires { [@expl:inserting into a JSON object] j_obj_v j \/ jview j = JNull } ensures { result = mk_jobj (mset (jobj j) k x) }
end
