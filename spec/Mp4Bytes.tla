------------------------------- MODULE Mp4Bytes -------------------------------
(***************************************************************************)
(* Byte strings, big-endian numbers and text encodings.                    *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  Positions in files are 0-based  *)
(* (as in the code under test), so the byte at position p is f[p + 1].     *)
(*                                                                         *)
(* TLC integers have 32 bits, file lengths that occur in a model or trace  *)
(* are far below 2^30, and 32/64-bit length fields may hold anything.      *)
(* Numbers that are used as lengths or positions therefore saturate at     *)
(* Huge; numbers whose exact value matters (chunk offsets, durations, bit  *)
(* rates) are kept as big-endian byte strings ("naturals in base 256") and *)
(* compared and calculated with the Nat... operators below.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Huge == 1073741824                       \* 2^30

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sat(x) == Min2(x, Huge)

(* The slice of f at positions [p, p + k). *)
Slice(f, p, k) == SubSeq(f, p + 1, p + k)

HasBytes(f, p, k) == p + k <= Len(f)

U16At(f, p) == f[p + 1] * 256 + f[p + 2]

U32At(f, p) ==
  IF f[p + 1] >= 64 THEN Huge
  ELSE f[p + 1] * 16777216 + f[p + 2] * 65536 + f[p + 3] * 256 + f[p + 4]

U64At(f, p) ==
  IF \E i \in 1..4 : f[p + i] # 0 THEN Huge ELSE U32At(f, p + 4)

(* 64-bit field with the top bit set: not representable as a file offset. *)
U64Negative(f, p) == f[p + 1] >= 128

Be16(x) == <<x \div 256, x % 256>>
Be32(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Be64(x) == <<0, 0, 0, 0>> \o Be32(x)

Zeros(k) == [i \in 1..k |-> 0]

(* Replace the bytes of f at positions [p, p + Len(b)), extending f (with  *)
(* zero bytes in a gap) if necessary: what a write to a file does.         *)
Overwrite(f, p, b) ==
  IF b = <<>> THEN f
  ELSE LET q == p + Len(b)
       IN  (IF p <= Len(f) THEN SubSeq(f, 1, p) ELSE f \o Zeros(p - Len(f))) \o b \o
           (IF q < Len(f) THEN SubSeq(f, q + 1, Len(f)) ELSE <<>>)

(* Set the length of f: what ftruncate does. *)
SetLen(f, n) == IF n <= Len(f) THEN SubSeq(f, 1, n) ELSE f \o Zeros(n - Len(f))

-----------------------------------------------------------------------------
(* Naturals in base 256, most significant digit first.                     *)

NatNorm(a) ==
  IF \A i \in 1..Len(a) : a[i] = 0 THEN <<>>
  ELSE LET k == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..(i - 1) : a[j] = 0
       IN  SubSeq(a, k, Len(a))

(* least significant digit first, padded to k digits *)
NatLsd(a, k) == [i \in 1..k |-> IF i <= Len(a) THEN a[Len(a) + 1 - i] ELSE 0]
NatMsd(d) == NatNorm(Reverse(d))

RECURSIVE NatCarry(_, _, _)
(* digits d (lsd first, any non-negative value below 2^30), index, carry *)
NatCarry(d, i, c) ==
  IF i > Len(d) THEN IF c = 0 THEN <<>> ELSE <<c % 256>> \o NatCarry(d, i, c \div 256)
  ELSE LET x == d[i] + c IN <<x % 256>> \o NatCarry(d, i + 1, x \div 256)

NatFromInt(x) == NatNorm(Be32(x))

NatAdd(a, b) ==
  LET k == Max2(Len(a), Len(b))
      x == NatLsd(a, k)
      y == NatLsd(b, k)
  IN  NatMsd(NatCarry([i \in 1..k |-> x[i] + y[i]], 1, 0))

RECURSIVE SumUpTo(_, _)
SumUpTo(g, n) == IF n = 0 THEN 0 ELSE g[n] + SumUpTo(g, n - 1)

NatMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET x == NatLsd(a, Len(a))
           y == NatLsd(b, Len(b))
           k == Len(a) + Len(b)
           conv == [s \in 1..k |->
                     LET lo == Max2(1, s + 1 - Len(b))
                         hi == Min2(s, Len(a))
                     IN  IF lo > hi THEN 0
                         ELSE SumUpTo([j \in 1..(hi - lo + 1) |->
                                         x[lo + j - 1] * y[s + 1 - (lo + j - 1)]],
                                      hi - lo + 1)]
       IN  NatMsd(NatCarry(conv, 1, 0))

NatLess(a, b) ==
  LET x == NatNorm(a)
      y == NatNorm(b)
  IN  \/ Len(x) < Len(y)
      \/ /\ Len(x) = Len(y)
         /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]

NatEq(a, b) == NatNorm(a) = NatNorm(b)
NatLeq(a, b) == NatEq(a, b) \/ NatLess(a, b)

(* the value as a TLC integer, saturating *)
NatToInt(a) ==
  LET x == NatNorm(a)
  IN  IF Len(x) > 4 THEN Huge ELSE U32At(NatLsd(<<>>, 4 - Len(x)) \o x, 0)

(* a + delta for a possibly negative TLC integer delta; caller guarantees  *)
(* that the result is not negative.                                        *)
NatSubInt(a, x) ==                       \* a - x, 0 <= x <= a
  LET k == Max2(Len(a), 4)
      p == NatLsd(a, k)
      q == NatLsd(NatFromInt(x), k)
      RECURSIVE Borrow(_, _)
      Borrow(i, c) ==
        IF i > k THEN <<>>
        ELSE LET d == p[i] - q[i] - c
             IN  <<IF d < 0 THEN d + 256 ELSE d>> \o Borrow(i + 1, IF d < 0 THEN 1 ELSE 0)
  IN  NatMsd(Borrow(1, 0))

NatShift(a, delta) ==
  IF delta >= 0 THEN NatAdd(a, NatFromInt(delta)) ELSE NatSubInt(a, -delta)

(* the k-byte big-endian form; only if it fits *)
NatFits(a, k) == Len(NatNorm(a)) <= k
NatBytes(a, k) == Zeros(k - Len(NatNorm(a))) \o NatNorm(a)

-----------------------------------------------------------------------------
(* Text.  A text is a sequence of Unicode scalar values.                   *)

IsScalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* Concatenation of a sequence of sequences, by halves. *)
RECURSIVE FlatIn(_, _, _)
FlatIn(s, lo, hi) ==
  IF lo > hi THEN <<>> ELSE IF lo = hi THEN s[lo]
  ELSE LET m == (lo + hi) \div 2 IN FlatIn(s, lo, m) \o FlatIn(s, m + 1, hi)
Flat(s) == FlatIn(s, 1, Len(s))

Utf8Encode(t) ==
  IF \A i \in 1..Len(t) : t[i] < 128 THEN t
  ELSE Flat([i \in 1..Len(t) |-> Utf8Char(t[i])])

Utf16Char(c) ==
  IF c < 65536 THEN Be16(c)
  ELSE Be16(55296 + (c - 65536) \div 1024) \o Be16(56320 + ((c - 65536) % 1024))

Utf16Encode(t) == Flat([i \in 1..Len(t) |-> Utf16Char(t[i])])

(* Decoders return [ok |-> BOOLEAN, t |-> text]. *)
NoText == [ok |-> FALSE, t |-> <<>>]

IsCont(x) == x >= 128 /\ x < 192

(* length of the sequence that a leading byte begins, 0: none *)
Utf8Len(x) == IF x < 128 THEN 1
              ELSE IF x >= 194 /\ x < 224 THEN 2
              ELSE IF x >= 224 /\ x < 240 THEN 3
              ELSE IF x >= 240 /\ x < 245 THEN 4 ELSE 0

Utf8At(b, i) ==
  LET k == Utf8Len(b[i])
  IN  CASE k = 1 -> b[i]
        [] k = 2 -> (b[i] - 192) * 64 + (b[i+1] - 128)
        [] k = 3 -> (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
        [] k = 4 -> (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096
                      + (b[i+2] - 128) * 64 + (b[i+3] - 128)

(* Without recursion, since texts may be long: the bytes that aren't       *)
(* continuations are the leading ones, and each is followed by as many     *)
(* continuations as it asks for.                                           *)
Utf8Text(b) ==
  LET n == Len(b)
      leads == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~IsCont(b[i]))
      m == Len(leads)
      end(j) == IF j = m THEN n + 1 ELSE leads[j + 1]
      good(j) == LET k == Utf8Len(b[leads[j]])
                 IN  /\ k # 0 /\ end(j) - leads[j] = k
                     /\ LET c == Utf8At(b, leads[j])
                        IN  IsScalar(c) /\ (k = 3 => c >= 2048) /\ (k = 4 => c >= 65536)
  IN  IF m = 0 \/ leads[1] # 1 \/ \E j \in 1..m : ~good(j) THEN NoText
      ELSE [ok |-> TRUE, t |-> [j \in 1..m |-> Utf8At(b, leads[j])]]

Utf8Decode(b) ==
  IF \A i \in 1..Len(b) : b[i] < 128 THEN [ok |-> TRUE, t |-> b] ELSE Utf8Text(b)

IsHigh(x) == x >= 55296 /\ x <= 56319
IsLow(x) == x >= 56320 /\ x <= 57343

(* u: code units *)
Utf16Text(u) ==
  LET n == Len(u)
      first == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~IsLow(u[i]))
  IN  IF \E i \in 1..n : \/ IsHigh(u[i]) /\ (i = n \/ ~IsLow(u[i + 1]))
                         \/ IsLow(u[i]) /\ (i = 1 \/ ~IsHigh(u[i - 1]))
      THEN NoText
      ELSE [ok |-> TRUE,
            t |-> [j \in 1..Len(first) |->
                     LET i == first[j]
                     IN  IF IsHigh(u[i]) THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320) ELSE u[i]]]

(* A trailing odd byte is not part of the text. *)
Utf16Decode(b) ==
  LET u == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] * 256 + b[2 * i]]
  IN  IF \A i \in 1..Len(u) : u[i] < 55296 \/ u[i] > 57343
      THEN [ok |-> TRUE, t |-> u]
      ELSE Utf16Text(u)

-----------------------------------------------------------------------------
ASSUME /\ NatMul(<<255, 255>>, <<255>>) = <<254, 255, 1>>      \* 65535 * 255 = 16711425
       /\ NatAdd(<<255, 255>>, <<1>>) = <<1, 0, 0>>
       /\ NatSubInt(<<1, 0, 0>>, 1) = <<255, 255>>
       /\ NatLess(<<0, 0, 5>>, <<6>>) /\ ~NatLess(<<6>>, <<0, 6>>)
       /\ NatToInt(<<0, 1, 2>>) = 258
       /\ Utf8Decode(<<226, 130, 172>>) = [ok |-> TRUE, t |-> <<8364>>]
       /\ Utf8Encode(<<8364, 65>>) = <<226, 130, 172, 65>>
       /\ ~Utf8Decode(<<237, 160, 128>>).ok                     \* surrogate
       /\ ~Utf8Decode(<<192, 128>>).ok                          \* overlong
       /\ Utf16Decode(Utf16Encode(<<128512, 97>>)).t = <<128512, 97>>
=============================================================================
