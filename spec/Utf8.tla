-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 to UTF-16.  Encode gives the bytes of a code point, Units its     *)
(* UTF-16 code units.  The reader is a machine that consumes bytes and     *)
(* delivers one unit per call; after the first malformed character, or at  *)
(* the end, it delivers 0 and is no longer good, for ever.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsSurrogate(c) == c >= 55296 /\ c < 57344
Encode(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>

Cont(b) == b >= 128 /\ b < 192
Need(b) == IF b < 128 THEN 1 ELSE IF b >= 192 /\ b < 224 THEN 2 ELSE IF b >= 224 /\ b < 240 THEN 3
           ELSE IF b >= 240 /\ b < 248 THEN 4 ELSE 0
Value(b, i, n) ==
    CASE n = 1 -> b[i]
      [] n = 2 -> (b[i] % 32) * 64 + (b[i + 1] % 64)
      [] n = 3 -> (b[i] % 16) * 4096 + (b[i + 1] % 64) * 64 + (b[i + 2] % 64)
      [] n = 4 -> (b[i] % 8) * 262144 + (b[i + 1] % 64) * 4096 + (b[i + 2] % 64) * 64 + (b[i + 3] % 64)
Complete(b, i, n) == n > 0 /\ i + n - 1 <= Len(b) /\ \A k \in 1..(n - 1) : Cont(b[i + k])
\* well formed: shortest form, a scalar value
Shortest(v, n) == (n = 1) \/ (n = 2 /\ v >= 128) \/ (n = 3 /\ v >= 2048) \/ (n = 4 /\ v >= 65536 /\ v < 1114112)

RECURSIVE DecodeFrom(_, _, _)
\* the units delivered before the reader stops being good
DecodeFrom(b, i, out) ==
    IF i > Len(b) THEN out
    ELSE LET n == Need(b[i]) IN
         IF ~Complete(b, i, n) THEN out
         ELSE LET v == Value(b, i, n) IN
              IF n = 4 /\ ~Shortest(v, 4) THEN out
              ELSE DecodeFrom(b, i + n, out \o Units(v))
Decode(b) == DecodeFrom(b, 1, <<>>)

\* inputs on which the encoding form says what to do (overlong two and three byte forms and
\* encoded surrogates are not among them)
RECURSIVE InDomain(_, _)
InDomain(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET n == Need(b[i]) IN
         IF ~Complete(b, i, n) THEN TRUE
         ELSE LET v == Value(b, i, n) IN
              IF n = 4 /\ ~Shortest(v, n) THEN TRUE
              ELSE Shortest(v, n) /\ ~IsSurrogate(v) /\ InDomain(b, i + n)
=============================================================================
