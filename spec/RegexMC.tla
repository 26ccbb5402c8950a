------------------------------ MODULE RegexMC ------------------------------
(***************************************************************************)
(* The specification of regular expressions checked against itself: every  *)
(* expression that can be typed, character by character, over a small      *)
(* alphabet.  In every state that is a complete expression, the position   *)
(* automaton of module Regex accepts exactly the strings of length <= K    *)
(* that the textbook semantics (sets of strings) gives the expression.     *)
(***************************************************************************)
EXTENDS Regex, TLC

CONSTANTS MaxLen, K
Chars == {97, 98, 40, 41, 124, 42, 43, 63}      \* a b ( ) | * + ?

VARIABLES re, depth, prev       \* the text, open brackets, whether something can be repeated
vars == <<re, depth, prev>>

Init == re = <<>> /\ depth = 0 /\ prev = FALSE
Type(c) == /\ Len(re) < MaxLen
           /\ re' = Append(re, c)
           /\ CASE c = LParen -> depth' = depth + 1 /\ prev' = FALSE
                [] c = RParen -> depth > 0 /\ depth' = depth - 1 /\ prev' = TRUE
                [] c = Bar    -> depth' = depth /\ prev' = FALSE
                [] c \in {StarC, PlusC, QuestC} -> prev /\ UNCHANGED <<depth, prev>>
                [] OTHER      -> depth' = depth /\ prev' = TRUE
Next == \E c \in Chars : Type(c)
Spec == Init /\ [][Next]_vars

(* ---- textbook semantics on the text: languages as sets of strings of length <= K ---- *)
Trunc(L) == { w \in L : Len(w) <= K }
LCat(A, B) == Trunc({ a \o b : a \in A, b \in B })
RECURSIVE LStar(_, _)
LStar(A, acc) == LET n == acc \cup LCat(acc, A) IN IF n = acc THEN acc ELSE LStar(A, n)
RECURSIVE LAlt(_), LSeq(_, _), LPost(_, _)
LPost(L, p) == IF p > Len(re) THEN <<L, p>>
               ELSE CASE re[p] = StarC  -> LPost(LStar(L, {<<>>}), p + 1)
                      [] re[p] = PlusC  -> LPost(LCat(L, LStar(L, {<<>>})), p + 1)
                      [] re[p] = QuestC -> LPost(L \cup {<<>>}, p + 1)
                      [] OTHER -> <<L, p>>
LSeq(p, acc) ==
    IF p > Len(re) THEN <<acc, p>>
    ELSE IF re[p] \in {Bar, RParen} THEN <<acc, p>>
    ELSE LET a == IF re[p] = LParen THEN LET r == LAlt(p + 1) IN <<r[1], r[2] + 1>>
                  ELSE <<{<<re[p]>>}, p + 1>>
             q == LPost(a[1], a[2])
         IN  LSeq(q[2], LCat(acc, q[1]))
LAlt(p) == LET a == LSeq(p, {<<>>})
           IN  IF a[2] <= Len(re) /\ re[a[2]] = Bar
               THEN LET b == LAlt(a[2] + 1) IN <<a[1] \cup b[1], b[2]>>
               ELSE a

Words == UNION { [1..n -> {97, 98}] : n \in 0..K }
Denotes == depth = 0 => LET A == Compile(re, <<>>) IN { w \in Words : Matches(A, w) } = LAlt(1)[1]
TypeOK  == depth \in 0..MaxLen /\ prev \in BOOLEAN
=============================================================================
