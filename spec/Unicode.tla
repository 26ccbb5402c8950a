------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* Case conversion of character sets and character categories.             *)
(*                                                                         *)
(* The tables of the Unicode standard are given as data (Tab), written by  *)
(* the runner from an independent copy of the character database.          *)
(* Because the library's copy may be of another version, characters fall   *)
(* in two classes: settled ones, on which all versions agree, and the      *)
(* others, for which two images are possible.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Upper, Lower     \* functions: characters that have another case |-> that character
CONSTANT OpenU, OpenL     \* functions: characters whose image depends on the version |-> possible images

Img(M, O, x)  == IF x \in DOMAIN M THEN {M[x]} ELSE IF x \in DOMAIN O THEN {} ELSE {x}
May(M, O, x)  == IF x \in DOMAIN O THEN O[x] \cup {x} ELSE Img(M, O, x)

\* conversion of a set is the union of the conversions of its members
ConvOK(M, O, S, R) == /\ UNION { Img(M, O, x) : x \in S } \subseteq R
                      /\ R \subseteq UNION { May(M, O, x) : x \in S }

\* matching character x without regard to case
FoldMust(x) == {x} \cup Img(Upper, OpenU, x) \cup Img(Lower, OpenL, x)
FoldMay(x)  == {x} \cup May(Upper, OpenU, x) \cup May(Lower, OpenL, x)
=============================================================================
