------------------------------- MODULE Dedup -------------------------------
(***************************************************************************)
(* Making symbol sets disjoint.  The pieces are ranges labelled with the   *)
(* source sets that contain them.  Adding a set walks the pieces that its  *)
(* ranges touch: gaps become pieces of their own, a piece that sticks out  *)
(* at either side is split, and the pieces in between get the label (the   *)
(* implementation's add_set).  Finally pieces with equal labels become one *)
(* new set.  For every choice and order of source sets: pieces never       *)
(* overlap, every source set is exactly the union of the new sets it is    *)
(* mapped to, and the new sets are pairwise disjoint.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Max, NSets
Ranges == { r \in (0..Max) \X (0..Max) : r[1] < r[2] }
Ids == 1..NSets

VARIABLES src, pieces, todo, cur, rem
\* src: id -> set of symbols; pieces: set of [r |-> range, ids |-> labels];
\* todo: ids still to add; cur: id being added (0 if none); rem: set of ranges of cur still to add
vars == <<src, pieces, todo, cur, rem>>

Sym(r) == r[1]..(r[2] - 1)
\* canonical ranges of a set
RangesOf(S) == { r \in Ranges : Sym(r) \subseteq S /\ (r[1] - 1) \notin S /\ r[2] \notin S }

Init == /\ src \in [Ids -> SUBSET (0..(Max - 1)) \ {{}}]
        /\ pieces = {} /\ todo = Ids /\ cur = 0 /\ rem = {}

Start == /\ cur = 0
         /\ \E i \in todo : cur' = i /\ rem' = RangesOf(src[i]) /\ todo' = todo \ {i}
         /\ UNCHANGED <<src, pieces>>

Touch(r) == { p \in pieces : p.r[1] < r[2] /\ r[1] < p.r[2] }
FirstOf(P) == CHOOSE p \in P : \A q \in P : p.r[1] <= q.r[1]

\* one step of the loop over what remains of a range
Step(r) ==
    LET T == Touch(r) IN
    IF T = {} THEN
        /\ pieces' = pieces \cup {[r |-> r, ids |-> {cur}]}
        /\ rem' = rem \ {r}
    ELSE LET p == FirstOf(T) IN
        IF p.r[1] > r[1] THEN                         \* fill the gap
            /\ pieces' = pieces \cup {[r |-> <<r[1], p.r[1]>>, ids |-> {cur}]}
            /\ rem' = (rem \ {r}) \cup {<<p.r[1], r[2]>>}
        ELSE IF p.r[1] < r[1] THEN                    \* split off what lies before
            /\ pieces' = (pieces \ {p}) \cup {[r |-> <<p.r[1], r[1]>>, ids |-> p.ids], [r |-> <<r[1], p.r[2]>>, ids |-> p.ids]}
            /\ UNCHANGED rem
        ELSE IF p.r[2] > r[2] THEN                    \* split off what lies behind
            /\ pieces' = (pieces \ {p}) \cup {[r |-> r, ids |-> p.ids], [r |-> <<r[2], p.r[2]>>, ids |-> p.ids]}
            /\ UNCHANGED rem
        ELSE
            /\ pieces' = (pieces \ {p}) \cup {[r |-> p.r, ids |-> p.ids \cup {cur}]}
            /\ rem' = (rem \ {r}) \cup (IF p.r[2] = r[2] THEN {} ELSE {<<p.r[2], r[2]>>})

Lowest(S) == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
Add == cur # 0 /\ rem # {} /\ Step(Lowest(rem)) /\ UNCHANGED <<src, todo, cur>>
Done == cur # 0 /\ rem = {} /\ cur' = 0 /\ UNCHANGED <<src, pieces, todo, rem>>
Next == Start \/ Add \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == cur = 0 /\ todo = {}
NewSets == { UNION { Sym(p.r) : p \in { q \in pieces : q.ids = l } } : l \in { p.ids : p \in pieces } }
NewOf(i) == { UNION { Sym(p.r) : p \in { q \in pieces : q.ids = l } } : l \in { p.ids : p \in { q \in pieces : i \in q.ids } } }
NoOverlap == \A p, q \in pieces : p # q => Sym(p.r) \cap Sym(q.r) = {}
Exact == Finished => /\ \A i \in Ids : UNION NewOf(i) = src[i]
                     /\ \A a, b \in NewSets : a # b => a \cap b = {}
Terminates == <>Finished
=============================================================================
