----------------------------- MODULE SymbolSet -----------------------------
(***************************************************************************)
(* Sets of symbols kept as an ordered list of half-open ranges, with the   *)
(* operations the library offers: merge a range, exclude a range, invert.  *)
(* The operations are written the way the implementation does them (search *)
(* for the first affected range by lower bound, step back one if that one  *)
(* touches, replace the affected stretch), and TLC checks for every        *)
(* history that they implement union, difference and complement, and that  *)
(* the list stays canonical, so that list equality is set equality.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Max                 \* symbols are 0..Max-1
Ranges == { r \in (0..Max) \X (0..Max) : r[1] < r[2] }

VARIABLES rs, set             \* the list of ranges, and the set it stands for
vars == <<rs, set>>

Members(l) == UNION { l[i][1]..(l[i][2] - 1) : i \in 1..Len(l) }

\* first index whose lower bound is >= v / > v
Lower(l, v) == LET S == { i \in 1..Len(l) : l[i][1] >= v } IN IF S = {} THEN Len(l) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Upper(l, v) == LET S == { i \in 1..Len(l) : l[i][1] > v }  IN IF S = {} THEN Len(l) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
First(l, r) == LET f == Lower(l, r[1]) IN IF f > 1 /\ l[f - 1][2] >= r[1] THEN f - 1 ELSE f
CanMerge(a, b) == ~(b[2] < a[1]) /\ ~(b[1] > a[2])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Insert(l, r) == LET f == Lower(l, r[1]) IN SubSeq(l, 1, f - 1) \o <<r>> \o SubSeq(l, f, Len(l))

MergeList(l, r) ==
    LET f == First(l, r)
    IN  IF f > Len(l) \/ ~CanMerge(r, l[f]) THEN Insert(l, r)
        ELSE LET u == Upper(l, r[2])      \* first range that is not merged
                 merged == << MinI(r[1], l[f][1]), MaxI(r[2], l[u - 1][2]) >>
             IN  SubSeq(l, 1, f - 1) \o <<merged>> \o SubSeq(l, u, Len(l))

ExcludeList(l, r) ==
    LET f == First(l, r)
    IN  IF f > Len(l) \/ ~CanMerge(r, l[f]) THEN l
        ELSE LET u == Upper(l, r[2])
                 left  == IF l[f][1] < r[1] THEN << <<l[f][1], r[1]>> >> ELSE <<>>
                 right == IF l[u - 1][2] > r[2] THEN << <<r[2], l[u - 1][2]>> >> ELSE <<>>
             IN  SubSeq(l, 1, f - 1) \o left \o right \o SubSeq(l, u, Len(l))

RECURSIVE Gaps(_, _, _)
Gaps(l, i, last) ==
    IF i > Len(l) THEN (IF last < Max THEN << <<last, Max>> >> ELSE <<>>)
    ELSE (IF l[i][1] # last THEN << <<last, l[i][1]>> >> ELSE <<>>) \o Gaps(l, i + 1, l[i][2])

Init == rs = <<>> /\ set = {}
Merge(r)   == rs' = MergeList(rs, r)   /\ set' = set \cup (r[1]..(r[2] - 1))
Exclude(r) == rs' = ExcludeList(rs, r) /\ set' = set \ (r[1]..(r[2] - 1))
Invert     == rs' = Gaps(rs, 1, 0)     /\ set' = (0..(Max - 1)) \ set
Next == Invert \/ \E r \in Ranges : Merge(r) \/ Exclude(r)
Spec == Init /\ [][Next]_vars

Refines   == Members(rs) = set
Canonical == /\ \A i \in 1..Len(rs) : rs[i][1] < rs[i][2]
             /\ \A i \in 1..(Len(rs) - 1) : rs[i][2] < rs[i + 1][1]
=============================================================================
