------------------------------ MODULE CaseMap ------------------------------
(***************************************************************************)
(* Conversion of one range of characters with a sorted table of mapped     *)
(* ranges: a walk along the range, consuming either a piece that has no    *)
(* entry (which is copied) or the part of an entry that lies in the range  *)
(* (which is moved).  Checked: the walk ends, and its result is the image  *)
(* of the range under the function the table denotes.                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Max, Shift          \* characters 0..Max-1; entries move characters by a multiple of Shift
Entries == { <<l, u, t>> \in (0..Max) \X (0..Max) \X {Shift, 2 * Shift} : l < u }
Tables  == { <<>> } \cup { <<e>> : e \in Entries } \cup { <<e, f>> : e \in Entries, f \in Entries }
Sorted(T) == \A i \in 1..Len(T) - 1 : T[i][2] <= T[i + 1][1]
VARIABLES tab, lo, hi, cur, res, lo0
vars == <<tab, lo, hi, cur, res, lo0>>
FirstAfter(T, x) == CHOOSE i \in 1..Len(T) + 1 : /\ \A j \in 1..i - 1 : T[j][2] <= x
                                                /\ i <= Len(T) => T[i][2] > x
Init == /\ tab \in { T \in Tables : Sorted(T) } /\ lo \in 0..Max /\ hi \in 0..Max /\ lo <= hi
        /\ cur = FirstAfter(tab, lo) /\ res = {} /\ lo0 = lo
Copy == /\ lo < hi /\ (IF cur > Len(tab) THEN TRUE ELSE tab[cur][1] > lo)
        /\ LET e == IF cur > Len(tab) THEN hi ELSE IF tab[cur][1] > hi THEN hi ELSE tab[cur][1]
           IN res' = res \cup lo..(e - 1) /\ lo' = e
        /\ UNCHANGED <<tab, hi, cur, lo0>>
Move == /\ lo < hi /\ cur <= Len(tab) /\ tab[cur][1] <= lo
        /\ LET c == tab[cur]
               n == IF c[2] < hi THEN c[2] - lo ELSE hi - lo
               i == c[1] + c[3] + (lo - c[1])
           IN res' = res \cup i..(i + n - 1) /\ lo' = lo + n
        /\ cur' = cur + 1 /\ UNCHANGED <<tab, hi, lo0>>
Next == Copy \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Image(x) == IF \E i \in 1..Len(tab) : tab[i][1] <= x /\ x < tab[i][2]
            THEN x + tab[CHOOSE i \in 1..Len(tab) : tab[i][1] <= x /\ x < tab[i][2]][3] ELSE x
Correct == lo = hi => res = { Image(x) : x \in lo0..(hi - 1) }
Partial == res = { Image(x) : x \in lo0..(lo - 1) }
Ends == <>(lo = hi)
=============================================================================
