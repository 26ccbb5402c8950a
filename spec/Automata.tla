------------------------------ MODULE Automata ------------------------------
(***************************************************************************)
(* Finite automata with symbol-range transitions, as the implementation    *)
(* exposes them, and what it means for two of them to be equivalent.       *)
(*                                                                         *)
(* An automaton is [n, tr, acc]: states 0..n-1, tr a sequence of           *)
(* <<from, to, ranges>> (no ranges = epsilon), acc a sequence of           *)
(* <<state, actions>>.  The behaviour of an automaton is the function from *)
(* strings to sets of accept actions; equivalence is decided for ALL       *)
(* strings by exploring the product of the two subset automata over one    *)
(* representative of every class of symbols the ranges can distinguish.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RangeSet(s) == { s[i] : i \in 1..Len(s) }
Has(ranges, c) == \E i \in 1..Len(ranges) : ranges[i][1] <= c /\ c < ranges[i][2]
IsEps(ranges) == \A i \in 1..Len(ranges) : ranges[i][1] >= ranges[i][2]

EpsSucc(A, S) == { A.tr[i][2] : i \in { j \in 1..Len(A.tr) : A.tr[j][1] \in S /\ IsEps(A.tr[j][3]) } }
RECURSIVE Closure(_, _)
Closure(A, S) == LET T == S \cup EpsSucc(A, S) IN IF T = S THEN S ELSE Closure(A, T)
Move(A, S, c) == Closure(A, { A.tr[i][2] : i \in { j \in 1..Len(A.tr) : A.tr[j][1] \in S /\ Has(A.tr[j][3], c) } })
Actions(A, S) == UNION { RangeSet(A.acc[i][2]) : i \in { j \in 1..Len(A.acc) : A.acc[j][1] \in S } }

\* symbols at which membership in some range can change
Bounds(A) == UNION { UNION { {A.tr[i][3][k][1], A.tr[i][3][k][2]} : k \in 1..Len(A.tr[i][3]) } : i \in 1..Len(A.tr) }

\* structural determinism: no epsilon, and no two transitions of a state share a symbol
Deterministic(A) ==
    /\ \A i \in 1..Len(A.tr) : ~IsEps(A.tr[i][3])
    /\ \A i, j \in 1..Len(A.tr) :
          (i < j /\ A.tr[i][1] = A.tr[j][1]) =>
             \A a \in 1..Len(A.tr[i][3]), b \in 1..Len(A.tr[j][3]) :
                ~ (A.tr[i][3][a][1] < A.tr[j][3][b][2] /\ A.tr[j][3][b][1] < A.tr[i][3][a][2])
\* every state mentioned exists
Closed(A) == /\ \A i \in 1..Len(A.tr) : A.tr[i][1] \in 0..(A.n - 1) /\ A.tr[i][2] \in 0..(A.n - 1)
             /\ \A i \in 1..Len(A.acc) : A.acc[i][1] \in 0..(A.n - 1)

(* product exploration: pairs of state sets, the frontier being expanded *)
RECURSIVE EquivFrom(_, _, _, _, _)
EquivFrom(A, B, reps, seen, todo) ==
    IF \E p \in todo : Actions(A, p[1]) # Actions(B, p[2]) THEN FALSE
    ELSE LET next == UNION { { <<Move(A, p[1], c), Move(B, p[2], c)>> : c \in reps } : p \in todo }
             new  == next \ seen
         IN  IF new = {} THEN TRUE ELSE EquivFrom(A, B, reps, seen \cup new, new)
Equivalent(A, a0, B, b0) ==
    LET reps == { c \in Bounds(A) \cup Bounds(B) \cup {0} : c >= 0 }
        s    == <<Closure(A, a0), Closure(B, b0)>>
    IN  EquivFrom(A, B, reps, {s}, {s})
=============================================================================
