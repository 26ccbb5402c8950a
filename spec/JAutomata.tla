------------------------------ MODULE JAutomata ------------------------------
(***************************************************************************)
(* Judge for P02.  An automaton is built in the real library and passed    *)
(* through every transformation; the specification decides, for all        *)
(* strings and all initial states, that the behaviour is preserved.        *)
(* An "eager" action makes the subset automaton stop: a string with a      *)
(* proper prefix that reaches an eager action is not accepted.             *)
(***************************************************************************)
EXTENDS Automata, Judge

EagerStates(c) == { c.acc[i][1] : i \in { j \in 1..Len(c.acc) : c.acc[j][3] = 1 } }

\* the automaton as the case asked for it
Asked(c) == [n |-> c.n, tr |-> c.tr, acc |-> [i \in 1..Len(c.acc) |-> <<c.acc[i][1], <<c.acc[i][2]>>>>]]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Best(S)  == IF S = {} THEN {} ELSE {MinOf(S)}

RECURSIVE Same(_, _, _, _, _, _, _)
Same(A, B, eager, best, reps, seen, todo) ==
    IF \E p \in todo : IF best THEN Best(Actions(A, p[1])) # Best(Actions(B, p[2]))
                               ELSE Actions(A, p[1]) # Actions(B, p[2])
    THEN FALSE
    ELSE LET go(S, s) == IF S \cap eager # {} THEN {} ELSE Move(A, S, s)
             next == UNION { { <<go(p[1], s), Move(B, p[2], s)>> : s \in reps } : p \in todo }
             new == next \ seen
         IN  IF new = {} THEN TRUE ELSE Same(A, B, eager, best, reps, seen \cup new, new)

Preserves(A, a, B, b, eager, best) ==
    LET reps == { s \in Bounds(A) \cup Bounds(B) \cup {0} : s >= 0 }
        st == <<Closure(A, {a}), Closure(B, {b})>>
    IN  Same(A, B, eager, best, reps, {st}, {st})

RangesOf(rs) == RangeSet(rs)
Overlap(x, y) == \E a \in 1..Len(x), b \in 1..Len(y) : x[a][1] < y[b][2] /\ y[b][1] < x[a][2]
DisjointSets(A) == \A i, j \in 1..Len(A.tr) : Overlap(A.tr[i][3], A.tr[j][3]) => RangesOf(A.tr[i][3]) = RangesOf(A.tr[j][3])

TableOK(D, rows, probe) ==
    /\ Len(rows) = D.n
    /\ \A s \in 0..(D.n - 1) : \A i \in 1..Len(probe) :
          LET m == Move(D, {s}, probe[i]) IN rows[s + 1][i] = (IF m = {} THEN -1 ELSE MinOf(m))

AutoVerdict(c) ==
    LET A == Asked(c)
        o == c.obs
        eager == EagerStates(c)
        all(B, best) == \A i \in 1..Len(c.init) : Preserves(A, c.init[i], B, i - 1, eager, best)
    IN  IF ~Closed(o.copy) \/ ~(\A i \in 1..Len(c.init) : Preserves(A, c.init[i], o.copy, c.init[i], {}, FALSE))
             THEN "the automaton is not the one that was built"
        ELSE IF ~Closed(o.uniq) \/ ~DisjointSets(o.uniq) THEN "unique symbols: symbol sets overlap"
        ELSE IF ~(\A i \in 1..Len(c.init) : Preserves(A, c.init[i], o.uniq, c.init[i], {}, FALSE))
             THEN "unique symbols: behaviour changed"
        ELSE IF ~Closed(o.dfa) \/ ~Deterministic(o.dfa) THEN "to_dfa: not a DFA"
        ELSE IF ~all(o.dfa, FALSE) THEN "to_dfa: behaviour changed"
        ELSE IF ~Closed(o.compact) \/ ~Deterministic(o.compact) THEN "compact: not a DFA"
        ELSE IF o.compact.n > o.dfa.n THEN "compact: more states than before"
        ELSE IF ~all(o.compact, FALSE) THEN "compact: behaviour changed"
        ELSE IF ~all(o.first, TRUE) THEN "compact (first action): best action changed"
        ELSE IF ~Closed(o.merged) \/ ~Deterministic(o.merged) THEN "merged symbols: not a DFA"
        ELSE IF ~all(o.merged, FALSE) THEN "merged symbols: behaviour changed"
        ELSE IF ~TableOK(o.merged, o.tables.flat, c.probe) THEN "flat table differs from the DFA"
        ELSE IF ~TableOK(o.merged, o.tables.compact, c.probe) THEN "compact table differs from the DFA"
        ELSE IF ~TableOK(o.merged, o.tables.hard, c.probe) THEN "hard-coded table differs from the DFA"
        ELSE IF ~TableOK(o.merged, o.tables.flat32, c.wide) THEN "flat 32-bit table differs from the DFA"
        ELSE IF ~TableOK(o.merged, o.tables.compact32, c.wide) THEN "compact 32-bit table differs from the DFA"
        ELSE IF ~TableOK(o.merged, o.tables.hard32, c.wide) THEN "hard-coded 32-bit table differs from the DFA"
        ELSE "ok"
=============================================================================
