------------------------------- MODULE JRegex -------------------------------
(***************************************************************************)
(* Judge for P01: for every observed compilation of a set of regular       *)
(* expressions, the automaton the code built accepts, for all strings,     *)
(* exactly the symbols whose expression matches the string; and the        *)
(* strings run through the real lexer came out likewise.                   *)
(***************************************************************************)
EXTENDS Regex, Automata, Judge

SpecAutomaton(c, e) ==
    LET A == IF e.lit THEN CompileLit(e.re) ELSE Compile(e.re, c.defs)
        B == IF c.ci THEN FoldCase(A) ELSE A
    IN  IF c.surr THEN Utf16(B) ELSE B

SpecBounds(c, P) ==
    LET b == UNION { UNION { UNION { {r[1], r[2]} : r \in P[k].lv[i].rs } : i \in 1..Len(P[k].lv) } : k \in DOMAIN P }
        astral == { x \in b : x >= 65536 /\ x < 1114112 }
    IN  {0} \cup b \cup (IF c.surr THEN {55296, 55297, 56319, 56320, 56321, 57343, 57344, 65535} \cup
              UNION { {HighOf(x), HighOf(x) + 1, HighOf(x) - 1, LowOf(x)} : x \in astral } ELSE {}) \cup (IF c.ci THEN {65, 91, 97, 123} \cup { x + 32 : x \in { y \in b : y < 1000 } } \cup { x - 32 : x \in b } ELSE {})

\* product of the specified position automata with an observed automaton
RECURSIVE Agree(_, _, _, _, _, _)
Agree(c, P, A, reps, seen, todo) ==
    IF \E p \in todo : { c.ex[k].sym : k \in { x \in DOMAIN P : Accepting(P[x], p[1][x]) } } # Actions(A, p[2])
    THEN FALSE
    ELSE LET next == UNION { { << [k \in DOMAIN P |-> StepPos(P[k], p[1][k], s)], Move(A, p[2], s) >> : s \in reps } : p \in todo }
             new == next \ seen
         IN IF new = {} THEN TRUE ELSE Agree(c, P, A, reps, seen \cup new, new)

RegexVerdict(c) ==
    LET P == [k \in 1..Len(c.ex) |-> SpecAutomaton(c, c.ex[k])]
        check(A) ==
           LET reps == { s \in SpecBounds(c, P) \cup Bounds(A) : s >= 0 /\ s < MaxSym }
               st == << [k \in 1..Len(c.ex) |-> Start], Closure(A, {0}) >>
           IN  Closed(A) /\ Agree(c, P, A, reps, {st}, {st})
        best(w) ==  \* symbol reported for the whole of w when w is one lexeme: the smallest
           LET m == { c.ex[k].sym : k \in { x \in DOMAIN P : Matches(P[x], w) } }
           IN IF m = {} THEN -1 ELSE CHOOSE s \in m : \A t \in m : s <= t
    IN  IF ~check(c.obs.nfa) THEN "the NFA does not recognise the expressions' language"
        ELSE IF ~check(c.obs.dfa) THEN "the DFA does not recognise the expressions' language"
        ELSE IF ~Deterministic(c.obs.dfa) THEN "the DFA is not deterministic"
        ELSE IF \E i \in 1..Len(c.words) : c.obs.flat[i] # best(c.words[i])
             THEN "the lexer's verdict on a whole word differs from the expression's meaning"
        ELSE IF c.obs.errors # 0 THEN "a well-formed expression was reported as an error"
        ELSE "ok"
=============================================================================
