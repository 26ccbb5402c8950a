------------------------------ MODULE Minimise ------------------------------
(***************************************************************************)
(* DFA compaction as the library does it (ndfa::to_compact_dfa): start     *)
(* from a partition that isolates the initial states, gathers the other    *)
(* non-accepting states in one block and groups accepting states by their  *)
(* actions; then repeatedly split from a block the states that disagree    *)
(* with a template state of the block.  Which block is split next is left  *)
(* open.  When nothing can be split, the quotient must behave like the     *)
(* original for every string; and every partition on the way must be       *)
(* coarser than or equal to state identity and never mix actions.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N, NSym
States == 0..(N - 1)
Syms   == 1..NSym
None   == -1

VARIABLES delta, accept, part, done     \* part: a set of blocks
vars == <<delta, accept, part, done>>

InitPart(acc) ==
    LET rest == States \ {0}
        non  == { s \in rest : acc[s] = 0 }
        byAction(a) == { s \in rest : acc[s] = a }
    IN  ({ {0}, non } \cup { byAction(a) : a \in 1..2 }) \ {{}}

Init == /\ delta \in [States -> [Syms -> States \cup {None}]]
        /\ accept \in [States -> 0..2]
        /\ part = InitPart(accept)
        /\ done = FALSE

BlockOf(s, P) == IF s = None THEN {} ELSE CHOOSE b \in P : s \in b
Template(b) == CHOOSE s \in b : \A t \in b : s <= t
Differs(b) == { s \in b : \E a \in Syms : BlockOf(delta[s][a], part) # BlockOf(delta[Template(b)][a], part) }

Split == /\ ~done
         /\ \E b \in part : LET d == Differs(b) IN
               d # {} /\ part' = (part \ {b}) \cup {d, b \ d}
         /\ UNCHANGED <<delta, accept, done>>
Finish == /\ ~done /\ \A b \in part : Differs(b) = {}
          /\ done' = TRUE /\ UNCHANGED <<delta, accept, part>>
Next == Split \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the quotient runs on blocks, using the template's transitions *)
QStep(b, a) == IF b = {} THEN {} ELSE BlockOf(delta[Template(b)][a], part)
QAccept(b) == IF b = {} THEN 0 ELSE accept[Template(b)]
Acc(s) == IF s = None THEN 0 ELSE accept[s]
Step(s, a) == IF s = None THEN None ELSE delta[s][a]

RECURSIVE Explore(_, _)
Explore(seen, todo) ==
    IF \E p \in todo : Acc(p[1]) # QAccept(p[2]) THEN FALSE
    ELSE LET new == UNION { { <<Step(p[1], a), QStep(p[2], a)>> : a \in Syms } : p \in todo } \ seen
         IN IF new = {} THEN TRUE ELSE Explore(seen \cup new, new)

Partition == /\ UNION part = States
             /\ \A b, c \in part : b # c => b \cap c = {}
             /\ \A b \in part : b # {} /\ \A s, t \in b : accept[s] = accept[t]
             /\ {0} \in part
Preserved == done => Explore({<<0, {0}>>}, {<<0, {0}>>})
Terminates == <>done
=============================================================================
