----------------------------- MODULE WeakSplit -----------------------------
(***************************************************************************)
(* How the lexer's weak symbols find the strong symbols they stand for:    *)
(* the accepting states of the automaton are visited one after the other,  *)
(* a weak symbol that meets a second strong symbol is split. Symbols are   *)
(* 1..N, a lower one is preferred; the weak ones come first.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Weak, States

VARIABLES acc,      \* what each state matches
          tok,      \* the token delivered: <<symbol, the strong symbol it was split off for, 0: not split>>
          strong,   \* weak symbol -> the strong symbol it stands for, 0: none yet
          split,    \* pairs <<weak, strong>> split off
          todo
vars == <<acc, tok, strong, split, todo>>

Symbols == 1..N
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Nobody == -1
Alone(s) == acc[s] \subseteq Weak
Init == /\ acc \in [ 1..States -> (SUBSET Symbols) \ {{}} ]
        /\ tok = [ s \in 1..States |-> <<Least(acc[s]), 0>> ]
        /\ strong = [ w \in Weak |-> 0 ]
        /\ split = {}
        /\ todo = 1..States

Visit(s) ==
    /\ todo' = todo \ {s} /\ UNCHANGED acc
    \* states that match weak symbols alone are visited once the others have been
    /\ Alone(s) => \A x \in todo : Alone(x)
    /\ LET W == acc[s] \cap Weak
           S == acc[s] \ Weak
           best == Least(S)
           a == Least(acc[s])
       IN IF Alone(s) THEN /\ UNCHANGED <<strong>>
                           /\ IF strong[a] # 0 THEN tok' = [ tok EXCEPT ![s] = <<a, Nobody>> ] /\ split' = split \cup {<<a, Nobody>>}
                              ELSE UNCHANGED <<tok, split>>
          ELSE IF W = {} \/ S = {} THEN UNCHANGED <<tok, strong, split>>
          ELSE /\ strong' = [ w \in Weak |-> IF w \in W /\ strong[w] = 0 THEN best ELSE strong[w] ]
               /\ IF a \in Weak /\ strong[a] \notin {0, best}
                  THEN tok' = [ tok EXCEPT ![s] = <<a, best>> ] /\ split' = split \cup {<<a, best>>}
                  ELSE UNCHANGED <<tok, split>>
Next == (\E s \in todo : Visit(s)) \/ (todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

StrongOf(t) == IF t[2] = Nobody THEN 0 ELSE IF t[2] # 0 THEN t[2] ELSE IF t[1] \in Weak THEN strong[t[1]] ELSE 0
\* in the end every state delivers its best symbol, standing for the best strong symbol it matches
Right == todo = {} => \A s \in 1..States :
            /\ tok[s][1] = Least(acc[s])
            /\ Least(acc[s]) \in Weak => StrongOf(tok[s]) = (IF Alone(s) THEN 0 ELSE Least(acc[s] \ Weak))
\* no more symbols than pairs, and none that no state delivers
Lean == /\ \A p \in split : \E s \in 1..States : tok[s] = p
        /\ \A w \in Weak : Cardinality({ p \in split : p[1] = w }) <= Cardinality(Symbols \ Weak)
=============================================================================
