---------------------------- MODULE NfaBuilder ----------------------------
(***************************************************************************)
(* The construction the library performs when it compiles a regular        *)
(* expression: an NFA built left to right by a builder that keeps a        *)
(* current state, a previous state (where the last item began) and a stack *)
(* of open groups <<start, end>> (end = -1 until the first alternative).   *)
(* One action per character of the expression, as in                       *)
(* ndfa_regex::compile / ndfa::builder.  The invariant says that whenever  *)
(* all groups are closed the NFA accepts exactly the language the          *)
(* expression denotes (module Regex).                                      *)
(* Fresh is the design decision that makes it true: items start, and       *)
(* repetitions end, in states of their own.  With Fresh = FALSE (how the   *)
(* code was before the repair) TLC finds a*b* accepting "ba".              *)
(***************************************************************************)
EXTENDS Regex, TLC

CONSTANTS MaxLen, K, Fresh
Chars == {97, 98, 40, 41, 124, 42, 43, 63}

VARIABLES re, n, eps, tr, cur, prevSt, stack, canRepeat
vars == <<re, n, eps, tr, cur, prevSt, stack, canRepeat>>
\* n: states are 0..n-1; eps: set of <<from,to>>; tr: set of <<from, symbol, to>>

Init == /\ re = <<>> /\ n = 2 /\ eps = {<<0, 1>>} /\ tr = {} /\ cur = 1 /\ prevSt = 0
        /\ stack = << <<1, -1>> >>                \* the expression's own group
        /\ canRepeat = FALSE

Top == stack[Len(stack)]
Typed(c) == Len(re) < MaxLen /\ re' = Append(re, c)

Symbol(c) ==
    /\ Typed(c) /\ c \in {97, 98}
    /\ IF Fresh THEN /\ eps' = eps \cup {<<cur, n>>} /\ tr' = tr \cup {<<n, c, n + 1>>}
                     /\ prevSt' = n /\ cur' = n + 1 /\ n' = n + 2
                ELSE /\ tr' = tr \cup {<<cur, c, n>>} /\ prevSt' = cur /\ cur' = n /\ n' = n + 1 /\ eps' = eps
    /\ canRepeat' = TRUE /\ UNCHANGED stack
Open ==
    /\ Typed(LParen)
    /\ IF Fresh THEN eps' = eps \cup {<<cur, n>>} /\ cur' = n /\ n' = n + 1 /\ stack' = Append(stack, <<n, -1>>)
                ELSE stack' = Append(stack, <<cur, -1>>) /\ UNCHANGED <<eps, cur, n>>
    /\ canRepeat' = FALSE /\ UNCHANGED <<tr, prevSt>>
Close ==
    /\ Typed(RParen) /\ Len(stack) > 1
    /\ IF Top[2] >= 0 THEN eps' = eps \cup {<<cur, Top[2]>>} /\ cur' = Top[2] ELSE UNCHANGED <<eps, cur>>
    /\ prevSt' = Top[1] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ canRepeat' = TRUE /\ UNCHANGED <<n, tr>>
Or ==
    /\ Typed(Bar)
    /\ IF Top[2] < 0
       THEN /\ eps' = eps \cup {<<cur, n>>} /\ n' = n + 1
            /\ stack' = [stack EXCEPT ![Len(stack)] = <<Top[1], n>>]
       ELSE eps' = eps \cup {<<cur, Top[2]>>} /\ UNCHANGED <<n, stack>>
    /\ cur' = Top[1] /\ canRepeat' = FALSE /\ UNCHANGED <<tr, prevSt>>
Repeat(c) ==
    /\ Typed(c) /\ c \in {StarC, PlusC, QuestC} /\ canRepeat
    /\ LET skip == IF c # PlusC THEN {<<prevSt, cur>>} ELSE {}
           back == IF c # QuestC THEN {<<cur, prevSt>>} ELSE {}
       IN  IF Fresh THEN eps' = eps \cup skip \cup back \cup {<<cur, n>>} /\ cur' = n /\ n' = n + 1
                    ELSE eps' = eps \cup skip \cup back /\ UNCHANGED <<cur, n>>
    /\ UNCHANGED <<tr, prevSt, stack, canRepeat>>

Next == Open \/ Close \/ Or \/ \E c \in Chars : Symbol(c) \/ Repeat(c)
Spec == Init /\ [][Next]_vars

(* ---- acceptance, after the rejoin that ends the expression ---- *)
Eps2 == IF Top[2] >= 0 THEN eps \cup {<<cur, Top[2]>>} ELSE eps
Final == IF Top[2] >= 0 THEN Top[2] ELSE cur
RECURSIVE Cl(_)
Cl(S) == LET T == S \cup { e[2] : e \in { x \in Eps2 : x[1] \in S } } IN IF T = S THEN S ELSE Cl(T)
Mv(S, c) == Cl({ t[3] : t \in { x \in tr : x[1] \in S /\ x[2] = c } })
RECURSIVE Rn(_, _, _)
Rn(S, w, i) == IF i > Len(w) THEN S ELSE Rn(Mv(S, w[i]), w, i + 1)
Words == UNION { [1..k -> {97, 98}] : k \in 0..K }
Complete == Len(stack) = 1
Faithful == Complete => LET A == Compile(re, <<>>)
                            S0 == Cl({0})
                        IN  \A w \in Words : (Final \in Rn(S0, w, 1)) <=> Matches(A, w)
TypeOK == /\ cur \in 0..(n - 1) /\ prevSt \in 0..(n - 1)
          /\ \A e \in eps : e[1] \in 0..(n - 1) /\ e[2] \in 0..(n - 1)
=============================================================================
