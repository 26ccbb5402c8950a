------------------------------ MODULE Frontend -----------------------------
(***************************************************************************)
(* The parser of a whole language: guards, weak symbols, ignored symbols   *)
(* and resolved conflicts together.                                        *)
(* A token is [t: symbol, s: the strong symbol it can stand for (0: none), *)
(* o: offset]; ign: the ignored symbols.                                   *)
(***************************************************************************)
EXTENDS Guards

EndTok == [ t |-> EOI, s |-> 0, o |-> -1 ]
TokE(w, pos) == IF pos < Len(w) THEN w[pos + 1] ELSE EndTok

(* what a state does on a token once the attributes and precedences of the definition are applied: a reduction of type
   "weakreduce" is done only if the token can be shifted afterwards *)
RECURSIVE CanShiftE(_, _, _, _, _)
AfterRed(M, st, a) == LET base == SubSeq(st, 1, Len(st) - Len(a.r)) IN Append(base, M.tr[base[Len(base)]][a.h])
CanShiftE(M, acts, st, t, fuel) ==
    LET C == Competing(acts[st[Len(st)]], t)
    IN  IF C = {} \/ fuel = 0 THEN FALSE
        ELSE IF \E a \in C : a.t \in {"shift", "accept"} THEN TRUE
        ELSE \E a \in C : CanShiftE(M, acts, AfterRed(M, st, a), t, fuel - 1)
(* the action chosen: <<>> none, <<a>>, or two where nothing says which *)
Choose(M, acts, st, t) ==
    LET C == Competing(acts[st[Len(st)]], t)
        wk == { a \in C : a.t = "weakreduce" }
        ok == { a \in wk : CanShiftE(M, acts, AfterRed(M, st, a), t, 60) }
        sh == { a \in C : a.t = "shift" }
        re == C \ (wk \cup sh)
    IN  IF Cardinality(ok) = 1 THEN <<CHOOSE a \in ok : TRUE>>
        ELSE IF ok # {} THEN <<0, 0>>
        ELSE IF sh # {} THEN <<CHOOSE a \in sh : TRUE>>
        ELSE IF Cardinality(re) = 1 THEN <<CHOOSE a \in re : TRUE>>
        ELSE IF re # {} THEN <<0, 0>> ELSE <<>>

(* what the token is read as where the parser stands: its symbol, 0 if it is skipped *)
ReadAs(M, acts, ign, st, k) ==
    LET can(x) == CanShiftE(M, acts, st, x, 60)
        x == IF k.s # 0 /\ ~can(k.t) THEN k.s ELSE k.t
    IN  IF x \in ign /\ ~can(x) THEN 0 ELSE x

(* the symbol itself reduces where the strong symbol does something else (a conflict resolved for the strong symbol only),
   and the strong symbol can be read after the reduction: nothing says which of the two readings wins *)
Mixed(M, acts, st, k, x) ==
    /\ k.s # 0 /\ x = k.s
    /\ \E a \in Competing(acts[st[Len(st)]], k.t) :
          /\ a.t \notin {"shift", "accept"} /\ CanShiftE(M, acts, AfterRed(M, st, a), k.s, 60)
          /\ ~(\E b \in Competing(acts[st[Len(st)]], k.s) : b.t \notin {"shift", "accept"} /\ b.h = a.h /\ b.r = a.r)

RECURSIVE CheckE(_, _, _, _, _, _, _, _), CandidatesE(_, _, _, _, _, _, _, _)
\* <<guards that can be read here, whether that is undecided>>
CandidatesE(M, acts, K, ign, w, pos, st, fuel) ==
    LET k == TokE(w, pos)
        C == { g \in DOMAIN K.at : ({k.t, k.s} \cap K.ini[g] # {}) /\ (\E a \in acts[st[Len(st)]] : a.s = g) /\ CanShiftE(M, acts, st, g, 60) }
        odd == \E g \in C : k.t \notin K.ini[g] /\ Competing(acts[st[Len(st)]], k.t) # {}
        R == [ g \in C |-> CheckE(M, acts, K, ign, w, pos, <<K.at[g]>>, fuel - 1) ]
        yes == { g \in C : R[g] = "yes" }
    IN  <<yes, odd \/ Cardinality(yes) > 1 \/ \E g \in C : R[g] = "open">>
RECURSIVE PushedE(_, _, _, _)
PushedE(M, acts, st, s) ==
    LET c == Choose(M, acts, st, s) IN
    IF c[1].t = "shift" THEN Append(st, M.tr[st[Len(st)]][s]) ELSE PushedE(M, acts, AfterRed(M, st, c[1]), s)
CheckE(M, acts, K, ign, w, pos, st, fuel) ==
    LET x == ReadAs(M, acts, ign, st, TokE(w, pos))
        c == Choose(M, acts, st, x)
        cand == CandidatesE(M, acts, K, ign, w, pos, st, fuel)
    IN  IF fuel <= 0 THEN "open"
        ELSE IF CanShiftE(M, acts, st, EOG, 60) THEN "yes"
        ELSE IF cand[2] THEN "open"
        ELSE IF cand[1] # {} THEN CheckE(M, acts, K, ign, w, pos, PushedE(M, acts, st, CHOOSE g \in cand[1] : TRUE), fuel - 1)
        ELSE IF x = 0 THEN CheckE(M, acts, K, ign, w, pos + 1, st, fuel - 1)
        ELSE IF Mixed(M, acts, st, TokE(w, pos), x) THEN "open"
        ELSE IF c = <<>> THEN "no"
        ELSE IF Len(c) > 1 THEN "open"
        ELSE IF c[1].t = "shift" THEN CheckE(M, acts, K, ign, w, pos + 1, Append(st, M.tr[st[Len(st)]][x]), fuel - 1)
        ELSE IF c[1].t = "accept" THEN "open"
        ELSE CheckE(M, acts, K, ign, w, pos, AfterRed(M, st, c[1]), fuel - 1)

(* the parser; st: <<state, item>>; pend: the guard being read, 0 if none *)
RECURSIVE RunE(_, _, _, _, _, _, _, _, _, _)
RunE(M, acts, K, ign, w, pos, st, evs, pend, fuel) ==
    LET states == [ i \in 1..Len(st) |-> st[i][1] ]
        top == states[Len(st)]
        k == TokE(w, pos)
        cand == IF pend # 0 THEN <<{pend}, FALSE>> ELSE CandidatesE(M, acts, K, ign, w, pos, states, 40)
        g == IF cand[1] = {} THEN 0 ELSE CHOOSE x \in cand[1] : TRUE
        x == IF g # 0 THEN g ELSE ReadAs(M, acts, ign, states, k)
        c == Choose(M, acts, states, x)
        id == Len(evs) + 1
        at(res) == [ res |-> res, ev |-> evs, st |-> st, pos |-> pos ]
    IN  IF fuel = 0 \/ cand[2] THEN at("open")
        ELSE IF x = 0 THEN RunE(M, acts, K, ign, w, pos + 1, st, evs, 0, fuel - 1)
        ELSE IF g = 0 /\ Mixed(M, acts, states, k, x) THEN at("open")
        ELSE IF c = <<>> THEN at("reject")
        ELSE IF Len(c) > 1 THEN at("open")
        ELSE IF c[1].t = "accept" THEN at("accept")
        ELSE IF c[1].t = "shift" THEN RunE(M, acts, K, ign, w, IF g = 0 THEN pos + 1 ELSE pos, Append(st, <<M.tr[top][x], id>>),
                                           Append(evs, Ev("s", IF g = 0 THEN x ELSE IF k.t = EOI THEN -99 ELSE k.t, <<>>, <<>>, k.o, id)), 0, fuel - 1)
        ELSE LET a == c[1]
                 n == Len(a.r)
                 base == SubSeq(st, 1, Len(st) - n)
                 kids == [ i \in 1..n |-> st[Len(st) - n + i][2] ]
             IN  RunE(M, acts, K, ign, w, pos, Append(base, <<M.tr[base[Len(base)][1]][a.h], id>>),
                      Append(evs, Ev("r", a.h, a.r, kids, k.o, id)), g, fuel - 1)

(* --- conflict attributes: attrs is a set of <<head, rule, position, what>> --- *)
Attributed(attrs, G, LC, M, q, A) ==
    LET items == M.ker[q] \cup New(G, ClosureNTs(LC, M.ker[q]))
        said(t) == { a[4] : a \in { x \in attrs : \E i \in items : i[1] = x[1] /\ i[2] = x[2] /\ i[3] = x[3] /\ After(i) = t } }
        res(a) ==
            LET C == Competing(A, a.s)
                R == { b \in C : b.t = "reduce" }
                w == said(a.s)
                how == CHOOSE x \in w : TRUE
            IN  IF a.s \notin G.T \/ a.t \notin {"shift", "reduce"} \/ Cardinality(w) # 1 \/ R = {} \/ ~(\E b \in C : b.t = "shift") THEN {a}
                ELSE IF Cardinality(R) > 1 /\ how # "reduce" THEN {a}
                ELSE IF how = "shift" THEN (IF a.t = "reduce" THEN {} ELSE {a})
                ELSE IF how = "reduce" THEN (IF a.t = "shift" THEN {} ELSE {a})
                ELSE IF a.t = "reduce" THEN {[ a EXCEPT !.t = "weakreduce" ]} ELSE {a}
    IN  UNION { res(a) : a \in A }
\* several attributes that disagree: nothing is said about which one wins
Disagree(attrs, G, LC, M, q) ==
    LET items == M.ker[q] \cup New(G, ClosureNTs(LC, M.ker[q])) IN
    \E t \in G.T : Cardinality({ a[4] : a \in { x \in attrs : \E i \in items : i[1] = x[1] /\ i[2] = x[2] /\ i[3] = x[3] /\ After(i) = t } }) > 1
=============================================================================
