------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Parsers whose tables have been rewritten:                               *)
(*  precedence  what a shift/reduce conflict is resolved to                *)
(*  ignored     a token that cannot be shifted where it stands is skipped  *)
(*  weak        a token that cannot be shifted as itself is taken for its  *)
(*              strong symbol                                              *)
(***************************************************************************)
EXTENDS Lr

(* --- precedence: higher levels bind tighter --- *)
\* P: terminal -> <<level, associativity>>
RulePrec(P, r) == LET I == { i \in 1..Len(r) : r[i] \in DOMAIN P } IN IF Cardinality(I) = 1 THEN P[r[CHOOSE i \in I : TRUE]] ELSE <<>>
Resolve(P, T, A) ==
    LET drop == { a \in A : a.t \in {"shift", "reduce"} /\ a.s \in T /\
                    LET C == { b \in A : b.s = a.s /\ b.t \in {"shift", "reduce"} }
                        R == { b \in C : b.t = "reduce" }
                    IN  /\ Cardinality(R) = 1 /\ Cardinality(C) = 2
                        /\ a.s \in DOMAIN P
                        /\ LET rp == RulePrec(P, (CHOOSE b \in R : TRUE).r)
                               sp == P[a.s]
                           IN  /\ rp # <<>>
                               /\ LET keep == IF sp[1] < rp[1] THEN "reduce" ELSE IF sp[1] > rp[1] THEN "shift"
                                              ELSE IF rp[2] = "left" THEN "reduce" ELSE IF rp[2] = "right" THEN "shift" ELSE "both"
                                  IN  keep # "both" /\ keep # a.t }
    IN  A \ drop

(* --- can a token be shifted, after whatever reductions it calls for? --- *)
RECURSIVE CanShift(_, _, _, _, _)
CanShift(M, acts, st, t, fuel) ==
    LET top == st[Len(st)]
        C == Competing(acts[top], t)
    IN  IF C = {} \/ fuel = 0 THEN FALSE
        ELSE IF \E a \in C : a.t \in {"shift", "accept"} THEN TRUE
        ELSE LET a == CHOOSE x \in C : TRUE
                 base == SubSeq(st, 1, Len(st) - Len(a.r))
             IN  CanShift(M, acts, Append(base, M.tr[base[Len(base)]][a.h]), t, fuel - 1)

(* --- the parser; weak: weak -> strong, ign: ignored symbols; st: <<state, item>> --- *)
RECURSIVE RunX(_, _, _, _, _, _, _, _, _)
RunX(M, acts, weak, ign, w, pos, st, evs, fuel) ==
    LET top == st[Len(st)][1]
        states == [ i \in 1..Len(st) |-> st[i][1] ]
        t0 == IF pos < Len(w) THEN w[pos + 1] ELSE EOI
        can == (t0 \notin DOMAIN weak /\ t0 \notin ign) \/ CanShift(M, acts, states, t0, 60)
        t == IF t0 \in DOMAIN weak /\ ~can THEN weak[t0] ELSE t0
        C == Competing(acts[top], t)
        sh == { a \in C : a.t = "shift" }
        id == Cardinality({ i \in 1..Len(evs) : evs[i].a # "i" }) + 1
        at == IF pos < Len(w) THEN pos ELSE -1
    IN  IF fuel = 0 THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE IF t0 \in ign /\ ~can THEN RunX(M, acts, weak, ign, w, pos + 1, st, Append(evs, Ev("i", t0, <<>>, <<>>, pos, 0)), fuel - 1)
        ELSE IF C = {} THEN [ res |-> "reject", ev |-> evs, st |-> st ]
        ELSE IF sh # {} THEN RunX(M, acts, weak, ign, w, pos + 1, Append(st, <<M.tr[top][t], id>>), Append(evs, Ev("s", t, <<>>, <<>>, pos, id)), fuel - 1)
        ELSE IF Cardinality(C) > 1 THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE LET a == CHOOSE x \in C : TRUE
                 k == Len(a.r)
                 base == SubSeq(st, 1, Len(st) - k)
                 kids == [ i \in 1..k |-> st[Len(st) - k + i][2] ]
             IN  IF a.t = "accept" THEN [ res |-> "accept", ev |-> evs, st |-> st ]
                 ELSE RunX(M, acts, weak, ign, w, pos, Append(base, <<M.tr[base[Len(base)][1]][a.h], id>>),
                           Append(evs, Ev("r", a.h, a.r, kids, at, id)), fuel - 1)

(* --- operator expressions: the shape precedence and associativity demand --- *)
\* trees: [op, kids]; leaves and parentheses have op 0.  ops: rules with an operator, as <<rhs, operator>>
RECURSIVE Build(_, _, _, _)
Build(ops, ev, i, st) ==
    IF i > Len(ev) THEN st
    ELSE LET e == ev[i] IN
         IF e.a = "s" THEN Build(ops, ev, i + 1, Append(st, [ op |-> 0, kids |-> <<>>, e |-> FALSE ]))
         ELSE LET k == Len(e.r)
                  ks == SubSeq(st, Len(st) - k + 1, Len(st))
                  O == { o \in ops : o[1] = e.r }
              IN  Build(ops, ev, i + 1, Append(SubSeq(st, 1, Len(st) - k), [ op |-> IF O = {} THEN 0 ELSE (CHOOSE o \in O : TRUE)[2], kids |-> ks, e |-> TRUE ]))
RECURSIVE LeftSpine(_)
LeftSpine(n) == IF n.op = 0 THEN {} ELSE {n.op} \cup (IF n.kids[1].e THEN LeftSpine(n.kids[1]) ELSE {})
\* operators met going down the left edge that have something to their left
RECURSIVE LeftOps(_)
LeftOps(n) == IF n.op = 0 \/ ~n.kids[1].e THEN {} ELSE {n.op} \cup LeftOps(n.kids[1])
RECURSIVE RightOps(_)
RightOps(n) == IF n.op = 0 \/ ~n.kids[Len(n.kids)].e THEN {} ELSE {n.op} \cup RightOps(n.kids[Len(n.kids)])
RECURSIVE Shaped(_, _)
Shaped(P, n) ==
    /\ \A i \in 1..Len(n.kids) : Shaped(P, n.kids[i])
    /\ n.op = 0 \/
       /\ n.kids[1].e => \A p \in RightOps(n.kids[1]) : P[p][1] > P[n.op][1] \/ (P[p][1] = P[n.op][1] /\ P[p][2] = "left")
       /\ n.kids[Len(n.kids)].e => \A p \in LeftOps(n.kids[Len(n.kids)]) : P[p][1] > P[n.op][1] \/ (P[p][1] = P[n.op][1] /\ P[n.op][2] # "left")

=============================================================================
