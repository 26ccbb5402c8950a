------------------------------- MODULE Guards ------------------------------
(***************************************************************************)
(* Parsers whose grammar contains guards [=> X].  A guard is a symbol of   *)
(* its own that covers no input; it can be read where some sentence can    *)
(* continue with it and the tokens that follow start with an X.  A guard   *)
(* that can be read is read, before anything else is tried.                *)
(*   K: [ at: guard -> the state its body starts in, ini: guard -> tokens  *)
(*        the body can start with ]                                        *)
(***************************************************************************)
EXTENDS Readers

GuardSyms(syms) == { s \in 1..Len(syms) : syms[s].k = "grd" }
BodyOf(syms, g) == syms[g].r[1]

(* tokens a guard can start with; a guard at the start stands for what it looks for itself *)
RECURSIVE Initial(_, _, _, _)
Initial(syms, G, g, seen) ==
    LET F == SeqFirst(G.nu, G.first, BodyOf(syms, g)) IN
    { t \in F : t \in G.T /\ syms[t].k = "t" } \cup UNION { Initial(syms, G, h, seen \cup {g}) : h \in { x \in F : x \in GuardSyms(syms) \ (seen \cup {g}) } }
RECURSIVE SelfStarting(_, _, _, _)
SelfStarting(syms, G, g, seen) ==
    \E h \in SeqFirst(G.nu, G.first, BodyOf(syms, g)) \cap GuardSyms(syms) : h \in seen \/ SelfStarting(syms, G, h, seen \cup {h})

GuardActs(syms, G, at, A) ==
    UNION { { Act("guard", t, at[a.s], a.s, BodyOf(syms, a.s)) : t \in Initial(syms, G, a.s, {}) } : a \in { x \in A : x.s \in GuardSyms(syms) } }

TokAt(w, pos) == IF pos < Len(w) THEN w[pos + 1] ELSE EOI

(* does the guard match what follows?  "yes", "no", or "open": nothing is specified *)
RECURSIVE Check(_, _, _, _, _, _, _), Candidates(_, _, _, _, _, _, _)
\* <<guards that can be read in a stack of states, whether that is undecided>>
Candidates(M, acts, K, w, pos, st, fuel) ==
    LET t == TokAt(w, pos)
        C == { g \in DOMAIN K.at : t \in K.ini[g] /\ (\E a \in acts[st[Len(st)]] : a.s = g) /\ CanShift(M, acts, st, g, 60) }
        R == [ g \in C |-> Check(M, acts, K, w, pos, <<K.at[g]>>, fuel - 1) ]
        yes == { g \in C : R[g] = "yes" }
    IN  <<yes, Cardinality(yes) > 1 \/ \E g \in C : R[g] = "open">>
\* the stack after everything that reading symbol s calls for
RECURSIVE Pushed(_, _, _, _)
Pushed(M, acts, st, s) ==
    LET top == st[Len(st)]
        C == Competing(acts[top], s)
        sh == { a \in C : a.t = "shift" }
        a == CHOOSE x \in C : TRUE
        base == SubSeq(st, 1, Len(st) - Len(a.r))
    IN  IF sh # {} THEN Append(st, M.tr[top][s]) ELSE Pushed(M, acts, Append(base, M.tr[base[Len(base)]][a.h]), s)
Check(M, acts, K, w, pos, st, fuel) ==
    LET t == TokAt(w, pos)
        top == st[Len(st)]
        C == Competing(acts[top], t)
        a == CHOOSE x \in C : x.t = "shift" \/ \A y \in C : y.t # "shift"
        base == SubSeq(st, 1, Len(st) - Len(a.r))
        cand == Candidates(M, acts, K, w, pos, st, fuel)
    IN  IF fuel <= 0 THEN "open"
        ELSE IF CanShift(M, acts, st, EOG, 60) THEN "yes"
        ELSE IF cand[2] THEN "open"
        ELSE IF cand[1] # {} THEN Check(M, acts, K, w, pos, Pushed(M, acts, st, CHOOSE g \in cand[1] : TRUE), fuel - 1)
        ELSE IF C = {} THEN "no"
        ELSE IF a.t = "shift" THEN Check(M, acts, K, w, pos + 1, Append(st, M.tr[top][t]), fuel - 1)
        ELSE IF a.t = "accept" THEN "open"
        ELSE Check(M, acts, K, w, pos, Append(base, M.tr[base[Len(base)]][a.h]), fuel - 1)

(* the parser; st: <<state, item>>; pend: the guard being read, 0 if none *)
RECURSIVE RunG(_, _, _, _, _, _, _, _, _)
RunG(M, acts, K, w, pos, st, evs, pend, fuel) ==
    LET top == st[Len(st)][1]
        states == [ i \in 1..Len(st) |-> st[i][1] ]
        t0 == TokAt(w, pos)
        cand == IF pend # 0 THEN <<{pend}, FALSE>> ELSE Candidates(M, acts, K, w, pos, states, 40)
        g == IF cand[1] = {} THEN 0 ELSE CHOOSE x \in cand[1] : TRUE
        t == IF g # 0 THEN g ELSE t0
        C == Competing(acts[top], t)
        sh == { a \in C : a.t = "shift" }
        id == Len(evs) + 1
        at == IF pos < Len(w) THEN pos ELSE -1
    IN  IF fuel = 0 \/ cand[2] THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE IF C = {} THEN [ res |-> "reject", ev |-> evs, st |-> st ]
        ELSE IF sh # {} THEN RunG(M, acts, K, w, IF g = 0 THEN pos + 1 ELSE pos, Append(st, <<M.tr[top][t], id>>), Append(evs, Ev("s", t0, <<>>, <<>>, pos, id)), 0, fuel - 1)
        ELSE IF Cardinality(C) > 1 THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE LET a == CHOOSE x \in C : TRUE
                 k == Len(a.r)
                 base == SubSeq(st, 1, Len(st) - k)
                 kids == [ i \in 1..k |-> st[Len(st) - k + i][2] ]
             IN  IF a.t = "accept" THEN [ res |-> "accept", ev |-> evs, st |-> st ]
                 ELSE RunG(M, acts, K, w, pos, Append(base, <<M.tr[base[Len(base)][1]][a.h], id>>),
                           Append(evs, Ev("r", a.h, a.r, kids, at, id)), g, fuel - 1)

(* --- what guards mean, in terms of the language alone --- *)
(* the grammar with a nonterminal for the body of every guard: symbol Len(syms) + i for the i-th guard *)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o InOrder(S \ {x})
WithBodies(syms) == LET gs == InOrder(GuardSyms(syms)) IN syms \o [ i \in 1..Len(gs) |-> [ k |-> "n", r |-> <<BodyOf(syms, gs[i])>> ] ]
BodySym(syms, g) == Len(syms) + Cardinality({ h \in GuardSyms(syms) : h <= g })

RECURSIVE Matches(_, _, _, _, _, _, _)
\* p: what has been read of the body of guard g
Matches(syms, GX, g, w, i, p, fuel) ==
    LET b == BodySym(syms, g)
        N == { h \in GuardSyms(syms) : Prefix(GX, b, Append(p, h)) }
        R == [ h \in N |-> Matches(syms, GX, h, w, i, <<>>, fuel - 1) ]
        yes == { h \in N : R[h] = "yes" }
    IN  IF fuel <= 0 THEN "open"
        ELSE IF Derives(GX, b, p) THEN "yes"
        ELSE IF Cardinality(yes) > 1 \/ \E h \in N : R[h] = "open" THEN "open"
        ELSE IF yes # {} THEN Matches(syms, GX, g, w, i, Append(p, CHOOSE h \in yes : TRUE), fuel - 1)
        ELSE IF i < Len(w) /\ Prefix(GX, b, Append(p, w[i + 1])) THEN Matches(syms, GX, g, w, i + 1, Append(p, w[i + 1]), fuel - 1)
        ELSE "no"
RECURSIVE ReadG(_, _, _, _, _, _, _)
\* what the word is read as: tokens and guards
ReadG(syms, GX, start, w, i, p, fuel) ==
    LET N == { h \in GuardSyms(syms) : i < Len(w) /\ Prefix(GX, start, Append(p, h)) }
        R == [ h \in N |-> Matches(syms, GX, h, w, i, <<>>, 40) ]
        yes == { h \in N : R[h] = "yes" }
    IN  IF fuel <= 0 \/ Cardinality(yes) > 1 \/ \E h \in N : R[h] = "open" THEN <<"open", p>>
        ELSE IF yes # {} THEN ReadG(syms, GX, start, w, i, Append(p, CHOOSE h \in yes : TRUE), fuel - 1)
        ELSE IF i < Len(w) THEN ReadG(syms, GX, start, w, i + 1, Append(p, w[i + 1]), fuel - 1)
        ELSE <<"read", p>>
=============================================================================
