-------------------------------- MODULE Lr ---------------------------------
(***************************************************************************)
(* LALR(1) automata.  A machine is given as its states' kernels and        *)
(* transitions; this module says when that is the LR(0) automaton of a     *)
(* grammar, which lookaheads LALR(1) gives the items, which actions that   *)
(* means, and what the resulting deterministic parser does with a word.    *)
(* M: [ ker: 0..n-1 -> items, tr: 0..n-1 -> symbol -> state,               *)
(*      init: states -> lookahead symbol of the initial item ]             *)
(* item: <<head, right-hand side, dot>>                                    *)
(***************************************************************************)
EXTENDS Grammar

After(it) == IF it[3] < Len(it[2]) THEN it[2][it[3] + 1] ELSE 0
Rest(it)  == SubSeq(it[2], it[3] + 2, Len(it[2]))
Adv(it)   == <<it[1], it[2], it[3] + 1>>

(* nonterminals that can stand at the very left of what a symbol derives *)
RECURSIVE LeftFix(_, _)
LeftFix(G, L) ==
    LET L2 == [ s \in DOMAIN L |-> L[s] \cup UNION { L[r[1]] : r \in { x \in UNION { G.P[a] : a \in L[s] } : x # <<>> /\ x[1] \in G.N } } ]
    IN  IF L2 = L THEN L ELSE LeftFix(G, L2)
LeftCorners(G) == LeftFix(G, [ s \in 0..G.n |-> IF s \in G.N THEN {s} ELSE {} ])

ClosureNTs(LC, ker) == UNION { LC[After(i)] : i \in ker }
New(G, A)           == UNION { { <<a, r, 0>> : r \in G.P[a] } : a \in A }

(* --- is M the LR(0) automaton? --- *)
Lr0Wrong(G, M) ==
    LET LC  == LeftCorners(G)
        Cl(q) == M.ker[q] \cup New(G, ClosureNTs(LC, M.ker[q]))
        Q   == DOMAIN M.ker
        bad(q) == LET cl == Cl(q)
                      X  == { After(i) : i \in cl } \ {0}
                  IN  IF DOMAIN M.tr[q] # X THEN "transitions"
                      ELSE IF \E x \in X : M.ker[M.tr[q][x]] # { Adv(i) : i \in { j \in cl : After(j) = x } } THEN "target"
                      ELSE "ok"
        B == { q \in Q : bad(q) # "ok" }
    IN  IF B # {} THEN LET q == CHOOSE x \in B : TRUE IN <<bad(q), q>>
        ELSE IF Cardinality({ M.ker[q] : q \in Q }) # Cardinality(Q) THEN <<"duplicate state", 0>>
        ELSE <<"ok", 0>>

RECURSIVE ReachFix(_, _)
ReachFix(M, S) == LET S2 == S \cup UNION { { M.tr[q][x] : x \in DOMAIN M.tr[q] } : q \in S } IN IF S2 = S THEN S ELSE ReachFix(M, S2)

(* --- LALR(1) lookaheads: least solution over kernel items <<q, item>> and closure nonterminals <<q, A, 0>> --- *)
RECURSIVE LaFix(_, _)
LaFix(pred, F) ==
    LET F2 == [ x \in DOMAIN F |-> F[x] \cup UNION { F[y] : y \in pred[x] } ]
    IN  IF F2 = F THEN F ELSE LaFix(pred, F2)

Lookaheads(G, M) ==
    LET LC == LeftCorners(G)
        Q  == DOMAIN M.ker
        nts == [ q \in Q |-> ClosureNTs(LC, M.ker[q]) ]
        items == [ q \in Q |-> M.ker[q] \cup New(G, nts[q]) ]
        node(q, i) == IF i \in M.ker[q] THEN <<q, i>> ELSE <<q, i[1], 0>>
        \* closure: what follows a nonterminal
        gen(q, a) == UNION { SeqFirst(G.nu, G.first, Rest(i)) : i \in { j \in items[q] : After(j) = a } }
        from(q, a) == { node(q, i) : i \in { j \in items[q] : After(j) = a /\ SeqNull(G.nu, Rest(j)) } }
        NK == UNION { { <<q, i>> : i \in M.ker[q] } : q \in Q }
        NC == UNION { { <<q, a, 0>> : a \in nts[q] } : q \in Q }
        in == [ q \in Q |-> { p \in Q : \E x \in DOMAIN M.tr[p] : M.tr[p][x] = q } ]
        back(q, i) == IF i[3] = 0 THEN {} ELSE
                      LET j == <<i[1], i[2], i[3] - 1>> IN { node(p, j) : p \in { s \in in[q] : j \in items[s] /\ M.tr[s][After(j)] = q } }
        pred == [ x \in NK \cup NC |-> IF Len(x) = 2 THEN back(x[1], x[2]) ELSE from(x[1], x[2]) ]
        F0 == [ x \in NK \cup NC |-> IF Len(x) = 2 THEN (IF x[1] \in DOMAIN M.init THEN {M.init[x[1]]} ELSE {}) ELSE gen(x[1], x[2]) ]
    IN  LaFix(pred, F0)

(* --- the actions of a state --- *)
Act(t, s, n, h, r) == [ t |-> t, s |-> s, n |-> n, h |-> h, r |-> r ]

Actions(G, M, LA, LC, q) ==
    LET ker == M.ker[q]
        moves == { LET x == s IN Act(IF s \in G.T THEN "shift" ELSE "goto", s, M.tr[q][s], 0, <<>>) : s \in DOMAIN M.tr[q] }
        done == { i \in ker : After(i) = 0 }
        empties == { <<a, <<>>, 0>> : a \in { b \in ClosureNTs(LC, ker) : <<>> \in G.P[b] } }
        red(i, la) == { Act(IF i[1] = 0 \/ i[1] \in G.T THEN "accept" ELSE "reduce", x, -1, i[1], i[2]) : x \in la }
    IN  moves \cup UNION { red(i, LA[<<q, i>>]) : i \in done } \cup UNION { red(i, LA[<<q, i[1], 0>>]) : i \in empties }

(* tokens on which a state has more than one thing to do *)
Competing(A, t) == { a \in A : a.s = t /\ a.t # "goto" }
Conflicts(A) == { t \in { a.s : a \in A } : Cardinality(Competing(A, t)) > 1 }

(* --- the deterministic parser: shift wins over reduce --- *)
(* an event: [a: "s"/"r", s: symbol, r: right-hand side, c: items consumed, p: position, id]; items are numbered as they are made *)
Ev(a, s, r, c, p, id) == [ a |-> a, s |-> s, r |-> r, c |-> c, p |-> p, id |-> id ]

RECURSIVE Run(_, _, _, _, _, _, _)
(* acts: state -> actions; st: stack of <<state, item>>; fuel bounds the run *)
Run(M, acts, w, pos, st, evs, fuel) ==
    LET top == st[Len(st)][1]
        la == IF pos < Len(w) THEN w[pos + 1] ELSE EOI
        C == Competing(acts[top], la)
        sh == { a \in C : a.t = "shift" }
        id == Len(evs) + 1
    IN  IF fuel = 0 THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE IF C = {} THEN [ res |-> "reject", ev |-> evs, st |-> st ]
        ELSE IF sh # {} THEN Run(M, acts, w, pos + 1, Append(st, <<M.tr[top][la], id>>), Append(evs, Ev("s", la, <<>>, <<>>, pos, id)), fuel - 1)
        ELSE IF Cardinality(C) > 1 THEN [ res |-> "open", ev |-> evs, st |-> st ]
        ELSE LET a == CHOOSE x \in C : TRUE
                 k == Len(a.r)
                 base == SubSeq(st, 1, Len(st) - k)
                 kids == [ i \in 1..k |-> st[Len(st) - k + i][2] ]
             IN  IF a.t = "accept" THEN [ res |-> "accept", ev |-> evs, st |-> st ]
                 ELSE Run(M, acts, w, pos, Append(base, <<M.tr[base[Len(base)][1]][a.h], id>>),
                          Append(evs, Ev("r", a.h, a.r, kids, IF pos < Len(w) THEN pos ELSE -1, id)), fuel - 1)

(* --- whatever the tables: an accepted run is a derivation of exactly the input --- *)
RECURSIVE Derivation(_, _, _, _, _, _, _)
(* st: stack of <<symbol, item>> *)
Derivation(G, w, start, evs, i, pos, st) ==
    IF i > Len(evs) THEN IF pos # Len(w) THEN "accepted without reading the whole input"
                         ELSE IF Len(st) = 1 /\ st[1][1] = start THEN "ok" ELSE "accepted with something else than the start symbol"
    ELSE LET e == evs[i] IN
         IF e.a = "s" THEN IF pos >= Len(w) \/ e.s # w[pos + 1] \/ e.p # pos THEN "shifted something that is not the next token"
                           ELSE Derivation(G, w, start, evs, i + 1, pos + 1, Append(st, <<e.s, e.id>>))
         ELSE LET k == Len(e.r) IN
              IF e.s \notin G.N \/ e.r \notin G.P[e.s] THEN "reduced by something that is not a rule"
              ELSE IF k > Len(st) \/ \E j \in 1..k : st[Len(st) - k + j][1] # e.r[j] THEN "reduced symbols that were not there"
              ELSE IF e.c # [ j \in 1..k |-> st[Len(st) - k + j][2] ] THEN "the items handed to a reduction are not the ones matched"
              ELSE Derivation(G, w, start, evs, i + 1, pos, Append(SubSeq(st, 1, Len(st) - k), <<e.s, e.id>>))
=============================================================================
