-------------------------------- MODULE JGen --------------------------------
(***************************************************************************)
(* Judge for generated parsers: the C++ written for a language definition  *)
(* is compiled and run.  Its lexer delivers the tokens of the language,    *)
(* its parser accepts and stops where the parser in memory does, and the   *)
(* tree it builds is the tree of the derivation: one node per symbol, a    *)
(* named field per item (guards have none), lists for repetitions, and     *)
(* positions that run from the first to the last item.                     *)
(***************************************************************************)
EXTENDS Judge, FiniteSets

Elems(s) == { s[i] : i \in 1..Len(s) }

(* --- what the fields of a rule are called --- *)
\* the name given to item j of a rule, or the one its symbol has
BaseOf(c, h, r, j) ==
    LET A == { a \in Elems(c.fn) : a.live /\ a.h = h /\ a.r = r /\ a.j = j - 1 } IN
    IF A = {} THEN c.inames[r[j]] ELSE CHOOSE a \in A : TRUE
RECURSIVE Named(_, _, _, _, _)
Named(c, h, r, j, used) ==
    IF j > Len(r) THEN <<>>
    ELSE LET b == BaseOf(c, h, r, j)
             n == CHOOSE x \in 1..8 : b.ids[x] \notin used /\ \A y \in 1..(x - 1) : b.ids[y] \in used
         IN  <<b.ids[n]>> \o Named(c, h, r, j + 1, used \cup {b.ids[n]})
\* names that stand for different symbols in the rules of h (also replaced ones): which of them gets a number is left open
Clashing(c, h, rules) ==
    LET U == UNION { { <<BaseOf(c, h, r, j).ids[x], r[j]>> : j \in 1..Len(r), x \in 1..3 } : r \in rules }
             \cup { <<a.ids[x], a.r[a.j + 1]>> : a \in { y \in Elems(c.fn) : y.h = h }, x \in 1..3 }
    IN  { u[1] : u \in { v \in U : \E w \in U : w[1] = v[1] /\ w[2] # v[2] } }

(* --- the tree --- *)
LastOf(s) == s[Len(s)]
IsList(c, s) == s > 0 /\ c.syms[s].k \in {"rep", "star"}
\* the rounds of a repetition: the events that added them, oldest first
RECURSIVE Rounds(_, _)
Rounds(ev, i) ==
    LET e == ev[i]
        again == e.r # <<>> /\ e.r[1] = e.s
    IN  IF e.r = <<>> THEN <<>> ELSE (IF again THEN Rounds(ev, e.c[1]) ELSE <<>>) \o <<i>>
RECURSIVE StartOf(_, _)
StartOf(ev, i) == IF ev[i].r # <<>> /\ ev[i].r[1] = ev[i].s THEN StartOf(ev, ev[i].c[1]) ELSE ev[i]

RECURSIVE Same(_, _, _, _, _)
\* the fields of node for items k.. of the rule of event e
SameFields(c, ev, toks, e, k, node) ==
    LET J == { j \in k..Len(e.r) : IF e.r[j] > 0 THEN c.syms[e.r[j]].k # "grd" ELSE TRUE }
        clash == Clashing(c, e.s, { x.r : x \in { y \in Elems(ev) : y.a = "r" /\ y.s = e.s } } \cup Elems(c.allrules[e.s]))
        names == TLCEval(Named(c, e.s, e.r, 1, {}))
        open == { j \in J : BaseOf(c, e.s, e.r, j).ids[1] \in clash }
        known == { names[j] : j \in J \ open }
        F == 1..Len(node.f)
        is(n, j) == IF j \in open THEN node.f[n][1] \notin known /\ Same(c, ev, toks, e.c[j], node.f[n][2])
                    ELSE node.f[n][1] = names[j] /\ Same(c, ev, toks, e.c[j], node.f[n][2])
        match == TLCEval({ x \in F \X J : is(x[1], x[2]) })
        first == CHOOSE j \in J : \A x \in J : j <= x
        last == CHOOSE j \in J : \A x \in J : j >= x
    IN  /\ node.k = "n"
        /\ Len(node.f) = Cardinality(J)
        /\ { x[1] : x \in match } = F /\ { x[2] : x \in match } = J
        /\ IF J = {} THEN node.p = e.p /\ node.q = e.p
           ELSE /\ \E x \in match : x[2] = first /\ node.p = node.f[x[1]][2].p
                /\ \E x \in match : x[2] = last /\ node.q = node.f[x[1]][2].q
Same(c, ev, toks, i, node) ==
    LET e == ev[i] IN
    IF e.a = "s" THEN
        LET t == CHOOSE x \in Elems(toks) : x[2] = e.p IN
        node.k = "t" /\ node.p = e.p /\ node.n = t[3] /\ node.q = e.p + t[3]
    ELSE IF IsList(c, e.s) THEN
        LET R == Rounds(ev, i) IN
        /\ node.k = "l" /\ node.n = Len(R) /\ Len(node.f) = Len(R)
        /\ \A n \in 1..Len(R) :
              LET x == ev[R[n]] IN SameFields(c, ev, toks, x, IF x.r[1] = x.s THEN 2 ELSE 1, node.f[n][2])
        /\ IF R = <<>> THEN node.p = e.p /\ node.q = e.p
           ELSE node.p = node.f[1][2].p /\ node.q = node.f[Len(R)][2].q
    ELSE SameFields(c, ev, toks, e, 1, node)

GenVerdict(c) ==
    LET g == c.obs.gen
        \* symbols that were split off weak ones have no name; names that look the same in C++ are told apart in some way
        token(t, x) == /\ x[2] = t[2] /\ x[3] = t[3]
                       /\ IF t[1] < 1 THEN x[1] = ""
                          ELSE \/ x[1] = c.inames[t[1]].tok
                               \/ x[1] = "" /\ t[1] \in Elems(c.weak)
                               \/ \E s \in 1..Len(c.syms) : s # t[1] /\ c.syms[s].k = "t" /\ c.inames[s].tok = c.inames[t[1]].tok
        badtok == { i \in 1..Len(c.inputs) :
                      ~ (Len(g[i].toks) = Len(c.obs.toks[i]) /\ \A j \in 1..Len(g[i].toks) : token(c.obs.toks[i][j], g[i].toks[j])) }
        wrong(r) ==
            LET x == g[r.i].runs[r.k]
                root == CHOOSE i \in 1..Len(r.ev) : i = Len(r.ev)
            IN
            IF r.res = 2 THEN "ok"
            ELSE IF x.res = 2 THEN "the generated parser does not stop"
            ELSE IF x.res # r.res THEN (IF x.res = 1 THEN "accepted by the generated parser only" ELSE "rejected by the generated parser only")
            ELSE IF x.at # r.at THEN "the generated parser stops elsewhere"
            ELSE IF r.res = 1 /\ ~Same(c, r.ev, c.obs.toks[r.i], root, x.ast) THEN "not the tree of the derivation"
            ELSE "ok"
        bad == { r \in Elems(c.obs.runs) : wrong(r) # "ok" }
    IN  IF c.obs.stage # "run" THEN "ok"
        ELSE IF c.genfail # "" THEN c.genfail
        ELSE IF badtok # {} THEN "tokens of the generated lexer, input " \o ToString(CHOOSE i \in badtok : \A j \in badtok : i <= j)
        ELSE IF bad # {} THEN LET r == CHOOSE x \in bad : \A y \in bad : Len(c.inputs[x.i]) <= Len(c.inputs[y.i]) IN wrong(r) \o ", run " \o ToString(r.k) \o " " \o ToString(r.i)
        ELSE "ok"
=============================================================================
