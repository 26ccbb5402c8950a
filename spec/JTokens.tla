------------------------------ MODULE JTokens ------------------------------
(***************************************************************************)
(* Judge for the lexer of a language definition: the definition (and those *)
(* it inherits from) says which symbols there are and what they match; the *)
(* tokens the compiled lexer delivered have to be the ones it calls for.   *)
(***************************************************************************)
EXTENDS Definition, Judge

Elems(s) == { s[i] : i \in 1..Len(s) }
\* table entries that occur in the rules of a table entry, also within items and guards
RECURSIVE Within(_, _)
Within(syms, S) == LET S2 == S \cup UNION { UNION { Elems(r) : r \in Elems(syms[s].r) } : s \in { x \in S : syms[x].k # "n" } } IN IF S2 = S THEN S ELSE Within(syms, S2)
UsedNames(c, D) == { c.names[s] : s \in Within(c.syms, UNION { UNION { Elems(D.rules[i][2][j]) : j \in 1..Len(D.rules[i][2]) } : i \in 1..Len(D.rules) }) }

TokensVerdict(c) ==
    LET D == Declared(c.langs, c.target)
        used == UsedNames(c, D)
        dull(n) == n \in D.ign /\ n \notin used
        P == [ k \in 1..Len(D.items) |-> OfItem(D.items[k], D.exprs) ]
        name(o) == IF o[1] < 0 THEN <<>> ELSE c.names[o[1]]
        same(t, o) == /\ t.o = o[2] /\ t.l = o[3]
                      /\ \/ t.n = name(o)
                         \/ dull(t.n) /\ dull(name(o))
                         \/ t.n \in D.ign /\ t.ks \subseteq D.ign /\ (\E n \in t.ks : dull(n)) /\ name(o) \in D.ign
        wrong(i) == LET T == Tokens(D, P, c.inputs[i], 0) IN
                    IF Len(T) # Len(c.obs.toks[i]) THEN Len(T) + 1
                    ELSE LET B == { j \in 1..Len(T) : ~same(T[j], c.obs.toks[i][j]) } IN IF B = {} THEN 0 ELSE CHOOSE j \in B : \A x \in B : j <= x
        bad == { i \in 1..Len(c.inputs) : wrong(i) # 0 }
        errs == { e.code : e \in { x \in Elems(c.obs.errs) : x.sev >= 4 } }
    IN  IF c.obs.toks = <<>> THEN "no lexer: " \o c.obs.stage \o " " \o ToString(errs)
        ELSE IF bad # {} THEN LET i == CHOOSE x \in bad : TRUE IN "input " \o ToString(i) \o ": expected " \o ToString([ j \in 1..Len(Tokens(D, P, c.inputs[i], 0)) |-> LET t == Tokens(D, P, c.inputs[i], 0)[j] IN <<t.n, t.o, t.l>> ])
        ELSE "ok"
=============================================================================
