------------------------------- MODULE JParse ------------------------------
(***************************************************************************)
(* Judge for parsers with precedences, ignored symbols and weak symbols.   *)
(***************************************************************************)
EXTENDS JLr, Readers

PrecOf(c) == [ t \in { p[1] : p \in Rng(c.prec) } |-> LET p == CHOOSE x \in Rng(c.prec) : x[1] = t IN <<p[2], p[3]>> ]

Shifts(ev) == SelectSeq(ev, LAMBDA e : e.a # "r")

ParseXVerdict(c) ==
    LET W == Work(c)
        G == W.G
        P == PrecOf(c)
        acts == IF c.prec = <<>> THEN W.acts ELSE [ q \in DOMAIN W.acts |-> Resolve(P, G.T, W.acts[q]) ]
        weak == [ k \in UNION { Rng(x[2]) : x \in Rng(c.weak) } |-> (CHOOSE x \in Rng(c.weak) : k \in Rng(x[2]))[1] ]
        ign == Rng(c.ignored)
        left == UNION { { <<q, t>> : t \in Conflicts(acts[q]) \cap (G.T \cup {EOI}) } : q \in DOMAIN acts }
        said == { <<x.st, x.tok>> : x \in Rng(c.obs.conf) }
        spec(r) == RunX(W.M, acts, weak, ign, r.w, 0, <<<<c.obs.init[r.k], 0>>>>, <<>>, 60 + 40 * Len(r.w))
        wrong(r) ==
            LET s == spec(r) IN
            IF s.res = "open" THEN "ok"
            ELSE IF r.res = 2 THEN "the parser does not stop"
            ELSE IF (s.res = "accept") # (r.res = 1) THEN (IF r.res = 1 THEN "wrongly accepted" ELSE "wrongly rejected")
            ELSE IF r.res = 1 /\ s.ev # r.ev THEN "parsed differently"
            ELSE IF r.res = 0 /\ Shifts(s.ev) # Shifts(r.ev) THEN "rejected at the wrong token"
            ELSE IF r.res = 1 /\ c.ops # <<>> /\ ~Shaped(P, Build(Rng(c.ops), r.ev, 1, <<>>)[1]) THEN "operators are not grouped by precedence"
            ELSE "ok"
        bad == { r \in Rng(c.obs.runs) : wrong(r) # "ok" }
    IN  IF W.shape # "ok" \/ W.lr0[1] # "ok" THEN "ok"     \* P08's business
        ELSE IF c.prec # <<>> /\ said # left THEN "conflicts left " \o ToString(said) \o ", expected " \o ToString(left)
        ELSE IF bad # {} THEN LET r == CHOOSE x \in bad : TRUE IN wrong(r) \o " " \o ToString(r.w)
        ELSE "ok"
=============================================================================
