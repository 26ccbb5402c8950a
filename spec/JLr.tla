-------------------------------- MODULE JLr --------------------------------
(***************************************************************************)
(* Judge for the parser generator: machine, lookaheads, actions,           *)
(* conflicts and runs recorded from the real code.                         *)
(***************************************************************************)
EXTENDS Lr, Judge

MachineOf(c) ==
    LET S == c.obs.states
        Q == 0..(Len(S) - 1)
        ker == [ q \in Q |-> { it.i : it \in Rng(S[q + 1].items) } ]
        grd == { q \in Q : \E g \in 1..Len(c.syms) : c.syms[g].k = "grd" /\ ker[q] = {<<g, c.syms[g].r[1], 0>>} }
    IN  [ ker |-> ker,
          tr |-> [ q \in Q |-> [ x \in { t[1] : t \in Rng(S[q + 1].tr) } |-> (CHOOSE t \in Rng(S[q + 1].tr) : t[1] = x)[2] ] ],
          init |-> [ q \in Rng(c.obs.init) |-> EOI ] @@ [ q \in grd |-> EOG ] ]

\* shape of what was recorded: usable at all?
Shape(c, M) ==
    LET S == c.obs.states IN
    IF \E q \in DOMAIN S : Len(S[q].items) # Cardinality({ it.i : it \in Rng(S[q].items) }) THEN "an item appears twice in a state"
    ELSE IF \E q \in DOMAIN S : \E t \in Rng(S[q].tr) : t[2] \notin DOMAIN M.ker THEN "transition to nowhere"
    ELSE IF \E k \in DOMAIN c.start : M.ker[c.obs.init[k]] # {<<0, <<c.start[k]>>, 0>>} THEN "wrong initial state"
    ELSE IF ReachFix(M, DOMAIN M.init) # DOMAIN M.ker THEN "a state cannot be reached"
    ELSE "ok"

\* everything the verdicts share
Work(c) ==
    LET G == Flattened(c.syms)
        M == MachineOf(c)
        shape == Shape(c, M)
        lr0 == IF shape = "ok" THEN Lr0Wrong(G, M) ELSE <<shape, 0>>
        LA == Lookaheads(G, M)
        LC == LeftCorners(G)
    IN  [ G |-> G, M |-> M, shape |-> shape, lr0 |-> lr0, LA |-> LA, LC |-> LC,
          acts |-> [ q \in DOMAIN M.ker |-> Actions(G, M, LA, LC, q) ] ]

\* P08: the LALR(1) machine
MachineVerdict(c) ==
    LET W == Work(c)
        M == W.M
        S == c.obs.states
        badla == { <<q, it>> \in UNION { { <<q, it>> : it \in Rng(S[q + 1].items) } : q \in DOMAIN M.ker } : Rng(it.la) # W.LA[<<q, it.i>>] }
        badact == { q \in DOMAIN M.ker : Rng(S[q + 1].acts) # W.acts[q] }
    IN  IF W.shape # "ok" THEN W.shape
        ELSE IF W.lr0[1] # "ok" THEN "not the LR(0) automaton: " \o W.lr0[1] \o " of state " \o ToString(W.lr0[2])
        ELSE IF badla # {} THEN LET x == CHOOSE y \in badla : TRUE IN "lookahead of " \o ToString(x[2].i) \o " in state " \o ToString(x[1]) \o " is "
                                     \o ToString(Rng(x[2].la)) \o ", expected " \o ToString(W.LA[<<x[1], x[2].i>>])
        ELSE IF badact # {} THEN "actions of state " \o ToString(CHOOSE q \in badact : TRUE)
        ELSE "ok"

\* P09: what the parser does.  Judged against the language itself whenever no conflict was reported, and step by step
\* against the tables whenever the recorded automaton is one of the grammar's
ParseVerdict(c) ==
    LET W == Work(c)
        G == W.G
        tables == W.shape = "ok" /\ W.lr0[1] = "ok"
        free == c.obs.conf = <<>>
        spec(r) == Run(W.M, W.acts, r.w, 0, <<<<c.obs.init[r.k], 0>>>>, <<>>, 60 + 40 * Len(r.w))
        runwrong(r) ==
            LET s == spec(r)
                d == IF r.res = 1 THEN Derivation(G, r.w, c.start[r.k], r.ev, 1, 0, <<>>) ELSE "ok"
            IN  IF d # "ok" THEN d
                ELSE IF free /\ r.res = 2 THEN "the parser does not stop"
                ELSE IF free /\ Len(r.w) > c.maxlen /\ (r.res = 1) # Derives(G, c.start[r.k], r.w) THEN (IF r.res = 1 THEN "accepted, but not in the language" ELSE "rejected, but in the language")
                ELSE IF ~tables \/ s.res = "open" THEN "ok"
                ELSE IF r.res = 2 THEN "the parser does not stop"
                ELSE IF (s.res = "accept") # (r.res = 1) THEN (IF r.res = 1 THEN "accepted" ELSE "rejected") \o " against the tables"
                ELSE IF s.ev # r.ev THEN "different steps than the tables demand"
                ELSE IF r.res = 1 /\ r.top # s.st[Len(s.st)][2] THEN "the result is not the start symbol's item"
                ELSE "ok"
        badruns == { r \in Rng(c.obs.runs) : runwrong(r) # "ok" }
        L == Lang(G, c.maxlen)
        badlang == { k \in DOMAIN c.start : LET a == { x \in Rng(c.obs.acc[k]) : Len(x) <= c.maxlen } IN
                        \/ ~(a \subseteq L[c.start[k]])
                        \/ free /\ c.full /\ a # L[c.start[k]] }
    IN  IF badruns # {} THEN LET r == CHOOSE x \in badruns : TRUE IN runwrong(r) \o " on " \o ToString(r.w)
        ELSE IF badlang # {} THEN "language of start symbol " \o ToString(CHOOSE k \in badlang : TRUE) \o " is not accepted exactly"
        ELSE "ok"

\* with rewriters installed: if they leave no conflict, the language is accepted exactly, by derivations
LanguageVerdict(c) ==
    LET G == Flattened(c.syms)
        free == c.obs.conf = <<>>
        wrong(r) == LET d == IF r.res = 1 THEN Derivation(G, r.w, c.start[r.k], r.ev, 1, 0, <<>>) ELSE "ok"
                    IN  IF d # "ok" THEN d
                        ELSE IF free /\ r.res = 2 THEN "the parser does not stop"
                        ELSE IF free /\ Len(r.w) > c.maxlen /\ (r.res = 1) # Derives(G, c.start[r.k], r.w) THEN "wrong answer"
                        ELSE "ok"
        badruns == { r \in Rng(c.obs.runs) : wrong(r) # "ok" }
        L == Lang(G, c.maxlen)
        off(k) == LET a == { x \in Rng(c.obs.acc[k]) : Len(x) <= c.maxlen } IN
                     IF free /\ c.full THEN (a \ L[c.start[k]]) \cup (L[c.start[k]] \ a) ELSE a \ L[c.start[k]]
        badlang == { k \in DOMAIN c.start : off(k) # {} }
    IN  IF badruns # {} THEN LET r == CHOOSE x \in badruns : TRUE IN wrong(r) \o " on " \o ToString(r.w)
        ELSE IF badlang # {} THEN "language is not accepted exactly: " \o ToString(CHOOSE x \in off(CHOOSE k \in badlang : TRUE) : TRUE)
        ELSE "ok"

\* P10: conflicts
ConflictVerdict(c) ==
    LET W == Work(c)
        G == W.G
        M == W.M
        conf == UNION { { <<q, t>> : t \in Conflicts(W.acts[q]) } : q \in DOMAIN M.ker }
        said == { <<x.st, x.tok>> : x \in Rng(c.obs.conf) }
        items(q) == M.ker[q] \cup New(G, ClosureNTs(W.LC, M.ker[q]))
        shifts(q, t) == { i \in items(q) : After(i) = t }
        reds(q, t) == { <<a.h, a.r, Len(a.r)>> : a \in { b \in W.acts[q] : b.s = t /\ b.t \in {"reduce", "accept"} } }
        badconf == { x \in Rng(c.obs.conf) : ~(shifts(x.st, x.tok) \subseteq Rng(x.sh) /\ Rng(x.re) = reds(x.st, x.tok)) }
    IN  IF W.shape # "ok" \/ W.lr0[1] # "ok" THEN "ok"    \* P08's business
        ELSE IF said # conf THEN "conflicts reported " \o ToString(said) \o ", expected " \o ToString(conf)
        ELSE IF Cardinality(said) # Len(c.obs.conf) THEN "a conflict is reported twice"
        ELSE IF badconf # {} THEN "conflict described wrongly: " \o ToString(CHOOSE x \in badconf : TRUE)
        ELSE "ok"
=============================================================================
