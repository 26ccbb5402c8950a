------------------------------- MODULE JGuard ------------------------------
(***************************************************************************)
(* Judge for grammars with guards: the machine with its guard states and   *)
(* guard actions, the conflicts, and what the parser does.                 *)
(***************************************************************************)
EXTENDS JLr, Guards

GuardVerdict(c) ==
    LET W == Work(c)
        M == W.M
        G == W.G
        S == c.obs.states
        used == { g \in GuardSyms(c.syms) : \E q \in DOMAIN M.ker : g \in DOMAIN M.tr[q] }
        startOf(g) == { q \in DOMAIN M.ker : M.ker[q] = {<<g, BodyOf(c.syms, g), 0>>} }
        nostart == { g \in GuardSyms(c.syms) : Cardinality(startOf(g)) # (IF g \in used THEN 1 ELSE 0) }
        at == [ g \in used |-> CHOOSE q \in startOf(g) : TRUE ]
        K == [ at |-> at, ini |-> [ g \in used |-> Initial(c.syms, G, g, {}) ] ]
        badla == { <<q, it>> \in UNION { { <<q, it>> : it \in Rng(S[q + 1].items) } : q \in DOMAIN M.ker } : Rng(it.la) # W.LA[<<q, it.i>>] }
        badact == { q \in DOMAIN M.ker : Rng(S[q + 1].acts) # W.acts[q] \cup GuardActs(c.syms, G, at, W.acts[q]) }
        conf == UNION { { <<q, t>> : t \in Conflicts(W.acts[q]) } : q \in DOMAIN M.ker }
        said == { <<x.st, x.tok>> : x \in Rng(c.obs.conf) }
        spec(r) == RunG(M, W.acts, K, r.w, 0, <<<<c.obs.init[r.k], 0>>>>, <<>>, 0, 60 + 40 * Len(r.w))
        wrong(r) ==
            LET s == spec(r) IN
            IF s.res = "open" THEN "ok"
            ELSE IF r.res = 2 THEN "the parser does not stop"
            ELSE IF (s.res = "accept") # (r.res = 1) THEN (IF r.res = 1 THEN "wrongly accepted" ELSE "wrongly rejected")
            ELSE IF s.ev # r.ev THEN "parsed differently"
            ELSE "ok"
        bad == { r \in Rng(c.obs.runs) : wrong(r) # "ok" }
    IN  IF W.shape # "ok" THEN W.shape
        ELSE IF W.lr0[1] # "ok" THEN "not the LR(0) automaton: " \o W.lr0[1] \o " of state " \o ToString(W.lr0[2])
        ELSE IF nostart # {} THEN "guard " \o ToString(CHOOSE g \in nostart : TRUE) \o " has no start state of its own"
        ELSE IF badla # {} THEN LET x == CHOOSE y \in badla : TRUE IN "lookahead of " \o ToString(x[2].i) \o " in state " \o ToString(x[1]) \o " is "
                                     \o ToString(Rng(x[2].la)) \o ", expected " \o ToString(W.LA[<<x[1], x[2].i>>])
        ELSE IF badact # {} THEN LET q == CHOOSE x \in badact : TRUE IN "actions of state " \o ToString(q)
        ELSE IF said # conf THEN "conflicts reported " \o ToString(said) \o ", expected " \o ToString(conf)
        ELSE IF bad # {} THEN LET r == CHOOSE x \in bad : TRUE IN wrong(r) \o " " \o ToString(r.w)
        ELSE "ok"
=============================================================================
