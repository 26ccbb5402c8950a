------------------------------- MODULE JLang -------------------------------
(***************************************************************************)
(* Judge for the parser of a language definition: the machine is that of   *)
(* the grammar the definition (with what it inherits) declares, and what   *)
(* lexer and parser together do with a text is what the declarations call  *)
(* for: tokens, weak symbols, ignored symbols, precedences, conflict       *)
(* attributes and guards.                                                  *)
(***************************************************************************)
EXTENDS JLr, Frontend
Def == INSTANCE Definition

\* the grammar in force
InForce(c, D) == [ s \in 1..Len(c.syms) |-> IF c.syms[s].k = "n" THEN [ k |-> "n", r |-> Def!RulesOf(D, s) ] ELSE c.syms[s] ]
SymOf(c, n) == IF n = <<>> THEN -50 ELSE CHOOSE s \in 1..Len(c.syms) : c.syms[s].k = "t" /\ c.names[s] = n
\* precedence tables: terminal -> <<level, associativity>>
PrecOf(c, items) ==
    LET names == UNION { items[i].names : i \in 1..Len(items) }
        lvl(n) == CHOOSE i \in 1..Len(items) : n \in items[i].names
    IN  [ t \in { SymOf(c, n) : n \in names } |-> LET i == lvl(c.names[t]) IN <<i, items[i].a>> ]
Resolved(c, D, G, LC, M, q, A) ==
    LET f(B, p) == Resolve(PrecOf(c, p), G.T, B)
        attrs == { <<a[1], a[2], a[3], a[4]>> : a \in Rng(c.attrs) }
    IN  Attributed(attrs, G, LC, M, q, Def!FoldLeft(f, A, D.prec))

\* what was done up to the last token read: a rejected token may have caused reductions or not
Shifted(ev) == LET I == { i \in 1..Len(ev) : ev[i].a = "s" } IN IF I = {} THEN <<>> ELSE SubSeq(ev, 1, CHOOSE i \in I : \A j \in I : j <= i)

Machine(c, D, W) ==
    LET M == W.M
        G == W.G
        attrs == { <<a[1], a[2], a[3], a[4]>> : a \in Rng(c.attrs) }
        acts == [ q \in DOMAIN M.ker |-> Resolved(c, D, G, W.LC, M, q, W.acts[q]) ]
        conf == UNION { { <<q, t>> : t \in Conflicts(acts[q]) } : q \in DOMAIN M.ker }
        used == { g \in GuardSyms(c.syms) : \E q \in DOMAIN M.ker : g \in DOMAIN M.tr[q] }
        at == [ g \in used |-> CHOOSE q \in DOMAIN M.ker : M.ker[q] = {<<g, BodyOf(c.syms, g), 0>>} ]
    IN  [ fault |-> "", c |-> c, D |-> D, W |-> W, M |-> M, acts |-> acts, conf |-> conf,
          K |-> [ at |-> at, ini |-> [ g \in used |-> Initial(c.syms, G, g, {}) ] ],
          ign |-> { SymOf(c, n) : n \in D.ign },
          open |-> conf # {} \/ \E q \in DOMAIN M.ker : Disagree(attrs, G, W.LC, M, q),
          settled |-> \E q \in DOMAIN M.ker : acts[q] # W.acts[q] ]

\* the machine of a definition, with everything that decides what it does; only its fault if it is not one
Front(c0) ==
    LET D == Def!Declared(c0.langs, c0.target)
        c == [ c0 EXCEPT !.syms = InForce(c0, D) ]
        W == Work(c)
    IN  IF c0.obs.stage # "run" THEN [ fault |-> "no parser: " \o c0.obs.stage ]
        ELSE IF W.shape # "ok" THEN [ fault |-> W.shape ]
        ELSE IF W.lr0[1] # "ok" THEN [ fault |-> "not the LR(0) automaton: " \o W.lr0[1] \o " of state " \o ToString(W.lr0[2]) ]
        ELSE Machine(c, D, W)

\* the tokens of a text
Tokens(X, text) ==
    LET T == Def!Lexed(X.D, text) IN
    [ j \in 1..Len(T) |-> [ t |-> SymOf(X.c, T[j].n), s |-> IF T[j].s = <<>> THEN 0 ELSE SymOf(X.c, T[j].s), o |-> T[j].o ] ]
\* the parser at start symbol k on a list of tokens
Parse(X, k, w) == RunE(X.M, X.acts, X.K, X.ign, w, 0, <<<<X.c.obs.init[k], 0>>>>, <<>>, 0, 60 + 40 * Len(w))
StopAt(w, s, text) == IF s.pos < Len(w) THEN w[s.pos + 1].o ELSE Len(text)

LangVerdict(c0) ==
    LET X == Front(c0)
        c == X.c
        W == X.W
        M == X.M
        S == c.obs.states
        badla == { <<q, it>> \in UNION { { <<q, it>> : it \in Rng(S[q + 1].items) } : q \in DOMAIN M.ker } : Rng(it.la) # W.LA[<<q, it.i>>] }
        want == [ i \in 1..Len(c.inputs) |-> Tokens(X, c.inputs[i]) ]
        wrong(r) ==
            LET w == want[r.i]
                s == Parse(X, r.k, w)
                stop == StopAt(w, s, c.inputs[r.i])
            IN
            IF s.res = "open" THEN "ok"
            ELSE IF r.res = 2 THEN "the parser does not stop"
            ELSE IF (s.res = "accept") # (r.res = 1) THEN (IF r.res = 1 THEN "wrongly accepted" ELSE "wrongly rejected")
            ELSE IF (IF r.res = 1 THEN s.ev ELSE Shifted(s.ev)) # (IF r.res = 1 THEN r.ev ELSE Shifted(r.ev)) THEN "parsed differently"
            ELSE IF r.res = 0 /\ r.at # stop THEN "error reported at the wrong place"
            ELSE "ok"
        bad == IF X.open THEN {} ELSE { r \in Rng(c.obs.runs) : wrong(r) # "ok" }
        errs == { e.code : e \in { x \in Rng(c0.obs.errs) : x.sev >= 4 } }
        mayfail == errs \subseteq {"CONFLICT_REDUCE_REDUCE", "INEFFECTIVE_GUARD", "RECURSIVE_GUARD"}
    IN  IF c0.obs.stage # "run" THEN (IF mayfail /\ errs # {} THEN "ok" ELSE "no parser: " \o c.obs.stage \o " " \o ToString(errs))
        ELSE IF X.fault # "" THEN X.fault
        ELSE IF badla # {} THEN LET x == CHOOSE y \in badla : TRUE IN "lookahead of " \o ToString(x[2].i) \o " in state " \o ToString(x[1])
        ELSE IF bad # {} THEN LET r == CHOOSE x \in bad : \A y \in bad : Len(c.inputs[x.i]) <= Len(c.inputs[y.i]) IN wrong(r) \o " run " \o ToString(r.k) \o " " \o ToString(r.i)
        ELSE "ok"
=============================================================================
