------------------------------- MODULE JTest -------------------------------
(***************************************************************************)
(* Judge for test blocks: which tests are run, what each reports, the      *)
(* totals, and where failures are reported. Whether a text is a sentence   *)
(* is decided by the machine of the definition (JLang).                    *)
(***************************************************************************)
EXTENDS JLang

Digit(n) == <<48 + n>>
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN Digit(n) ELSE Num(n \div 10) \o Digit(n % 10)

\* <<offset, line, column>> of a place in a text that begins at p
Within(p, text, off) ==
    LET nl == { i \in 1..off : text[i] = 10 } IN
    IF nl = {} THEN <<p[1] + off, p[2], p[3] + off>>
    ELSE <<p[1] + off, p[2] + Cardinality(nl), off - (CHOOSE i \in nl : \A j \in nl : j <= i)>>
NoPos == <<-1, -1, -1>>

(* what a test comes to: "none" there is no such nonterminal, "nofile", "open", else whether it passes; at: where the parser stopped, -1 at the end *)
Outcome(X, t) ==
    IF t.k = 0 THEN [ r |-> "none", at |-> -1 ]
    ELSE IF t.ty = 2 /\ ~t.x THEN [ r |-> "nofile", at |-> -1 ]
    ELSE LET text == X.c.inputs[t.i]
             w == Tokens(X, text)
             s == Parse(X, t.k, w)
         IN  IF s.res = "open" THEN [ r |-> "open", at |-> -1 ]
             ELSE [ r |-> IF (s.res = "accept") # (t.ty = 1) THEN "pass" ELSE "fail", at |-> IF s.pos < Len(w) THEN w[s.pos + 1].o ELSE -1 ]

(* the diagnostics of one test: <<code, file, position>>; a position <<>> is not said *)
Root == <<114, 111, 111, 116, 46, 116, 112>>
Reported(X, t, o) ==
    IF o.r = "nofile" THEN <<<<"TEST_FILE_NOT_FOUND", t.file, NoPos>>>>
    ELSE IF o.r # "fail" THEN <<>>
    ELSE IF t.ty = 2 THEN <<<<"TEST_SYNTAX_ERROR", t.file, IF o.at < 0 THEN NoPos ELSE Within(<<0, 0, 0>>, X.c.inputs[t.i], o.at)>>>>
    ELSE IF t.ty = 1 THEN <<<<"THIS_TEST_FAILED", Root, t.str>>>>
    ELSE <<<<"THIS_TEST_FAILED", Root, t.str>>,
           <<"FAILURE_POSITION", Root, IF o.at < 0 THEN t.end ELSE IF t.esc THEN <<>> ELSE Within(t.str, X.c.inputs[t.i], o.at)>>>>

(* --- the run as a fold over the blocks and their tests --- *)
Empty == [ res |-> <<>>, errs |-> <<>>, seen |-> <<>>, p |-> 0, n |-> 0 ]
Times(s, b) == Cardinality({ i \in 1..Len(s) : s[i] = b })
Step(X, lang, R, t) ==
    LET o == Outcome(X, t)
        runs == o.r \in {"pass", "fail", "open"}
        nm == lang \o <<46>> \o t.base \o <<46>> \o Num(Times(R.seen, t.base) + 1)
    IN  [ res |-> IF runs THEN Append(R.res, <<nm, o.r>>) ELSE R.res,
          errs |-> R.errs \o Reported(X, t, o),
          seen |-> IF runs THEN Append(R.seen, t.base) ELSE R.seen,
          p |-> R.p + (IF o.r = "pass" THEN 1 ELSE 0), n |-> R.n + (IF runs THEN 1 ELSE 0) ]
RECURSIVE Steps(_, _, _, _, _)
Steps(X, lang, tests, i, R) == IF i > Len(tests) THEN R ELSE Steps(X, lang, tests, i + 1, Step(X, lang, R, tests[i]))
BlockRun(X, b) ==
    LET R == Steps(X, b.lang, b.tests, 1, Empty) IN
    [ R EXCEPT !.errs = R.errs \o (IF R.n = 0 THEN <<<<"NO_TESTS_TO_RUN", Root, b.pos>>>> ELSE <<>>)
                              \o (IF R.n > R.p THEN <<<<"TESTS_FAILED", Root, b.pos>>>> ELSE <<>>) ]

Codes == {"TEST_FILE_NOT_FOUND", "THIS_TEST_FAILED", "FAILURE_POSITION", "TEST_SYNTAX_ERROR", "TESTS_FAILED", "NO_TESTS_TO_RUN", "CANT_FIND_LANGUAGE", "NO_TEST_BLOCKS"}
Same(want, got) == want[1] = got[1] /\ want[2] = got[2] /\ (want[3] = <<>> \/ want[3] = got[3])

TestVerdict(c0) ==
    LET built == c0.obs.stage = "run"
        X == Front(c0)
        c == c0
        known(b) == b.lang \in { c.langs[i].name : i \in 1..Len(c.langs) }
        judged(b) == b.lang = c.target
        t == c.obs.t
        kn == SelectSeq(c.blocks, known)
        runs == [ j \in 1..Len(kn) |-> IF judged(kn[j]) THEN BlockRun(X, kn[j]) ELSE Empty ]
        open == X.open \/ (X.settled /\ Len(c.start) > 1) \/ \E j \in DOMAIN runs : \E i \in DOMAIN runs[j].res : runs[j].res[i][2] = "open"
        got == SelectSeq([ i \in 1..Len(t.errs) |-> <<t.errs[i].code, t.errs[i].file, <<t.errs[i].off, t.errs[i].line, t.errs[i].col>>>> ], LAMBDA e : e[1] \in Codes)
        RECURSIVE want(_, _)
        want(i, j) == IF i > Len(c.blocks) THEN <<>>
                      ELSE IF known(c.blocks[i]) THEN runs[j].errs \o want(i + 1, j + 1)
                      ELSE <<<<"CANT_FIND_LANGUAGE", Root, c.blocks[i].pos>>>> \o want(i + 1, j)
        W == want(1, 1) \o (IF c.blocks = <<>> THEN <<<<"NO_TEST_BLOCKS", Root, NoPos>>>> ELSE <<>>)
        wrongblock(j) ==
            LET b == t.blocks[j]
                R == runs[j]
            IN  IF b.lang # kn[j].lang THEN "the wrong language"
                ELSE IF ~judged(kn[j]) THEN "ok"
                ELSE IF Len(b.res) # R.n \/ \E i \in 1..R.n : b.res[i].name # R.res[i][1] THEN "the wrong tests"
                ELSE IF \E i \in 1..R.n : b.res[i].ok # (R.res[i][2] = "pass") THEN "the wrong result"
                ELSE IF b.p # R.p \/ b.n # R.n THEN "the wrong totals"
                ELSE "ok"
        bad == { j \in 1..Len(kn) : wrongblock(j) # "ok" }
        others == \E j \in 1..Len(kn) : ~judged(kn[j])
        fails == W # <<>> /\ \E i \in 1..Len(W) : W[i][1] \notin {"FAILURE_POSITION", "NO_TESTS_TO_RUN", "TEST_SYNTAX_ERROR"}
        missing == \E j \in 1..Len(kn) : \E i \in 1..Len(kn[j].tests) : kn[j].tests[i].k = 0
        severe == \E i \in 1..Len(t.errs) : t.errs[i].sev >= 4
    IN  IF ~built \/ X.fault # "" THEN "ok"
        ELSE IF open THEN "ok"
        ELSE IF Len(t.blocks) # Len(kn) THEN "a block of tests was not run"
        ELSE IF bad # {} THEN LET j == CHOOSE x \in bad : TRUE IN wrongblock(j) \o " in block " \o ToString(j)
        ELSE IF t.rest # 0 THEN "tests outside a block"
        ELSE IF (t.code # 0) # severe THEN "the exit code"
        ELSE IF others THEN "ok"
        ELSE IF Len(got) # Len(W) \/ \E i \in 1..Len(W) : ~Same(W[i], got[i]) THEN "reported " \o ToString(got) \o " instead of " \o ToString(W)
        ELSE IF (fails \/ missing) /\ ~severe THEN "nothing wrong is reported"
        ELSE "ok"
=============================================================================
