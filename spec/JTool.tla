------------------------------- MODULE JTool -------------------------------
(* Judges runs of the real tool: exit code, messages, files and output must be those of Tool. *)
EXTENDS Tool, Judge
RECURSIVE BeforeOutput(_, _, _)
BeforeOutput(r, o, f) == IF r.stage \in {"done", "output"} THEN r ELSE BeforeOutput(Step(r, o, f), o, f)
\* where a message may point: to a place in its file that calls for it, or (0, 0) for none
Places(c, r, m) ==
    LET l == { x \in Elems(AllLangs(c.f)) : File(c.o, c.f, x.name) = m[3] }
        marked == UNION { { <<x.marks[i][2], x.marks[i][3]>> : i \in { j \in 1..Len(x.marks) : x.marks[j][1] = m[2] } } : x \in l }
    IN  CASE m[2] \in {"UNUSED_TERMINAL_SYMBOL", "CONFLICT_SHIFT_REDUCE", "CONFLICT_REDUCE_REDUCE"} -> marked
          [] m[2] = "UNDEFINED_NONTERMINAL" -> IF r.lang = "" THEN marked ELSE {<<0, 0>>}
          [] m[2] = "TEST_PARSER_ERROR" -> LET k == Stuck(Kind(c.f, r.lang), r.starts[1], c.o.text) IN {IF k > Len(c.o.text) THEN <<0, 0>> ELSE <<1, 2 * k - 1>>}
          [] m[2] \in {"CANT_OPEN_FILE", "SYNTAX_END_OF_FILE", "NO_LANGUAGES_DEFINED", "NO_LANGUAGE_SPECIFIED", "MISSING_TARGET_LANGUAGE", "NO_START_SYMBOLS", "INFERRED_LANGUAGE",
                       "UNKNOWN_OUTPUT_LANGUAGE_TYPE", "CANT_OPEN_OUTPUT_FILE", "CANT_WRITE_OUTPUT_FILE", "NO_TEST_BLOCKS"} -> {<<0, 0>>}
          [] OTHER -> {}
Misplaced(c, r, g) == { i \in 1..Len(g.msgs) : g.msgs[i].sev # Sev.detail /\ LET P == Places(c, r, <<0, g.msgs[i].code, g.msgs[i].file>>) IN P # {} /\ <<g.msgs[i].line, g.msgs[i].col>> \notin P }
ToolVerdict(c) ==
    LET b == BeforeOutput(Start(c.o), c.o, c.f)
        r == Finish(b, c.o, c.f)
        g == c.obs
        msgs == { <<g.msgs[i].sev, g.msgs[i].code, g.msgs[i].file>> : i \in 1..Len(g.msgs) }
        errs(M) == { m \in M : m[1] # Sev.detail }
        odd == b.stage = "output" /\ Undecided(b, c.o, c.f)
    IN  IF g.exit < 0 THEN "crash"
        ELSE IF r.usage THEN (IF g.exit = r.exit /\ g.usage /\ g.files = <<>> THEN "ok" ELSE "a mistake in the options")
        ELSE IF odd THEN (IF g.exit \in {0, 4} THEN "ok" ELSE "the exit code")
        ELSE IF g.exit # r.exit THEN "exit code " \o ToString(g.exit) \o " instead of " \o ToString(r.exit)
        ELSE IF errs(msgs) # r.msgs THEN "reported " \o ToString(errs(msgs)) \o " instead of " \o ToString(r.msgs)
        ELSE IF Misplaced(c, r, g) # {} THEN "misplaced: " \o ToString(g.msgs[CHOOSE i \in Misplaced(c, r, g) : TRUE])
        ELSE IF g.other # 0 /\ Target(c.o) # "test-trace" THEN "unexpected messages"
        ELSE IF Elems(g.files) # r.files THEN "files " \o ToString(g.files) \o " instead of " \o ToString(r.files)
        ELSE IF g.banner # r.banner THEN "the banner"
        ELSE IF g.shown # r.shown THEN "the parser is shown"
        ELSE IF g.tree # r.tree /\ ~(Target(c.o) = "test-trace" /\ r.exit # 0) THEN "the tree"
        ELSE IF r.files # {} /\ (~g.whole \/ g.class # "yy_" \o r.class \/ g.space # (IF c.o.N = "" THEN "" ELSE "yy_" \o c.o.N)) THEN "what is generated: " \o ToString(<<g.whole, g.class, g.space>>) \o " for " \o r.class
        ELSE "ok"
=============================================================================
