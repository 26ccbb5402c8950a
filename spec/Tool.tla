-------------------------------- MODULE Tool --------------------------------
(* The command line tool (parsetool/main.cpp with boost_console): what it does with a definition
   file under its options, stage by stage.  A run is a record r; Step takes it one stage further.

   A file f: present, ok (it can be read), langs (name, kind), imports (those of the file it
   imports), missing (it imports a file that is not there), parsers (name, lang, starts), tests
   (lang, start, text, want).  A language's kind stands for its grammar (see lib/tool.py); what is
   needed of each kind is written down below.

   Options o: dir (where the file is), L, C, N, T, out ("" if not given), S (list), test, runtests, noconf, allow, lr1,
   quiet, silent, verbose, show, bad (an option that does not exist), text (standard input). *)
EXTENDS Integers, Sequences, FiniteSets

\* ------------------------------------------------------------------ the kinds of languages
Word(w, n) == Len(w) = n
Alternating(w, x, y) == Len(w) % 2 = 1 /\ \A i \in 1..Len(w) : w[i] = (IF i % 2 = 1 THEN x ELSE y)
Nested(w) == Len(w) % 2 = 1 /\ LET h == Len(w) \div 2 IN \A i \in 1..Len(w) : w[i] = (IF i <= h THEN "a" ELSE IF i = h + 1 THEN "c" ELSE "b")
\* the texts that start symbol s stands for
Sentence(kind, s, w) ==
    IF s = "<S>" THEN
        CASE kind \in {"plain", "unused"} -> Nested(w)
          [] kind \in {"sr", "both"} -> Alternating(w, "c", "a")
          [] kind = "rr" -> w = <<"c">>
          [] kind = "lr1" -> Len(w) = 3 /\ w[1] \in {"a", "b"} /\ w[2] = "c" /\ w[3] \in {"d", "e"}
    ELSE CASE kind \in {"plain", "unused", "lr1"} -> w = <<"c">>
           [] kind \in {"sr", "both"} -> w = <<"c", "b">>
           [] kind = "rr" -> w = <<"c", "a", "b">>
\* the sentences of up to n + 1 words on either side of the middle one
Repeat(w, n) == [ i \in 1..(Len(w) * n) |-> w[((i - 1) % Len(w)) + 1] ]
Sentences(kind, s, n) ==
    IF s = "<S>" THEN
        CASE kind \in {"plain", "unused"} -> { Repeat(<<"a">>, i) \o <<"c">> \o Repeat(<<"b">>, i) : i \in 0..n }
          [] kind \in {"sr", "both"} -> { Repeat(<<"c", "a">>, i) \o <<"c">> : i \in 0..n }
          [] kind = "rr" -> {<<"c">>}
          [] kind = "lr1" -> { <<x, "c", y>> : x \in {"a", "b"}, y \in {"d", "e"} }
    ELSE CASE kind \in {"plain", "unused", "lr1"} -> {<<"c">>}
           [] kind \in {"sr", "both"} -> {<<"c", "b">>}
           [] kind = "rr" -> {<<"c", "a", "b">>}
\* the first word of w that no sentence has there after the words before it (or the end)
Stuck(kind, s, w) ==
    LET viable(k) == \E x \in Sentences(kind, s, Len(w) + 1) : Len(x) >= k /\ SubSeq(x, 1, k) = SubSeq(w, 1, k)
        bad == { k \in 1..Len(w) : ~viable(k) }
    IN  IF bad = {} THEN Len(w) + 1 ELSE CHOOSE k \in bad : \A j \in bad : k <= j
Broken(kind) == kind = "undef"
\* its conflicts (as long as <S> is one of the start symbols)
ShiftReduce(kind) == kind \in {"sr", "both"}
ReduceReduce(kind, lr1) == kind \in {"rr", "both"} \/ (kind = "lr1" /\ ~lr1)

\* ------------------------------------------------------------------ reporting
Sev == [message |-> 0, info |-> 1, detail |-> 2, warning |-> 3, error |-> 4, fatal |-> 5, bug |-> 6]
\* whether a message is shown, and whether that is on the error stream
Report(r, o, sev, code, file) ==
    IF sev <= Sev.warning /\ sev # Sev.detail /\ o.quiet THEN r
    ELSE LET e == IF sev >= Sev.error THEN sev ELSE r.exit
         IN  IF sev < Sev.detail /\ ~o.verbose THEN [r EXCEPT !.exit = e]
             ELSE [r EXCEPT !.exit = e, !.msgs = @ \cup {<<sev, code, file>>}]
RECURSIVE ReportAll(_, _, _)
ReportAll(r, o, S) == IF S = {} THEN r ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1] IN ReportAll(Report(r, o, x[1], x[2], x[3]), o, S \ {x})
Root(o) == o.dir \o "g.tp"
Done(r) == [r EXCEPT !.stage = "done"]
Goto(r, s) == [r EXCEPT !.stage = s]
\* the tool goes on as long as nothing severe was reported
Unless(r, s) == IF r.exit # 0 THEN Done(r) ELSE Goto(r, s)
Fail(r, o, code) == Done(Report(r, o, Sev.error, code, Root(o)))

\* ------------------------------------------------------------------ the stages
Elems(s) == { s[i] : i \in 1..Len(s) }
AllLangs(f) == f.langs \o f.imports
Names(f) == { AllLangs(f)[i].name : i \in 1..Len(AllLangs(f)) }
Kind(f, n) == (CHOOSE l \in Elems(AllLangs(f)) : l.name = n).kind
File(o, f, n) == IF \E l \in Elems(f.langs) : l.name = n THEN Root(o) ELSE "m.tp"

Start(o) ==
    LET r0 == [stage |-> "read", exit |-> 0, msgs |-> {}, lang |-> "", starts |-> <<>>, class |-> "", files |-> {}, shown |-> FALSE, tree |-> FALSE, banner |-> FALSE, usage |-> FALSE]
    IN  IF o.bad THEN [r0 EXCEPT !.stage = "done", !.exit = 1, !.usage = TRUE] ELSE [r0 EXCEPT !.banner = ~o.silent]

Read(r, o, f) ==
    Unless(IF ~f.present THEN Report(r, o, Sev.fatal, "CANT_OPEN_FILE", Root(o))
           ELSE IF ~f.ok THEN Report(r, o, Sev.error, "SYNTAX_END_OF_FILE", Root(o))
           ELSE r, "import")

Import(r, o, f) ==
    LET a == IF f.missing THEN Report(r, o, Sev.fatal, "CANT_OPEN_FILE", "none.tp") ELSE r
        again == { i \in 1..Len(AllLangs(f)) : \E j \in 1..(i - 1) : AllLangs(f)[j].name = AllLangs(f)[i].name }
        b == ReportAll(a, o, { <<Sev.error, "AMBIGUOUS_LANGUAGE_DEFINITION", IF i <= Len(f.langs) THEN Root(o) ELSE "m.tp">> : i \in again })
    IN  Unless(b, "test")

Passes(f, t) == Sentence(Kind(f, t.lang), t.start, t.text) = t.want
Messages(o, f, t) ==
    (IF Kind(f, t.lang) = "unused" THEN {<<Sev.warning, "UNUSED_TERMINAL_SYMBOL", File(o, f, t.lang)>>} ELSE {})
    \cup (IF ShiftReduce(Kind(f, t.lang)) /\ t.start = "<S>" THEN {<<IF o.noconf THEN Sev.error ELSE Sev.warning, "CONFLICT_SHIFT_REDUCE", File(o, f, t.lang)>>} ELSE {})
Tests(r, o, f) ==
    IF ~o.runtests THEN Goto(r, "build")
    ELSE LET bad == \E i \in 1..Len(f.tests) : ~Passes(f, f.tests[i])
             msgs == UNION { Messages(o, f, f.tests[i]) : i \in 1..Len(f.tests) }
                     \cup (IF f.tests = <<>> THEN {<<Sev.error, "NO_TEST_BLOCKS", Root(o)>>} ELSE {})
                     \cup (IF bad THEN {<<Sev.error, "THIS_TEST_FAILED", Root(o)>>, <<Sev.error, "TESTS_FAILED", Root(o)>>} ELSE {})
             a == ReportAll(r, o, msgs)
         IN  IF a.exit # 0 THEN Done(a)
             \* nothing else was asked for
             ELSE IF o.out = "" /\ o.S = <<>> /\ o.T = "" /\ ~o.test /\ ~o.show THEN Done(a)
             ELSE Goto(a, "build")

\* every language is built, not only the one that is asked for
Build(r, o, f) ==
    Unless(IF AllLangs(f) = <<>> THEN Report(r, o, Sev.error, "NO_LANGUAGES_DEFINED", Root(o))
           ELSE ReportAll(r, o, { <<Sev.error, "UNDEFINED_NONTERMINAL", File(o, f, n)>> : n \in { x \in Names(f) : Broken(Kind(f, x)) } }), "choose")

\* what to compile: the options, or the parser block if there is just one and the options say nothing
Choose(r, o, f) ==
    LET many == Len(f.parsers) > 1
        a == IF many THEN Report(r, o, Sev.info, "MULTIPLE_PARSER_BLOCKS", Root(o)) ELSE r
        block == o.L = "" /\ o.S = <<>> /\ Len(f.parsers) = 1
        lang0 == IF block THEN f.parsers[1].lang ELSE o.L
        starts == IF block THEN f.parsers[1].starts ELSE o.S
        class0 == IF o.C # "" THEN o.C ELSE IF block THEN f.parsers[1].name ELSE ""
        guess == lang0 = "" /\ Len(f.langs) = 1
        lang == IF guess THEN f.langs[1].name ELSE lang0
        b == IF guess THEN Report(a, o, Sev.info, "INFERRED_LANGUAGE", Root(o)) ELSE a
        class == IF class0 = "" THEN lang ELSE class0
    IN  IF lang = "" THEN Fail(b, o, "NO_LANGUAGE_SPECIFIED")
        ELSE IF lang \notin Names(f) THEN Fail(b, o, "MISSING_TARGET_LANGUAGE")
        ELSE LET c == IF Kind(f, lang) = "unused" THEN Report(b, o, Sev.warning, "UNUSED_TERMINAL_SYMBOL", File(o, f, lang)) ELSE b
             IN  IF starts = <<>> THEN Fail(c, o, "NO_START_SYMBOLS")
                 ELSE Goto([c EXCEPT !.lang = lang, !.starts = starts, !.class = class], "parser")

\* the parser: undefined start symbols, then conflicts
Parser(r, o, f) ==
    LET fl == File(o, f, r.lang)
        k == Kind(f, r.lang)
        S == Elems(r.starts)
        undef == IF "<N>" \in S THEN {<<Sev.error, "UNDEFINED_NONTERMINAL", fl>>} ELSE {}
        none == IF S = {"<N>"} THEN {<<Sev.error, "NO_START_SYMBOLS", fl>>} ELSE {}
        sr == IF "<S>" \in S /\ ShiftReduce(k) THEN {<<IF o.noconf THEN Sev.error ELSE Sev.warning, "CONFLICT_SHIFT_REDUCE", fl>>} ELSE {}
        rr == IF "<S>" \in S /\ ReduceReduce(k, o.lr1) THEN {<<IF o.allow /\ ~o.noconf THEN Sev.warning ELSE Sev.error, "CONFLICT_REDUCE_REDUCE", fl>>} ELSE {}
        a == ReportAll(r, o, undef \cup none \cup sr \cup rr)
    IN  Unless([a EXCEPT !.shown = o.show], "output")

Target(o) == IF o.test THEN "test" ELSE IF o.T = "" THEN "cplusplus" ELSE o.T
Prefix(o) == IF o.out = "" THEN Root(o) ELSE o.out
\* LALR tables of an LR(1) grammar that is used in spite of its conflicts may or may not accept
Undecided(r, o, f) == Target(o) \in {"test", "test-trace"} /\ Kind(f, r.lang) = "lr1" /\ ~o.lr1 /\ "<S>" \in Elems(r.starts)
Output(r, o, f) ==
    CASE Target(o) \in {"test", "test-trace"} ->
            IF Sentence(Kind(f, r.lang), r.starts[1], o.text) THEN Done([r EXCEPT !.tree = o.verbose])
            ELSE Done(Report(r, o, Sev.error, "TEST_PARSER_ERROR", "stdin"))
      [] Target(o) = "cplusplus" ->
            IF o.out = "nodir/x" THEN Done(ReportAll(r, o, {<<Sev.fatal, "CANT_OPEN_OUTPUT_FILE", "nodir/x.cpp">>, <<Sev.fatal, "CANT_OPEN_OUTPUT_FILE", "nodir/x.h">>}))
            ELSE IF o.out = "full" THEN Done(Report([r EXCEPT !.files = {"full.h"}], o, Sev.fatal, "CANT_WRITE_OUTPUT_FILE", "full.cpp"))
            ELSE Done([r EXCEPT !.files = {Prefix(o) \o ".cpp", Prefix(o) \o ".h"}])
      [] OTHER -> Fail(r, o, "UNKNOWN_OUTPUT_LANGUAGE_TYPE")

Step(r, o, f) ==
    CASE r.stage = "read" -> Read(r, o, f)
      [] r.stage = "import" -> Import(r, o, f)
      [] r.stage = "test" -> Tests(r, o, f)
      [] r.stage = "build" -> Build(r, o, f)
      [] r.stage = "choose" -> Choose(r, o, f)
      [] r.stage = "parser" -> Parser(r, o, f)
      [] r.stage = "output" -> Output(r, o, f)
RECURSIVE Finish(_, _, _)
Finish(r, o, f) == IF r.stage = "done" THEN r ELSE Finish(Step(r, o, f), o, f)
=============================================================================
