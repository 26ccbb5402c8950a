------------------------------- MODULE ToolMC -------------------------------
(* TLC takes the tool through every combination of a few files and options. *)
EXTENDS Tool, TLC
CONSTANTS Kinds, Outs, Starts, Ls, Targets, Texts
SmallStarts == {<<>>, <<"<S>">>}
OneText == {<<"c">>}
TwoTexts == {<<"c">>, <<"a">>}
AllStarts == {<<>>, <<"<S>">>, <<"<T>">>, <<"<N>">>, <<"<T>", "<S>">>, <<"<S>", "<N>">>}
\* the two ways of saying what the sentences are agree
Alphabet == {"a", "b", "c", "d", "e", "%"}
ASSUME \A k \in {"plain", "sr", "rr", "both", "lr1", "unused"}, s \in {"<S>", "<T>"}, n \in 0..4 : \A w \in [1..n -> Alphabet] : Sentence(k, s, w) = (w \in Sentences(k, s, n))
VARIABLES r, o, f
vars == <<r, o, f>>

L1(k) == <<[name |-> "A", kind |-> k]>>
L2(k, m) == L1(k) \o <<[name |-> "B", kind |-> m]>>
P(l, s) == <<[name |-> "P", lang |-> l, starts |-> s]>>
Base(k) == [present |-> TRUE, ok |-> TRUE, langs |-> L1(k), imports |-> <<>>, missing |-> FALSE, parsers |-> <<>>, tests |-> <<>>]
T(n, w) == <<[lang |-> n, start |-> "<S>", text |-> <<"c">>, want |-> w]>>
Files ==
    UNION { {Base(k), [Base(k) EXCEPT !.parsers = P("A", <<"<S>">>)], [Base(k) EXCEPT !.parsers = P("A", <<"<T>">>)],
             [Base(k) EXCEPT !.parsers = P("M", <<"<S>">>)], [Base(k) EXCEPT !.imports = <<[name |-> "M", kind |-> "sr"]>>, !.parsers = P("M", <<"<S>">>)],
             [Base(k) EXCEPT !.langs = L2(k, "rr")], [Base(k) EXCEPT !.langs = L2(k, "rr"), !.parsers = P("B", <<"<S>">>)],
             [Base(k) EXCEPT !.langs = L2(k, "undef"), !.parsers = P("A", <<"<S>">>)],
             [Base(k) EXCEPT !.parsers = P("A", <<"<S>">>) \o P("A", <<"<T>">>)],
             [Base(k) EXCEPT !.parsers = P("A", <<"<S>", "<N>">>), !.missing = TRUE]} : k \in Kinds }
    \cup UNION { {[Base(k) EXCEPT !.tests = T("A", w), !.parsers = P("A", <<"<S>">>)] : w \in BOOLEAN} : k \in Kinds \cap {"plain", "unused", "sr"} }
    \cup {[Base("plain") EXCEPT !.present = FALSE], [Base("plain") EXCEPT !.ok = FALSE], [Base("plain") EXCEPT !.langs = <<>>], [Base("plain") EXCEPT !.langs = L1("plain") \o L1("sr")]}
Options == [dir : {""}, L : Ls, C : {""}, N : {""}, T : Targets, out : Outs, S : Starts, test : BOOLEAN, runtests : BOOLEAN,
            noconf : BOOLEAN, allow : BOOLEAN, lr1 : BOOLEAN, quiet : BOOLEAN, silent : {FALSE}, verbose : {FALSE}, show : BOOLEAN, bad : {FALSE}, text : Texts]

Init == /\ o \in Options /\ f \in Files /\ r = Start(o)
Next == r.stage # "done" /\ r' = Step(r, o, f) /\ UNCHANGED <<o, f>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Severe(x) == { m \in x.msgs : m[1] >= Sev.error }
End(p) == Finish(Start(p), p, f)
ExitMeansError == (r.exit # 0) = (Severe(r) # {}) /\ (r.exit # 0 => \E m \in r.msgs : m[1] = r.exit)
\* nothing is generated by a run that failed before it could write
FilesMeanSuccess == r.files # {} => (r.exit = 0 \/ o.out = "full")
Generated == (r.stage = "done" /\ r.exit = 0 /\ Target(o) = "cplusplus" /\ ~o.runtests) => Cardinality(r.files) = 2
ForwardOnly == r.stage \in {"read", "import", "test", "build", "choose", "parser", "output", "done"} /\ (r.stage = "output" => r.exit = 0 /\ r.lang \in Names(f) /\ ~Broken(Kind(f, r.lang)))
\* how things are presented changes nothing else; leniency never makes a run fail, strictness never makes one succeed
First == r.stage = "read"
Presentation == First => LET e == End(o) IN \A p \in {[o EXCEPT !.quiet = ~@], [o EXCEPT !.silent = ~@], [o EXCEPT !.verbose = ~@]} : End(p).exit = e.exit /\ End(p).files = e.files /\ End(p).class = e.class
Strictness == First => LET e == End(o).exit IN
    /\ (e = 0 => End([o EXCEPT !.noconf = FALSE]).exit = 0 /\ End([o EXCEPT !.allow = TRUE]).exit = 0 /\ End([o EXCEPT !.lr1 = TRUE]).exit = 0)
    /\ (e # 0 => End([o EXCEPT !.noconf = TRUE]).exit # 0)
Ends == <>(r.stage = "done")
=============================================================================
