---------------------------- MODULE Diagnostics ----------------------------
(***************************************************************************)
(* What has to be reported about a set of definition files: mistakes in    *)
(* imports, then in all languages, then in the lexer and the start symbols *)
(* of the target language; a later part is looked at only if the earlier   *)
(* ones are free of errors. A report is <<code, file, line>>.              *)
(* A case has fs (files: [name, imports, there]), langs (with file and     *)
(* line), target, start, syms and names (the grammar's items).             *)
(***************************************************************************)
EXTENDS Definition

DElems(s) == { s[i] : i \in 1..Len(s) }
\* table entries that occur in the rules of a table entry, also within items and guards
RECURSIVE Inside(_, _)
Inside(syms, S) == LET S2 == S \cup UNION { UNION { DElems(r) : r \in DElems(syms[s].r) } : s \in { x \in S : syms[x].k # "n" } } IN IF S2 = S THEN S ELSE Inside(syms, S2)

(* --- imports --- *)
FileOf(c, f) == c.fs[CHOOSE i \in 1..Len(c.fs) : c.fs[i].name = f]
RECURSIVE Imported(_, _)
Imported(c, S) == LET S2 == S \cup UNION { DElems(FileOf(c, f).imports) : f \in S } IN IF S2 = S THEN S ELSE Imported(c, S2)
Files(c) == Imported(c, {c.fs[1].name})
Langs(c) == SelectSeq(c.langs, LAMBDA L : L.file \in Files(c))
Missing(c) == { <<"CANT_OPEN_FILE", f, -1>> : f \in { x \in Files(c) : ~FileOf(c, x).there } }
Doubles(c) == LET S == Langs(c) IN { n \in { S[i].name : i \in 1..Len(S) } : Cardinality({ i \in 1..Len(S) : S[i].name = n }) > 1 }
DoublesAt(c, n) == LET S == Langs(c) IN { <<"AMBIGUOUS_LANGUAGE_DEFINITION", S[i].file, S[i].line>> : i \in { j \in 1..Len(S) : S[j].name = n } }

(* --- languages --- *)
RECURSIVE NullIn(_, _, _, _)
\* grd: whether guards can be empty when what they look for can be
NullIn(D, syms, grd, S) ==
    LET nul(s) == CASE syms[s].k = "t" -> FALSE
                    [] syms[s].k = "n" -> \E i \in 1..Len(RulesOf(D, s)) : DElems(RulesOf(D, s)[i]) \subseteq S
                    [] syms[s].k \in {"opt", "star"} -> TRUE
                    [] syms[s].k = "grd" /\ ~grd -> FALSE
                    [] OTHER -> \E i \in 1..Len(syms[s].r) : DElems(syms[s].r[i]) \subseteq S
        S2 == { s \in 1..Len(syms) : nul(s) }
    IN  IF S2 = S THEN S ELSE NullIn(D, syms, grd, S2)
InForceNow(D) == UNION { DElems(D.rules[i][2]) : i \in 1..Len(D.rules) }
MentionedIn(syms, R) == Inside(syms, UNION { DElems(r) : r \in R })

\* what a table entry can begin with
First1(D, syms, null, s) == LET R == IF syms[s].k = "n" THEN RulesOf(D, s) ELSE IF syms[s].k = "t" THEN <<>> ELSE syms[s].r
                            IN  UNION { { r[i] : i \in { j \in 1..Len(r) : \A x \in 1..(j - 1) : r[x] \in null } } : r \in DElems(R) }
RECURSIVE Begins(_, _, _, _)
Begins(D, syms, null, S) == LET S2 == S \cup UNION { First1(D, syms, null, s) : s \in S } IN IF S2 = S THEN S ELSE Begins(D, syms, null, S2)

\* reports about one language: [must, may]
OfLanguage(c, langs, n) ==
    LET D == Declared(langs, n)
        L == langs[CHOOSE i \in 1..Len(langs) : langs[i].name = n]
        uses == D.uses
        inuse(u) == MentionedIn(c.syms, {u.p})
        ever == UNION { inuse(uses[i]) : i \in 1..Len(uses) }
        now == MentionedIn(c.syms, InForceNow(D))
        undef == { s \in ever : c.syms[s].k = "n" /\ RulesOf(D, s) = <<>> }
        first(s) == LET i == CHOOSE x \in 1..Len(uses) : s \in inuse(uses[x]) /\ \A y \in 1..(x - 1) : s \notin inuse(uses[y]) IN <<"UNDEFINED_NONTERMINAL", uses[i].file, uses[i].line>>
        null == NullIn(D, c.syms, FALSE, {})
        null2 == NullIn(D, c.syms, TRUE, {})
        empty(nn) == { s \in ever : c.syms[s].k = "grd" /\ DElems(c.syms[s].r[1]) \subseteq nn }
        guards == empty(null)
        used(s, code) == { <<code, uses[i].file, uses[i].line>> : i \in { x \in 1..Len(uses) : s \in inuse(uses[x]) } }
        places(s) == used(s, IF c.syms[s].r[1] = <<>> THEN "EMPTY_GUARD" ELSE "INEFFECTIVE_GUARD")
        endless == { s \in ever : c.syms[s].k = "grd" /\ s \in Begins(D, c.syms, null, First1(D, c.syms, null, s)) }
        loop == Loops(langs, L, {})
        lost == L.inh # <<>> /\ ~(\E i \in 1..Len(langs) : langs[i].name = L.inh)
    IN  [ must |-> D.diag \cup { first(s) : s \in undef \cap now } \cup (IF lost THEN {<<"CANT_FIND_LANGUAGE", L.file, L.line>>} ELSE {})
                         \cup (IF loop THEN {<<"RECURSIVE_INHERITANCE", L.file, L.line>>} ELSE {}),
          may |-> { first(s) : s \in undef \ now } \cup UNION { places(s) : s \in empty(null2) } \cup UNION { used(s, "RECURSIVE_GUARD") : s \in endless },
          \* each of these is reported at one of its places
          one |-> IF undef # {} THEN {} ELSE { places(s) : s \in guards \cap now } \cup { used(s, "RECURSIVE_GUARD") : s \in endless \cap now } ]

(* --- the lexer --- *)
RECURSIVE Faulty(_, _, _, _)
Faulty(re, p, X, depth) ==
    IF p > Len(re) THEN depth > 0
    ELSE IF re[p] = Back THEN Faulty(re, p + 2, X, depth)
    ELSE IF re[p] = LParen THEN Faulty(re, p + 1, X, depth + 1)
    ELSE IF re[p] = RParen THEN Faulty(re, p + 1, X, depth - 1)
    ELSE IF re[p] = LSq THEN LET E == { q \in (p + 1)..Len(re) : re[q] = RSq /\ (\A x \in (p + 1)..(q - 1) : re[x] # RSq \/ re[x - 1] = Back) /\ re[q - 1] # Back }
                             IN  E = {} \/ Faulty(re, (CHOOSE q \in E : \A x \in E : q <= x) + 1, X, depth)
    ELSE IF re[p] = LCur THEN LET E == { q \in p..Len(re) : re[q] = RCur }
                                  q == CHOOSE x \in E : \A y \in E : x <= y
                              IN  E = {} \/ SubSeq(re, p + 1, q - 1) \notin X \/ Faulty(re, q + 1, X, depth)
    ELSE Faulty(re, p + 1, X, depth)
\* expressions that are defined in terms of themselves
RECURSIVE UsesOf(_, _)
UsesOf(X, N) == LET N2 == N \cup UNION { Needs(X[i].val, 1) : i \in { j \in 1..Len(X) : X[j].name \in N /\ X[j].kind = "re" } } IN IF N2 = N THEN N ELSE UsesOf(X, N2)
Endless(X) == { i \in 1..Len(X) : X[i].name \in UsesOf(X, UNION { Needs(X[j].val, 1) : j \in { k \in 1..Len(X) : X[k].name = X[i].name /\ X[k].kind = "re" } }) }
BadAt(D, S) == LET X == { D.exprs[i].name : i \in 1..Len(D.exprs) } IN { <<"BAD_REGULAR_EXPRESSION", S[i].file, S[i].line>> : i \in { j \in 1..Len(S) : S[j].kind = "re" /\ Faulty(S[j].val, 1, X, 0) } }

\* the symbols that some text is recognised as; alpha: characters that tell all sets apart
RECURSIVE Explore(_, _, _, _)
Explore(P, alpha, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET new == TLCEval({ [ k \in DOMAIN P |-> StepPos(P[k], S[k], ch) ] : S \in todo, ch \in alpha }) \ seen IN Explore(P, alpha, new, seen \cup new)
Generated(D, alpha) ==
    LET P == [ k \in 1..Len(D.items) |-> OfItem(D.items[k], D.exprs) ]
        S0 == [ k \in DOMAIN P |-> Start ]
        won(S) == LET K == { D.items[k] : k \in { x \in DOMAIN P : Accepting(P[x], S[x]) } } IN IF K = {} THEN {} ELSE {Best(D, K).n}
    IN  UNION { won(S) : S \in Explore(P, alpha, {S0}, {S0}) }

OfLexer(c, langs) ==
    LET D == Declared(langs, c.target)
        at(i, code) == <<code, D.files[i], D.line[i]>>
        name(s) == c.names[s]
        ever == { name(s) : s \in UNION { MentionedIn(c.syms, {D.uses[i].p}) : i \in 1..Len(D.uses) } }
        now == { name(s) : s \in MentionedIn(c.syms, InForceNow(D)) }
        T == { i \in 1..Len(D.terms) : D.terms[i] \in D.plain }
        faulty == BadAt(D, D.exprs)
        lines(I) == { <<"BAD_REGULAR_EXPRESSION", D.exprs[i].file, D.exprs[i].line>> : i \in I }
        bad == faulty \cup BadAt(D, D.items) \cup (IF faulty = {} THEN lines(Endless(D.exprs)) ELSE {})
        gen == IF bad # {} THEN {} ELSE Generated(D, DElems(c.alpha))
        never == { at(i, "SYMBOL_CANNOT_BE_GENERATED") : i \in { j \in 1..Len(D.terms) : D.terms[j] \notin D.ign /\ D.terms[j] \notin gen } }
    IN  [ must |-> { at(i, "UNUSED_TERMINAL_SYMBOL") : i \in { j \in T : D.terms[j] \notin ever /\ D.unit[j] # "ignore" } } \cup bad \cup (IF bad = {} THEN never ELSE {}),
          may |-> { at(i, "UNUSED_TERMINAL_SYMBOL") : i \in { j \in T : D.terms[j] \notin now } } \cup (IF bad = {} THEN {} ELSE never) \cup (IF faulty = {} THEN {} ELSE lines(1..Len(D.exprs))) ]

Errors == {"CANT_OPEN_FILE", "AMBIGUOUS_LANGUAGE_DEFINITION", "CANT_FIND_LANGUAGE", "RECURSIVE_INHERITANCE", "RECURSIVE_GUARD", "DUPLICATE_LEXER_SYMBOL", "MISSING_LEXER_SYMBOL_FOR_ADDING", "MISSING_LEXER_SYMBOL_FOR_REPLACING",
           "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", "DUPLICATE_NONTERMINAL_DEFINITION", "UNDEFINE_TERMINAL", "UNDEFINED_NONTERMINAL", "INEFFECTIVE_GUARD", "BAD_REGULAR_EXPRESSION",
           "NO_LANGUAGES_DEFINED", "NO_START_SYMBOLS"}
Warnings == {"IMPLICIT_LEXER_SYMBOL", "EMPTY_GUARD", "UNUSED_TERMINAL_SYMBOL", "SYMBOL_CANNOT_BE_GENERATED"}
\* reported by other parts, or as details of these
Others == {"DETAIL_REDUCE", "DETAIL_REDUCE_IN", "CONFLICT_SHIFT_REDUCE", "CONFLICT_REDUCE_REDUCE", "SYMBOL_CLASHES_WITH", "CLASHING_GUARDS", "CLASHING_GUARDS_DETAIL", "AMBIGUOUS_LANGUAGE_ORIGINAL"}
Wrong(S) == \E r \in S : r[1] \in Errors

\* [must, may, one, stage]: stage is how far it gets; R0: what was reported (it matters where reporting an error is optional)
Reports(c, R0) ==
    LET imp == Missing(c)
        dbl == Doubles(c)
        langs == Langs(c)
        names == { langs[i].name : i \in 1..Len(langs) }
        R == { OfLanguage(c, langs, n) : n \in names }
        m1 == UNION { r.must : r \in R } \cup (IF names = {} THEN {<<"NO_LANGUAGES_DEFINED", c.fs[1].name, -1>>} ELSE {})
        y1 == UNION { r.may : r \in R }
        o1 == UNION { r.one : r \in R }
        lx == OfLexer(c, langs)
        D == Declared(langs, c.target)
        known(s) == RulesOf(D, s) # <<>>
        st == { <<"UNDEFINED_NONTERMINAL", langs[CHOOSE i \in 1..Len(langs) : langs[i].name = c.target].file, -1>> : s \in { x \in DElems(c.start) : ~known(x) } }
        nost == IF \E s \in DElems(c.start) : known(s) THEN {} ELSE {<<"NO_START_SYMBOLS", langs[CHOOSE i \in 1..Len(langs) : langs[i].name = c.target].file, -1>>}
    IN  IF imp # {} \/ dbl # {} THEN [ must |-> imp, may |-> UNION { DoublesAt(c, n) : n \in dbl }, one |-> {}, stage |-> "import" ]
        ELSE IF Wrong(m1 \cup (y1 \cap R0)) \/ \E o \in o1 : Wrong(o) THEN [ must |-> m1, may |-> y1, one |-> o1, stage |-> "language" ]
        ELSE IF c.target \notin names THEN [ must |-> m1, may |-> y1, one |-> o1, stage |-> "language" ]
        ELSE IF Wrong(lx.must) THEN [ must |-> m1 \cup lx.must, may |-> y1 \cup lx.may, one |-> o1, stage |-> "lexer" ]
        ELSE [ must |-> m1 \cup lx.must \cup st \cup nost, may |-> y1 \cup lx.may, one |-> o1, stage |-> IF nost = {} THEN "run" ELSE "parser" ]
=============================================================================
