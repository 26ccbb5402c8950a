----------------------------- MODULE DefSyntax -----------------------------
(***************************************************************************)
(* The definition language as a reader of tokens: which sequences of tokens *)
(* are definition files, what each of them says, and which token is the     *)
(* first one that cannot continue the others. Keywords are weak: an         *)
(* identifier that is a keyword is one only where the keyword can stand.    *)
(* What is decided by reading ahead is where a definition ends in grammars  *)
(* (a nonterminal and '='), which kind of block modifiers belong to, and    *)
(* where a named test begins.                                               *)
(*                                                                          *)
(* A token: k its kind ("id", "nt", "re", "str", "ch", or a symbol), v its  *)
(* text, q the text without quotes, b and e where it begins and ends.       *)
(* A reading: ok, i the next token (or the one that does not fit), d the    *)
(* words of what was read, p the places of its parts.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

K(T, i) == IF i > Len(T) THEN "end" ELSE T[i].k
Kw(T, i, w) == K(T, i) = "id" /\ T[i].v = w
V(T, i) == T[i].v
R(ok, i, d, p) == [ ok |-> ok, i |-> i, d |-> d, p |-> p ]
Nil(i) == R(TRUE, i, <<>>, <<>>)
No(i) == R(FALSE, i, <<>>, <<>>)
Cat(a, b) == R(b.ok, b.i, a.d \o b.d, a.p \o b.p)
Pre(d, p, a) == R(a.ok, a.i, d \o a.d, p \o a.p)
Place(T, i, j) == <<T[i].b, T[j - 1].e>>
Point(T, i) == <<T[i].b, T[i].b>>

\* a fixed list of tokens: <<"t", kind>> or <<"k", keyword>>
RECURSIVE Exp(_, _, _)
Exp(T, i, L) == IF L = <<>> THEN Nil(i) ELSE IF (IF L[1][1] = "k" THEN Kw(T, i, L[1][2]) ELSE K(T, i) = L[1][2]) THEN Exp(T, i + 1, Tail(L)) ELSE No(i)
sym(x) == <<"t", x>>
kwd(x) == <<"k", x>>
Id == sym("id")

(* --- items --- *)
\* a semantic specification: nm the name, cf the conflict attribute
RECURSIVE SemItems(_, _, _, _)
SemItems(T, i, nm, cf) ==
    LET more(j, n, c) == IF K(T, j) = "," THEN SemItems(T, j + 1, n, c) ELSE IF K(T, j) = "]" THEN [ ok |-> TRUE, i |-> j + 1, nm |-> n, cf |-> c ] ELSE [ ok |-> FALSE, i |-> j, nm |-> n, cf |-> c ]
        no(j) == [ ok |-> FALSE, i |-> j, nm |-> nm, cf |-> cf ]
    IN  IF Kw(T, i, "conflict")
        THEN IF K(T, i + 1) # "=" THEN no(i + 1)
             ELSE IF Kw(T, i + 2, "shift") THEN more(i + 3, nm, "shift")
             ELSE IF Kw(T, i + 2, "reduce") THEN more(i + 3, nm, "reduce")
             ELSE IF ~Kw(T, i + 2, "weak") THEN no(i + 2)
             ELSE IF Kw(T, i + 3, "reduce") THEN more(i + 4, nm, "weak") ELSE no(i + 3)
        ELSE IF K(T, i) = "id" THEN more(i + 1, V(T, i), cf)
        ELSE no(i)
Sem(T, i) == IF K(T, i) = "[" THEN SemItems(T, i + 1, "", "") ELSE [ ok |-> TRUE, i |-> i, nm |-> "", cf |-> "" ]

Starts == {"id", "nt", "str", "ch", "[=>", "("}
TermKind(kd) == CASE kd = "nt" -> "n" [] kd = "id" -> "t" [] kd = "str" -> "ts" [] kd = "ch" -> "tc"

RECURSIVE Item(_, _), Items(_, _, _), Ebnf(_, _), Postfix(_, _, _)
\* a symbol that ends before token j, with what may be said about it
Symbol(T, i, j, src) ==
    LET s == Sem(T, j) IN
    IF ~s.ok THEN No(s.i) ELSE R(TRUE, s.i, <<TermKind(T[j - 1].k), src, V(T, j - 1), s.nm, s.cf>>, <<Point(T, i)>>)
Primary(T, i) ==
    IF K(T, i) = "id" /\ K(T, i + 1) = "."
    THEN IF K(T, i + 2) \in {"nt", "id", "str", "ch"} THEN Symbol(T, i, i + 3, V(T, i)) ELSE No(i + 2)
    ELSE IF K(T, i) \in {"nt", "id", "str", "ch"} THEN Symbol(T, i, i + 1, "")
    ELSE IF K(T, i) = "[=>"
    THEN LET cl == K(T, i + 1) = "["
             h == IF cl THEN Exp(T, i + 2, <<kwd("can-clash"), sym("]")>>) ELSE Nil(i + 1)
             e == Ebnf(T, h.i)
             x == Exp(T, e.i, <<sym("]")>>)
             s == Sem(T, x.i)
         IN  IF ~h.ok THEN h ELSE IF ~e.ok THEN No(e.i) ELSE IF ~x.ok THEN x ELSE IF ~s.ok THEN No(s.i)
             ELSE R(TRUE, s.i, <<IF cl THEN "g!" ELSE "g">> \o (IF e.or THEN <<"|">> \o e.d \o <<"", "">> ELSE e.d) \o <<s.nm, s.cf>>, e.p)
    ELSE LET e == Ebnf(T, i + 1)
             x == Exp(T, e.i, <<sym(")")>>)
             s == Sem(T, x.i)
         IN  IF ~e.ok THEN No(e.i) ELSE IF ~x.ok THEN x ELSE IF ~s.ok THEN No(s.i)
             ELSE R(TRUE, s.i, IF e.or THEN <<"|">> \o e.d \o <<s.nm, s.cf>> ELSE e.d, e.p)
Postfix(T, i, a) ==
    IF ~a.ok \/ K(T, a.i) \notin {"*", "+", "?"} THEN a
    ELSE LET s == Sem(T, a.i + 1) IN
         IF ~s.ok THEN No(s.i) ELSE Postfix(T, i, R(TRUE, s.i, <<K(T, a.i)>> \o a.d \o <<s.nm, s.cf>>, <<Point(T, i)>> \o a.p))
Item(T, i) == IF K(T, i) \in Starts THEN Postfix(T, i, Primary(T, i)) ELSE No(i)
\* where the rule of a nonterminal ends
Ends(T, i) == K(T, i) \notin Starts \/ (K(T, i) = "nt" /\ K(T, i + 1) \in {"=", "|="}) \/ (Kw(T, i, "replace") /\ K(T, i + 1) = "nt" /\ K(T, i + 2) = "=")
\* a list of items, with their number; in a rule or within brackets
Items(T, i, rule) ==
    IF (IF rule THEN Ends(T, i) ELSE K(T, i) \notin Starts) THEN [ ok |-> TRUE, i |-> i, d |-> <<>>, p |-> <<>>, n |-> 0 ]
    ELSE LET a == Item(T, i) IN
         IF ~a.ok THEN [ ok |-> FALSE, i |-> a.i, d |-> <<>>, p |-> <<>>, n |-> 0 ]
         ELSE LET r == Items(T, a.i, rule) IN [ ok |-> r.ok, i |-> r.i, d |-> a.d \o r.d, p |-> a.p \o r.p, n |-> r.n + 1 ]
Ebnf(T, i) ==
    LET a == Items(T, i, FALSE)
        d == IF a.n = 1 THEN a.d ELSE <<"(">> \o a.d \o <<")">>
    IN  IF a.ok /\ K(T, a.i) = "|"
        THEN LET b == Ebnf(T, a.i + 1) IN [ ok |-> b.ok, i |-> b.i, d |-> d \o (IF b.or THEN <<"|">> \o b.d \o <<"", "">> ELSE b.d), p |-> a.p \o b.p, or |-> TRUE ]
        ELSE [ ok |-> a.ok, i |-> a.i, d |-> d, p |-> a.p, or |-> FALSE ]

(* --- the blocks of a language --- *)
Values == {"re", "str", "ch"}
LexKind(kd) == CASE kd = "re" -> "regex" [] kd = "str" -> "string" [] kd = "ch" -> "character"
\* name = value; ref: the value is a symbol of another language
Lexeme(T, i) ==
    IF Kw(T, i, "replace") /\ K(T, i + 1) = "id" /\ K(T, i + 2) = "="
    THEN IF K(T, i + 3) \in Values THEN R(TRUE, i + 4, <<LexKind(K(T, i + 3)), "replace", V(T, i + 1), V(T, i + 3)>>, <<Place(T, i, i + 4), Point(T, i + 3)>>) ELSE No(i + 3)
    ELSE IF K(T, i) # "id" THEN No(i)
    ELSE IF K(T, i + 1) \notin {"=", "|="} THEN No(i + 1)
    ELSE IF K(T, i + 2) \in Values THEN R(TRUE, i + 3, <<LexKind(K(T, i + 2)), V(T, i + 1), V(T, i), V(T, i + 2)>>, <<Place(T, i, i + 3), Point(T, i + 2)>>)
    ELSE IF V(T, i + 1) = "=" /\ K(T, i + 2) = "id"
    THEN LET x == Exp(T, i + 3, <<sym("."), Id>>) IN IF x.ok THEN R(TRUE, x.i, <<"ref">>, <<>>) ELSE x
    ELSE No(i + 2)
\* in lists of keywords a name may stand alone
Keyword(T, i) ==
    IF Kw(T, i, "replace") /\ K(T, i + 1) = "id" /\ K(T, i + 2) = "=" THEN Lexeme(T, i)
    ELSE IF K(T, i) = "id" /\ K(T, i + 1) \notin {"=", "|="} THEN R(TRUE, i + 1, <<"literal", "=", V(T, i), V(T, i)>>, <<Place(T, i, i + 1), Point(T, i)>>)
    ELSE Lexeme(T, i)
RECURSIVE Lexemes(_, _, _)
Lexemes(T, i, kws) ==
    IF K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>)
    ELSE LET a == IF kws THEN Keyword(T, i) ELSE Lexeme(T, i) IN IF ~a.ok THEN a ELSE Cat(a, Lexemes(T, a.i, kws))

\* the token after the modifiers at i; sensitivity only, or weak as well
RECURSIVE Mods(_, _, _)
Mods(T, i, wk) ==
    IF wk /\ Kw(T, i, "weak") THEN Mods(T, i + 1, wk)
    ELSE IF Kw(T, i, "case") /\ (Kw(T, i + 1, "sensitive") \/ Kw(T, i + 1, "insensitive")) THEN Mods(T, i + 2, wk)
    ELSE i
Flags(T, i, j) ==
    LET has(w) == \E x \in i..(j - 1) : V(T, x) = w IN
    <<IF has("weak") THEN "weak" ELSE "", IF has("sensitive") THEN "cs" ELSE "", IF has("insensitive") THEN "ci" ELSE "">>
LexBlock(T, i, j, kws) ==
    LET h == Exp(T, j + 1, <<sym("{")>>) IN IF ~h.ok THEN h ELSE Pre(<<V(T, j)>> \o Flags(T, i, j), <<>>, Lexemes(T, h.i, kws))

RECURSIVE Rules(_, _), Nonterminals(_, _), Precedences(_, _), LangDefs(_, _)
Rules(T, i) ==
    LET a == Items(T, i, TRUE) IN
    IF ~a.ok THEN No(a.i)
    ELSE LET r == R(TRUE, a.i, <<"rule">> \o a.d, a.p) IN IF K(T, a.i) = "|" THEN Cat(r, Rules(T, a.i + 1)) ELSE r
Nonterminals(T, i) ==
    LET rep == Kw(T, i, "replace") /\ K(T, i + 1) = "nt" /\ K(T, i + 2) = "="
        def == K(T, i) = "nt" /\ K(T, i + 1) \in {"=", "|="}
        n == IF rep THEN i + 1 ELSE i
    IN  IF K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>)
        ELSE IF ~rep /\ ~def THEN No(i)
        ELSE LET r == Rules(T, n + 2) IN
             IF ~r.ok THEN r
             ELSE Cat(R(TRUE, r.i, <<IF rep THEN "replace" ELSE V(T, n + 1), V(T, n)>> \o r.d \o <<";">>, <<Point(T, i)>> \o r.p), Nonterminals(T, r.i))
Assoc(T, i) == IF Kw(T, i, "left") THEN "left" ELSE IF Kw(T, i, "right") THEN "right" ELSE IF Kw(T, i, "non-associative") \/ Kw(T, i, "non-assoc") THEN "nonassoc" ELSE ""
Precedences(T, i) ==
    IF K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>)
    ELSE IF Assoc(T, i) = "" THEN No(i)
    ELSE LET list == K(T, i + 1) = "{"
             a == IF list THEN Items(T, i + 2, FALSE) ELSE Item(T, i + 1)
             x == IF list THEN Exp(T, a.i, <<sym("}")>>) ELSE Nil(a.i)
         IN  IF ~a.ok THEN No(a.i) ELSE IF ~x.ok THEN x ELSE Cat(R(TRUE, x.i, <<Assoc(T, i)>> \o a.d \o <<";">>, a.p), Precedences(T, x.i))

LangDef(T, i) ==
    LET j == Mods(T, i, TRUE)
        s == Mods(T, i, FALSE)
        brace == Exp(T, i + 1, <<sym("{")>>)
    IN  IF Kw(T, i, "ignore") THEN LexBlock(T, i, i, TRUE)
        ELSE IF Kw(T, i, "grammar") THEN (IF brace.ok THEN Pre(<<"grammar">>, <<>>, Nonterminals(T, i + 2)) ELSE brace)
        ELSE IF Kw(T, i, "precedence") THEN (IF brace.ok THEN Pre(<<"precedence">>, <<>>, Precedences(T, i + 2)) ELSE brace)
        ELSE IF Kw(T, j, "lexer") THEN LexBlock(T, i, j, FALSE)
        ELSE IF Kw(T, j, "keywords") THEN LexBlock(T, i, j, TRUE)
        ELSE IF Kw(T, s, "lexer-symbols") THEN LexBlock(T, i, s, FALSE)
        ELSE IF Kw(T, i, "case") THEN No(IF Kw(T, s, "case") THEN s + 1 ELSE s)
        ELSE No(i)
LangDefs(T, i) == IF K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>) ELSE LET a == LangDef(T, i) IN IF ~a.ok THEN a ELSE Cat(a, LangDefs(T, a.i))

(* --- the blocks of a file --- *)
Language(T, i) ==
    LET inh == K(T, i + 2) = ":"
        h == Exp(T, i + 1, IF inh THEN <<Id, sym(":"), Id, sym("{")>> ELSE <<Id, sym("{")>>)
        r == LangDefs(T, h.i)
    IN  IF ~h.ok THEN (IF K(T, i + 1) # "id" THEN No(i + 1) ELSE h) ELSE IF ~r.ok THEN r
        ELSE R(TRUE, r.i, <<"language", V(T, i + 1)>> \o (IF inh THEN <<V(T, i + 3)>> ELSE <<>>) \o <<":">> \o r.d, <<Place(T, i, r.i)>> \o r.p)

\* a nonterminal, perhaps of another language; d: the language and the name
Nt(T, i) ==
    IF K(T, i) = "nt" THEN R(TRUE, i + 1, <<"", V(T, i)>>, <<>>)
    ELSE LET x == Exp(T, i, <<Id, sym("."), sym("nt")>>) IN IF x.ok THEN R(TRUE, x.i, <<V(T, i), V(T, i + 2)>>, <<>>) ELSE x
RECURSIVE StartSymbols(_, _, _), Specs(_, _, _, _), Tests(_, _)
StartSymbols(T, i, some) ==
    IF some /\ K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>)
    ELSE LET a == Nt(T, i) IN IF ~a.ok THEN a ELSE Pre(<<a.d[2]>>, <<>>, StartSymbols(T, a.i, TRUE))
Parser(T, i) ==
    LET h == Exp(T, i + 1, <<Id, sym(":"), Id, sym("{")>>)
        r == StartSymbols(T, h.i, FALSE)
    IN  IF ~h.ok THEN h ELSE IF ~r.ok THEN r ELSE R(TRUE, r.i, <<"parser", V(T, i + 1), V(T, i + 3)>> \o r.d, <<Place(T, i, r.i)>>)

Specs(T, i, what, some) ==
    LET one(nm, q, j) == R(TRUE, j, what \o <<nm, T[q].q>>, <<Place(T, i, j), <<T[q].b + 1, T[q].b + 1>>>>) IN
    IF K(T, i) = "str" THEN Cat(one("", i, i + 1), Specs(T, i + 1, what, TRUE))
    ELSE IF K(T, i) = "id" /\ K(T, i + 1) = "("
    THEN LET x == Exp(T, i + 2, <<sym("str"), sym(")")>>) IN IF ~x.ok THEN x ELSE Cat(one(V(T, i), i + 2, x.i), Specs(T, x.i, what, TRUE))
    ELSE IF some THEN Nil(i) ELSE No(i)
Tests(T, i) ==
    IF K(T, i) = "}" THEN R(TRUE, i + 1, <<"end">>, <<>>)
    ELSE LET n == Nt(T, i)
             type == IF K(T, n.i) \in {"=", "!="} THEN V(T, n.i) ELSE IF Kw(T, n.i, "from") THEN "from" ELSE ""
         IN  IF ~n.ok THEN n ELSE IF type = "" THEN No(n.i)
             ELSE LET s == Specs(T, n.i + 1, n.d \o <<type>>, FALSE) IN IF ~s.ok THEN s ELSE Cat(s, Tests(T, s.i))
TestBlock(T, i) ==
    LET h == Exp(T, i + 1, <<Id, sym("{")>>)
        r == Tests(T, h.i)
    IN  IF ~h.ok THEN h ELSE IF ~r.ok THEN r ELSE R(TRUE, r.i, <<"test", V(T, i + 1)>> \o r.d, <<Place(T, i, r.i)>> \o r.p)

RECURSIVE File(_, _)
File(T, i) ==
    LET a == IF Kw(T, i, "language") THEN Language(T, i)
             ELSE IF Kw(T, i, "import") THEN (IF K(T, i + 1) = "str" THEN R(TRUE, i + 2, <<"import", T[i + 1].q, "end">>, <<Place(T, i, i + 2)>>) ELSE No(i + 1))
             ELSE IF Kw(T, i, "parser") THEN Parser(T, i)
             ELSE IF Kw(T, i, "test") THEN TestBlock(T, i)
             ELSE No(i)
    IN  IF i > Len(T) THEN Nil(i) ELSE IF ~a.ok THEN a ELSE Cat(a, File(T, a.i))
Reading(T) == File(T, 1)
=============================================================================
