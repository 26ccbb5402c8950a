----------------------------- MODULE Definition ----------------------------
(***************************************************************************)
(* Definition files: what a language block (with the languages it          *)
(* inherits from) declares.                                                *)
(* A language is [name, inh, blocks, lits]; a block has a kind k           *)
(*  "symbols" "keywords" "lexer" "ignore"  with definitions                *)
(*      [name, op ("=" "|=" "replace"), kind ("re" "lit"), val, line]      *)
(*  "grammar" with nts [s, op, prods, line]; "precedence" with items       *)
(* lits: the terminals first met in the grammar: literals, and names that  *)
(* are declared nowhere, which stand for themselves.                       *)
(* Names and texts are sequences of code points.                           *)
(***************************************************************************)
EXTENDS Regex, SequencesExt


Units == <<"keywords", "lexer", "ignore">>
RankOf(u) == CHOOSE i \in 1..3 : Units[i] = u

Nothing == [ terms |-> <<>>, unit |-> <<>>, line |-> <<>>, items |-> <<>>, exprs |-> <<>>, ign |-> {}, weak |-> {}, diag |-> {}, rules |-> <<>>, prec |-> <<>>,
             file |-> "", files |-> <<>>, uses |-> <<>>, plain |-> {} ]
TermId(D, n) == LET I == { i \in 1..Len(D.terms) : D.terms[i] = n } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Say(D, code, line) == [ D EXCEPT !.diag = @ \cup {<<code, D.file, line>>} ]

AddExpr(b, D, d) ==
    LET known == \E i \in 1..Len(D.exprs) : D.exprs[i].name = d.name
        D1 == IF known /\ d.op = "=" THEN Say(D, "DUPLICATE_LEXER_SYMBOL", d.line)
              ELSE IF ~known /\ d.op = "|=" THEN Say(D, "MISSING_LEXER_SYMBOL_FOR_ADDING", d.line)
              ELSE IF ~known /\ d.op = "replace" THEN Say(D, "MISSING_LEXER_SYMBOL_FOR_REPLACING", d.line) ELSE D
        old == IF d.op = "replace" THEN SelectSeq(D1.exprs, LAMBDA e : e.name # d.name) ELSE D1.exprs
    IN  [ D1 EXCEPT !.exprs = Append(old, [ name |-> d.name, kind |-> d.kind, val |-> d.val, ci |-> b.ci, cs |-> b.cs, line |-> d.line, file |-> D.file ]) ]

Item(D, b, d) == [ file |-> D.file, n |-> d.name, unit |-> b.k, weak |-> b.weak, kind |-> d.kind, val |-> d.val, ci |-> b.ci, line |-> d.line ]
Declare(D, n, u, line) == IF TermId(D, n) # 0 THEN D ELSE [ D EXCEPT !.terms = Append(@, n), !.unit = Append(@, u), !.line = Append(@, line), !.files = Append(@, D.file) ]
AddTerm(b, D, d) ==
    LET id == TermId(D, d.name)
        put(E) == [ E EXCEPT !.items = Append(@, Item(D, b, d)), !.unit[TermId(E, d.name)] = b.k, !.plain = IF b.k = "ignore" THEN @ ELSE @ \cup {d.name},
                             !.ign = IF b.k = "ignore" THEN @ \cup {d.name} ELSE @, !.weak = IF b.weak THEN @ \cup {d.name} ELSE @ ]
    IN  CASE d.op = "="  -> put(Declare(IF id # 0 THEN Say(D, "DUPLICATE_LEXER_SYMBOL", d.line) ELSE D, d.name, b.k, d.line))
          [] d.op = "|=" -> IF id = 0 THEN Say(D, "MISSING_LEXER_SYMBOL_FOR_ADDING", d.line)
                            ELSE put(IF D.unit[id] # b.k THEN Say(D, "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", d.line) ELSE D)
          [] OTHER       -> IF id = 0 THEN Say(D, "MISSING_LEXER_SYMBOL_FOR_REPLACING", d.line)
                            ELSE put([ D EXCEPT !.items = SelectSeq(@, LAMBDA e : e.n # d.name), !.line[id] = d.line, !.files[id] = D.file ])

Blocks(L, ks, weak) == SelectSeq(L.blocks, LAMBDA b : b.k \in ks /\ b.weak = weak)
AddAll(D, b, how) == LET f(E, d) == IF how = "expr" THEN AddExpr(b, E, d) ELSE AddTerm(b, E, d) IN FoldLeft(f, D, b.defs)
AddBlocks(D, bs, how) == LET f(E, b) == AddAll(E, b, how) IN FoldLeft(f, D, bs)

\* literals and undeclared names of the grammar are weak keywords
Literal(D, l) == IF TermId(D, l.name) # 0 THEN D
                 ELSE LET E == Declare(D, l.name, "keywords", l.line) IN
                      [ E EXCEPT !.plain = @ \cup {l.name}, !.items = Append(@, [ file |-> D.file, n |-> l.name, unit |-> "keywords", weak |-> TRUE, kind |-> "lit", val |-> l.val, ci |-> FALSE, line |-> l.line ]), !.weak = @ \cup {l.name},
                                 !.diag = IF l.quoted THEN @ ELSE @ \cup {<<"IMPLICIT_LEXER_SYMBOL", D.file, l.line>>} ]

\* rules: a sequence of <<nonterminal, its rules>>
RulesOf(D, s) == LET I == { i \in 1..Len(D.rules) : D.rules[i][1] = s } IN IF I = {} THEN <<>> ELSE D.rules[CHOOSE i \in I : TRUE][2]
SetRules(D, s, r) == IF \E i \in 1..Len(D.rules) : D.rules[i][1] = s
                     THEN [ D EXCEPT !.rules = [ i \in 1..Len(@) |-> IF @[i][1] = s THEN <<s, r>> ELSE @[i] ] ]
                     ELSE [ D EXCEPT !.rules = Append(@, <<s, r>>) ]
AddNt(D, n) == LET old == RulesOf(D, n.s) IN
               CASE n.op = "="  -> SetRules(IF old # <<>> THEN Say(D, "DUPLICATE_NONTERMINAL_DEFINITION", n.line) ELSE D, n.s, old \o n.prods)
                 [] n.op = "|=" -> SetRules(D, n.s, old \o n.prods)
                 [] OTHER       -> SetRules(D, n.s, n.prods)
AddGrammar(D, b) == FoldLeft(AddNt, D, b.nts)
\* every production that was ever declared, and where
NoteUse(D, n) == [ D EXCEPT !.uses = @ \o [ i \in 1..Len(n.prods) |-> [ p |-> n.prods[i], file |-> D.file, line |-> n.plines[i] ] ] ]
NoteUses(D, b) == FoldLeft(NoteUse, D, b.nts)
AddPrec(D, b) ==
    LET bad == { i \in 1..Len(b.items) : \E j \in 1..Len(b.items[i].names) : TermId(D, b.items[i].names[j]) = 0 }
    IN  [ D EXCEPT !.prec = Append(@, [ i \in 1..Len(b.items) |-> [ a |-> b.items[i].a, names |-> { b.items[i].names[j] : j \in 1..Len(b.items[i].names) } ] ]),
                   !.diag = @ \cup { <<"UNDEFINE_TERMINAL", D.file, b.items[i].line>> : i \in bad } ]

Extend(D0, L) ==
    LET D == [ D0 EXCEPT !.file = L.file, !.diag = {} ]
        D1 == AddBlocks(D, SelectSeq(L.blocks, LAMBDA b : b.k = "symbols"), "expr")
        D2 == LET f(E, u) == AddBlocks(E, Blocks(L, {u}, TRUE), "term") IN FoldLeft(f, D1, Units)
        D3 == LET f(E, u) == AddBlocks(E, Blocks(L, {u}, FALSE), "term") IN FoldLeft(f, D2, Units)
        D4 == FoldLeft(Literal, D3, L.lits)
        G == SelectSeq(L.blocks, LAMBDA b : b.k = "grammar")
        D5 == FoldLeft(AddGrammar, FoldLeft(NoteUses, D4, G), G)
    IN  FoldLeft(AddPrec, D5, SelectSeq(L.blocks, LAMBDA b : b.k = "precedence"))

\* the languages a language is built on, the deepest first; a language that would inherit from itself inherits nothing
Named(langs, n) == langs[CHOOSE i \in 1..Len(langs) : langs[i].name = n]
Stands(langs, L) == L.inh = <<>> \/ ~(\E i \in 1..Len(langs) : langs[i].name = L.inh)
RECURSIVE Loops(_, _, _)
Loops(langs, L, seen) == ~Stands(langs, L) /\ (L.inh \in seen \/ Loops(langs, Named(langs, L.inh), seen \cup {L.inh}))
RECURSIVE Chain(_, _)
Chain(langs, n) == LET L == Named(langs, n) IN (IF Stands(langs, L) \/ Loops(langs, L, {}) THEN <<>> ELSE Chain(langs, L.inh)) \o <<L>>
Declared(langs, n) == FoldLeft(Extend, Nothing, Chain(langs, n))

(* --- expressions with sub-expressions that have several definitions and case options of their own --- *)
\* leaves carry fix: their case was settled by a sub-expression
Settle(r, from, e) == [ r EXCEPT !.lv = [ i \in 1..Len(r.lv) |-> IF i <= from \/ r.lv[i].fix \/ ~(e.ci \/ e.cs) THEN r.lv[i]
                                                               ELSE [ r.lv[i] EXCEPT !.fix = TRUE, !.ci = e.ci ] ] ]
RECURSIVE DAlt(_, _, _, _), DCat(_, _, _, _, _), DAtom(_, _, _, _), DDefs(_, _, _, _, _)
DLeaf(set, np, lv) == [ f |-> Leaf(Len(lv) + 1), p |-> np, lv |-> Append(lv, [ neg |-> set.neg, ci |-> FALSE, rs |-> set.rs, fix |-> FALSE ]) ]
DLit(lit, lv) == LET r == LitFrag(lit, <<>>)
                     n == Len(lv)
                     up(S) == { i + n : i \in S }
                 IN  [ f |-> [ nul |-> r.f.nul, fst |-> up(r.f.fst), lst |-> up(r.f.lst), fol |-> { <<e[1] + n, e[2] + n>> : e \in r.f.fol } ],
                       lv |-> lv \o [ i \in 1..Len(r.lv) |-> [ neg |-> FALSE, ci |-> FALSE, rs |-> r.lv[i].rs, fix |-> FALSE ] ] ]
DAlt(re, p, lv, X) ==
    LET c == DCat(re, p, Eps, lv, X) IN
    IF c.p <= Len(re) /\ re[c.p] = Bar THEN LET r == DAlt(re, c.p + 1, c.lv, X) IN [ f |-> Alt(c.f, r.f), p |-> r.p, lv |-> r.lv ] ELSE c
DCat(re, p, acc, lv, X) ==
    IF p > Len(re) THEN [ f |-> acc, p |-> p, lv |-> lv ]
    ELSE IF re[p] \in {Bar, RParen} THEN [ f |-> acc, p |-> p, lv |-> lv ]
    ELSE LET a == DAtom(re, p, lv, X)
             q == PPost(re, a.p, a.f)
         IN  DCat(re, q.p, Cat(acc, q.f), a.lv, X)
DDefs(X, name, i, lv, f) ==
    IF i > Len(X) THEN [ f |-> f, lv |-> lv ]
    ELSE IF X[i].name # name THEN DDefs(X, name, i + 1, lv, f)
    ELSE LET r == Settle(IF X[i].kind = "lit" THEN DLit(X[i].val, lv) ELSE DAlt(X[i].val, 1, lv, X), Len(lv), X[i])
         IN  DDefs(X, name, i + 1, r.lv, IF f = <<>> THEN <<r.f>> ELSE <<Alt(f[1], r.f)>>)
DAtom(re, p, lv, X) ==
    CASE re[p] = LParen -> LET r == DAlt(re, p + 1, lv, X) IN [ f |-> r.f, p |-> r.p + 1, lv |-> r.lv ]
      [] re[p] = DotC -> DLeaf(AnySet, p + 1, lv)
      [] re[p] = LSq -> IF re[p + 1] = Caret THEN LET b == SetBody(re, p + 2, {}) IN DLeaf(Compl(SetOf(b.rs)), b.p, lv)
                        ELSE LET b == SetBody(re, p + 1, {}) IN DLeaf(SetOf(b.rs), b.p, lv)
      [] re[p] = LCur -> LET e == Find(re, p, RCur)
                             r == DDefs(X, SubSeq(re, p + 1, e - 1), 1, lv, <<>>)
                         IN  [ f |-> IF r.f = <<>> THEN Eps ELSE r.f[1], p |-> e + 1, lv |-> r.lv ]
      [] OTHER -> LET s == Sym(re, p) IN DLeaf(One(s.v), s.p, lv)
\* the automaton of a lexer item
OfItem(it, X) ==
    LET r == IF it.kind = "lit" THEN DLit(it.val, <<>>) ELSE DAlt(it.val, 1, <<>>, X)
    IN  OfFragment([ r EXCEPT !.lv = [ i \in 1..Len(@) |-> IF @[i].fix \/ ~it.ci THEN @[i] ELSE [ @[i] EXCEPT !.ci = TRUE ] ] ])
\* names of sub-expressions an expression needs
RECURSIVE Needs(_, _)
Needs(re, p) ==
    IF p > Len(re) THEN {}
    ELSE IF re[p] = Back THEN Needs(re, p + 2)
    ELSE IF re[p] = LSq THEN Needs(re, SetBody(re, IF re[p + 1] = Caret THEN p + 2 ELSE p + 1, {}).p)
    ELSE IF re[p] = LCur THEN LET e == Find(re, p, RCur) IN {SubSeq(re, p + 1, e - 1)} \cup Needs(re, e + 1)
    ELSE Needs(re, p + 1)
(* --- tokens: the longest match; where several symbols match it, weak ones come before others, then keywords before
       lexer symbols before ignored ones, then the one declared first --- *)
Better(D, a, b) == IF a.weak # b.weak THEN a.weak
                   ELSE IF a.unit # b.unit THEN RankOf(a.unit) < RankOf(b.unit) ELSE TermId(D, a.n) < TermId(D, b.n)
Best(D, K) == CHOOSE a \in K : \A b \in K : a.n = b.n \/ ~Better(D, b, a)

RECURSIVE MatchFrom(_, _, _, _, _, _)
\* best: [n: length, k: items matching]
MatchFrom(P, S, in, o, n, best) ==
    IF o + n >= Len(in) \/ \A k \in DOMAIN S : S[k] = {} THEN best
    ELSE LET S2 == [ k \in DOMAIN S |-> StepPos(P[k], S[k], in[o + n + 1]) ]
             acc == { k \in DOMAIN S2 : Accepting(P[k], S2[k]) }
         IN  MatchFrom(P, S2, in, o, n + 1, IF acc = {} THEN best ELSE [ n |-> n + 1, k |-> acc ])
RECURSIVE Tokens(_, _, _, _)
\* tokens of a text: [n: name (<<>>: unmatched), s: name of the strong symbol it could also be, o: offset, l: length, ks: all that match]
Tokens(D, P, in, o) ==
    IF o >= Len(in) THEN <<>>
    ELSE LET m == MatchFrom(P, [ k \in DOMAIN P |-> Start ], in, o, 0, [ n |-> 0, k |-> {} ])
             K == { D.items[k] : k \in m.k }
             strong == { a \in K : a.n \notin D.weak }
             b == Best(D, K)
             l == IF m.n = 0 THEN 1 ELSE m.n
         IN  << [ n |-> IF K = {} THEN <<>> ELSE b.n, s |-> IF K = {} \/ b.n \notin D.weak \/ strong = {} THEN <<>> ELSE Best(D, strong).n,
                  o |-> o, l |-> l, ks |-> { a.n : a \in K } ] >> \o Tokens(D, P, in, o + l)
Lexed(D, in) == Tokens(D, [ k \in 1..Len(D.items) |-> OfItem(D.items[k], D.exprs) ], in, 0)
=============================================================================
