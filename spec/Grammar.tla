------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Context-free grammars in EBNF and what they mean.                       *)
(* A grammar is a table of symbols 1..n; symbol s has a kind k and rules r *)
(*   "t" terminal      "n" nonterminal with any number of rules            *)
(*   "opt" (X)?        "rep" (X)+       "star" (X)*      "alt" (X|Y|..)    *)
(*   "grd" [=> X]      (a symbol of its own; see the parser's rules)       *)
(* End of input is -1, end of guard -2, the empty word -3; 0 heads the     *)
(* imaginary rule of a start symbol.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EOI == -1
EOG == -2
EPS == -3

Rng(s) == { s[i] : i \in 1..Len(s) }

(* --- productions --- *)
Body(syms, s) == Rng(syms[s].r)

Prods0(syms, s) ==
    CASE syms[s].k \in {"n", "alt"} -> Body(syms, s)
      [] syms[s].k = "opt"  -> {<<>>} \cup Body(syms, s)
      [] syms[s].k = "rep"  -> Body(syms, s) \cup { <<s>> \o b : b \in Body(syms, s) }
      [] syms[s].k = "star" -> {<<>>} \cup { <<s>> \o b : b \in Body(syms, s) }
      [] OTHER -> {}

(* an alternative that consists of nothing but another group of alternatives is merged into the outer one *)
RECURSIVE Flat(_, _, _)
Flat(syms, s, seen) ==
    UNION { IF Len(b) = 1 /\ syms[b[1]].k = "alt"
              THEN (IF b[1] \in seen THEN {} ELSE Flat(syms, b[1], seen \cup {b[1]}))
              ELSE {b} : b \in Body(syms, s) }
ProdsF(syms, s) == IF syms[s].k = "alt" THEN Flat(syms, s, {s}) ELSE Prods0(syms, s)

Terms(syms) == { s \in 1..Len(syms) : syms[s].k \in {"t", "grd"} }
NTs(syms)   == (1..Len(syms)) \ Terms(syms)

(* --- nullable, FIRST, FOLLOW: least fixpoints --- *)
RECURSIVE NullFix(_, _, _)
NullFix(P, N, S) ==
    LET S2 == { s \in N : \E r \in P[s] : \A i \in 1..Len(r) : r[i] \in S }
    IN  IF S2 = S THEN S ELSE NullFix(P, N, S2)

SeqNull(Nu, r) == \A i \in 1..Len(r) : r[i] \in Nu
RECURSIVE SeqFirst(_, _, _)
SeqFirst(Nu, F, r) ==
    IF r = <<>> THEN {} ELSE IF r[1] \in Nu THEN F[r[1]] \cup SeqFirst(Nu, F, Tail(r)) ELSE F[r[1]]

RECURSIVE FirstFix(_, _, _, _)
FirstFix(P, N, Nu, F) ==
    LET F2 == [ s \in DOMAIN F |-> IF s \in N THEN F[s] \cup UNION { SeqFirst(Nu, F, r) : r \in P[s] } ELSE F[s] ]
    IN  IF F2 = F THEN F ELSE FirstFix(P, N, Nu, F2)

(* everything computed once per grammar *)
Analyse(syms, P) ==
    LET N  == NTs(syms)
        Nu == NullFix(P, N, {})
        F  == FirstFix(P, N, Nu, [ s \in 1..Len(syms) |-> IF s \in N THEN {} ELSE {s} ])
    IN  [ n |-> Len(syms), T |-> Terms(syms), N |-> N, P |-> P, nu |-> Nu, first |-> F ]

Plain(syms)     == Analyse(syms, [ s \in 1..Len(syms) |-> Prods0(syms, s) ])
Flattened(syms) == Analyse(syms, [ s \in 1..Len(syms) |-> ProdsF(syms, s) ])

(* symbols that occur in the rules of named nonterminals, directly or within EBNF items *)
RECURSIVE UsedFix(_, _)
UsedFix(G, S) == LET S2 == S \cup UNION { Rng(r) : r \in UNION { G.P[s] : s \in S \cap G.N } } IN IF S2 = S THEN S ELSE UsedFix(G, S2)

RECURSIVE FollowFix(_, _, _)
FollowFix(G, occ, F) ==
    \* occ: triples <<head, symbol, what follows it>>
    LET F2 == [ s \in DOMAIN F |-> F[s] \cup UNION { SeqFirst(G.nu, G.first, o[3]) \cup (IF SeqNull(G.nu, o[3]) THEN F[o[1]] ELSE {})
                                                     : o \in { x \in occ : x[2] = s } } ]
    IN  IF F2 = F THEN F ELSE FollowFix(G, occ, F2)

Follow(syms, G) ==
    LET used == UsedFix(G, { s \in G.N : syms[s].k = "n" })
        occ == UNION { { <<h, r[i], SubSeq(r, i + 1, Len(r))>> : i \in 1..Len(r) } : <<h, r>> \in UNION { { <<h, r>> : r \in G.P[h] } : h \in used \cap G.N } }
    IN  FollowFix(G, occ, [ s \in 1..G.n |-> {} ])

(* --- the language, up to a length --- *)
RECURSIVE Cat(_, _, _, _)
Cat(L, r, acc, n) ==
    IF r = <<>> \/ acc = {} THEN acc
    ELSE Cat(L, Tail(r), { u \o v : <<u, v>> \in { <<a, b>> \in acc \X L[r[1]] : Len(a) + Len(b) <= n } }, n)

RECURSIVE LangFix(_, _, _)
LangFix(G, n, L) ==
    LET L2 == [ s \in DOMAIN L |-> IF s \in G.N THEN L[s] \cup UNION { Cat(L, r, {<<>>}, n) : r \in G.P[s] } ELSE L[s] ]
    IN  IF L2 = L THEN L ELSE LangFix(G, n, L2)
(* --- membership of one (longer) word: D[<<s, i>>] = where a piece derived from s that starts at i can end --- *)
RECURSIVE PieceEnds(_, _, _)
PieceEnds(D, r, S) == IF r = <<>> \/ S = {} THEN S ELSE PieceEnds(D, Tail(r), UNION { D[<<r[1], i>>] : i \in S })
RECURSIVE PieceFix(_, _)
PieceFix(G, D) ==
    LET D2 == [ x \in DOMAIN D |-> IF x[1] \in G.N THEN D[x] \cup UNION { PieceEnds(D, r, {x[2]}) : r \in G.P[x[1]] } ELSE D[x] ]
    IN  IF D2 = D THEN D ELSE PieceFix(G, D2)
Pieces(G, w) == PieceFix(G, [ x \in (1..G.n) \X (0..Len(w)) |-> IF x[1] \in G.T /\ x[2] < Len(w) /\ w[x[2] + 1] = x[1] THEN {x[2] + 1} ELSE {} ])
Derives(G, s, w) == Len(w) \in Pieces(G, w)[<<s, 0>>]

(* --- can some sentence derived from s start with w? --- *)
RECURSIVE LiveFix(_, _)
LiveFix(G, S) == LET S2 == S \cup { s \in G.N : \E r \in G.P[s] : Rng(r) \subseteq S } IN IF S2 = S THEN S ELSE LiveFix(G, S2)
\* <<s, i>>: s derives something that starts with the rest of w from i (and may go on)
RECURSIVE ReachesFix(_, _, _, _, _)
ReachesFix(G, w, D, live, R) ==
    LET ok(r, i) == Rng(r) \subseteq live /\ \E j \in 1..Len(r) : \E k \in PieceEnds(D, SubSeq(r, 1, j - 1), {i}) : <<r[j], k>> \in R
        R2 == R \cup { x \in G.N \X (0..Len(w)) : \E r \in G.P[x[1]] : ok(r, x[2]) }
    IN  IF R2 = R THEN R ELSE ReachesFix(G, w, D, live, R2)
Prefix(G, s, w) ==
    LET D == Pieces(G, w)
        live == LiveFix(G, G.T)
    IN  <<s, 0>> \in ReachesFix(G, w, D, live, { x \in (1..G.n) \X (0..Len(w)) : x[1] \in live /\ (x[2] = Len(w) \/ (x[1] \in G.T /\ x[2] = Len(w) - 1 /\ w[Len(w)] = x[1])) })

Lang(G, n) == LangFix(G, n, [ s \in 1..G.n |-> IF s \in G.N THEN {} ELSE {<<s>>} ])

=============================================================================
