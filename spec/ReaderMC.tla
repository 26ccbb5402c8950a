------------------------------- MODULE ReaderMC -----------------------------
(***************************************************************************)
(* Parsers with ignored and weak symbols and precedences as state          *)
(* machines, for every grammar of a family, every choice of ignored, weak  *)
(* and strong symbols, every precedence table and every short word.        *)
(* The tables know nothing of the language; what is checked is stated on   *)
(* the language alone:                                                     *)
(*   ignored, weak: the tokens are read from left to right; one that some  *)
(*       sentence can continue with is itself, otherwise it is skipped or  *)
(*       becomes its strong symbol.  The word is accepted iff what was     *)
(*       read is a sentence.                                               *)
(*   precedence: every expression has exactly one tree that respects the   *)
(*       precedences, and that is the one the parser builds.               *)
(***************************************************************************)
EXTENDS Readers, TLC

CONSTANTS Family, MaxLen, Levels

VARIABLES syms, G, prec, weak, ign, mach, acts, phase, w, pos, st, evs, res
vars == <<syms, G, prec, weak, ign, mach, acts, phase, w, pos, st, evs, res>>

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Sets(S, k) == { x \in SUBSET S : x # {} /\ Cardinality(x) <= k }
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
T == [ k |-> "t", r |-> <<>> ]
NT(rules) == [ k |-> "n", r |-> AsSeq(rules) ]
Start == 4
Words == {1, 2, 3}

\* operators 1, 2 (infix) and 3 (infix or prefix), operand 5
Ops(kind) == <<T, T, T, [ k |-> "n", r |-> << <<4, 1, 4>>, <<4, 2, 4>>, IF kind = "prefix" THEN <<3, 4>> ELSE IF kind = "postfix" THEN <<4, 3>> ELSE <<4, 3, 4>>, <<5>> >> ], T>>
OpRules == { <<<<4, 1, 4>>, 1>>, <<<<4, 2, 4>>, 2>>, <<<<4, 3, 4>>, 3>>, <<<<3, 4>>, 3>>, <<<<4, 3>>, 3>> }
Grammars == IF Family = "ops" THEN { Ops(k) : k \in {"infix", "prefix", "postfix"} }
            ELSE IF Family = "small" THEN { <<T, T, T, NT(R)>> : R \in Sets(Seqs({1, 2, 4}, 2), 3) }
            ELSE { <<T, T, T, NT(R), NT(Q)>> : R \in { x \in Sets(Seqs({1, 2, 4, 5}, 2), 2) : \E r \in x : \E i \in DOMAIN r : r[i] = 5 }, Q \in Sets(Seqs({1, 2, 5}, 2), 2) }
\* operators that share a level share its associativity
Precs == 
         IF Family = "ops" THEN { [ o \in 1..3 |-> <<lv[o], as[lv[o]]>> ] : lv \in [1..3 -> 1..Levels], as \in [1..Levels -> {"left", "right"}] } ELSE {<<>>}
Weaks == IF Family = "ops" THEN {<<>>} ELSE {<<>>} \cup { (p[1] :> p[2]) : p \in { q \in Words \X Words : q[1] # q[2] } }
Igns == IF Family = "ops" THEN {{}} ELSE SUBSET Words

\* the whole automaton
LC == LeftCorners(G)
K0 == {<<0, <<Start>>, 0>>}
Goto(k) == LET cl == k \cup New(G, ClosureNTs(LC, k)) IN [ x \in { After(i) : i \in cl } \ {0} |-> { Adv(i) : i \in { j \in cl : After(j) = x } } ]
RECURSIVE Grow(_, _)
Grow(done, todo) == IF todo = {} THEN done ELSE LET all == done \cup todo IN Grow(all, UNION { { Goto(k)[x] : x \in DOMAIN Goto(k) } : k \in todo } \ all)
Mach == LET K == AsSeq(Grow({}, {K0}))
            at(k) == (CHOOSE i \in 1..Len(K) : K[i] = k) - 1
        IN  [ ker |-> [ q \in 0..(Len(K) - 1) |-> K[q + 1] ],
              tr |-> [ q \in 0..(Len(K) - 1) |-> LET g == Goto(K[q + 1]) IN [ x \in DOMAIN g |-> at(g[x]) ] ],
              init |-> (at(K0) :> EOI) ]

Init == /\ syms \in Grammars /\ G = TLCEval(Flattened(syms))
        /\ prec = <<>> /\ weak = <<>> /\ ign = {} /\ mach = <<>> /\ acts = <<>> /\ phase = "build"
        /\ w = <<>> /\ pos = 0 /\ st = <<>> /\ evs = <<>> /\ res = "none"
BuildIt == /\ phase = "build"
           /\ mach' = TLCEval(Mach)
           /\ LET LA == TLCEval(Lookaheads(G, mach')) IN
              acts' = TLCEval([ q \in DOMAIN mach'.ker |-> Actions(G, mach', LA, LC, q) ])
           /\ phase' = IF Family # "ops" /\ \E q \in DOMAIN acts' : Conflicts(acts'[q]) # {} THEN "conflict" ELSE "choose"
           /\ UNCHANGED <<syms, G, prec, weak, ign, w, pos, st, evs, res>>
Operands == [ i \in 1..(2 * MaxLen + 1) |-> IF i % 2 = 1 THEN 5 ELSE 0 ]
Choose == /\ phase = "choose" /\ phase' = "parse"
          /\ prec' \in Precs /\ weak' \in Weaks /\ ign' \in { x \in Igns : DOMAIN weak' \cap x = {} /\ (weak' # <<>> \/ x # {} \/ Family = "ops") }
          /\ acts' = IF prec' = <<>> THEN acts ELSE TLCEval([ q \in DOMAIN acts |-> Resolve(prec', G.T, acts[q]) ])
          /\ IF Family = "ops" THEN w' \in { x \in Seqs({1, 2, 3, 5}, MaxLen) : x # <<>> /\ Derives(G, Start, x) } ELSE w' \in Seqs(Words, MaxLen)
          /\ st' = << <<CHOOSE q \in DOMAIN mach.init : TRUE, 0>> >>
          /\ UNCHANGED <<syms, G, mach, pos, evs, res>>

\* one step of the parser
Top == st[Len(st)][1]
Tok == IF pos < Len(w) THEN w[pos + 1] ELSE EOI
Can(t) == CanShift(mach, acts, [ i \in 1..Len(st) |-> st[i][1] ], t, 60)
Read == IF Tok \in DOMAIN weak /\ ~Can(Tok) THEN weak[Tok] ELSE Tok
Parse == /\ phase = "parse" /\ res = "none"
         /\ LET C == Competing(acts[Top], Read)
                id == Len(SelectSeq(evs, LAMBDA e : e.a # "i")) + 1
                a == CHOOSE x \in C : x.t = "shift" \/ \A y \in C : y.t # "shift"
                k == Len(a.r)
                base == SubSeq(st, 1, Len(st) - k)
            IN  IF Tok \in ign /\ ~Can(Tok) THEN pos' = pos + 1 /\ evs' = Append(evs, Ev("i", Tok, <<>>, <<>>, pos, 0)) /\ UNCHANGED <<st, res>>
                ELSE IF C = {} THEN res' = "reject" /\ UNCHANGED <<pos, st, evs>>
                ELSE IF a.t = "shift" THEN pos' = pos + 1 /\ st' = Append(st, <<mach.tr[Top][Read], id>>) /\ evs' = Append(evs, Ev("s", Read, <<>>, <<>>, pos, id)) /\ UNCHANGED res
                ELSE IF a.t = "accept" THEN res' = "accept" /\ UNCHANGED <<pos, st, evs>>
                ELSE st' = Append(base, <<mach.tr[base[Len(base)][1]][a.h], id>>)
                     /\ evs' = Append(evs, Ev("r", a.h, a.r, [ i \in 1..k |-> st[Len(st) - k + i][2] ], IF pos < Len(w) THEN pos ELSE -1, id)) /\ UNCHANGED <<pos, res>>
         /\ UNCHANGED <<syms, G, prec, weak, ign, mach, acts, phase, w>>
Next == BuildIt \/ Choose \/ Parse
Spec == Init /\ [][Next]_vars

(* --- what the language says --- *)
RECURSIVE Reading(_, _)
Reading(p, i) ==
    IF i > Len(w) THEN p
    ELSE LET t == w[i] IN
         IF (t \in ign \/ t \in DOMAIN weak) /\ ~Prefix(G, Start, Append(p, t)) THEN (IF t \in ign THEN Reading(p, i + 1) ELSE Reading(Append(p, weak[t]), i + 1))
         ELSE Reading(Append(p, t), i + 1)
Reads == (phase = "parse" /\ res # "none" /\ Family # "ops") => ((res = "accept") <=> Derives(G, Start, Reading(<<>>, 1)))
Agrees == (phase = "parse" /\ res # "none") =>
    LET s == RunX(mach, acts, weak, ign, w, 0, << <<CHOOSE q \in DOMAIN mach.init : TRUE, 0>> >>, <<>>, 200) IN s.res = res /\ s.ev = evs

\* all derivation trees of a piece of the word, as operator trees
RECURSIVE Trees(_, _)
Trees(i, j) ==      \* of the tokens i+1..j
    LET leaf == [ op |-> 0, kids |-> <<>>, e |-> FALSE ]
        node(o, ks) == [ op |-> o, kids |-> ks, e |-> TRUE ]
    IN  IF j <= i THEN {}
        ELSE (IF j = i + 1 /\ w[j] = 5 THEN {node(0, <<leaf>>)} ELSE {})
             \cup UNION { IF <<4, w[m], 4>> \in G.P[4] THEN { node(w[m], <<p[1], leaf, p[2]>>) : p \in Trees(i, m - 1) \X Trees(m, j) } ELSE {} : m \in (i + 2)..(j - 1) }
             \cup (IF j > i + 1 /\ <<w[i + 1], 4>> \in G.P[4] THEN { node(w[i + 1], <<leaf, x>>) : x \in Trees(i + 1, j) } ELSE {})
             \cup (IF j > i + 1 /\ <<4, w[j]>> \in G.P[4] THEN { node(w[j], <<x, leaf>>) : x \in Trees(i, j - 1) } ELSE {})
Grouped == (phase = "parse" /\ Family = "ops" /\ res # "none") =>
    /\ res = "accept"
    /\ { t \in Trees(0, Len(w)) : Shaped(prec, t) } = { Build(OpRules, evs, 1, <<>>)[1] }
=============================================================================
