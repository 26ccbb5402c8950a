-------------------------------- MODULE LrMC -------------------------------
(***************************************************************************)
(* The parser generator and the parser as a state machine, for every       *)
(* grammar of a family and every short word.                               *)
(*   build      the LR(0) automaton grows state by state, in any order     *)
(*   look       lookaheads propagate along the automaton, in any order     *)
(*   parse      the table-driven parser reads one word                     *)
(* Checked: the automaton and the lookaheads do not depend on the order    *)
(* and are the declared ones; in a grammar without conflicts the parser    *)
(* accepts exactly the words of the language, every stack symbol derives   *)
(* what it covers, no token that cannot continue any sentence is shifted,  *)
(* and every parse ends.                                                   *)
(***************************************************************************)
EXTENDS Lr, TLC

CONSTANTS Family,      \* "one", "two", "ebnf"
          MaxLen,      \* length of the words
          AnyOrder     \* explore all orders of construction

VARIABLES syms, G, lang, phase, done, todo, tr, la, dirty, w, pos, st, res, steps
fixed == <<syms, G>>
vars == <<syms, G, lang, phase, done, todo, tr, la, dirty, w, pos, st, res, steps>>

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Sets(S, k) == { x \in SUBSET S : x # {} /\ Cardinality(x) <= k }
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
T == [ k |-> "t", r |-> <<>> ]
NT(rules) == [ k |-> "n", r |-> AsSeq(rules) ]

Start == 3
Grammars ==
    CASE Family = "one"  -> { <<T, T, NT(R)>> : R \in Sets(Seqs({1, 2, 3}, 2), 3) }
      [] Family = "tiny" -> { <<T, T, NT(R)>> : R \in Sets(Seqs({1, 2, 3}, 2), 2) }
      [] Family = "two"  -> { <<T, T, NT(R), NT(Q)>> : R \in { x \in Sets(Seqs({1, 3, 4}, 2), 2) : \E r \in x : \E i \in DOMAIN r : r[i] = 4 }, Q \in Sets(Seqs({1, 2, 3, 4}, 2), 2) }
      [] Family = "ebnf" -> { <<T, T, NT(R), [ k |-> k, r |-> <<b>> ]>> : R \in { x \in Sets(Seqs({1, 3, 4}, 2), 2) : \E r \in x : \E i \in DOMAIN r : r[i] = 4 },
                                                                     k \in {"opt", "rep", "star"}, b \in Seqs({1, 2, 3}, 2) }

LC == LeftCorners(G)
K0 == {<<0, <<Start>>, 0>>}
Items(k) == k \cup New(G, ClosureNTs(LC, k))
Goto(k) == LET cl == Items(k) IN [ x \in { After(i) : i \in cl } \ {0} |-> { Adv(i) : i \in { j \in cl : After(j) = x } } ]

Init == /\ syms \in Grammars /\ G = TLCEval(Flattened(syms)) /\ lang = {}
        /\ phase = "build" /\ done = {} /\ todo = {K0} /\ tr = <<>> /\ la = <<>> /\ dirty = {}
        /\ w = <<>> /\ pos = 0 /\ st = <<>> /\ res = "none" /\ steps = 0

Pick(S) == IF AnyOrder THEN S ELSE {CHOOSE x \in S : TRUE}

Build == /\ phase = "build" /\ todo # {}
         /\ \E k \in Pick(todo) :
              LET g == Goto(k) IN
              /\ done' = done \cup {k}
              /\ todo' = (todo \cup { g[x] : x \in DOMAIN g }) \ done'
              /\ tr' = tr @@ (k :> g)
         /\ UNCHANGED <<fixed, lang, phase, la, dirty, w, pos, st, res, steps>>

\* lookahead of the items of a state: pairs <<kernel, item>>; the closure is worked out as in the generator
RECURSIVE CloseLa(_, _)
CloseLa(cl, F) ==
    LET F2 == [ i \in DOMAIN F |-> F[i] \cup
                 IF i[3] # 0 \/ i[1] = 0 THEN {} ELSE
                 UNION { SeqFirst(G.nu, G.first, Rest(j)) \cup (IF SeqNull(G.nu, Rest(j)) THEN F[j] ELSE {}) : j \in { x \in cl : After(x) = i[1] } } ]
    IN  IF F2 = F THEN F ELSE CloseLa(cl, F2)
Closed(k, L) == CloseLa(Items(k), [ i \in Items(k) |-> IF i \in k THEN L[i] ELSE {} ])

StartLook == /\ phase = "build" /\ todo = {}
             /\ phase' = "look"
             /\ la' = [ k \in done |-> [ i \in k |-> IF k = K0 THEN {EOI} ELSE {} ] ]
             /\ dirty' = done
             /\ UNCHANGED <<fixed, lang, done, todo, tr, w, pos, st, res, steps>>

\* hand the lookaheads of one state on to its successors
Look == /\ phase = "look" /\ dirty # {}
        /\ \E k \in Pick(dirty) :
             LET F == Closed(k, la[k])
                 new == [ t \in done |-> [ j \in t |-> la[t][j] \cup
                            IF \E x \in DOMAIN tr[k] : tr[k][x] = t /\ j[3] > 0 /\ x = j[2][j[3]]
                            THEN F[<<j[1], j[2], j[3] - 1>>] ELSE {} ] ]
             IN  /\ la' = new
                 /\ dirty' = (dirty \ {k}) \cup { t \in done : new[t] # la[t] }
        /\ UNCHANGED <<fixed, lang, phase, done, todo, tr, w, pos, st, res, steps>>

ActionsAt(k) ==
    LET F == Closed(k, la[k]) IN
    { <<"shift", x, <<>>, 0>> : x \in DOMAIN tr[k] \cap G.T }
    \cup UNION { { <<IF i[1] = 0 THEN "accept" ELSE "reduce", x, i[2], i[1]>> : x \in F[i] } : i \in { j \in Items(k) : After(j) = 0 } }
Clash == \E k \in done : LET A == ActionsAt(k) IN \E a, b \in A : a # b /\ a[2] = b[2]

StartParse == /\ phase = "look" /\ dirty = {}
              /\ IF Clash THEN phase' = "conflict" /\ UNCHANGED <<w, st, lang>>
                 ELSE phase' = "parse" /\ w' \in Seqs({1, 2}, MaxLen) /\ st' = <<<<K0, 0, <<>>>>>> /\ lang' = TLCEval(Lang(G, MaxLen + 1))
              /\ UNCHANGED <<fixed, done, todo, tr, la, dirty, pos, res, steps>>

Top == st[Len(st)]
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten(Tail(s))
Parse == /\ phase = "parse" /\ res = "none" /\ steps' = steps + 1
         /\ LET t == IF pos < Len(w) THEN w[pos + 1] ELSE EOI
                A == { a \in ActionsAt(Top[1]) : a[2] = t }
            IN  IF A = {} THEN res' = "reject" /\ UNCHANGED <<pos, st>>
                ELSE LET a == CHOOSE x \in A : TRUE
                         n == Len(a[3])
                         base == SubSeq(st, 1, Len(st) - n)
                         cov == Flatten([ i \in 1..n |-> st[Len(st) - n + i][3] ])
                     IN  CASE a[1] = "shift"  -> pos' = pos + 1 /\ st' = Append(st, <<tr[Top[1]][t], t, <<t>>>>) /\ UNCHANGED res
                           [] a[1] = "accept" -> res' = "accept" /\ UNCHANGED <<pos, st>>
                           [] OTHER -> st' = Append(base, <<tr[base[Len(base)][1]][a[4]], a[4], cov>>) /\ UNCHANGED <<pos, res>>
         /\ UNCHANGED <<fixed, lang, phase, done, todo, tr, la, dirty, w>>

Next == Build \/ StartLook \/ Look \/ StartParse \/ Parse
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
ById == AsSeq(done)
Mach == [ ker |-> [ q \in 0..(Cardinality(done) - 1) |-> ById[q + 1] ],
          tr |-> [ q \in 0..(Cardinality(done) - 1) |-> [ x \in DOMAIN tr[ById[q + 1]] |-> (CHOOSE i \in 1..Cardinality(done) : ById[i] = tr[ById[q + 1]][x]) - 1 ] ],
          init |-> (((CHOOSE i \in 1..Cardinality(done) : ById[i] = K0) - 1) :> EOI) ]
Automaton == (phase = "look" /\ dirty = {}) => LET M == Mach IN
    /\ Lr0Wrong(G, M) = <<"ok", 0>>
    /\ LET L == Lookaheads(G, M) IN \A q \in DOMAIN M.ker : \A i \in M.ker[q] : L[<<q, i>>] = la[ById[q + 1]][i]

Language == (phase = "parse" /\ res # "none") => ((res = "accept") <=> (w \in lang[Start]))
Covers == phase = "parse" => LET L == lang IN
    /\ Flatten([ i \in 1..Len(st) |-> st[i][3] ]) = SubSeq(w, 1, pos)
    /\ \A i \in 2..Len(st) : st[i][3] \in L[st[i][2]]
\* a token is shifted only if some sentence continues that way; sentences are known up to MaxLen + 1
ErrorAt == (phase = "parse" /\ res = "reject" /\ pos < Len(w)) =>
    \A x \in lang[Start] : Len(x) > pos => SubSeq(x, 1, pos + 1) # SubSeq(w, 1, pos + 1)
\* every parse ends: between two tokens a parser without conflicts can only reduce a bounded number of times
Ends == steps <= (Len(w) + 2) * (Cardinality(done) + 1)
=============================================================================
