------------------------------- MODULE GuardMC -----------------------------
(***************************************************************************)
(* Guards as a state machine over every grammar of a family: the           *)
(* automaton is built with a start state for every guard, the parser       *)
(* checks guards by running the automaton ahead of itself, and what it     *)
(* accepts must be what guards mean in terms of the language alone.        *)
(***************************************************************************)
EXTENDS Guards, TLC

CONSTANTS Family, MaxLen
VARIABLES syms, G, mach, acts, K, phase, w, pos, st, evs, pend, res
vars == <<syms, G, mach, acts, K, phase, w, pos, st, evs, pend, res>>

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Sets(S, k) == { x \in SUBSET S : x # {} /\ Cardinality(x) <= k }
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
T == [ k |-> "t", r |-> <<>> ]
NT(rules) == [ k |-> "n", r |-> AsSeq(rules) ]
Grd(b) == [ k |-> "grd", r |-> <<b>> ]
Start == 3

Uses(R, x) == \E r \in R : \E i \in DOMAIN r : r[i] = x
Grammars ==
    IF Family = "one"          \* S over two tokens, itself and a guard
    THEN { <<T, T, NT(R), Grd(b)>> : R \in { x \in Sets(Seqs({1, 2, 3, 4}, 2), 2) \cup { {<<4, 1, 3>>, r, q} : r, q \in Seqs({1, 2, 3}, 2) } : Uses(x, 4) },
                                     b \in { s \in Seqs({1, 2, 3}, 2) : s # <<>> } }
    ELSE { <<T, T, NT({<<4>> \o r, <<5>> \o q, p}), Grd(b), Grd(d)>> :      \* two guards, one looking for the other
             r \in Seqs({1, 2, 3}, 2), q \in {<<1>>, <<2>>, <<1, 3>>}, p \in {<<>>, <<1>>, <<2, 3>>},
             b \in {<<5>>, <<5, 1>>, <<5, 2>>, <<1, 5>>, <<2, 5>>}, d \in {<<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>} }

LC == LeftCorners(G)
K0 == {<<0, <<Start>>, 0>>}
KG(g) == {<<g, BodyOf(syms, g), 0>>}
Goto(k) == LET cl == k \cup New(G, ClosureNTs(LC, k)) IN [ x \in { After(i) : i \in cl } \ {0} |-> { Adv(i) : i \in { j \in cl : After(j) = x } } ]
RECURSIVE Grow(_, _)
Grow(done, todo) == IF todo = {} THEN done
                    ELSE LET all == done \cup todo
                             next == UNION { { Goto(k)[x] : x \in DOMAIN Goto(k) } \cup { KG(g) : g \in DOMAIN Goto(k) \cap GuardSyms(syms) } : k \in todo }
                         IN  Grow(all, next \ all)
Mach == LET KK == AsSeq(Grow({}, {K0}))
            at(k) == (CHOOSE i \in 1..Len(KK) : KK[i] = k) - 1
            used == { g \in GuardSyms(syms) : KG(g) \in Rng(KK) }
        IN  [ ker |-> [ q \in 0..(Len(KK) - 1) |-> KK[q + 1] ],
              tr |-> [ q \in 0..(Len(KK) - 1) |-> LET g == Goto(KK[q + 1]) IN [ x \in DOMAIN g |-> at(g[x]) ] ],
              init |-> (at(K0) :> EOI) @@ [ q \in { at(KG(g)) : g \in used } |-> EOG ],
              at |-> [ g \in used |-> at(KG(g)) ], first |-> at(K0) ]

Init == /\ syms \in Grammars /\ G = TLCEval(Flattened(syms))
        /\ mach = <<>> /\ acts = <<>> /\ K = <<>> /\ phase = "build"
        /\ w = <<>> /\ pos = 0 /\ st = <<>> /\ evs = <<>> /\ res = "none" /\ pend = 0
Fine == \A g \in GuardSyms(syms) : ~SeqNull(G.nu, BodyOf(syms, g)) /\ ~SelfStarting(syms, G, g, {g})
BuildIt == /\ phase = "build" /\ Fine
           /\ mach' = TLCEval(Mach)
           /\ LET LA == TLCEval(Lookaheads(G, mach')) IN
              acts' = TLCEval([ q \in DOMAIN mach'.ker |-> Actions(G, mach', LA, LC, q) ])
           /\ K' = TLCEval([ at |-> mach'.at, ini |-> [ g \in DOMAIN mach'.at |-> Initial(syms, G, g, {}) ] ])
           /\ IF \E q \in DOMAIN acts' : Conflicts(acts'[q]) # {} THEN phase' = "conflict" /\ UNCHANGED <<w, st>>
              ELSE phase' = "parse" /\ w' \in Seqs({1, 2}, MaxLen) /\ st' = << <<mach'.first, 0>> >>
           /\ UNCHANGED <<syms, G, pos, evs, res, pend>>
States == [ i \in 1..Len(st) |-> st[i][1] ]
Top == st[Len(st)][1]
Step == /\ phase = "parse" /\ res = "none" /\ Len(evs) < 12 + 6 * Len(w)
        /\ LET cand == IF pend # 0 THEN <<{pend}, FALSE>> ELSE Candidates(mach, acts, K, w, pos, States, 30)
               g == IF cand[1] = {} THEN 0 ELSE CHOOSE x \in cand[1] : TRUE
               t == IF g # 0 THEN g ELSE TokAt(w, pos)
               C == Competing(acts[Top], t)
               a == CHOOSE x \in C : TRUE
               k == Len(a.r)
               base == SubSeq(st, 1, Len(st) - k)
               id == Len(evs) + 1
           IN  IF cand[2] THEN res' = "open" /\ UNCHANGED <<pos, st, evs, pend>>
               ELSE IF C = {} THEN res' = "reject" /\ UNCHANGED <<pos, st, evs, pend>>
               ELSE IF a.t = "accept" THEN res' = "accept" /\ UNCHANGED <<pos, st, evs, pend>>
               ELSE /\ UNCHANGED res
                    /\ IF a.t = "shift" THEN pos' = (IF g = 0 THEN pos + 1 ELSE pos) /\ pend' = 0 /\ st' = Append(st, <<mach.tr[Top][t], id>>)
                                             /\ evs' = Append(evs, Ev("s", TokAt(w, pos), <<>>, <<>>, pos, id))
                       ELSE pend' = g /\ UNCHANGED pos /\ st' = Append(base, <<mach.tr[base[Len(base)][1]][a.h], id>>)
                            /\ evs' = Append(evs, Ev("r", a.h, a.r, [ i \in 1..k |-> st[Len(st) - k + i][2] ], IF pos < Len(w) THEN pos ELSE -1, id))
        /\ UNCHANGED <<syms, G, mach, acts, K, phase, w>>
Next == BuildIt \/ Step
Spec == Init /\ [][Next]_vars

Meaning == (phase = "parse" /\ res \in {"accept", "reject"}) =>
    LET GX == Flattened(WithBodies(syms))
        m == ReadG(syms, GX, Start, w, 0, <<>>, 30)
    IN  m[1] = "read" => ((res = "accept") <=> Derives(GX, Start, m[2]))
Agrees == (phase = "parse" /\ res # "none") =>
    LET s == RunG(mach, acts, K, w, 0, << <<mach.first, 0>> >>, <<>>, 0, 200) IN s.res = "open" \/ (s.res = res /\ s.ev = evs)
=============================================================================
