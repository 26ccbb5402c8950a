------------------------------ MODULE JCopies ------------------------------
(***************************************************************************)
(* Judge for copies: every reference to a parser stack sees the stack it   *)
(* would have if it were the only one (ParserStack's abstract view), and   *)
(* every copy of a parser goes on as the one run of the grammar's parser   *)
(* on the input, whatever is done with the other copies in between.        *)
(***************************************************************************)
EXTENDS JLr

RECURSIVE Replay(_, _, _, _)
\* abs: 0..7 -> stack or <<>>
Replay(ops, obs, i, abs) ==
    IF i > Len(ops) THEN "ok"
    ELSE LET op == ops[i][1]
             a == ops[i][2]
             b == ops[i][3]
             ret == IF op = "pop" /\ Len(abs[a]) = 1 THEN 0 ELSE 1
             n == CASE op = "push" -> [ abs EXCEPT ![a] = Append(@, b) ]
                    [] op = "pop"  -> IF ret = 0 THEN abs ELSE [ abs EXCEPT ![a] = SubSeq(@, 1, Len(@) - 1) ]
                    [] op \in {"copy", "set"} -> [ abs EXCEPT ![b] = abs[a] ]
                    [] op = "drop" -> [ abs EXCEPT ![a] = <<>> ]
         IN  IF obs[i][1] # ret THEN "result of operation " \o ToString(i)
             ELSE IF \E h \in 0..7 : obs[i][2][h + 1] # n[h] THEN "after operation " \o ToString(i) \o " some reference sees "
                        \o ToString(CHOOSE h \in 0..7 : obs[i][2][h + 1] # n[h]) \o " differently"
             ELSE Replay(ops, obs, i + 1, n)

\* the stack of trees after k steps of a run
RECURSIVE Trees(_, _, _, _)
Trees(ev, k, i, st) ==
    IF i > k THEN st
    ELSE LET e == ev[i] IN
         IF e.a = "s" THEN Trees(ev, k, i + 1, Append(st, <<e.s, e.p>>))
         ELSE LET n == Len(e.r) IN Trees(ev, k, i + 1, Append(SubSeq(st, 1, Len(st) - n), <<e.s>> \o SubSeq(st, Len(st) - n + 1, Len(st))))

RECURSIVE Follow1(_, _, _, _, _)
\* steps: copies -> steps made so far
Follow1(c, run, i, steps, done) ==
    IF i > Len(c.ops) THEN "ok"
    ELSE LET op == c.ops[i][1]
             a == c.ops[i][2]
             b == c.ops[i][3]
         IN  IF op = "drop" \/ (op = "step" /\ done[a]) THEN Follow1(c, run, i + 1, steps, done)
             ELSE IF op = "copy" THEN Follow1(c, run, i + 1, [ steps EXCEPT ![b] = steps[a] ], [ done EXCEPT ![b] = done[a] ])
             ELSE LET k == steps[a] + 1
                      last == k > Len(run.ev)
                      want == IF last THEN run.res ELSE "more"
                      st == Trees(run.ev, IF last THEN Len(run.ev) ELSE k, 1, <<>>)
                      got == c.obs.log[i]
                  IN  IF got[1] # want THEN "step " \o ToString(k) \o " of copy " \o ToString(a) \o " gave " \o got[1] \o ", expected " \o want
                      ELSE IF got[2] # (IF st = <<>> THEN <<>> ELSE st[Len(st)]) THEN "result on top after step " \o ToString(k) \o " of copy " \o ToString(a)
                      ELSE Follow1(c, run, i + 1, [ steps EXCEPT ![a] = k ], [ done EXCEPT ![a] = last ])

CopiesVerdict(c) ==
    IF c.kind = "stack" THEN Replay(c.ops, c.obs.h, 1, [ h \in 0..7 |-> IF h = 0 THEN <<0>> ELSE <<>> ])
    ELSE LET W == Work(c)
             run == Run(W.M, W.acts, c.w, 0, <<<<c.obs.init[1], 0>>>>, <<>>, 300)
         IN  IF W.shape # "ok" \/ W.lr0[1] # "ok" \/ run.res = "open" THEN "ok"
             ELSE IF c.obs.reads > Len(c.w) + 1 THEN "the input was read more than once"
             ELSE Follow1(c, run, 1, [ h \in 0..7 |-> 0 ], [ h \in 0..7 |-> FALSE ])
=============================================================================
