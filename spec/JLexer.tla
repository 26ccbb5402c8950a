------------------------------- MODULE JLexer -------------------------------
(***************************************************************************)
(* Judge for P03.  Every run of a real lexer was recorded as its sequence  *)
(* of lexemes; the specification decides, from the meaning of the          *)
(* expressions alone, what that sequence has to be: longest match, ties    *)
(* broken by the smallest symbol, one unmatched symbol where nothing       *)
(* matches, positions counted from the input.                              *)
(***************************************************************************)
EXTENDS Regex, Judge

Newlines == {10, 11, 12, 13, 133, 8232, 8233}

\* does the k'th expression belong to start state s?
SpecOf(c, k) ==
    LET e == c.ex[k]
        A == IF e.lit THEN CompileLit(e.re) ELSE Compile(e.re, c.defs)
    IN Utf16(A)

(* all non-empty matches of the expressions in Ks at offset o: a function from length to symbols *)
RECURSIVE Scan(_, _, _, _, _, _, _)
\* P: automata, S: configurations, best: [n, sym] of the longest match so far
Scan(c, P, S, in, o, n, best) ==
    IF o + n >= Len(in) \/ \A k \in DOMAIN S : S[k] = {} THEN best
    ELSE LET S2 == [k \in DOMAIN S |-> StepPos(P[k], S[k], in[o + n + 1])]
             acc == { c.ex[k].sym : k \in { x \in DOMAIN S2 : Accepting(P[x], S2[x]) } }
             b == IF acc = {} THEN best ELSE [n |-> n + 1, sym |-> CHOOSE s \in acc : \A t \in acc : s <= t]
         IN Scan(c, P, S2, in, o, n + 1, b)

Line(in, o) == Cardinality({ i \in 1..o : in[i] \in Newlines /\ ~(in[i] = 10 /\ i > 1 /\ in[i - 1] = 13) })
Col(in, o)  == LET N == { i \in 1..o : in[i] \in Newlines } IN IF N = {} THEN o ELSE o - (CHOOSE i \in N : \A j \in N : j <= i)

\* final position of a lexeme: counted from its own start, so a line feed at its start always counts
FinLine(in, o, n) == Line(in, o) + Cardinality({ i \in (o + 1)..(o + n) : in[i] \in Newlines /\ ~(in[i] = 10 /\ i > o + 1 /\ in[i - 1] = 13) })

RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(c, P, in, toks, starts, i, o) ==
    \* starts(i, last): start state of lexeme i given the last symbol of the one before
    IF o = Len(in) THEN (IF i = Len(toks) + 1 THEN "ok" ELSE "too many lexemes")
    ELSE IF i > Len(toks) THEN "the input was not consumed"
    ELSE LET t == toks[i]
             last == IF i = 1 THEN -1 ELSE in[o]
             st == CASE starts = "zero" -> 0
                     [] starts = "newline" -> IF last \in Newlines THEN 1 ELSE 0
                     [] starts = "first" -> IF i = 1 THEN 1 ELSE 0
                     [] starts = "sched" -> IF i <= Len(c.sched) THEN c.sched[i] ELSE 0
             S == [k \in { x \in 1..Len(c.ex) : c.ex[x].start = st } |-> Start]
             m == Scan(c, P, S, in, o, 0, [n |-> 0, sym |-> -1])
             n == IF m.n = 0 THEN 1 ELSE m.n
         IN  IF Len(t.text) # n THEN "not the longest match"
             ELSE IF t.text # SubSeq(in, o + 1, o + n) THEN "wrong text"
             ELSE IF t.sym # m.sym THEN "wrong symbol"
             ELSE IF t.off # o THEN "wrong offset"
             ELSE IF t.line # Line(in, o) THEN "wrong line"
             ELSE IF t.col # Col(in, o) THEN "wrong column"
             ELSE IF t.foff # o + n \/ t.fcol # Col(in, o + n) \/ t.fline # FinLine(in, o, n)
                  THEN "wrong final position"
             ELSE Walk(c, P, in, toks, starts, i + 1, o + n)

LexVerdict(c) ==
    LET P == [k \in 1..Len(c.ex) |-> SpecOf(c, k)]
        one(i, r) == LET run == c.obs.runs[r] IN
             IF run.skip[i] THEN "ok" ELSE Walk(c, P, c.inputs[i], run.toks[i], run.starts, 1, 0)
        res == { <<i, r>> \in (1..Len(c.inputs)) \X (1..Len(c.obs.runs)) : one(i, r) # "ok" }
    IN  IF res = {} THEN "ok"
        ELSE LET x == CHOOSE y \in res : TRUE IN c.obs.runs[x[2]].name \o ": " \o one(x[1], x[2])
=============================================================================
