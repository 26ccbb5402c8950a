------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer as a machine: it reads symbols into a buffer, runs a state    *)
(* machine over it, remembers the last accepting position, and when the    *)
(* machine rejects (or input ends) emits the accepted prefix, or a single  *)
(* unmatched symbol, and starts again on what is left of the buffer.       *)
(* TLC checks, for every machine and every input within the constants,     *)
(* that the emitted lexemes tile the input and are the longest matches.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NStates, NSyms, MaxLen, NewlineSym, NewlineState
States == 0..(NStates - 1)
Syms == 1..NSyms

VARIABLES delta, accept, input,      \* the machine and the input: chosen once
          rest, buf,                 \* not yet read; read but not emitted
          pos, state, accPos, accSym, start,   \* the current run over buf
          toks, done
conf == <<delta, accept, input>>
vars == <<conf, rest, buf, pos, state, accPos, accSym, start, toks, done>>

Inputs == UNION { [1..n -> Syms] : n \in 0..MaxLen }

Init == /\ delta \in [States -> [Syms -> States \cup {-1}]]
        /\ accept \in [States -> {-1, 0, 1}]
        /\ input \in Inputs
        /\ rest = input /\ buf = <<>> /\ pos = 0 /\ state = 0 /\ accPos = -1 /\ accSym = -1
        /\ start = 0 /\ toks = <<>> /\ done = FALSE

Running == state >= 0 /\ ~done
Fill == /\ Running /\ pos = Len(buf) /\ rest # <<>>
        /\ buf' = Append(buf, Head(rest)) /\ rest' = Tail(rest)
        /\ UNCHANGED <<conf, pos, state, accPos, accSym, start, toks, done>>
Run == /\ Running /\ pos < Len(buf)
       /\ LET s == delta[state][buf[pos + 1]] IN
             /\ state' = s /\ pos' = pos + 1
             /\ IF s >= 0 /\ accept[s] >= 0 THEN accPos' = pos + 1 /\ accSym' = accept[s]
                ELSE UNCHANGED <<accPos, accSym>>
       /\ UNCHANGED <<conf, rest, buf, start, toks, done>>
Emit == /\ ~done
        /\ state = -1 \/ (pos = Len(buf) /\ rest = <<>>)
        /\ IF buf = <<>> THEN done' = TRUE /\ UNCHANGED <<rest, buf, pos, state, accPos, accSym, start, toks>>
           ELSE LET n == IF accPos <= 0 THEN 1 ELSE accPos
                    s == IF buf[n] = NewlineSym THEN NewlineState ELSE 0
                IN /\ toks' = Append(toks, [sym |-> accSym, text |-> SubSeq(buf, 1, n), start |-> start])
                   /\ buf' = SubSeq(buf, n + 1, Len(buf))
                   /\ start' = s /\ state' = s
                   /\ pos' = 0 /\ accPos' = -1 /\ accSym' = -1
                   /\ UNCHANGED <<rest, done>>
        /\ UNCHANGED conf
Next == Fill \/ Run \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the lexemes should be, without reference to the machine's steps *)
RECURSIVE Delta(_, _, _)
Delta(s, w, i) == IF s < 0 \/ i > Len(w) THEN s ELSE Delta(delta[s][w[i]], w, i + 1)
SymOf(s0, w) == LET s == Delta(s0, w, 1) IN IF s < 0 THEN -1 ELSE accept[s]
Longest(s0, w) == LET M == { n \in 1..Len(w) : SymOf(s0, SubSeq(w, 1, n)) >= 0 }
                  IN IF M = {} THEN 0 ELSE CHOOSE n \in M : \A m \in M : m <= n
RECURSIVE Munch(_, _)
Munch(w, s0) == IF w = <<>> THEN <<>>
                ELSE LET n == Longest(s0, w)
                         k == IF n = 0 THEN 1 ELSE n
                         t == SubSeq(w, 1, k)
                     IN << [sym |-> IF n = 0 THEN -1 ELSE SymOf(s0, t), text |-> t, start |-> s0] >>
                        \o Munch(SubSeq(w, k + 1, Len(w)), IF t[k] = NewlineSym THEN NewlineState ELSE 0)
RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].text \o Flat(ts, i + 1)

Tiles  == Flat(toks, 1) \o buf \o rest = input
Prefix == LET m == Munch(input, 0) IN Len(toks) <= Len(m) /\ toks = SubSeq(m, 1, Len(toks))
Complete == done => toks = Munch(input, 0)
Ends == <>done
=============================================================================
