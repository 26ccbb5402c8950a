------------------------------- MODULE Utf8MC -------------------------------
(* The reader as a machine, checked against encoding: every text comes back. *)
EXTENDS Utf8, TLC
CONSTANTS Points, MaxLen
VARIABLES text, bytes, pair, good, out, stopped
vars == <<text, bytes, pair, good, out, stopped>>
RECURSIVE Bytes(_, _), Chars(_, _)
Bytes(t, i) == IF i > Len(t) THEN <<>> ELSE Encode(t[i]) \o Bytes(t, i + 1)
Chars(t, i) == IF i > Len(t) THEN <<>> ELSE Units(t[i]) \o Chars(t, i + 1)
Texts == UNION { [1..n -> Points] : n \in 0..MaxLen }
Init == /\ text \in Texts /\ bytes = Bytes(text, 1)
        /\ pair = 0 /\ good = TRUE /\ out = <<>> /\ stopped = FALSE
\* one call of the reader
Get == /\ ~stopped
       /\ IF pair # 0 THEN out' = Append(out, pair) /\ pair' = 0 /\ UNCHANGED <<bytes, good, stopped>>
          ELSE IF ~good \/ bytes = <<>> THEN good' = FALSE /\ stopped' = TRUE /\ UNCHANGED <<bytes, pair, out>>
          ELSE LET n == Need(bytes[1]) IN
               IF ~Complete(bytes, 1, n) THEN good' = FALSE /\ bytes' = <<>> /\ UNCHANGED <<pair, out, stopped>>
               ELSE LET v == Value(bytes, 1, n) u == Units(v) IN
                    /\ bytes' = SubSeq(bytes, n + 1, Len(bytes))
                    /\ out' = Append(out, u[1])
                    /\ pair' = IF Len(u) = 2 THEN u[2] ELSE 0
                    /\ UNCHANGED <<good, stopped>>
       /\ UNCHANGED text
Spec == Init /\ [][Get]_vars /\ WF_vars(Get)
RoundTrip == stopped => out = Chars(text, 1)
Agrees == Decode(Bytes(text, 1)) = Chars(text, 1) /\ InDomain(Bytes(text, 1), 1)
Stops == <>stopped
=============================================================================
