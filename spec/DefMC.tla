------------------------------- MODULE DefMC -------------------------------
(***************************************************************************)
(* The reader of definitions as a machine that gets one token after the    *)
(* other: all continuations of some beginnings. What has been read stays   *)
(* read, and a token that does not fit is noticed at once, except where    *)
(* the reader looks ahead: modifiers (any number), a nonterminal, 'replace'*)
(* and the name of a test (up to three tokens).                            *)
(***************************************************************************)
EXTENDS DefSyntax
CONSTANTS Depth
VARIABLES T, n, r
I(w) == <<"id", w>>
S(w) == <<w, w>>
Tk(x, i) == [ k |-> x[1], v |-> x[2], q |-> x[2], b |-> 10 * i, e |-> 10 * i + 9 ]
Toks(L) == [ i \in 1..Len(L) |-> Tk(L[i], i) ]
N == <<"nt", "<A>">>
X == I("x")
Q == <<"str", "s">>
LB == <<I("language"), X, S("{")>>
GB == LB \o <<I("grammar"), S("{"), N, S("=")>>
Begin == { <<>>, LB, LB \o <<I("keywords"), S("{")>>, GB, GB \o <<S("("), N>>, GB \o <<S("[=>"), X>>, GB \o <<X, S("[")>>, LB \o <<I("precedence"), S("{"), I("left")>>, <<I("test"), X, S("{"), N, S("="), Q>> }
Alphabet(b) ==
    IF Len(b) = 0 THEN { I("language"), I("test"), I("import"), X, S("{"), S("}"), S(":"), Q }
    ELSE IF b = LB THEN { I("weak"), I("case"), I("sensitive"), I("lexer"), I("lexer-symbols"), I("keywords"), S("{"), S("}") }
    ELSE IF Len(b) = 5 /\ b[4] = I("keywords") THEN { I("replace"), X, S("="), S("|="), S("."), Q, S("}") }
    ELSE IF Len(b) = 9 /\ b[9] = S("[") THEN { I("conflict"), I("shift"), I("weak"), I("reduce"), S("="), S(","), S("]"), X }
    ELSE IF b[1] = I("test") THEN { X, Q, N, S("("), S(")"), S("."), S("!="), S("}") }
    ELSE IF b = GB THEN { N, X, I("replace"), S("="), S("|="), S("|"), S("."), S("*"), S("}") }
    ELSE { N, X, I("left"), I("can-clash"), S("["), S("]"), S(")"), S("|"), S("}"), S("=") }
Init == n = 0 /\ \E b \in Begin : T = Toks(b) /\ r = Reading(Toks(b))
Of == CHOOSE b \in Begin : Len(b) = Len(T) - n /\ \A i \in 1..Len(b) : T[i].k = b[i][1] /\ T[i].v = b[i][2]
Next == n < Depth /\ n' = n + 1 /\ \E a \in Alphabet(Of) : LET U == Append(T, Tk(a, Len(T) + 1)) IN T' = U /\ r' = TLCEval(Reading(U))
Spec == Init /\ [][Next]_<<T, n, r>>

Within == r.i \in 1..(Len(T) + 1) /\ (r.ok => r.i = Len(T) + 1)
\* parts are in the order in which they begin, and lie within the text
Places == r.ok => \A i \in 1..Len(r.p) : r.p[i][1] <= r.p[i][2] /\ r.p[i][1] >= T[1].b /\ r.p[i][2] <= T[Len(T)].e
Ahead(i) == T[i].k \in {"nt", "id"}
Modifier(i) == T[i].v \in {"weak", "case", "sensitive", "insensitive"}
\* a mistake stays where it is
Stays == [][ LET s == r' IN
             (~r.ok /\ r.i <= Len(T) /\ ~(Ahead(r.i) /\ Len(T) - r.i < 3) /\ ~Modifier(r.i)) => (~s.ok /\ s.i = r.i) ]_<<T, n, r>>
\* and what was read is not read differently: a file that ends continues as a file
Goes == [][ LET s == r' IN r.ok => (s.i > Len(T) /\ SubSeq(s.d, 1, IF Len(s.d) < Len(r.d) THEN Len(s.d) ELSE Len(r.d)) \in {r.d, s.d}) ]_<<T, n, r>>
=============================================================================
