------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions: concrete syntax and meaning.                       *)
(*                                                                         *)
(* A regular expression is a sequence of code points.  It is given meaning *)
(* compositionally, as a "fragment" over numbered leaves (positions).      *)
(* Leaf i matches one symbol of the set lv[i]; the fragment says whether   *)
(* the empty string is matched (nul), which leaves can match first (fst)   *)
(* or last (lst) and which leaf can follow which (fol).  That is Thompson- *)
(* free, so it shares nothing with the implementation's construction.      *)
(* RegexMC checks that fragments denote the textbook language of the       *)
(* expression.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxSym == 2147483647        \* '.' is every symbol below this one

(* symbol sets: a set of half open ranges, possibly complemented *)
SetOf(rs)   == [neg |-> FALSE, ci |-> FALSE, rs |-> rs]
AnySet      == SetOf({<<0, MaxSym>>})
One(c)      == SetOf({<<c, c + 1>>})
Compl(s)    == [s EXCEPT !.neg = ~s.neg]
Plain(c, s) == (\E r \in s.rs : r[1] <= c /\ c < r[2]) # s.neg
SwapCase(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
\* case insensitive sets also contain the other case of their members
Member(c, s) == Plain(c, s) \/ (s.ci /\ Plain(SwapCase(c), s))

(* ---- fragments ---- *)
Eps      == [nul |-> TRUE, fst |-> {}, lst |-> {}, fol |-> {}]
Leaf(i)  == [nul |-> FALSE, fst |-> {i}, lst |-> {i}, fol |-> {}]
Cat(a, b) == [nul |-> a.nul /\ b.nul,
              fst |-> a.fst \cup (IF a.nul THEN b.fst ELSE {}),
              lst |-> b.lst \cup (IF b.nul THEN a.lst ELSE {}),
              fol |-> a.fol \cup b.fol \cup (a.lst \X b.fst)]
Alt(a, b) == [nul |-> a.nul \/ b.nul, fst |-> a.fst \cup b.fst,
              lst |-> a.lst \cup b.lst, fol |-> a.fol \cup b.fol]
Plus(a)  == [a EXCEPT !.fol = @ \cup (a.lst \X a.fst)]
Opt(a)   == [a EXCEPT !.nul = TRUE]
Star(a)  == Opt(Plus(a))

(* ---- characters of the concrete syntax ---- *)
LParen == 40  RParen == 41  Bar == 124  StarC == 42  PlusC == 43  QuestC == 63
DotC == 46  LSq == 91  RSq == 93  Caret == 94  Dash == 45  LCur == 123  RCur == 125
Back == 92

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
OctVal(c) == IF c >= 48 /\ c <= 55 THEN c - 48 ELSE -1

\* Read up to `max' hexadecimal (octal) digits from position p: [v |-> value, p |-> next position]
RECURSIVE Hex(_, _, _, _)
Hex(re, p, max, v) ==
    IF max = 0 \/ p > Len(re) THEN [v |-> v, p |-> p]
    ELSE IF HexVal(re[p]) < 0 THEN [v |-> v, p |-> p]
    ELSE Hex(re, p + 1, max - 1, v * 16 + HexVal(re[p]))
RECURSIVE Oct(_, _, _, _)
Oct(re, p, max, v) ==
    IF max = 0 \/ p > Len(re) THEN [v |-> v, p |-> p]
    ELSE IF OctVal(re[p]) < 0 THEN [v |-> v, p |-> p]
    ELSE Oct(re, p + 1, max - 1, v * 8 + OctVal(re[p]))

\* One possibly escaped symbol at p
Sym(re, p) ==
    IF re[p] # Back \/ p = Len(re) THEN [v |-> re[p], p |-> p + 1]
    ELSE LET c == re[p + 1] IN
         CASE c = 97  -> [v |-> 7,  p |-> p + 2]       \* \a
           [] c = 101 -> [v |-> 27, p |-> p + 2]       \* \e
           [] c = 110 -> [v |-> 10, p |-> p + 2]       \* \n
           [] c = 114 -> [v |-> 13, p |-> p + 2]       \* \r
           [] c = 102 -> [v |-> 12, p |-> p + 2]       \* \f
           [] c = 116 -> [v |-> 9,  p |-> p + 2]       \* \t
           [] c = 117 -> Hex(re, p + 2, 4, 0)          \* \uHHHH
           [] c = 120 -> Hex(re, p + 2, 2, 0)          \* \xHH
           [] c = 111 -> Oct(re, p + 2, 6, 0)          \* \oNNNNNN
           [] c >= 48 /\ c <= 55 -> Oct(re, p + 1, 3, 0)   \* \NNN
           [] OTHER   -> [v |-> c, p |-> p + 2]

\* The members of [...] from position p: [rs |-> ranges, p |-> position after the ']']
RECURSIVE SetBody(_, _, _)
SetBody(re, p, rs) ==
    IF re[p] = RSq THEN [rs |-> rs, p |-> p + 1]
    ELSE LET a == Sym(re, p) IN
         IF re[a.p] = Dash
         THEN LET b == Sym(re, a.p + 1) IN SetBody(re, b.p, rs \cup {<<a.v, b.v + 1>>})
         ELSE SetBody(re, a.p, rs \cup {<<a.v, a.v + 1>>})

\* first position >= p holding c
RECURSIVE Find(_, _, _)
Find(re, p, c) == IF re[p] = c THEN p ELSE Find(re, p + 1, c)

(* ---- the parser; lv accumulates the leaves; defs is a sequence of named expressions
        [name, kind ("re" | "lit"), val] ---- *)
LitFrag(lit, lv) ==
    \* a literal string: a chain of leaves
    LET n == Len(lv)  m == Len(lit)
    IN  IF m = 0 THEN [f |-> Eps, lv |-> lv]
        ELSE [f |-> [nul |-> FALSE, fst |-> {n + 1}, lst |-> {n + m},
                     fol |-> {<<n + i, n + i + 1>> : i \in 1..(m - 1)}],
              lv |-> lv \o [i \in 1..m |-> One(lit[i])]]

RECURSIVE PAlt(_, _, _, _), PCat(_, _, _, _, _), PPost(_, _, _), PAtom(_, _, _, _)
PAlt(re, p, lv, defs) ==
    LET c == PCat(re, p, Eps, lv, defs) IN
    IF c.p <= Len(re) /\ re[c.p] = Bar
    THEN LET r == PAlt(re, c.p + 1, c.lv, defs)
         IN  [f |-> Alt(c.f, r.f), p |-> r.p, lv |-> r.lv]
    ELSE c
PCat(re, p, acc, lv, defs) ==
    IF p > Len(re) THEN [f |-> acc, p |-> p, lv |-> lv]
    ELSE IF re[p] \in {Bar, RParen} THEN [f |-> acc, p |-> p, lv |-> lv]
    ELSE LET a == PAtom(re, p, lv, defs)
             q == PPost(re, a.p, a.f)
         IN  PCat(re, q.p, Cat(acc, q.f), a.lv, defs)
PPost(re, p, f) ==
    IF p > Len(re) THEN [f |-> f, p |-> p]
    ELSE CASE re[p] = StarC  -> PPost(re, p + 1, Star(f))
           [] re[p] = PlusC  -> PPost(re, p + 1, Plus(f))
           [] re[p] = QuestC -> PPost(re, p + 1, Opt(f))
           [] OTHER          -> [f |-> f, p |-> p]
PAtom(re, p, lv, defs) ==
    LET leaf(set, np) == [f |-> Leaf(Len(lv) + 1), p |-> np, lv |-> Append(lv, set)] IN
    CASE re[p] = LParen ->
           LET r == PAlt(re, p + 1, lv, defs) IN [f |-> r.f, p |-> r.p + 1, lv |-> r.lv]
      [] re[p] = DotC -> leaf(AnySet, p + 1)
      [] re[p] = LSq ->
           IF re[p + 1] = Caret
           THEN LET b == SetBody(re, p + 2, {}) IN leaf(Compl(SetOf(b.rs)), b.p)
           ELSE LET b == SetBody(re, p + 1, {}) IN leaf(SetOf(b.rs), b.p)
      [] re[p] = LCur ->
           LET e    == Find(re, p, RCur)
               name == SubSeq(re, p + 1, e - 1)
               d    == CHOOSE i \in 1..Len(defs) : defs[i].name = name
           IN  IF defs[d].kind = "lit"
               THEN LET r == LitFrag(defs[d].val, lv) IN [f |-> r.f, p |-> e + 1, lv |-> r.lv]
               ELSE LET r == PAlt(defs[d].val, 1, lv, defs) IN [f |-> r.f, p |-> e + 1, lv |-> r.lv]
      [] OTHER -> LET s == Sym(re, p) IN leaf(One(s.v), s.p)

\* The automaton of a fragment: position 0 is the start
OfFragment(r) ==
    [lv |-> r.lv, fol |-> r.f.fol \cup ({0} \X r.f.fst),
     acc |-> r.f.lst \cup (IF r.f.nul THEN {0} ELSE {}), utf16 |-> FALSE]
Compile(re, defs) == OfFragment(PAlt(re, 1, <<>>, defs))
CompileLit(lit)   == OfFragment(LitFrag(lit, <<>>))
\* The same automaton with the other (ASCII) case of every symbol added
FoldCase(A) == [A EXCEPT !.lv = [i \in DOMAIN A.lv |-> [A.lv[i] EXCEPT !.ci = TRUE]]]
\* The same automaton reading UTF-16: a member above 0xffff is matched by its surrogate pair
Utf16(A)    == [A EXCEPT !.utf16 = TRUE]

IsHigh(c) == c >= 55296 /\ c < 56320
IsLow(c)  == c >= 56320 /\ c < 57344
Pair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
HighOf(c) == 55296 + ((c - 65536) \div 1024)
LowOf(c)  == 56320 + ((c - 65536) % 1024)

(* A configuration is a set of <<p, h>>: position p was just matched (h = 0), or the high
   surrogate h of a pair for leaf p has been read. *)
Start == {<<0, 0>>}
StepPos(A, S, c) ==
    LET from == { t[1] : t \in { x \in S : x[2] = 0 } }
        next == { e[2] : e \in { x \in A.fol : x[1] \in from } }
    IN  IF ~A.utf16
        THEN { <<q, 0>> : q \in { x \in next : Member(c, A.lv[x]) } }
        ELSE { <<q, 0>> : q \in { x \in next : c < 65536 /\ Member(c, A.lv[x]) } }
             \cup (IF IsHigh(c) THEN { <<q, c>> : q \in next } ELSE {})
             \cup { <<t[1], 0>> : t \in { x \in S : x[2] # 0 /\ IsLow(c) /\ Member(Pair(x[2], c), A.lv[x[1]]) } }
Accepting(A, S) == \E t \in S : t[2] = 0 /\ t[1] \in A.acc

RECURSIVE RunPos(_, _, _, _)
RunPos(A, S, w, i) == IF i > Len(w) THEN S ELSE RunPos(A, StepPos(A, S, w[i]), w, i + 1)
Matches(A, w) == Accepting(A, RunPos(A, Start, w, 1))
=============================================================================
