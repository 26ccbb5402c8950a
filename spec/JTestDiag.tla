----------------------------- MODULE JTestDiag -----------------------------
(***************************************************************************)
(* Judge for test blocks in definitions with mistakes: tests of a language *)
(* with errors are not run, its errors are reported, and every other block *)
(* is still run.                                                           *)
(***************************************************************************)
EXTENDS Diagnostics, Judge

Canon(c, f) == LET I == { i \in 1..Len(c.alias) : c.alias[i][1] = f } IN IF I = {} THEN f ELSE c.alias[CHOOSE i \in I : TRUE][2]

\* a language with everything it inherits from
RECURSIVE Line(_, _)
Line(langs, S) == LET S2 == S \cup { langs[i].inh : i \in { j \in 1..Len(langs) : langs[j].name \in S /\ langs[j].inh # <<>> } } IN IF S2 = S THEN S ELSE Line(langs, S2)

BrokenVerdict(c) ==
    LET t == c.obs.t
        E == DElems(t.errs)
        R == { <<e.code, Canon(c, e.file), e.line>> : e \in E }
        severe == \E e \in E : e.sev >= 4
        langs == Langs(c)
        names == { langs[i].name : i \in 1..Len(langs) }
        bs == c.blocks
        tested == { bs[i].lang : i \in 1..Len(bs) }
        O == [ n \in Line(langs, tested) \cap names |-> OfLanguage(c, langs, n) ]
        line(n) == Line(langs, {n}) \cap names
        sick1(n) == \E m \in line(n) : Wrong(O[m].must) \/ \E o \in O[m].one : Wrong(o)
        odd1(n) == \E m \in line(n) : Wrong(O[m].may \cap R)
        X == [ n \in { m \in tested \cap names : ~sick1(m) /\ ~odd1(m) } |-> OfLexer([ c EXCEPT !.target = n ], langs) ]
        sick(n) == sick1(n) \/ (n \in DOMAIN X /\ Wrong(X[n].must))
        unsure(n) == ~sick(n) /\ (odd1(n) \/ Wrong(X[n].may \cap R))
        got == [ i \in 1..Len(t.blocks) |-> t.blocks[i].lang ]
        SelectB(Q(_)) == [ i \in 1..Len(SelectSeq(bs, Q)) |-> SelectSeq(bs, Q)[i].lang ]
        \* the blocks that are run
        sure == SelectB(LAMBDA b : b.lang \in names /\ ~sick(b.lang) /\ ~unsure(b.lang))
        maybe == SelectSeq(got, LAMBDA n : n \in names /\ ~unsure(n))
        lost == UNION { O[n].must : n \in tested \cap names } \ R
        lostx == UNION { { r \in X[n].must : r[1] \in Errors } : n \in DOMAIN X } \ R
        nolang == { i \in 1..Len(bs) : bs[i].lang \notin names /\ <<"CANT_FIND_LANGUAGE", c.fs[1].name, bs[i].line>> \notin R }
    IN  IF (t.code # 0) # severe THEN "the exit code"
        ELSE IF Missing(c) # {} \/ Doubles(c) # {} THEN (IF got # <<>> THEN "tests run in spite of the imports" ELSE IF ~severe THEN "nothing is reported" ELSE "ok")
        ELSE IF \E n \in tested \cap names : sick(n) /\ n \in DElems(got) THEN "tests of a language with errors were run"
        ELSE IF maybe # sure THEN "the blocks run are " \o ToString(maybe) \o " instead of " \o ToString(sure)
        ELSE IF lost \cup lostx # {} THEN "not reported: " \o ToString(lost \cup lostx)
        ELSE IF nolang # {} THEN "missing language not reported"
        ELSE IF (\E n \in tested \cap names : sick(n)) /\ ~severe THEN "nothing is reported"
        ELSE IF \E i \in 1..Len(t.blocks) : Len(t.blocks[i].res) # t.blocks[i].n \/ t.blocks[i].p # Cardinality({ j \in 1..Len(t.blocks[i].res) : t.blocks[i].res[j].ok }) THEN "the totals"
        ELSE "ok"
=============================================================================
