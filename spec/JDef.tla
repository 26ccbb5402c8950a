-------------------------------- MODULE JDef --------------------------------
(***************************************************************************)
(* Judge for reading definition files.                                     *)
(***************************************************************************)
EXTENDS DefSyntax, Judge

Differ(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) + 1 ELSE CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
From(s, i) == SubSeq(s, IF i > 3 THEN i - 3 ELSE 1, IF i + 3 < Len(s) THEN i + 3 ELSE Len(s))
DefVerdict(c) ==
    LET T == c.toks
        r == Reading(T)
        o == c.obs
        refs == \E i \in 1..Len(r.d) : r.d[i] = "ref"
        err == IF r.i > Len(T) THEN <<"SYNTAX_END_OF_FILE", -1, -1, -1>> ELSE <<"SYNTAX_ERROR", T[r.i].b, T[r.i].l, T[r.i].c>>
        got == [ i \in 1..Len(o.errs) |-> <<o.errs[i].code, o.errs[i].off, o.errs[i].line, o.errs[i].col>> ]
    IN  IF ~r.ok THEN (IF got = <<>> THEN "a definition with a mistake was read: " \o ToString(err) ELSE IF got # <<err>> THEN "reported " \o ToString(got) \o " instead of " \o ToString(err) ELSE IF o.read THEN "a definition with a mistake was read" ELSE "ok")
        ELSE IF refs THEN "ok"
        ELSE IF got # <<>> THEN "rejected: " \o ToString(got)
        ELSE IF ~o.read THEN "not read"
        ELSE IF r.d # o.d THEN LET i == Differ(r.d, o.d) IN "read " \o ToString(From(o.d, i)) \o " instead of " \o ToString(From(r.d, i))
        ELSE IF r.p # o.p THEN LET i == Differ(r.p, o.p) IN "part " \o ToString(i) \o " is at " \o ToString(From(o.p, i)) \o " instead of " \o ToString(From(r.p, i))
        ELSE "ok"
=============================================================================
