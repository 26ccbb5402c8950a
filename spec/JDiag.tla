------------------------------- MODULE JDiag -------------------------------
(***************************************************************************)
(* Judge for the diagnostics of the compiler: what was reported about the  *)
(* definition files against what the specification says about them.        *)
(***************************************************************************)
EXTENDS Diagnostics, Judge

\* a file may be called by any of its names
Canon(c, f) == LET I == { i \in 1..Len(c.alias) : c.alias[i][1] = f } IN IF I = {} THEN f ELSE c.alias[CHOOSE i \in I : TRUE][2]

DiagVerdict(c) ==
    LET E == DElems(c.obs.errs)
        R == { <<e.code, Canon(c, e.file), e.line>> : e \in { x \in E : x.code \notin Others } }
        W == Reports(c, R)
        all == W.must \cup W.may
        odd == { e.code : e \in { x \in E : x.code \notin (Errors \cup Warnings \cup Others) } }
        mild == { e.code : e \in { x \in E : (x.code \in Errors) # (x.sev >= 4) /\ x.code # "CONFLICT_REDUCE_REDUCE" } }
        dbl == { n \in Doubles(c) : Cardinality(R \cap DoublesAt(c, n)) # Cardinality(DoublesAt(c, n)) - 1 }
    IN  IF odd # {} THEN "unexpected report " \o ToString(odd)
        ELSE IF mild # {} THEN "wrong severity of " \o ToString(mild)
        ELSE IF ~(W.must \subseteq R) THEN "not reported: " \o ToString(W.must \ R)
        ELSE IF W.stage = "import" /\ dbl # {} THEN "languages defined twice"
        ELSE IF \E o \in W.one : o \cap R = {} THEN "not reported: one of " \o ToString(CHOOSE o \in W.one : o \cap R = {})
        ELSE IF ~(R \subseteq all) THEN "wrongly reported: " \o ToString(R \ all)
        ELSE IF c.obs.stage # W.stage THEN "compiled up to " \o c.obs.stage \o " instead of " \o W.stage
        ELSE "ok"
=============================================================================
