------------------------------ MODULE JUnicode ------------------------------
(* Judge for P06. *)
EXTENDS Judge, FiniteSets
Tab == ndJsonDeserialize(IOEnv.UCD)[1]
\* the runner writes each table as its keys and an array indexed by character
Arr(f) == [d \in { f.keys[i] : i \in 1..Len(f.keys) } |-> f.at[d + 1]]
UpperT == Arr(Tab.upper)
LowerT == Arr(Tab.lower)
OpenUT == [d \in { Tab.openu.keys[i] : i \in 1..Len(Tab.openu.keys) } |-> { Tab.openu.at[d + 1] }]
OpenLT == [d \in { Tab.openl.keys[i] : i \in 1..Len(Tab.openl.keys) } |-> { Tab.openl.at[d + 1] }]
U == INSTANCE Unicode WITH Upper <- UpperT, Lower <- LowerT, OpenU <- OpenUT, OpenL <- OpenLT

Members(rs) == UNION { rs[i][1]..(rs[i][2] - 1) : i \in 1..Len(rs) }
SetOf(s) == { s[i] : i \in 1..Len(s) }

UniVerdict(c) ==
    CASE c.kind = "set" ->
            LET S == Members(c.set) IN
            IF ~U!ConvOK(UpperT, OpenUT, S, Members(c.obs.upper)) THEN "upper case conversion is not the image of the set"
            ELSE IF ~U!ConvOK(LowerT, OpenLT, S, Members(c.obs.lower)) THEN "lower case conversion is not the image of the set"
            ELSE "ok"
      [] c.kind = "cat" ->
            \* c.yes: settled members of the category in the window; c.open: characters that may or may not be
            IF ~(SetOf(c.yes) \subseteq SetOf(c.obs.matched)) THEN "a character of the category is not matched"
            ELSE IF ~(SetOf(c.obs.matched) \subseteq SetOf(c.yes) \cup SetOf(c.open)) THEN "a character of another category is matched"
            ELSE "ok"
      [] OTHER ->
            LET P == SetOf(c.probe) IN
            IF ~(U!FoldMust(c.chr) \cap P \subseteq SetOf(c.obs.matched)) THEN "the other case is not matched"
            ELSE IF ~(SetOf(c.obs.matched) \subseteq U!FoldMay(c.chr)) THEN "an unrelated character is matched"
            ELSE "ok"
=============================================================================
