SPECIFICATION Spec
CONSTANTS Kinds = {"plain", "lr1", "both"}
 Outs = {"", "nodir/x"}
 Ls = {"", "X"}
 Targets = {"", "bogus"}
 Texts <- OneText
 Starts <- SmallStarts
INVARIANTS ExitMeansError FilesMeanSuccess Generated ForwardOnly Presentation Strictness
CHECK_DEADLOCK FALSE
