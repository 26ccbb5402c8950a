SPECIFICATION Spec
CONSTANTS Kinds = {"plain", "unused", "sr", "rr", "both", "lr1", "undef"}
 Outs = {"", "full"}
 Ls = {"", "A", "X"}
 Targets = {"", "test"}
 Texts <- OneText
 Starts <- AllStarts
INVARIANTS ExitMeansError FilesMeanSuccess Generated ForwardOnly Presentation Strictness
CHECK_DEADLOCK FALSE
