SPECIFICATION Spec
CONSTANTS Kinds = {"sr"}
 Outs = {"", "full"}
 Ls = {"", "X"}
 Targets = {""}
 Texts <- OneText
 Starts <- SmallStarts
PROPERTY Ends
CHECK_DEADLOCK FALSE
