SPECIFICATION JSpec
CONSTANT Verdict <- SymVerdict
