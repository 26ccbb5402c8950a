SPECIFICATION JSpec
CONSTANT Verdict <- CopiesVerdict
