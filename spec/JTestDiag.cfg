SPECIFICATION JSpec
CONSTANT Verdict <- BrokenVerdict
