SPECIFICATION JSpec
CONSTANT Verdict <- TestVerdict
