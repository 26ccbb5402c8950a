SPECIFICATION JSpec
CONSTANT Verdict <- AutoVerdict
