SPECIFICATION JSpec
CONSTANT Verdict <- SetsVerdict
