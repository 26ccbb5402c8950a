SPECIFICATION JSpec
CONSTANT Verdict <- LexVerdict
