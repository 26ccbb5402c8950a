SPECIFICATION JSpec
CONSTANT Verdict <- ParseVerdict
