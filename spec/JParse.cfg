SPECIFICATION JSpec
CONSTANT Verdict <- ParseXVerdict
