SPECIFICATION JSpec
CONSTANT Verdict <- GenVerdict
