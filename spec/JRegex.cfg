SPECIFICATION JSpec
CONSTANT Verdict <- RegexVerdict
