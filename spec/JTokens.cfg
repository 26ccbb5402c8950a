SPECIFICATION JSpec
CONSTANT Verdict <- TokensVerdict
