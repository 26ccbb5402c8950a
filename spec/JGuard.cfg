SPECIFICATION JSpec
CONSTANT Verdict <- GuardVerdict
