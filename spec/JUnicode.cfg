SPECIFICATION JSpec
CONSTANT Verdict <- UniVerdict
