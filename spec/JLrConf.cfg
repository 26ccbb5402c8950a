SPECIFICATION JSpec
CONSTANT Verdict <- ConflictVerdict
