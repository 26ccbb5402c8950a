SPECIFICATION JSpec
CONSTANT Verdict <- Utf8Verdict
