SPECIFICATION JSpec
CONSTANT Verdict <- ToolVerdict
