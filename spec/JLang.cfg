SPECIFICATION JSpec
CONSTANT Verdict <- LangVerdict
