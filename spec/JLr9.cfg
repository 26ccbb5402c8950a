SPECIFICATION JSpec
CONSTANT Verdict <- LanguageVerdict
