SPECIFICATION JSpec
CONSTANT Verdict <- DefVerdict
