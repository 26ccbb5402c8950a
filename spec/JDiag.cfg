SPECIFICATION JSpec
CONSTANT Verdict <- DiagVerdict
