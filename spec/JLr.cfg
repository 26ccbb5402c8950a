SPECIFICATION JSpec
CONSTANT Verdict <- MachineVerdict
