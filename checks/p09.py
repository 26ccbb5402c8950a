"""P09: the parser accepts exactly the language, by derivations."""
import p08

def run(ctx):
    ctx.model("LrMC.tla", "LrMC_ebnf.cfg")
    p08.run(ctx, "JLrParse.cfg", True, 1800)
