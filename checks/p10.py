"""P10: conflicts are reported exactly where the tables are ambiguous."""
import p08

def run(ctx):
    p08.run(ctx, "JLrConf.cfg", False, 2500)
