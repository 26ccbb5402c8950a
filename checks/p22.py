"""P22: the command line tool does what its options and the file ask for, or says why not."""
import os
import vf, tool

def run(ctx):
    vf.build("tameparse")
    ctx.model("ToolMC.tla", "ToolMC_big.cfg" if ctx.thorough else "ToolMC.cfg")
    ctx.model("ToolMC.tla", "ToolMC_live.cfg")
    rng = ctx.rng("runs")
    cases = [tool.case(rng) for _ in range(ctx.scale(12000, 100000))]
    exe = os.path.join(vf.VERIF, "harness", "tooldrv.py"); args = [os.path.join(vf.BUILD, "tameparse")]
    recs = ctx.drive(exe, cases, "runs", timeout=20, args=args)
    ok = [r for r in recs if not r["crash"] and r["obs"]["exit"] >= 0]
    ctx.count("runs", len(recs))
    ctx.count("runs_that_failed", sum(1 for r in ok if r["obs"]["exit"]))
    ctx.count("files_generated", sum(len(r["obs"]["files"]) for r in ok))
    bad = ctx.judge("JTool.tla", "JTool.cfg", recs, "runs")
    ctx.confirm(exe, bad, "runs", "JTool.tla", "JTool.cfg", args=args)
