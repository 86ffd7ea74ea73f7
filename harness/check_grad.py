"""C23 (derivatives of maps, clouds and fusion)."""
import graddrive as D

CFG = "INIT Init\nNEXT %s\nINVARIANT Closed\nINVARIANT Partition\nINVARIANT Convex\nCONSTANTS M = %d Slopes = %s\nCHECK_DEADLOCK FALSE\n"


def c23(ctx):
    ctx.model("GradMech", CFG % ("Next", 3, ctx.pick("{0, 1}", "{0, 1, 2}")), must_cover=("Append1", "Fuse1"), timeout=3000)
    for nxt, what in (("BadNext", "old derivatives dropped"), ("BadNext2", "confidences without derivatives"), ("BadNext3", "derivative leaks to another point")):
        ctx.model_must_fail("GradMech", CFG % (nxt, 3, "{1}"), what)
    rng = ctx.rng("frames")
    ctx.run_suite("frames", "GradJudge", [D.frame_case(rng) for _ in range(ctx.pick(220, 3000))], D.run_case, corrupt=D.corrupt, chunk=40)
    rng = ctx.rng("clouds")
    ctx.run_suite("clouds", "GradJudge", [D.cloud_case(rng) for _ in range(ctx.pick(300, 5000))], D.run_case, corrupt=D.corrupt, chunk=100)
    rng = ctx.rng("fusion")
    ctx.run_suite("fusion", "GradJudge", [D.fusion_case(rng) for _ in range(ctx.pick(90, 1500))], D.run_case, corrupt=D.corrupt, chunk=30)
    ctx.assumptions += ["derivatives are those of reverse-mode autograd on float32 inputs"]


def check(ctx):
    {"C23": c23}[ctx.prop](ctx)
