"""C24 (derivatives of geometric conversions)."""
import geodiffdrive as D

CFG = "INIT Init\nNEXT %s\nINVARIANT Rigid\nINVARIANT TwoSided\nINVARIANT Undone\nINVARIANT Bounded\n%sCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n"
ACTS = ("DoLeft", "DoRight", "DoInvert", "DoRel", "DoSquare")


def c24(ctx):
    ctx.model("TwistMech", CFG % ("Next", "", ctx.pick(4, 5)), must_cover=ACTS, timeout=3000)
    ctx.model("TwistMech", CFG % ("Next", "INVARIANT Forms\n", 2), name="TwistMech closed forms", must_cover=ACTS, timeout=3000)
    ctx.model_must_fail("TwistMech", CFG % ("BadNext", "", 3), "inverting without turning the derivative")
    rng = ctx.rng("geodiff")
    ctx.run_suite("conversions", "GeoDiffJudge", [D.case(rng) for _ in range(ctx.pick(2500, 40000))], D.run_case, corrupt=D.corrupt, chunk=500)
    ctx.assumptions += ["derivatives are those of reverse-mode autograd; motions move along their group, so entries of a rotation matrix are never varied on their own"]


def check(ctx):
    {"C24": c24}[ctx.prop](ctx)
