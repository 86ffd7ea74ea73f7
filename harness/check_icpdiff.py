"""C25 (derivatives of the alignment)."""
import icpdiffdrive as D

CFG = "INIT Init\nNEXT %s\nINVARIANTS Secant Together Forgets Product\nCONSTANTS Far = %d\n MaxIt = %d\n NS = %d\n NT = %d\n Lim = %d\nCHECK_DEADLOCK FALSE\n"


def c25(ctx):
    for what, q, t in (("", (2, 3, 2, 2, 5), (3, 4, 2, 2, 5)), (" without a limit", (3, 3, 1, 2, 0), (3, 4, 2, 2, 0)), (" of three targets", (2, 3, 1, 3, 3), (3, 4, 1, 3, 3))):
        ctx.model("AlignMech", CFG % (("Next",) + ctx.pick(q, t)), name="AlignMech" + what, must_cover=("Accept", "Reject"), timeout=3000)
    ctx.model_must_fail("AlignMech", CFG % ("BadNext", 3, 2, 2, 2, 5), "a rejected step changes the derivative")
    ctx.model_must_fail("AlignMech", CFG % ("BadNext2", 2, 2, 1, 2, 0), "targets without a derivative")
    rng = ctx.rng("icpdiff")
    ctx.run_suite("alignments", "IcpDiffJudge", [D.case(rng) for _ in range(ctx.pick(1000, 15000))], D.run_case, corrupt=D.corrupt, chunk=130)
    ctx.run_suite("sessions", "IcpDiffJudge", [D.slam_case(rng) for _ in range(ctx.pick(60, 1200))], D.run_case, corrupt=D.corrupt, chunk=30)
    ctx.assumptions += ["derivatives are claimed away from ties: unique nearest targets, nobody on the distance limit, no step that is accepted by a hair",
                        "the initial motion is varied along the group of rigid motions"]


def check(ctx):
    {"C25": c25}[ctx.prop](ctx)
