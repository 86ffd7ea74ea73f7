"""C19 (time stamp association and stamped files)."""
import assocdrive as A
import vlib

CFG = "INIT %s\nNEXT %s\n%sCONSTANTS N = %d Tols = %s Offs = %s\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    tols, offs = "{1, 2, 3}", "{0, 1, 3}"
    inv = "INVARIANT Results\nINVARIANT Always\nINVARIANT Emit\n"
    r = ctx.model("AssocMech", CFG % ("Init", "Next", inv, ctx.pick(3, 4), tols, offs), must_cover=("Take", "Stop"), workers=1,
                  timeout=3000)
    ctx.model("AssocMech", CFG % ("InitW", "TakeW", "INVARIANT NotStuck\nINVARIANT Always\n", ctx.pick(4, 5), "{1, 2, 3}", "{1, 2}"),
              name="AssocMech/converse", must_cover=("TakeW",), timeout=3000)
    for nxt, what in (("BadNext", "any acceptable pair first"), ("BadNext2", "entries used twice"), ("BadNext3", "stopping early")):
        ctx.model_must_fail("AssocMech", CFG % ("Init", nxt, "INVARIANT Results\nINVARIANT Always\n", 3, tols, offs), what)
    cases = r.lines("CASE")
    if len(cases) < 1000:
        raise vlib.MachineryError("only %d association cases" % len(cases))
    rng = ctx.rng("gen")
    ops = [A.dress(rng, c["a"], c["b"], c["off"], c["tol"]) for c in cases]
    ctx.run_suite("enumerated time sets", "AssocJudge", [dict(ops=ops[k:k + 12]) for k in range(0, len(ops), 12)], A.run_case, chunk=400)
    rng = ctx.rng("random")
    ctx.run_suite("random", "AssocJudge", [A.random_case(rng) for _ in range(ctx.pick(400, 6000))], A.run_case,
                  corrupt=A.corrupt, chunk=200)
    ctx.assumptions += ["time stamps within one list are different; comments start in the first column"]
