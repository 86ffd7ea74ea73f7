"""C12 (inputs unchanged) and C13 (running equals stepping)."""
import slamdrive as S
import vlib

MECH = ("INIT Init\nNEXT %s\nINVARIANTS %s\nCONSTANTS L = %d\n Depth = %d\n Odom = \"%s\"\n Posed = %s\n Emit = %s\nCHECK_DEADLOCK FALSE\n")
INV = {"C12": "Untouched Frames Valid", "C13": "Forward Valid"}


def check(ctx):
    p = ctx.prop
    for odom in ("gt", "est"):
        for posed in ("TRUE", "FALSE"):
            n, d = ctx.pick((3, 3), (3, 4))
            cov = ("Out", "In", "Assign") + (() if (odom, posed) == ("gt", "TRUE") else ("Deny",) if posed == "FALSE" else ())
            ctx.model("SlamMech", MECH % ("Next", INV[p], n, d, odom, posed, "FALSE"), name="SlamMech %s %s" % (odom, posed), must_cover=cov)
    if p == "C12":
        ctx.model_must_fail("SlamMech", MECH % ("NextAlias", "Untouched", 2, 3, "est", "TRUE", "FALSE"), "maps sharing storage")
        ctx.model_must_fail("SlamMech", MECH % ("NextLeak", "Frames", 2, 3, "est", "TRUE", "FALSE"), "poses written out of place")
    else:
        ctx.model_must_fail("SlamMech", MECH % ("NextOrder", "Forward", 3, 3, "est", "TRUE", "FALSE"), "motion on the wrong side")
    hists = []
    rng = ctx.rng("hist")
    for odom, posed, n, d, q in (("gt", "TRUE", 2, 2, 40), ("gt", "FALSE", 2, 2, 30), ("est", "TRUE", 2, 2, 80), ("est", "FALSE", 2, 3, 120),
                                 ("est", "TRUE", 2, 3, 130), ("gt", "TRUE", 2, 3, 40)):
        r = ctx.tlc("SlamMech", MECH % ("Next", INV[p] + " EmitOk", n, d, odom, posed, "TRUE"), workers=1, coverage=False)
        hs = [h for h in r.lines("HIST") if any(x["k"] == "step" for x in h)]
        rng.shuffle(hs)
        if len(hs) < 30:
            raise vlib.MachineryError("SlamMech emitted %d histories" % len(hs))
        rng.shuffle(hs)
        hists += [S.hist_case(rng, p, h, odom, posed == "TRUE", n) for h in hs[:ctx.pick(q, 2500)]]
    ctx.run_suite("enumerated sessions", "SlamJudge", hists, S.run_case, corrupt=S.corrupt, chunk=60)
    rng = ctx.rng("random")
    k = ctx.pick(1, 14)
    cases = []
    for _ in range(60 * k):
        odom = rng.choice(("gt", "est", "est", "est"))
        L = rng.randint(2, 3)
        cases.append(S.hist_case(rng, p, S.random_cmds(rng, L, rng.randint(3, 5)), odom, rng.random() < .75, L))
    ctx.run_suite("random sessions", "SlamJudge", cases, S.run_case, corrupt=S.corrupt, chunk=30)
    cases = [S.forward_case(rng, p) for _ in range(120 * k)] + [S.real_case(rng, p, "forward") for _ in range(20 * k)]
    ctx.run_suite("whole runs", "SlamJudge", cases, S.run_case, corrupt=S.corrupt, chunk=40)
    cases = [S.real_case(rng, p, "hist") for _ in range(30 * k)]
    ctx.run_suite("real estimators", "SlamJudge", cases, S.run_case, chunk=20)
    if p == "C12":
        cases = [S.calls_case(rng) for _ in range(80 * k)]
        ctx.run_suite("single functions", "SlamJudge", cases, S.run_case, corrupt=S.corrupt, chunk=40)
    else:
        ctx.run_suite("refusals", "SlamJudge", [dict(k="bad", f=S.sequence(rng, 1, 1)[0])], S.run_case)
    ctx.assumptions += ["one camera per sequence", "float32 frames"]
