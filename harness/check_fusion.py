"""C09 (active points), C10 (correspondences), C11 (fusion)."""
import fusiondrive as F
import vlib

GEN = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTANT MaxCand = %d\nCHECK_DEADLOCK FALSE\n"
MECH = ("INIT Init\nNEXT %s\nINVARIANTS %s\nCONSTANTS Pixels = {%s}\n MaxFrames = %d\n Emit = %s\n"
        "CHECK_DEADLOCK FALSE\n")


def c09(ctx):
    rng = ctx.rng("active")
    cases = [F.active_case(rng) for _ in range(ctx.pick(700, 12000))] + [F.bad_case(rng, "C09")]
    ctx.run_suite("random", "FusionJudge", cases, F.run_case, corrupt=F.corrupt, chunk=400)
    rng = ctx.rng("match")
    cases = []
    for _ in range(ctx.pick(150, 3000)):
        c = F.match_case(rng)
        cases.append(dict(k="active", f=c["f"], m=c["m"]))
    ctx.run_suite("crowded", "FusionJudge", cases, F.run_case, chunk=400)
    ctx.assumptions += ["positions within the documented 1e-3 pixel border slack are not asserted",
                        "float32 maps and frames"]


def c10(ctx):
    mc = ctx.pick(2, 3)
    r = ctx.model("FusionGen", GEN % ("Law", mc), workers=1, xmx="8g", timeout=800)
    ctx.model_must_fail("FusionGen", GEN % ("BadLaw", 2), "winner without a tie break")
    cands = r.lines("CASE")
    if len(cands) < r.distinct:
        raise vlib.MachineryError("FusionGen emitted %d of %d cases" % (len(cands), r.distinct))
    rng = ctx.rng("gen")
    rng.shuffle(cands)
    if not ctx.quick:
        cands = [c for c in cands if len(c) < 3] + [c for c in cands if len(c) == 3][:9000]
    ctx.run_suite("enumerated competitions", "FusionJudge", F.hosted(cands, rng), F.run_case, chunk=30)
    rng = ctx.rng("random")
    cases = [F.match_case(rng) for _ in range(ctx.pick(400, 6000))] + [F.bad_case(rng, "C10")]
    ctx.run_suite("random", "FusionJudge", cases, F.run_case, corrupt=F.corrupt, chunk=150)
    ctx.assumptions += ["angle thresholds are at least 0 in cosine", "positive confidences"]


def c11(ctx):
    px, n = ctx.pick(("1, 2", 3), ("1, 2, 3", 3))
    inv = "Accounted NoDuplicates Count"
    ctx.model("FusionMech", MECH % ("Next", inv, px, n, "FALSE"), must_cover=("Fuse",))
    ctx.model_must_fail("FusionMech", MECH % ("BadNext", "NoDuplicates Accounted", "1", 2, "FALSE"), "matched pixels also appended")
    ctx.model_must_fail("FusionMech", MECH % ("BadNext2", "Accounted", "1", 2, "FALSE"), "missing pixels appended")
    r = ctx.tlc("FusionMech", MECH % ("Next", inv, "1, 2, 3, 4", 2, "TRUE"), workers=1, coverage=False)
    hists = r.lines("HIST")
    r = ctx.tlc("FusionMech", MECH % ("Next", inv, "1, 2", 3, "TRUE"), workers=1, coverage=False)
    h3 = [[f + f for f in h] for h in r.lines("HIST")]
    if len(hists) < 81 * 81 or len(h3) < 729:
        raise vlib.MachineryError("FusionMech emitted %d + %d histories" % (len(hists), len(h3)))
    rng = ctx.rng("mech")
    rng.shuffle(hists)
    rng.shuffle(h3)
    if ctx.quick:
        hists, h3 = hists[:600], h3[:300]
    cases = F.mech_cases(hists, rng) + F.mech_cases(h3, rng)
    ctx.run_suite("enumerated histories", "FusionJudge", cases, F.run_case, chunk=120)
    rng = ctx.rng("random")
    n = ctx.pick(1, 14)
    cases = ([F.fuse_case(rng) for _ in range(220 * n)] + [F.hist_case(rng) for _ in range(90 * n)] +
             [F.agg_case(rng) for _ in range(40 * n)] + [F.alpha_case(rng) for _ in range(60 * n)] + [F.bad_case(rng, "C11")])
    rng.shuffle(cases)
    ctx.run_suite("random", "FusionJudge", cases, F.run_case, corrupt=F.corrupt, chunk=100)
    ctx.assumptions += ["map points have positive confidences", "float32 maps and frames"]


def check(ctx):
    {"C09": c09, "C10": c10, "C11": c11}[ctx.prop](ctx)
