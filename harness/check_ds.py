"""C20 (aligned windows), C21 (ScanNet and labels), C22 (scale, chain, layout, outputs)."""
import os

import dsdrive as S
import vlib

CFG = "INIT Init\nNEXT %s\n%sCONSTANTS MaxN = %d MaxLen = 3 MaxDil = 2\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANT Inside\nINVARIANT Closed\nINVARIANT Partition\n"


def pool(ctx):
    d = os.path.join(ctx.scratch, "pool")
    os.makedirs(d)
    S.make_pool(d)


def model(ctx, n):
    r = ctx.model("DatasetMech", CFG % ("Next", INV + "INVARIANT Emit\n", n), must_cover=("Take", "Stop"), workers=1, timeout=1200)
    ctx.model_must_fail("DatasetMech", CFG % ("BadNext", INV, 4), "a window past the last frame")
    ctx.model_must_fail("DatasetMech", CFG % ("BadNext2", INV, 4), "a default stride without the dilation")
    return r.lines("CASE")


def c20(ctx):
    cases = model(ctx, ctx.pick(5, 8))
    rng = ctx.rng("gen")
    ctx.run_suite("enumerated windows", "DatasetJudge", [S.window_case(rng, k, c) for c in cases for k in ("tum", "icl")], S.run_case, chunk=300)
    rng = ctx.rng("random")
    cases = [S.random_case(rng, rng.choice(("tum", "tum", "icl"))) for _ in range(ctx.pick(400, 4000))]
    ctx.run_suite("random trees", "DatasetJudge", cases, S.run_case, corrupt=S.corrupt, chunk=100)
    bad = [dict(op="refuse", kind="tum", seqs=[S.tum(rng, S.TUMNAMES[0], 5, True)]), dict(op="refuse", kind="icl", seqs=[S.icl(rng, S.ICLNAMES[1], 5)])]
    ctx.run_suite("refusals", "DatasetJudge", bad, S.run_case)
    ctx.assumptions += ["colour and depth images are 480 x 640 PNG files", "time stamps have microseconds, do not tie and are not exactly 0.02 s apart"]


def c21(ctx):
    model(ctx, 3)
    rng = ctx.rng("labels")
    full = [[k] * 2 for k in range(41)]
    cases = [dict(op="labels", labs=[full, [list(range(41))]], dtype=t, dict=d) for t in ("uint8", "int64", "int32") for d in (True, False)]
    for _ in range(ctx.pick(40, 400)):
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        dt, top = rng.choice((("uint8", 256), ("int64", 2000), ("int16", 900), ("uint16", 1300)))
        lab = lambda: rng.randrange(rng.choice((41, 41, 21, 60, top)))
        cases.append(dict(op="labels", labs=[[[lab() for _ in range(w)] for _ in range(h)], [[min(lab(), 40) for _ in range(w)] for _ in range(h)]],
                          dtype=dt, dict=rng.random() < .5,
                          seg={"nyu40": rng.choice(("nyu40", "NYU40")), "scannet20": rng.choice(("scannet20", "SCANNET20"))}))
    ctx.run_suite("labels", "DatasetJudge", cases, S.run_case, corrupt=S.corrupt)
    rng = ctx.rng("random")
    cases = [S.random_case(rng, "scannet") for _ in range(ctx.pick(500, 5000))]
    ctx.run_suite("random scenes", "DatasetJudge", cases, S.run_case, corrupt=S.corrupt, chunk=100)
    ctx.assumptions += ["label images hold classes 0 to 40"]


def c22(ctx):
    model(ctx, 3)
    rng = ctx.rng("switch")
    ctx.run_suite("helpers", "DatasetJudge", [S.helper_case(rng) for _ in range(ctx.pick(300, 3000))], S.run_case, chunk=300)
    cases = []
    for k in range(ctx.pick(9, 60)):
        cases += S.switch_cases(rng, ("tum", "icl", "scannet")[k % 3])
    ctx.run_suite("switches", "DatasetJudge", cases, S.run_case, chunk=100)
    rng = ctx.rng("random")
    cases = [S.random_case(rng, rng.choice(("tum", "icl", "scannet"))) for _ in range(ctx.pick(400, 4000))]
    ctx.run_suite("random", "DatasetJudge", cases, S.run_case, corrupt=S.corrupt, chunk=100)


def check(ctx):
    pool(ctx)
    {"C20": c20, "C21": c21, "C22": c22}[ctx.prop](ctx)
