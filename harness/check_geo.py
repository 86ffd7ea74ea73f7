"""C08 (pinhole camera), C15 (relative motion), C16 (rotation conversions)."""
import geodrive as G
import vlib

GEN = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTANTS Which = \"%s\" R = %d\nCHECK_DEADLOCK FALSE\n"


def gen(ctx, which, R=1):
    r = ctx.model("GeoGen", GEN % ("Law", which, R), name="GeoGen/" + which, workers=1)
    ctx.model_must_fail("GeoGen", GEN % ("BadLaw", which, R), "GeoGen/%s with a wrong law" % which)
    cases = r.lines("CASE")
    if len(cases) < r.distinct:
        raise vlib.MachineryError("GeoGen/%s emitted %d of %d cases" % (which, len(cases), r.distinct))
    return cases


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def c08(ctx):
    rng = ctx.rng("gen")
    Ks = sorted(set(tuple(c["K"]) for c in gen(ctx, "cam")))
    # every camera, pixel and depth of the enumeration appears in one frame
    ops = []
    for K in Ks:
        ops.append(dict(op="frame", size=[1, 4, 3, 3], K=[list(K)], cf=rng.random() < .5, batched=rng.random() < .5,
                        order=rng.sample(["vert", "gvert", "norm", "gnorm"], 4),
                        d=[[[[(u + 3 * v + l) % 4 for u in range(3)] for v in range(3)] for l in range(4)]],
                        poses=[[G.rp(rng) for _ in range(4)]]))
    cases = [{"ops": c} for c in chunks(ops, 4)] + [{"ops": [{"op": "badgeo"}]}]
    ctx.run_suite("enumerated cameras", "GeoJudge", cases, G.run_case, chunk=60)
    rng = ctx.rng("random")
    cases = [G.random_case(rng, G.random_geo, 8) for _ in range(ctx.pick(700, 8000))]
    ctx.run_suite("random", "GeoJudge", cases, G.run_case, corrupt=G.corrupt, chunk=200)
    ctx.assumptions += ["focal lengths are positive; frames are at least 2x2 and float32"]


def c15(ctx):
    rng = ctx.rng("gen")
    pairs = gen(ctx, "pair")
    rng.shuffle(pairs)
    if ctx.quick:
        pairs = pairs[:1200]
    ops = []
    for k, grp in enumerate(chunks(pairs, 4)):
        a, b = [p["a"] for p in grp], [p["b"] for p in grp]
        ops += [dict(op="rel", f=("rel3d", "rel", "relorth")[k % 3], single=False, a=a, b=b),
                dict(op="comp", single=False, a=a, b=b), dict(op="inv", single=False, a=a, b=b),
                dict(op="gt", poses=[[p["a"], p["b"]] for p in grp], to=[])]
    cases = [{"ops": c, "dt": ("f32", "f64")[k % 2]} for k, c in enumerate(chunks(ops, 16))]
    cases.append({"ops": [{"op": "badgt"}]})
    ctx.run_suite("enumerated pairs", "GeoJudge", cases, G.run_case, chunk=60)
    rng = ctx.rng("random")
    cases = [G.random_case(rng, G.random_rigid, 8) for _ in range(ctx.pick(700, 8000))]
    ctx.run_suite("random", "GeoJudge", cases, G.run_case, corrupt=G.corrupt, chunk=200)


def c16(ctx):
    rng = ctx.rng("gen")
    qs = [c["q"] for c in gen(ctx, "rot", ctx.pick(2, 3))]
    qs += [[-v for v in q] for q in qs]
    ops = [dict(op="quat", single=False, deep=rng.random() < .3, q=g, t=[G.rt(rng) for _ in g], scale=1)
           for g in chunks(qs, 6)]
    cases = [{"ops": c, "dt": ("f32", "f64")[k % 2]} for k, c in enumerate(chunks(ops, 4))]
    cases.append({"ops": [{"op": "badconv"}]})
    ctx.run_suite("enumerated rotations", "GeoJudge", cases, G.run_case, chunk=60)
    rng = ctx.rng("random")
    cases = [G.random_case(rng, G.random_conv, 10) for _ in range(ctx.pick(700, 8000))]
    ctx.run_suite("random", "GeoJudge", cases, G.run_case, corrupt=G.corrupt, chunk=200)
    ctx.assumptions += ["quaternions of single or N x 4 shape for rotation matrices"]


def check(ctx):
    {"C08": c08, "C15": c15, "C16": c16}[ctx.prop](ctx)
