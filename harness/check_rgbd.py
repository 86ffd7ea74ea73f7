"""C05-C07: RGB-D frames, their caches, slices and point clouds."""
import rgbddrive as R
import vlib

W = {
    "C05": dict(new=.6, read=5, set=6, layout_=1.5, layout=.7, getitem=.7, clone=.5, to=.1, bad=.3),
    "C06": dict(new=.8, read=3, set=1.5, layout_=1.5, layout=2, getitem=4, clone=2, to=1, detach=.5, tometa=.4,
                detachgrad=.3, poke=1.2, bad=.4),
    "C07": dict(new=2, read=1.5, set=2, layout_=1, layout=.5, getitem=1, topc=7),
}
CFG = "INIT Init\nNEXT %s\nINVARIANT Coherent\n%s\nCONSTANT Emit = %s\nCHECK_DEADLOCK FALSE\n"
ACTIONS = ["Read", "SetDep", "SetK", "SetPoses", "NoPoses", "SetRgb", "Layout", "LayoutOf", "Clone", "Slice", "ToCloud"]


def mech(ctx):
    ctx.model("RgbdMech", CFG % ("Next", "", "FALSE"), must_cover=ACTIONS)
    for b in ("BadNext1", "BadNext2", "BadNext3"):
        ctx.model_must_fail("RgbdMech", CFG % (b, "", "FALSE"), b)


def tours(ctx, keep=None):
    r = ctx.model("RgbdMech", CFG % ("Next", "VIEW Shape", "TRUE"), name="RgbdMech/tour", must_cover=ACTIONS, workers=1)
    edges = r.lines("EDGE")
    if keep:
        edges = [e for e in edges if e[1]["k"] in keep or e[1]["k"] == "read"]
    rng = ctx.rng("tour")
    n = left = 0
    cases = []
    # one tour from each initial shape, over the edges still missing
    seen = set()
    for init in r.lines("INIT"):
        mine = [e for e in edges if vlib.json.dumps(e, sort_keys=True) not in seen or e[1]["k"] == "read"]
        walks, left = vlib.tour(mine, init, max_len=25)
        if ctx.quick:
            pass
        cases += [R.walk_case(w, rng, init) for w in walks]
        n += len(walks)
        if left == 0:
            break
    ctx.models["RgbdMech/tour"].update(edges=len(edges), walks=n, edges_not_walked=left)
    ctx.run_suite("tour", "RgbdTrace", cases, R.run_case, chunk=120)


def check(ctx):
    mech(ctx)
    if ctx.prop == "C05":
        tours(ctx)
    elif ctx.prop == "C06":
        tours(ctx, keep=("slice", "clone", "layout", "layout_"))
    rng = ctx.rng("random")
    cases = [R.random_case(rng, W[ctx.prop], ctx.pick(10, 16)) for _ in range(ctx.pick(240, 4000))]
    ctx.run_suite("random", "RgbdTrace", cases, R.run_case, corrupt=R.corrupt, chunk=120)
    rng = ctx.rng("large")
    cases = [R.random_case(rng, W[ctx.prop], 5, nslots=2, maxB=4, maxL=5, maxH=6, maxW=7) for _ in range(ctx.pick(20, 300))]
    ctx.run_suite("random-large", "RgbdTrace", cases, R.run_case, chunk=50)
    ctx.assumptions += ["depths are finite; frames are at least 2x2", "focal lengths 1, 2, 4 (all vertices representable)"]
