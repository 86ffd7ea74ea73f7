"""C01-C04: point cloud batches."""
import pcdrive as P
import vlib

W = {
    "C01": dict(new=1, empty=.2, read=4, set=4, arith=1.5, rigid=1.5, proj=.5, append=2, getitem=1, clone=1,
                detach=.2, to=.2, poke=.1, bad=.2),
    "C02": dict(new=1, empty=.1, read=1.5, set=1, arith=5, rigid=5, proj=2.5, append=.5, getitem=.3, clone=.3,
                bad=.6),
    "C03": dict(new=1, empty=.6, read=1.5, set=1, arith=.4, rigid=.4, append=6, getitem=.3, clone=.3, poke=.8,
                bad=.1),
    "C04": dict(new=1, empty=.3, read=1.5, set=1.5, arith=.7, rigid=.7, append=1, getitem=5, clone=3.5, detach=1,
                to=1.5, tosame=.5, tometa=.8, detachgrad=.5, poke=1.5, bad=.2),
}
CFG = """INIT Init
NEXT %s
%s
CONSTANTS Attrs = {%s}
 Emit = %s
CHECK_DEADLOCK FALSE
"""
ACTIONS = ["New", "ReadList", "ReadPad", "ReadMask", "ReadHas", "SetList", "SetPad", "Arith", "Rotate", "AppendTo",
           "Clone", "SelectAll", "IntoEmpty"]


def mech(ctx):
    ctx.model("PointcloudMech", CFG % ("Next", "INVARIANT Coherent", '"p","n","c","f"', "FALSE"),
              must_cover=ACTIONS)
    ctx.model_must_fail("PointcloudMech", CFG % ("BadNext", "INVARIANT Coherent", '"p","n"', "FALSE"),
                        "list assignment keeps the padded tensor")


def tours(ctx, keep=None):
    """Every transition of the representation graph, driven through the class."""
    for q in "ncf":
        r = ctx.model("PointcloudMech", CFG % ("Next", "INVARIANT Coherent\nVIEW Shape", '"p","%s"' % q, "TRUE"),
                      name="PointcloudMech/tour-" + q, must_cover=ACTIONS, workers=1)
        edges = r.lines("EDGE")
        if keep:
            edges = [e for e in edges if e[1]["k"] in keep or e[1]["k"] in ("new", "rl", "rp", "rm", "rh", "sl", "sp")]
        init = edges[0][0]
        walks, left = vlib.tour(edges, init, max_len=30)
        ctx.models["PointcloudMech/tour-" + q].update(edges=len(edges), walks=len(walks), edges_not_walked=left)
        rng = ctx.rng("tour" + q)
        cases = [P.walk_case(w, q, rng) for w in walks]
        ctx.run_suite("tour-" + q, "PointcloudTrace", cases, P.run_case)


def rand(ctx, n, length, **kw):
    rng = ctx.rng("random")
    cases = [P.random_case(rng, W[ctx.prop], length, **kw) for _ in range(n)]
    ctx.run_suite("random", "PointcloudTrace", cases, P.run_case, corrupt=P.corrupt)


def big(ctx, n):
    rng = ctx.rng("big")
    cases = [P.random_case(rng, W[ctx.prop], 8, maxB=6, maxN=40, nslots=3) for _ in range(n)]
    ctx.run_suite("random-large", "PointcloudTrace", cases, P.run_case, chunk=100)


def check(ctx):
    mech(ctx)
    if ctx.prop == "C01":
        tours(ctx)
    elif ctx.prop == "C03":
        tours(ctx, keep=("append", "into"))
    elif ctx.prop == "C04":
        tours(ctx, keep=("clone", "all", "into"))
    else:
        tours(ctx, keep=("arith", "rigid"))
    rand(ctx, ctx.pick(500, 6000), ctx.pick(14, 22))
    big(ctx, ctx.pick(40, 400))
    ctx.assumptions += ["reading views from a deep copy does not perturb the object observed",
                        "coordinates are small integers (exact in float32)"]
