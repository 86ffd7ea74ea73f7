"""C27: what viewers are handed."""
import vlib
import visdrive as V

CFG = "INIT %s\nNEXT %s\n%sCONSTANTS N = %d Reds = %s MaxDepth = %d L = 4\nCHECK_DEADLOCK FALSE\n"
CLOUD = "INVARIANT SampleRight\nINVARIANT ColourRight\n"
SCALE = "INVARIANT ScaleRight\nINVARIANT Monotone\n"


def check(ctx):
    reds = "{0, 1, 200}"
    raws = "{0, 256, 51200}"
    a = ctx.model("VisMech", CFG % ("InitCloud", "NextCloud", CLOUD + "INVARIANT EmitCloud\n", ctx.pick(4, 5), raws, 1), name="VisMech/clouds",
                  must_cover=("Draw", "DrawAll", "Drawn", "GatherAll"), workers=1, timeout=3000)
    ctx.model("VisMech", CFG % ("InitScale", "NextScale", SCALE, 1, reds, ctx.pick(250, 2000)), name="VisMech/scale", must_cover=("Raise", "Settle"))
    ctx.model("VisMech", CFG % ("InitPlay", "NextPlay", "INVARIANT InRange\n", 1, reds, 1), name="VisMech/play",
              must_cover=("Slide", "Press", "Pause", "Tick"))
    for init, nxt, inv, what in (("InitCloud", "BadCloud1", CLOUD, "drawing a point twice"), ("InitCloud", "BadCloud2", CLOUD, "range of the sample"),
                                 ("InitCloud", "BadCloud3", CLOUD, "colours not sampled"), ("InitScale", "BadScale", SCALE, "scale too large"),
                                 ("InitPlay", "BadPlay", "INVARIANT InRange\n", "past the last frame")):
        ctx.model_must_fail("VisMech", CFG % (init, nxt, inv, 3, raws, 20), what)
    rng = ctx.rng("enum")
    ops = [V.enum_cloud(rng, [r // 256 for r in x["red"]], x["lim"]) for x in a.lines("CLOUD")]
    if len(ops) < 300:
        raise vlib.MachineryError("too few enumerated cases")
    ctx.run_suite("enumerated", "VisJudge", [dict(ops=ops[k:k + 8]) for k in range(0, len(ops), 8)], V.run_case, chunk=200)
    rng = ctx.rng("random")
    ctx.run_suite("random", "VisJudge", [V.random_case(rng) for _ in range(ctx.pick(250, 4000))], V.run_case, corrupt=V.corrupt, chunk=150)
    ctx.run_suite("refusals", "VisJudge", [dict(ops=[dict(op="refuse", what=w) for w in V.refusals()])], V.run_case)
    ctx.assumptions += ["colours of one cloud or sequence are all in 0-1 or some exceed 1.1 (0-255)", "depths are not negative",
                        "open3d is replaced by a stand-in that records the arrays it is handed",
                        "images are compared by the means of 16x16 tiles (JPEG)"]
