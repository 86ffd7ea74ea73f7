"""C26: ragged and padded batches, and downsampling onto the grid."""
import raggeddrive as R
import vlib

CFG = "INIT %s\nNEXT %s\n%sCONSTANTS Items = %d Dim = %d Extra = 1 Side = %d Ratios = {1, 2, 3} Len4 = %d\nCHECK_DEADLOCK FALSE\n"
PAD = "INVARIANT PadRight\nINVARIANT RoundTrip\nINVARIANT Repad\nINVARIANT Count\n"
TABLE = "INVARIANT TableRight\nINVARIANT Compose\n"
IMG = "INVARIANT ImgRight\nINVARIANT Agrees\nINVARIANT AtMost\n"


def check(ctx):
    small = (2, 2, 2, 1)
    a = ctx.model("RaggedMech", CFG % ("InitPad", "NextPad", PAD + "INVARIANT EmitPad\n", ctx.pick(2, 3), 2, 2, 1),
                  name="RaggedMech/padding", must_cover=("Alloc", "Write", "Filled", "CutOne", "CutAll"), workers=1, timeout=3000)
    b = ctx.model("RaggedMech", CFG % ("InitTable", "NextTable", TABLE + "INVARIANT EmitTable\n", 1, 1, ctx.pick(2, 3), 2),
                  name="RaggedMech/table", must_cover=("ByRow", "ByCol", "Apart", "Done"), workers=1, timeout=3000)
    c = ctx.model("RaggedMech", CFG % ("InitImg", "NextImg", IMG + "INVARIANT EmitImg\n", 1, 1, 3, 1),
                  name="RaggedMech/frames", must_cover=("Stride", "Mask", "Masked"), workers=1, timeout=3000)
    for init, nxt, inv, what in (("InitPad", "BadPad1", PAD, "padding from the item before"), ("InitPad", "BadPad2", PAD, "columns of the widest item"),
                                 ("InitTable", "BadTable1", TABLE, "row or column on the grid"),
                                 ("InitTable", "BadTable2", TABLE, "thinning by the point number"),
                                 ("InitImg", "BadImg1", IMG, "masking before striding")):
        ctx.model_must_fail("RaggedMech", CFG % ((init, nxt, inv) + small), what)
    rng = ctx.rng("enum")
    ops = [R.lists(rng, x["shapes"], x["size"] if rng.random() < .6 else None) for x in a.lines("PAD")]
    tables = b.lines("TABLE")
    imgs = [x for x in c.lines("IMG") if len(x["img"]) >= 2 and len(x["img"][0]) >= 2]
    if len(ops) < 100 or len(tables) < 1000 or len(imgs) < 500:
        raise vlib.MachineryError("too few enumerated cases")
    ops += [R.clouds(rng, [2, 2], x["table"], x["r"]) for x in rng.sample(tables, min(len(tables), ctx.pick(1500, 20000)))]
    ops += [R.frames(rng, [x["img"]], x["r"]) for x in rng.sample(imgs, min(len(imgs), ctx.pick(900, 3000)))]
    rng.shuffle(ops)
    ctx.run_suite("enumerated", "RaggedJudge", [dict(ops=ops[k:k + 10]) for k in range(0, len(ops), 10)], R.run_case, chunk=100)
    rng = ctx.rng("random")
    ctx.run_suite("random", "RaggedJudge", [R.random_case(rng) for _ in range(ctx.pick(300, 6000))], R.run_case, corrupt=R.corrupt,
                  chunk=60)
    ctx.run_suite("refusals", "RaggedJudge", [dict(ops=[dict(op="refuse", what=w) for w in R.refusals()])], R.run_case)
    ctx.assumptions += ["a list with no rows at all is padded to a given size", "split sizes are between 0 and the padded size",
                        "depths are finite and not negative; frames are at least 2x2", "items of one list have one element type"]
