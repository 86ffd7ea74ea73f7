"""C17 (merging) and C18 (freezing)."""
import cfgdrive as K
import vlib

MECH = "INIT Init\nNEXT %s\n%sCONSTANTS Depth = %d\n Emit = %s\n Level = %d\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    p = ctx.prop
    props = "PROPERTIES Apart Types " + ("Others" if p == "C17" else "Kept") + "\n"
    for lv in (1, 2):
        ctx.model("CfgMech", MECH % ("Next", props, ctx.pick(2, 3), "FALSE", lv), name="CfgMech level %d" % lv,
                  must_cover=("Overriding", "Assigning", "Freezing", "Cloning", "Merging"))
    if p == "C18":
        ctx.model_must_fail("CfgMech", MECH % ("BadNext", "PROPERTIES Kept\n", 2, "FALSE", 1), "assignment ignores freezing")
    else:
        ctx.model_must_fail("CfgMech", MECH % ("BadNext2", "PROPERTIES Others\n", 2, "FALSE", 1), "merge drops other keys")
    ctx.model_must_fail("CfgMech", MECH % ("BadClone", "PROPERTIES Apart\n", 3, "FALSE", 1), "clone sharing values")
    rng = ctx.rng("mech")
    cases = []
    for lv, d, q in ((1, 2, 300), (1, 3, 500), (2, 2, 200), (2, 3, 350)):
        r = ctx.tlc("CfgMech", MECH % ("Next", "INVARIANT EmitOk\n", d, "TRUE", lv), workers=1, coverage=False)
        hs = r.lines("HIST")
        if len(hs) < 200:
            raise vlib.MachineryError("CfgMech emitted %d histories" % len(hs))
        rng.shuffle(hs)
        cases += [K.mech_case(rng, p, h, lv) for h in hs[:ctx.pick(q, 20000)]]
    ctx.run_suite("enumerated sessions", "CfgJudge", cases, K.run_case, corrupt=K.corrupt, chunk=500)
    rng = ctx.rng("random")
    k = ctx.pick(1, 20)
    ctx.run_suite("random sessions", "CfgJudge", [K.session(rng, p) for _ in range(700 * k)], K.run_case, corrupt=K.corrupt, chunk=300)
    if p == "C18":
        ctx.run_suite("random states", "CfgJudge", [K.frozen_session(rng) for _ in range(600 * k)] + K.bad_trees(), K.run_case, chunk=300)
        ctx.run_suite("dictionary methods", "CfgJudge", K.mutate_cases(), K.run_case)
    ctx.assumptions += ["text values decode to the supported types", "deprecated and renamed names do not exist in the configuration and may not be added there"]
