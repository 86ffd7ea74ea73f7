"""C14: alignment."""
import icpdrive as I
import vlib

GEN = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTANT Big = %s\nCHECK_DEADLOCK FALSE\n"
MECH = ("INIT Init\nNEXT %s\nINVARIANTS %s\n%sCONSTANTS MaxPos = %d\n MaxErr = %d\n MaxIt = %d\nCHECK_DEADLOCK FALSE\n")


def check(ctx):
    p, e, n = ctx.pick((4, 2, 5), (5, 3, 7))
    inv = "NeverWorse Schedule Finite"
    ctx.model("IcpMech", MECH % ("Next", inv, "PROPERTY Monotone\n", p, e, n), must_cover=("Accept", "Reject"))
    ctx.model_must_fail("IcpMech", MECH % ("BadNext", "NeverWorse", "", 3, 2, 3), "every step taken")
    ctx.model_must_fail("IcpMech", MECH % ("BadNext2", "Finite", "", 3, 2, 4), "equal error taken")
    big = ctx.pick("FALSE", "TRUE")
    r = ctx.model("IcpGen", GEN % ("Law", big), workers=1)
    ctx.model_must_fail("IcpGen", GEN % ("BadLaw", "FALSE"), "nearest target has the lowest plane error")
    gens = r.lines("CASE")
    if len(gens) < r.distinct:
        raise vlib.MachineryError("IcpGen emitted %d of %d cases" % (len(gens), r.distinct))
    rng = ctx.rng("gen")
    rng.shuffle(gens)
    eq = [g for g in gens if g["eq"]]
    if not eq:
        raise vlib.MachineryError("no scenario with an unchanged error")
    gens = eq + [g for g in gens if not g["eq"]][:ctx.pick(700, 20000)]
    cases = [I.axis_case(rng, g) for g in gens] + [I.gaxis_case(rng, g) for g in gens[:len(gens) // 2]]
    ctx.run_suite("enumerated axis scenarios", "IcpJudge", cases, I.run_case, chunk=600)
    rng = ctx.rng("random")
    k = ctx.pick(1, 12)
    cases = ([I.axis_case(rng) for _ in range(300 * k)] + [I.gaxis_case(rng) for _ in range(300 * k)])
    ctx.run_suite("random axis scenarios", "IcpJudge", cases, I.run_case, chunk=600)
    cases = ([I.system_case(rng) for _ in range(400 * k)] + [I.solve_case(rng) for _ in range(300 * k)] +
             [I.loop_case(rng) for _ in range(200 * k)] + [I.prov_case(rng) for _ in range(40 * k)])
    rng.shuffle(cases)
    ctx.run_suite("random", "IcpJudge", cases + [{"k": "bad"}], I.run_case, corrupt=I.corrupt, chunk=400)
    cases = [I.grid_case(rng) for _ in range(150 * k)]
    ctx.run_suite("random gated", "IcpJudge", cases, I.run_case, chunk=100)
    ctx.assumptions += ["at least one iteration and one target point",
                        "a source exactly on the distance limit may be kept or dropped"]
