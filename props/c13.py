"""C13: DICE steps follow the published climate equations and conserve carbon."""
from symex.runner import case

from . import dicemodel as dm

STATES = ("mat", "ml", "mu", "tatm", "tocean")


# outputs that are period averages pass through numerical quadrature when written and read
FORC = dict(tol=1e-4, scale=100.0)


def tol(k):
    return FORC if k == "forc" else dict(tol=1e-6, scale=100.0)


def new(h):
    return h.mod("core").OpenSCM("DICE")


def drive(h, scm, n, how):
    if how == "run":
        scm.run()
    else:
        scm.reset_stepping()
        for _ in range(n - 1):
            scm.step()


def cases(tier):
    cs = []
    quick = tier == "quick"
    groups = {
        "carbon": ("mat0", "ml0", "mu0", "b12", "b23", "mateq", "mueq", "mleq", "mat_lower", "ml_lower", "mu_lower"),
        "temperature": ("tatm0", "tocean0", "tatm_upper", "tocean_lower", "tocean_upper", "c1", "c3", "c4", "fco22x", "t2xco2", "mat0", "mateq", "fex0", "fex1"),
    }

    for gname, names in groups.items():
        @case(cs, name="step_" + gname, time=200, max_paths=100, conc=20,
              bounds="one step from any state, any emissions in +-100, any values of {} (also where limits are active), both rounding conventions, run and stepping".format(", ".join(names)))
        def step(h, names=names):
            n = 3
            values = {k: dm.draw(h, k) for k in names}
            p = dm.defaults()
            p.update(values)
            e = h.reals("e", n, -100, 100)
            rounding = h.choice("rounding", [True, False, None])
            how = h.choice("how", ["run", "step"])
            start = 1262304000
            scm = new(h)
            dm.prepare(h, scm.parameters, values, start, dm.YEAR, n, e, rounding)
            drive(h, scm, n, how)
            out = dm.outputs(h, scm.output, start, dm.YEAR, n)
            s = {k: p[k + "0"] for k in STATES}
            for k in STATES:
                h.check(len(out[k]) == n, "length of " + k)
                h.eq(out[k][0], s[k], "initial " + k)
            h.eq(out["forc"][0], p["fco22x"] * h.log2(p["mat0"] / p["mateq"]) + p["fex0"], "initial forcing", **FORC)
            carbon = e[0] if rounding is False else e[0] / 3.666
            ref = dm.reference_step(h, p, s, carbon, 1, dm.forcoth(h, p, start, dm.YEAR, 1, dm.SATURATION), {k: out[k][1] for k in out})
            for k in ref:
                h.eq(out[k][1], ref[k], k + " after a step", **tol(k))

    nmax = 4 if quick else 6

    @case(cs, time=200, max_paths=200, conc=20, bounds="2 to {} steps from any carbon and temperature state with any emissions (each step against the equations from the previous state), any remainder between the last step and the stop time".format(nmax - 1))
    def steps(h):
        n = int(h.int("n", 3, nmax))
        values = {k: dm.draw(h, k) for k in ("mat0", "ml0", "mu0", "tatm0", "tocean0")}
        p = dm.defaults()
        p.update(values)
        e = h.reals("e", n, -100, 100)
        how = h.choice("how", ["run", "step"])
        start = h.int("start", 0, 2 * 10 ** 9)
        scm = new(h)
        dm.prepare(h, scm.parameters, values, start, dm.YEAR, n, e, None, remainder=h.int("remainder", 0, dm.YEAR - 1))
        drive(h, scm, n, how)
        out = dm.outputs(h, scm.output, start, dm.YEAR, n)
        for k in out:
            h.check(len(out[k]) == n, "length of " + k)
        for t in range(1, n):
            s = {k: out[k][t - 1] for k in STATES}
            ref = dm.reference_step(h, p, s, e[t - 1] / 3.666, 1, dm.forcoth(h, p, start, dm.YEAR, t, dm.SATURATION), {k: out[k][t] for k in out})
            for k in ref:
                h.eq(out[k][t], ref[k], "{} in step {}".format(k, t), **tol(k))

    @case(cs, time=200, max_paths=200, conc=20, bounds="period lengths from 1 day to 20 years (6 of them), 2 steps, any emissions, state and rounding convention")
    def period(h):
        n = 3
        values = {k: dm.draw(h, k) for k in ("mat0", "ml0", "mu0", "fex0", "fex1")}
        p = dm.defaults()
        p.update(values)
        e = h.reals("e", n, -20, 20)
        rounding = h.choice("rounding", [True, False])
        start = 1262304000
        per = h.choice("period", [86400, 30 * 86400 + 3601, dm.YEAR, dm.YEAR + 43201, 5 * dm.YEAR, 20 * dm.YEAR])
        scm = new(h)
        dm.prepare(h, scm.parameters, values, start, per, n, e, rounding)
        drive(h, scm, n, h.choice("how", ["run", "step"]))
        out = dm.outputs(h, scm.output, start, per, n)
        for t in range(1, n):
            s = {k: out[k][t - 1] for k in STATES}
            carbon = e[t - 1] if rounding is False else e[t - 1] / 3.666
            ref = dm.reference_step(h, p, s, carbon, per / dm.YEAR, dm.forcoth(h, p, start, per, t, dm.SATURATION), {k: out[k][t] for k in out})
            for k in ref:
                h.eq(out[k][t], ref[k], "{} in step {}".format(k, t), **tol(k))

    @case(cs, time=200, max_paths=200, conc=20, bounds="3 steps, any saturation time from 5 years before to 10 years after the start, any start and exogenous forcings")
    def exogenous(h):
        n = 4
        values = {k: dm.draw(h, k) for k in ("fex0", "fex1", "fco22x")}
        p = dm.defaults()
        p.update(values)
        e = h.reals("e", n, -20, 20)
        start = h.int("start", 0, 2 * 10 ** 9)
        sat = start + h.int("saturation", -5 * dm.YEAR, 10 * dm.YEAR)
        scm = new(h)
        dm.prepare(h, scm.parameters, values, start, dm.YEAR, n, e, None, saturation=sat)
        drive(h, scm, n, h.choice("how", ["run", "step"]))
        out = dm.outputs(h, scm.output, start, dm.YEAR, n)
        for t in range(1, n):
            now = start + dm.YEAR * t
            exo = out["forc"][t] - p["fco22x"] * h.log2(out["mat"][t] / p["mateq"])
            if now >= sat:
                h.eq(exo, p["fex1"], "constant after saturation", **FORC)
            else:
                h.eq(exo, p["fex0"] + (p["fex1"] - p["fex0"]) * ((dm.YEAR * t) / (sat - start)), "linear before saturation", **FORC)

    @case(cs, time=200, max_paths=200, conc=20, bounds="two steps from any state without active limits, any transition coefficients and equilibria, both conventions")
    def conservation(h):
        n = 3
        names = ("mat0", "ml0", "mu0", "b12", "b23", "mateq", "mueq", "mleq")
        values = {k: dm.draw(h, k) for k in names}
        for k in ("mat_lower", "ml_lower", "mu_lower"):
            values[k] = 1.0
        e = h.reals("e", n, -20, 20)
        rounding = h.choice("rounding", [True, False])
        start = 1262304000
        scm = new(h)
        dm.prepare(h, scm.parameters, values, start, dm.YEAR, n, e, rounding)
        drive(h, scm, n, h.choice("how", ["run", "step"]))
        out = dm.outputs(h, scm.output, start, dm.YEAR, n)
        for t in range(1, n):
            for k in ("mat", "ml", "mu"):
                h.assume(out[k][t] > 1.0)
            total = [out["mat"][i] + out["ml"][i] + out["mu"][i] for i in (t - 1, t)]
            carbon = e[t - 1] if rounding is False else e[t - 1] / 3.666
            h.eq(total[1], total[0] + carbon, "total carbon in step {}".format(t), scale=100.0)

    return cs
