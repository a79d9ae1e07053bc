"""C14: Model runs are reproducible, equal to stepping, and respect user parameters."""
from symex.runner import case

from . import dicemodel as dm

START = 1262304000
HOOKS = ("_initialize_model", "_initialize_model_input", "_initialize_run_parameters", "_reset", "_run", "_step")


def collect(h, scm, n, start=START):
    return dm.outputs(h, scm.output, start, dm.YEAR, n)


def compare(h, a, b, label):
    for k in b:
        h.check(len(a[k]) == len(b[k]), "{}: length of {}".format(label, k))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            h.eq(x, y, "{}: {}[{}]".format(label, k, i), tol=1e-6, scale=100.0)


def inputs(h, parameters, values, n, e, rounding, start=START):
    """What the user set, read back."""
    unit = "GtC/a" if rounding is False else "GtCO2/a"
    r = {k: (parameters.scalar(("DICE", k), dm.PARAMS[k][1]) if k in dm.PARAMS else parameters.scalar(*dm.STANDARD[k][::2][:2])).value for k in values}
    ev = parameters.timeseries(("Emissions", "CO2"), unit, dm.grid(h, start, dm.YEAR, n), timeseries_type="average").values
    r["e"] = [v for v in ev]
    r["start"] = parameters.generic("Start Time").value
    r["stop"] = parameters.generic("Stop Time").value
    return r


def cases(tier):
    cs = []
    quick = tier == "quick"

    nops = 4 if quick else 5

    @case(cs, time=200, max_paths=6000, conc=20, bounds="all sequences of up to {} calls of run, reset_stepping and step of a recording adapter (steps after a reset), any start time and period".format(nops))
    def lifecycle(h):
        ad = h.mod("adapters")
        log = []
        start, per = h.int("start", 0, 2 * 10 ** 9), h.int("period", 1, 10 ** 9)

        def hook(name):
            def f(self):
                log.append(name)
                if name == "_step":
                    self._current_time += h.td64_of(per)
            return f

        cls = type("Recorder", (ad.Adapter,), dict({n: hook(n) for n in HOOKS}, _shutdown=lambda self: None))
        ad._loaded_adapters["RECORDER"] = cls
        ps, out = h.mod("core.parameterset").ParameterSet(), h.mod("core.parameterset").ParameterSet()
        scm = h.mod("core").OpenSCM("RECORDER", ps, out)
        h.check(scm.parameters is ps and scm.output is out and scm.model == "RECORDER", "given parameter sets are used")
        ps.generic("Start Time").value = h.dt64_of(start)
        h.check(log == [], "nothing is called before the model is used")
        expected, k, ready = [], 0, False
        first = True
        prelude = ["_initialize_model_input", "_initialize_run_parameters", "_reset"]
        for i in range(int(h.int("n", 1, nops))):
            op = h.choice("op{}".format(i), ["run", "reset", "step"])
            h.assume(op != "step" or ready)
            if op == "step":
                t = scm.step()
                k += 1
                expected.append("_step")
                h.eq(t, h.dt64_of(start + k * per), "time reported by step")
            else:
                getattr(scm, "run" if op == "run" else "reset_stepping")()
                expected += (["_initialize_model"] if first else []) + prelude + (["_run"] if op == "run" else [])
                first, k, ready = False, 0, True
            h.check(log == expected, "calls of the adapter")

    @case(cs, time=100, max_paths=600, conc=20, bounds="all sequences of up to 3 of the adapter's own entry points")
    def initialized_first(h):
        ad = h.mod("adapters")
        log = []

        def hook(name):
            def f(self):
                log.append(name)
            return f

        cls = type("Recorder", (ad.Adapter,), dict({n: hook(n) for n in HOOKS}, _shutdown=lambda self: None))
        ps = h.mod("core.parameterset").ParameterSet()
        ps.generic("Start Time").value = h.dt64_of(h.int("start", 0, 2 * 10 ** 9))
        a = cls(ps, h.mod("core.parameterset").ParameterSet())
        h.check(log == [], "nothing is called on construction")
        expected = ["_initialize_model"]
        for i in range(int(h.int("n", 1, 3))):
            op = h.choice("op{}".format(i), ["initialize_model_input", "initialize_run_parameters"])
            getattr(a, op)()
            expected.append("_" + op)
            h.check(log == expected, "initialization exactly once and first")

    names = ("mat0", "ml0", "mu0", "tatm0", "tocean0", "mateq", "fco22x", "c1", "fex1")
    groups = [("carbon", ("mat0", "ml0", "mu0", "mateq", "mueq", "mleq", "b12", "b23")), ("climate", ("tatm0", "tocean0", "c1", "c3", "c4", "fco22x", "t2xco2", "fex0", "fex1")),
              ("limits", ("mat_lower", "ml_lower", "mu_lower", "tatm_upper", "tocean_lower", "tocean_upper"))]
    nmax = 4 if quick else 6

    @case(cs, time=200, max_paths=200, conc=20, bounds="2 to {} steps, any emissions, values of {}, start times and both rounding conventions".format(nmax - 1, ", ".join(names)))
    def stepping(h):
        n = int(h.int("n", 3, nmax))
        values = {k: dm.draw(h, k) for k in names}
        e = h.reals("e", n, -100, 100)
        start = h.int("start", 0, 2 * 10 ** 9)
        rounding = h.choice("rounding", [True, False, None])
        core = h.mod("core")
        scms = []
        for how in ("run", "step"):
            scm = core.OpenSCM("DICE")
            dm.prepare(h, scm.parameters, values, start, dm.YEAR, n, e, rounding)
            if how == "run":
                scm.run()
            else:
                scm.reset_stepping()
                for i in range(n - 1):
                    t = scm.step()
                    h.eq(t, h.dt64_of(start + dm.YEAR * (i + 1)), "time reported by step {}".format(i))
            scms.append(scm)
        compare(h, collect(h, scms[0], n, start), collect(h, scms[1], n, start), "run and stepping")

    @case(cs, time=250, max_paths=400, conc=20, bounds="3 time points; all sequences of up to {} of: run, reset and 0 to 2 steps; then run; any emissions, states, parameters".format(2 if quick else 3))
    def rerun(h):
        n = 3
        values = {k: dm.draw(h, k) for k in names}
        e = h.reals("e", n, -100, 100)
        rounding = h.choice("rounding", [True, False])
        core = h.mod("core")
        scm, fresh = core.OpenSCM("DICE"), core.OpenSCM("DICE")
        for s in (scm, fresh):
            dm.prepare(h, s.parameters, values, START, dm.YEAR, n, e, rounding)
        fresh.run()
        for i in range(int(h.int("n", 1, 2 if quick else 3))):
            op = h.choice("op{}".format(i), ["run", 0, 1, 2])
            if op == "run":
                scm.run()
            else:
                scm.reset_stepping()
                for _ in range(op):
                    scm.step()
        before = inputs(h, scm.parameters, values, n, e, rounding)
        scm.run()
        compare(h, collect(h, scm, n), collect(h, fresh, n), "run again")
        after = inputs(h, scm.parameters, values, n, e, rounding)
        for k in values:
            h.eq(after[k], values[k], "input {} after running".format(k), tol=1e-9)
            h.eq(before[k], values[k], "input {} before running again".format(k), tol=1e-9)
        for i in range(n):
            h.eq(after["e"][i], e[i], "emissions after running", tol=1e-6, scale=100.0)
        h.eq(after["start"], h.dt64_of(START), "start time after running")
        h.eq(after["stop"], h.dt64_of(START + dm.YEAR * (n - 1)), "stop time after running")

    for gname, group in groups:
        @case(cs, name="changed_" + gname, time=250, max_paths=400, conc=20, bounds="a run or stepping, then new values of any subset of (one half of) {} and of the emissions, then a run or stepping".format(", ".join(group)))
        def changed(h, group=group):
            n = 3
            half = h.choice("half", [0, 1])
            old = {k: dm.draw(h, k) for k in group}
            e, e2 = h.reals("e", n, -100, 100), h.reals("f", n, -100, 100)
            new = dict(old)
            core = h.mod("core")
            scm, fresh = core.OpenSCM("DICE"), core.OpenSCM("DICE")
            # values equal to the documented defaults, when the user sets none
            given = h.flag("given")
            dm.prepare(h, scm.parameters, old if given else {}, START, dm.YEAR, n, e)
            if h.flag("stepped"):
                scm.reset_stepping()
                scm.step()
            else:
                scm.run()
            for i, k in enumerate(group):
                if i % 2 == half:
                    lo, hi = (dm.PARAMS[k][2:] if k in dm.PARAMS else dm.STANDARD[k][3:])
                    new[k] = h.real("new_" + k, lo, hi)
                    dm.set_param(scm.parameters, k, new[k])
                elif not given:
                    new[k] = dm.defaults()[k]
            scm.parameters.timeseries(("Emissions", "CO2"), "GtCO2/a", dm.grid(h, START, dm.YEAR, n), timeseries_type="average").values = h.floats(e2)
            scm.run()
            dm.prepare(h, fresh.parameters, new, START, dm.YEAR, n, e2)
            fresh.run()
            compare(h, collect(h, scm, n), collect(h, fresh, n), "after changes")

    @case(cs, time=100, max_paths=400, conc=20, bounds="rounding convention and saturation time changed between two runs, any emissions")
    def changed_generic(h):
        n = 3
        e = h.reals("e", n, -100, 100)
        core = h.mod("core")
        sat = [START + h.int("sat{}".format(i), 1, 10 * dm.YEAR) for i in range(2)]
        rounding = [h.choice("r{}".format(i), [True, False]) for i in range(2)]
        scm, fresh = core.OpenSCM("DICE"), core.OpenSCM("DICE")
        dm.prepare(h, scm.parameters, {}, START, dm.YEAR, n, e, rounding[0], saturation=sat[0])
        scm.run()
        scm.parameters.generic(("DICE", "original_rounding")).value = rounding[1]
        scm.parameters.generic(("DICE", "forcoth_saturation_time")).value = h.dt64_of(sat[1])
        scm.run()
        unit = "GtC/a" if rounding[0] is False else "GtCO2/a"
        for k, v in (("Start Time", START), ("Stop Time", START + dm.YEAR * (n - 1))):
            fresh.parameters.generic(k).value = h.dt64_of(v)
        fresh.parameters.generic(("DICE", "original_rounding")).value = rounding[1]
        fresh.parameters.generic(("DICE", "forcoth_saturation_time")).value = h.dt64_of(sat[1])
        fresh.parameters.timeseries(("Emissions", "CO2"), unit, dm.grid(h, START, dm.YEAR, n), timeseries_type="average").values = h.floats(e)
        fresh.run()
        compare(h, collect(h, scm, n), collect(h, fresh, n), "after changes")

    other = {"GtC": ("tC", 1e-9), "": ("g/kg", 1e-3), "delta_degC": ("delta_degF", 5 / 9), "W/m^2": ("mW/m^2", 1e-3)}

    for gname, group in groups:
        @case(cs, name="user_wins_" + gname, time=200, max_paths=1000, conc=20, bounds="any subset of (half of) {} set by the user to any values (zero and default included), in the model's or another unit, before or after the model object is made".format(", ".join(group)))
        def user_wins(h, group=group):
            n = 3
            core = h.mod("core")
            ps = h.mod("core.parameterset").ParameterSet()
            half = h.choice("half", [0, 1])
            subset = [k for i, k in enumerate(group) if i % 2 == half]
            kind = h.choice("units", ["same", "other"])
            late = h.flag("late")
            scm = None if late else core.OpenSCM("DICE", ps)
            values = {}
            for k in subset:
                name, unit = (("DICE", k), dm.PARAMS[k][1]) if k in dm.PARAMS else (dm.STANDARD[k][0], dm.STANDARD[k][2])
                lo, hi = (dm.PARAMS[k][2:] if k in dm.PARAMS else dm.STANDARD[k][3:])
                if kind == "other" and unit in other:
                    u, f = other[unit]
                else:
                    u, f = unit, 1.0
                v = h.real("v_" + k, lo / f, hi / f)
                ps.scalar(name, u).value = v
                values[k] = (name, u, f, v)
            if scm is None:
                scm = core.OpenSCM("DICE", ps)
            dm.prepare(h, ps, {}, START, dm.YEAR, n, h.reals("e", n, 0, 10))
            ran = h.flag("run")
            if ran:
                scm.run()
            else:
                scm.reset_stepping()
            for k, (name, u, f, v) in values.items():
                h.eq(ps.scalar(name, u).value, v, "value of {} in the user's unit".format(k), tol=1e-9)
            if ran and "mat0" in values:
                out = scm.output.timeseries(("Pool", "CO2", "Atmosphere"), "GtC", dm.grid(h, START, dm.YEAR, n)[:-1]).values
                h.eq(out[0], values["mat0"][3] * values["mat0"][2], "initial carbon is the user's", tol=1e-6, scale=100.0)
            for k in group:
                if k not in values:
                    name, unit = (("DICE", k), dm.PARAMS[k][1]) if k in dm.PARAMS else (dm.STANDARD[k][0], dm.STANDARD[k][2])
                    h.eq(ps.scalar(name, unit).value, dm.defaults()[k], "default of {}".format(k), tol=1e-9)

    @case(cs, time=100, max_paths=100, conc=20, bounds="any period length from 1 day to 20 years set by the user, rounding convention, saturation time; kept after a run")
    def user_wins_generic(h):
        n = 3
        core = h.mod("core")
        scm = core.OpenSCM("DICE")
        per = h.choice("period", [86400, dm.YEAR, 20 * dm.YEAR])
        rounding = h.choice("rounding", [True, False])
        sat = START + h.int("saturation", 1, 200 * dm.YEAR)
        dm.prepare(h, scm.parameters, {}, START, per, n, h.reals("e", n, 0, 10), rounding, saturation=sat)
        scm.run()
        h.eq(scm.parameters.generic(("DICE", "period_length")).value, h.td64_of(per), "period length")
        h.check(scm.parameters.generic(("DICE", "original_rounding")).value is rounding, "rounding convention")
        h.eq(scm.parameters.generic(("DICE", "forcoth_saturation_time")).value, h.dt64_of(sat), "saturation time")

    @case(cs, time=60, max_paths=100, conc=10, bounds="all model names of up to 5 characters")
    def unknown(h):
        name = h.string("name", "DICEd", 0, 5)
        if name == "DICE":
            h.check(h.mod("core").OpenSCM(name).model == "DICE", "known model")
        else:
            h.raises(lambda: h.mod("core").OpenSCM(name), "KeyError", "unknown model is refused")

    return cs
