"""Independent statement of the DICE 2013 climate equations and a driver for the adapter."""
import numpy as np

# name: (default, unit, range)
PARAMS = {
    "mat0": (830.4, "GtC", 100, 3000), "mateq": (588, "GtC", 100, 1000), "mat_lower": (10, "GtC", 1, 2000),
    "ml0": (10010, "GtC", 100, 20000), "mleq": (10000, "GtC", 100, 20000), "ml_lower": (1000, "GtC", 1, 20000),
    "mu0": (1527, "GtC", 100, 5000), "mueq": (1350, "GtC", 100, 5000), "mu_lower": (100, "GtC", 1, 5000),
    "tatm0": (0.8, "delta_degC", -5, 50), "tatm_upper": (40, "delta_degC", 0, 50),
    "tocean0": (0.0068, "delta_degC", -5, 30), "tocean_lower": (-1, "delta_degC", -5, 0), "tocean_upper": (20, "delta_degC", 0.5, 30),
    "b12": (0.0181, "", 0, 0.2), "b23": (0.00071, "", 0, 0.2),
    "c1": (0.0222, "delta_degC*m^2/W", 0, 1), "c3": (0.09175, "W/m^2/delta_degC", 0, 2), "c4": (0.00487, "", 0, 0.5),
    "fex0": (0.25, "W/m^2", -2, 5), "fex1": (0.7, "W/m^2", -2, 5),
}
STANDARD = {"fco22x": ("Radiative Forcing Sensitivity", 3.8, "W/m^2", 0.5, 10), "t2xco2": ("Equilibrium Climate Sensitivity", 2.9, "delta_degC", 0.5, 10)}
OUTPUTS = {
    "mat": (("Pool", "CO2", "Atmosphere"), "GtC", "point"), "ml": (("Pool", "CO2", "Ocean", "lower"), "GtC", "point"),
    "mu": (("Pool", "CO2", "Ocean", "shallow"), "GtC", "point"), "tatm": (("Surface Temperature", "Increase"), "delta_degC", "point"),
    "tocean": (("Ocean Temperature", "Increase"), "delta_degC", "point"), "forc": (("Radiative Forcing", "CO2"), "W/m^2", "average"),
}
YEAR = 365 * 86400
SATURATION = int(np.datetime64("2100-01-01", "s").astype(np.int64))


def draw(h, name):
    lo, hi = (PARAMS[name][2:] if name in PARAMS else STANDARD[name][3:])
    return h.real(name, lo, hi)


def defaults():
    d = {n: v[0] for n, v in PARAMS.items()}
    d.update({n: v[1] for n, v in STANDARD.items()})
    return d


def set_param(parameters, name, value):
    if name in PARAMS:
        parameters.scalar(("DICE", name), PARAMS[name][1]).value = value
    else:
        parameters.scalar(STANDARD[name][0], STANDARD[name][2]).value = value


def grid(h, start, period, n):
    """n+1 points delimiting n periods."""
    return h.dts([h.dt64_of(start + period * i) for i in range(n + 1)])


def prepare(h, parameters, values, start, period, n, emissions, rounding=None, saturation=None, remainder=0):
    """Set the given parameters and n - 1 steps (n time points)."""
    for k, v in values.items():
        set_param(parameters, k, v)
    parameters.generic("Start Time").value = h.dt64_of(start)
    parameters.generic("Stop Time").value = h.dt64_of(start + period * (n - 1) + remainder)
    if period is not YEAR:
        parameters.generic(("DICE", "period_length")).value = h.td64_of(period)
    if rounding is not None:
        parameters.generic(("DICE", "original_rounding")).value = rounding
    if saturation is not None:
        parameters.generic(("DICE", "forcoth_saturation_time")).value = h.dt64_of(saturation)
    unit = "GtC/a" if rounding is False else "GtCO2/a"
    parameters.timeseries(("Emissions", "CO2"), unit, grid(h, start, period, n), timeseries_type="average").values = h.floats(emissions)


def outputs(h, output, start, period, n):
    g = grid(h, start, period, n)
    r = {}
    for k, (name, unit, kind) in OUTPUTS.items():
        r[k] = [v for v in output.timeseries(name, unit, g if kind == "average" else g[:-1], timeseries_type=kind).values]
    return r


def forcoth(h, p, start, period, t, saturation):
    """Exogenous forcing of step t: linear from fex0 at the start to fex1 at saturation, constant afterwards."""
    now = start + period * t
    ramp = p["fex0"] + (p["fex1"] - p["fex0"]) * ((period * t) / (saturation - start)) if not _const0(saturation - start) else p["fex1"]
    return h.ite(now >= saturation, p["fex1"], ramp)


def _const0(x):
    return isinstance(x, int) and x == 0


def reference_step(h, p, s, e, years, forc_exo, seen):
    """The state after one step; e: emitted carbon per year (GtC).

    Forcing and temperature follow from the carbon and forcing that were output (seen), which are compared, too.
    """
    b11, b21 = 1 - p["b12"], p["b12"] * p["mateq"] / p["mueq"]
    b22, b32 = 1 - b21 - p["b23"], p["b23"] * p["mueq"] / p["mleq"]
    b33 = 1 - b32
    n = {}
    n["mat"] = h.max([p["mat_lower"], s["mat"] * b11 + s["mu"] * b21 + e * years])
    n["ml"] = h.max([p["ml_lower"], s["ml"] * b33 + s["mu"] * p["b23"]])
    n["mu"] = h.max([p["mu_lower"], s["mat"] * p["b12"] + s["mu"] * b22 + s["ml"] * b32])
    n["tocean"] = h.max([p["tocean_lower"], h.min([p["tocean_upper"], s["tocean"] + p["c4"] * (s["tatm"] - s["tocean"])])])
    n["forc"] = p["fco22x"] * h.log2(seen["mat"] / p["mateq"]) + forc_exo
    n["tatm"] = h.min([p["tatm_upper"], s["tatm"] + p["c1"] * (seen["forc"] - p["fco22x"] / p["t2xco2"] * s["tatm"] - p["c3"] * (s["tatm"] - s["tocean"]))])
    return n
