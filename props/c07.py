"""C07: metric contexts convert with exactly the table value and do not leak."""
import csv
import os
import warnings

from symex.runner import case

from . import symunits

# the published table, kept here as the independent reference
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = list(csv.reader(open(os.path.join(HERE, "data", "metric_reference.csv"))))
CONTEXTS = ROWS[1][1:]
TABLE = {r[0]: {c: (float(v) if v else None) for c, v in zip(CONTEXTS, r[1:])} for r in ROWS[3:]}
FORMS = ["{}", "kg {}", "{} / yr", "kg {} / yr", "t{}", "Mt{} / a", "Gt {} / day"]


def converter(h, source, target, context):
    """The converter and whether a warning was shown."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        c = h.mod("core.units").UnitConverter(source, target, context=context)
    return c, [x for x in w if "nan" in str(x.message).lower()]


def cases(tier):
    cs = []
    gases = sorted(TABLE)

    for context in CONTEXTS:
        for part in range(2):
            @case(cs, name="table_{}_{}".format(context, part), time=100, max_paths=2000, conc=60,
                  bounds="every gas of the table in {}, any value in +-1e6, as {}".format(context, FORMS))
            def table(h, context=context, part=part):
                gas = h.choice("gas", gases[part::2])
                form = h.choice("form", FORMS if tier != "quick" else FORMS[:4] + [FORMS[4 + len(gas) % 3]])
                gwp = TABLE[gas][context]
                x = h.real("x", -10 ** 6, 10 ** 6)
                c, w = converter(h, form.format(gas), form.format("CO2"), context)
                b, wb = converter(h, form.format("CO2"), form.format(gas), context)
                if gwp is None:
                    h.check(len(w) > 0 and len(wb) > 0, "warning for an unavailable entry")
                    y, z = c.convert_from(1.0), b.convert_from(2.0)
                    h.check(bool(y != y) and bool(z != z), "nan for an unavailable entry")
                    return
                h.check(not w and not wb, "no warning for an available entry")
                y = c.convert_from(x)
                h.eq(y, x * gwp, "amount of CO2")
                h.eq(c.convert_to(y), x, "round trip", scale=0.01)
                h.eq(b.convert_from(y), x, "opposite converter", scale=0.01)

    @case(cs, time=100, max_paths=300, conc=40, bounds="any metric value in [0.001, 100000], any value in +-1e6, any scales of mass and time units, gases of every kind, in five forms")
    def any_metric(h):
        import pandas as pd

        units = h.mod("core.units")
        gas = h.choice("gas", ["CH4", "N2O", "SF6", "HFC4310mee"])
        gwp = h.real("gwp", 0.001, 100000)
        name = h.unique("SYMGWP")
        real_read = pd.read_csv

        def patched(*a, **k):
            df = real_read(*a, **k)
            df[name] = pd.Series([gwp if i == gas else float("nan") for i in df.index], index=df.index, dtype=object)
            return df

        try:
            pd.read_csv = patched
            units._unit_registry._contexts_loaded = False
            try:
                converter(h, gas, "CO2", name)
            except KeyError:
                h.limit("the metric table is not read by pandas.read_csv")
        finally:
            pd.read_csv = real_read
        form = h.choice("form", ["{g}", "{m} {g}", "{g} / {t}", "{m} {g} / {t}"])
        km, kt, kn = symunits.scale(h, "mass"), symunits.scale(h, "time"), symunits.scale(h, "mass2")
        m, t, n = [symunits.define(h, a, b, {c: 1}) for a, b, c in (("symm", km, "kilogram"), ("symt", kt, "second"), ("symn", kn, "kilogram"))]
        x = h.real("x", -10 ** 6, 10 ** 6)
        target, k = h.choice("target", [("CO2", 1), ("C", 12 / 44)])
        src, dst = form.format(g=gas, m=m, t=t), form.format(g=target, m=n, t="s")
        f = gwp * k
        if "{m}" in form:
            f = f * km / kn
        if "{t}" in form:
            f = f / kt
        c, w = converter(h, src, dst, name)
        y = c.convert_from(x)
        h.eq(y, x * f, "amount of the carbon species")
        h.eq(c.convert_to(y), x, "round trip", scale=0.01)
        b, w = converter(h, dst, src, name)
        h.eq(b.convert_from(y), x, "opposite converter", scale=0.01)

    for context, a, b, ratio in (("CH4_conversions", "CH4", "C", 12 / 16), ("NOx_conversions", "NOx", "N", 14 / 46)):
        @case(cs, name=context, time=60, max_paths=200, conc=30, bounds="any value in +-1e6, species and derived species, both directions")
        def mass_ratio(h, context=context, a=a, b=b, ratio=ratio):
            derived = {"C": [("C", 1), ("CO2", 44 / 12), ("carbon", 1)], "N": [("N", 1), ("N2O", 44 / 14), ("NH3", 17 / 14), ("nitrogen", 1)]}[b]
            src = h.choice("name", {"CH4": ["CH4", "methane"], "NOx": ["NOx", "nox", "NOX"]}[a])
            dst, k = h.choice("target", derived)
            x = h.real("x", -10 ** 6, 10 ** 6)
            c, w = converter(h, src, dst, context)
            d, w = converter(h, dst, src, context)
            y = c.convert_from(x)
            h.eq(y, x * ratio * k, "converted amount")
            h.eq(c.convert_to(y), x, "round trip")
            h.eq(d.convert_from(y), x, "opposite converter")
            other = "NOx_conversions" if context[0] == "C" else "CH4_conversions"
            h.raises(lambda: converter(h, src, dst, other), "DimensionalityError", "other context")
            h.raises(lambda: converter(h, src, dst, None), "DimensionalityError", "no context")

    kinds = ["SARGWP100", "AR5GWP100", "CH4_conversions", "NOx_conversions", "failing", "undefined", "unknown context", "none"]

    @case(cs, time=100, max_paths=3000, conc=40, bounds="every sequence of {} conversions in metric, mass-ratio and unknown contexts, failing ones included".format(2 if tier == "quick" else 3))
    def no_leak(h):
        uc = h.mod("core.units").UnitConverter
        x = h.real("x", -10 ** 6, 10 ** 6)
        for step in range(2 if tier == "quick" else 3):
            kind = h.choice("op{}".format(step), kinds)
            if kind == "failing":
                h.raises(lambda: uc("CH4", "kelvin", context="AR4GWP100"), "DimensionalityError", "impossible conversion in a context")
            elif kind == "undefined":
                h.raises(lambda: uc("CH4", "Xq", context="AR4GWP100"), "UndefinedUnitError", "undefined unit in a context")
            elif kind == "unknown context":
                h.raises(lambda: uc("CH4", "CO2", context="nosuchcontext"), "KeyError", "unknown context")
            elif kind == "none":
                h.eq(uc("MtC", "GtCO2").convert_from(x), x * (44 / 12 / 1000), "no context")
            elif kind == "CH4_conversions":
                h.eq(uc("CH4", "CO2", context=kind).convert_from(x), x * (44 / 16), kind)
            elif kind == "NOx_conversions":
                h.eq(uc("NOx", "N", context=kind).convert_from(x), x * (14 / 46), kind)
            else:
                h.eq(uc("CH4", "CO2", context=kind).convert_from(x), x * TABLE["CH4"][kind], kind)
                h.eq(uc("t N / a", "kg N / a", context=kind).convert_from(x), x * 1000, "conversion within a species in a context")
            for a, b in (("CH4", "CO2"), ("kg N2O / yr", "kg C / yr"), ("NOx", "N2O"), ("tSF6", "tCO2")):
                h.raises(lambda: uc(a, b), "DimensionalityError", "{} to {} without a context".format(a, b))
        h.eq(uc("CO2", "N2O", context="AR4GWP100").convert_from(x), x / 298, "metric afterwards")

    @case(cs, time=60, max_paths=400, conc=20, bounds="gases which are not in the table, in every metric context")
    def not_listed(h):
        gas = h.choice("gas", ["BC", "OC", "CO", "VOC", "SO2", "NOx"])
        context = h.choice("context", CONTEXTS)
        form = h.choice("form", FORMS[:4])
        h.raises(lambda: converter(h, form.format(gas), form.format("CO2"), context), "DimensionalityError", "gas without metric")
        h.raises(lambda: converter(h, form.format("CO2"), form.format(gas), context), "DimensionalityError", "gas without metric")

    return cs
