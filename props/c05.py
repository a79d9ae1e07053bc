"""C05: unit conversion is the exact affine map between units, and its inverse."""
from symex.runner import case

from . import symunits

# independent definitions: unit -> (dimension, scale, offset) with value_in_base = value * scale + offset
REFERENCE = {
    "K": ("temperature", 1.0, 0.0), "kelvin": ("temperature", 1.0, 0.0),
    "degC": ("temperature", 1.0, 273.15), "degreeC": ("temperature", 1.0, 273.15),
    "degF": ("temperature", 5 / 9, 255.372222222), "degreeF": ("temperature", 5 / 9, 255.372222222),
    "g": ("mass", 1e-3, 0), "kg": ("mass", 1.0, 0), "t": ("mass", 1e3, 0), "kt": ("mass", 1e6, 0), "Mt": ("mass", 1e9, 0), "Gt": ("mass", 1e12, 0),
    "s": ("time", 1.0, 0), "h": ("time", 3600.0, 0), "hour": ("time", 3600.0, 0), "d": ("time", 86400.0, 0), "day": ("time", 86400.0, 0),
    "week": ("time", 604800.0, 0), "a": ("time", 31557600.0, 0), "yr": ("time", 31557600.0, 0), "year": ("time", 31557600.0, 0),
    "annum": ("time", 31557600.0, 0),
    "ppt": ("concentration", 1.0, 0), "ppb": ("concentration", 1e3, 0), "ppm": ("concentration", 1e6, 0),
    "W/m^2": ("flux", 1.0, 0), "mW/m^2": ("flux", 1e-3, 0), "W/cm^2": ("flux", 1e4, 0),
    "GtC/yr": ("carbonflux", 1e12 / 31557600.0, 0), "MtCO2/a": ("carbonflux", 1e9 * 12 / 44 / 31557600.0, 0),
    "kt C / d": ("carbonflux", 1e6 / 86400, 0),
    "m": ("length", 1.0, 0), "km": ("length", 1000.0, 0), "m^2": ("area", 1.0, 0),
    "dimensionless": ("none", 1.0, 0), "percent_": None,
}
REFERENCE = {k: v for k, v in REFERENCE.items() if v}



def cases(tier):
    cs = []
    quick = tier == "quick"

    @case(cs, time=60, max_paths=200, conc=10, bounds="three units of one dimension with any scales in [0.01, 100], any value in +-1e6; units used alone, squared, inverse and in a product")
    def scales(h):
        uc = h.mod("core.units").UnitConverter
        b = symunits.base(h, "symbase")
        k = [symunits.scale(h, "k{}".format(i)) for i in range(3)]
        u = [symunits.define(h, "symu{}x".format(i), k[i], {b: 1}) for i in range(3)]
        x = h.real("x", -10 ** 6, 10 ** 6)
        form = h.choice("form", ["{}", "{}**2", "1/{}", "kg * {} / yr", "{} / s**2"])
        power = {"{}": 1, "{}**2": 2, "1/{}": -1, "kg * {} / yr": 1, "{} / s**2": 1}[form]
        n = [form.format(v) for v in u]
        f = lambda i, j: (k[i] / k[j]) ** power if power > 0 else k[j] / k[i]
        ab, bc, ac, ba = uc(n[0], n[1]), uc(n[1], n[2]), uc(n[0], n[2]), uc(n[1], n[0])
        y = ab.convert_from(x)
        h.eq(y, x * f(0, 1), "converted value")
        h.eq(ab.convert_to(y), x, "round trip")
        h.eq(ba.convert_from(y), x, "opposite converter")
        h.eq(ab.convert_to(x), x * f(1, 0), "convert_to is the inverse map")
        h.eq(bc.convert_from(y), ac.convert_from(x), "via a third unit")
        h.eq(uc(n[0], n[0]).convert_from(x), x, "identity")
        h.check(ab.source == n[0] and ab.target == n[1], "source and target names")

    @case(cs, time=60, max_paths=200, conc=10, bounds="three temperature-like units with any scales in [0.01, 100] and offsets in +-500, any value in +-1e4")
    def offsets(h):
        uc = h.mod("core.units").UnitConverter
        k = [symunits.scale(h, "k{}".format(i)) for i in range(3)]
        o = h.reals("o", 3, -500, 500)
        u = [symunits.define(h, "symt{}x".format(i), k[i], {"kelvin": 1}, o[i]) for i in range(3)]
        x = h.real("x", -10 ** 4, 10 ** 4)
        expect = lambda i, j, v: (v * k[i] + o[i] - o[j]) / k[j]
        ab, bc, ac = uc(u[0], u[1]), uc(u[1], u[2]), uc(u[0], u[2])
        y = ab.convert_from(x)
        h.eq(y, expect(0, 1, x), "converted value", tol=1e-5)
        h.eq(ab.convert_to(y), x, "round trip", tol=1e-5, scale=1000.0)
        h.eq(ab.convert_to(x), expect(1, 0, x), "convert_to is the inverse map", tol=1e-5, scale=1000.0)
        h.eq(bc.convert_from(y), ac.convert_from(x), "via a third unit", tol=1e-5, scale=1000.0)
        h.eq(uc(u[0], u[0]).convert_from(x), x, "identity", tol=1e-5, scale=1000.0)
        h.eq(uc(u[0], "kelvin").convert_from(x), x * k[0] + o[0], "to kelvin", tol=1e-5, scale=1000.0)

    @case(cs, time=60, max_paths=100, conc=10, bounds="arrays of 1 to 4 values, offset units with any scale and offset")
    def arrays(h):
        uc = h.mod("core.units").UnitConverter
        k = [symunits.scale(h, "k{}".format(i)) for i in range(2)]
        o = h.reals("o", 2, -500, 500)
        u = [symunits.define(h, "symt{}x".format(i), k[i], {"kelvin": 1}, o[i]) for i in range(2)]
        n = int(h.int("n", 1, 4))
        xs = h.reals("x", n, -10 ** 4, 10 ** 4)
        arr = h.floats(xs)
        c = uc(u[0], u[1])
        r = c.convert_from(arr)
        h.eq(r, [(v * k[0] + o[0] - o[1]) / k[1] for v in xs], "elementwise", tol=1e-5, scale=1000.0)
        h.eq(c.convert_to(r), xs, "elementwise round trip", tol=1e-5, scale=1000.0)
        h.eq(arr, xs, "the array handed in is unchanged")

    names = sorted(REFERENCE)
    dims = sorted({v[0] for v in REFERENCE.values()})
    for dim in dims:
        @case(cs, name="shipped_" + dim, time=60, max_paths=400, conc=30,
              bounds="every ordered pair of {} with any value in +-1e6".format([n for n in names if REFERENCE[n][0] == dim]))
        def shipped(h, dim=dim):
            uc = h.mod("core.units").UnitConverter
            mine = [n for n in names if REFERENCE[n][0] == dim]
            a, b = h.choice("source", mine), h.choice("target", mine)
            (_, ka, oa), (_, kb, ob) = REFERENCE[a], REFERENCE[b]
            x = h.real("x", -10 ** 6, 10 ** 6)
            c = uc(a, b)
            y = c.convert_from(x)
            h.eq(y, (x * ka + oa - ob) / kb, "converted value", tol=2e-5, scale=1.0 if oa == 0 and ob == 0 else 300.0)
            h.eq(c.convert_to(y), x, "round trip", tol=1e-6)

    step = 4
    for lo in range(0, len(names), step if not quick else len(names)):
        @case(cs, name="refused_{}".format(lo), time=100, max_paths=1500, conc=30, bounds="all ordered pairs of different dimensions among {} units".format(len(names)))
        def refused(h, lo=lo):
            uc = h.mod("core.units").UnitConverter
            mine = dims if quick else names[lo:lo + step]
            a = h.choice("source", mine)
            a = [n for n in names if REFERENCE[n][0] == a][0] if quick else a
            b = h.choice("target", dims if quick else names)
            b = [n for n in names if REFERENCE[n][0] == b][-1] if quick else b
            h.assume(REFERENCE[a][0] != REFERENCE[b][0])
            h.raises(lambda: uc(a, b), "DimensionalityError", "different dimensions")

    @case(cs, time=60, max_paths=100, conc=20, bounds="undefined names as source, target and both, alone and in products")
    def undefined(h):
        uc = h.mod("core.units").UnitConverter
        bad = h.choice("bad", ["nosuchunit", "Xq", "kg nosuchunit", "W/m^2/Xq", "tXq"])
        side = h.choice("side", ["source", "target", "both"])
        good = h.choice("good", ["kg", "K", "GtC/yr"])
        a = bad if side != "target" else good
        b = bad if side != "source" else good
        h.raises(lambda: uc(a, b), "UndefinedUnitError", "undefined unit")

    return cs
