"""C06: every gas is its own dimension with fixed mass ratios."""
from symex.runner import case

from . import symunits
from .gases import GASES, LONG, MASS, SPECIES, SYMBOLS, TIME, UPPER

ALL = dict(GASES)
ALL.update(UPPER)


def cases(tier):
    cs = []
    names = sorted(ALL)
    joint = sorted(set(SYMBOLS) | set(UPPER))
    groups = [names[i::6] for i in range(6)]

    for gi, group in enumerate(groups):
        @case(cs, name="ratio_{}".format(gi), time=100, max_paths=2000, conc=60,
              bounds="each of {} gas names, any value in +-1e6, as amount, mass, rate and mass flux with mass and time units of any scale".format(len(group)))
        def ratio(h, group=group):
            uc = h.mod("core.units").UnitConverter
            gas = h.choice("gas", group)
            base, k = ALL[gas]
            form = h.choice("form", ["{g}", "{m} {g}", "{g} / {t}", "{m} {g} / {t}", "{m} * {g} / {t}"])
            km, kt = symunits.scale(h, "mass"), symunits.scale(h, "time")
            m, t = symunits.define(h, "symm", km, {"kilogram": 1}), symunits.define(h, "symt", kt, {"second": 1})
            x = h.real("x", -10 ** 6, 10 ** 6)
            c = uc(form.format(g=gas, m=m, t=t), form.format(g=base, m="kg", t="s"))
            f = k
            if "{m}" in form:
                f = f * km
            if "{t}" in form:
                f = f / kt
            y = c.convert_from(x)
            h.eq(y, x * f, "amount of the base species")
            h.eq(c.convert_to(y), x, "round trip")

    for gi, group in enumerate([joint[i::4] for i in range(4)]):
        @case(cs, name="joint_{}".format(gi), time=100, max_paths=3000, conc=60,
              bounds="joint units g, t, Mt, kt and Gt of each of {} gas symbols, alone and per time unit of any scale".format(len(group)))
        def joint_(h, group=group):
            uc = h.mod("core.units").UnitConverter
            gas = h.choice("gas", group)
            base, k = ALL[gas]
            pre = h.choice("prefix", ["g", "t", "Mt"] if tier == "quick" else ["g", "t", "kt", "Mt", "Gt", "kg", "Tg"])
            rate = h.flag("rate")
            kt = symunits.scale(h, "time")
            t = symunits.define(h, "symt", kt, {"second": 1})
            x = h.real("x", -10 ** 6, 10 ** 6)
            src, dst = pre + gas + (" / " + t if rate else ""), "kg " + base + (" / s" if rate else "")
            f = k * MASS[pre]
            y = uc(src, dst).convert_from(x)
            h.eq(y, x * f / kt if rate else x * f, "amount of the base species", scale=MASS[pre])
            z = uc(dst, src).convert_from(y)
            h.eq(z, x, "opposite converter", scale=1.0)

    def members(base, joint_too):
        ms = [n for n in names if ALL[n][0] == base]
        return ms

    for bi, bs in enumerate([[s for s in SPECIES if len(members(s, False)) > 1][i::3] for i in range(3)]):
        @case(cs, name="same_species_{}".format(bi), time=100, max_paths=3000, conc=40,
              bounds="every ordered pair of names of one species, for {} species with several names, any value".format(len(bs)))
        def same_species(h, bs=bs):
            uc = h.mod("core.units").UnitConverter
            base = h.choice("species", bs)
            a, b = h.choice("a", members(base, False)), h.choice("b", members(base, False))
            x = h.real("x", -10 ** 6, 10 ** 6)
            h.eq(uc("Gt {} / yr".format(a), "Gt {} / yr".format(b)).convert_from(x), x * (ALL[a][1] / ALL[b][1]), "converted amount")

    for bi in range(4):
        @case(cs, name="species_apart_{}".format(bi), time=200, max_paths=1000, conc=10,
              bounds="each ordered pair of {} species, as amounts, and as joint masses per year; for each also every alias of the source".format(len(SPECIES)))
        def species_apart(h, bi=bi):
            units = h.mod("core.units")
            uc = units.UnitConverter
            form = h.choice("form", ["{}", "t{}/yr", "{} / s"])
            a = h.choice("source", SPECIES[bi::4])
            srcs = [n for n in names if ALL[n][0] == a and (form[0] != "t" or n not in LONG)]
            src = h.choice("name", srcs)
            for b in SPECIES:
                if b != a:
                    h.raises(lambda: uc(form.format(src), form.format(b)), "DimensionalityError", "{} to {}".format(src, b))

    @case(cs, time=60, max_paths=300, conc=10, bounds="each species against mass, time, length, temperature and concentration units")
    def not_physical(h):
        uc = h.mod("core.units").UnitConverter
        a = h.choice("gas", names)
        for b in ["kg", "s", "m", "K", "ppm", "dimensionless", "g" + (a if a not in LONG else "C"), a + " * kg", "coulomb", "newton", "siemens"]:
            h.raises(lambda: uc(a, b), "DimensionalityError", "{} to {}".format(a, b))

    @case(cs, time=60, max_paths=300, conc=20, bounds="every pair of the mass units {} and of the time units {}, any value, with gas CO2 and alone".format(sorted(MASS), sorted(TIME)))
    def abbreviations(h):
        uc = h.mod("core.units").UnitConverter
        kind = h.choice("kind", ["mass", "time"])
        table = MASS if kind == "mass" else TIME
        a, b = h.choice("a", sorted(table)), h.choice("b", sorted(table))
        x = h.real("x", -10 ** 6, 10 ** 6)
        f = table[a] / table[b]
        y = uc(a, b).convert_from(x)
        h.eq(y, x * f, "converted value")
        gf = "{} CO2" if kind == "mass" else "CO2 / {}"
        h.eq(uc(gf.format(a), gf.format(b)).convert_from(x), x * f if kind == "mass" else x / f, "with a gas")

    return cs
