"""C24: timeseries types are inferred from units first and names second."""
from symex.runner import case

STARTS = ["Emissions", "Radiative Forcing", "HEATUPTAKE_EBALANCE_TOTAL"]
INSIDE = ["Flux", "_EMIS", "_GWPEMIS", "_RF", "_SRF", "_EFFRF", "_PEFFRF"]
OTHERS = ["Atmospheric Concentrations", "_CONC", "Surface Temperature", "TEMP", "", "Heat Uptake"]
# unit and whether it has a time dimension
KNOWN = [("K", False), ("GtC", False), ("ppm", False), ("W/m^2", True), ("GtC/yr", True), ("Mt CO2 / a", True), ("yr", True), ("s", True), ("W", True), ("J", True), ("Hz", True),
         ("1/s", True), ("kg m", False), ("m**2", False), ("degC", False), ("delta_degC/a", True), ("degC/a", True), ("dimensionless", False), ("1", False), ("yr/hr", False),
         ("kt CH4 / day", True), ("kg * m / s", True), ("kg s^2", True), ("t", False), ("month", True), ("ppb/month", True), ("N", False), ("Pa", True), ("C", False), ("kg/m^3", False)]
UNKNOWN = [None, "", float("nan"), "unknown", "a unit of time", "time", "[time]", "s unheard", "%", "/yr", "W/m^", "(", "2", "$/yr"]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def guess(h, name, unit):
        r = h.mod("scmdataframe.parameter_type").guess_parameter_type(name, unit)
        pt = h.mod("core.parameters").ParameterType
        h.check(r in (pt.AVERAGE_TIMESERIES, pt.POINT_TIMESERIES), "a timeseries type")
        return r == pt.AVERAGE_TIMESERIES

    def at(h, cs, i, word):
        """Does the word stand at position i?"""
        if i + len(word) > len(cs):
            return False
        return h.and_(True, *[cs[i + k] == ord(c) for k, c in enumerate(word)])

    def average(h, name):
        cs = [h.code(name, i) for i in range(h.len(name))]
        found = [at(h, cs, 0, w) for w in STARTS]
        for w in INSIDE:
            found += [at(h, cs, i, w) for i in range(len(cs))]
        return h.or_(False, *found)

    for word in STARTS + INSIDE + OTHERS:
        @case(cs, name="name_" + (word.replace(" ", "_") or "none"), time=100 if quick else 600, max_paths=4000, conc=20,
              bounds="names holding {!r}, as it is or with any one character replaced, with up to {} characters before and after; unit missing (None, empty, NaN) or unknown".format(word, 2 if quick else 3))
        def name(h, word=word):
            alphabet = "_EFRSPlux |a"
            k = 2 if quick else 3
            pre, post = h.string("before", alphabet, 0, k), h.string("after", alphabet, 0, k)
            w = h.word(word)
            if word and h.flag("replaced"):
                i = h.choice("where", list(range(len(word))))
                w = h.word(word[:i]) + h.string("other", alphabet, 1, 1) + h.word(word[i + 1:])
            full = pre + w + post
            unit = h.choice("unit", [None, "", float("nan"), "unknown"] if quick else UNKNOWN)
            h.check(h.iff(guess(h, full, unit), average(h, full)), "type by name")

    @case(cs, name="short_names", time=200 if quick else 900, max_paths=8000, conc=20, bounds="all names of up to {} of the characters '_EMISRFluxP'; unit missing".format(7 if quick else 10))
    def short_names(h):
        full = h.string("name", "_EMISRFluxP", 0, 7 if quick else 10)
        h.check(h.iff(guess(h, full, None), average(h, full)), "type by name")

    @case(cs, name="known_units", time=100, max_paths=4000, conc=20,
          bounds="{} known units of all kinds, with names holding any recognised word and up to 2 other characters".format(len(KNOWN)))
    def known_units(h):
        word = h.choice("word", ["Emissions", "Flux", "_CONC", ""])
        full = h.string("before", "_F", 0, 1) + h.word(word) + h.string("after", "| ", 0, 1)
        unit, time = h.choice("unit", KNOWN)
        h.check(guess(h, full, unit) == time, "type by unit")

    @case(cs, name="unknown_units", time=100, max_paths=4000, conc=20, bounds="{} missing or unknown units, with names holding any recognised word".format(len(UNKNOWN)))
    def unknown_units(h):
        full = h.string("before", "_F", 0, 1) + h.word(h.choice("word", STARTS + INSIDE + OTHERS))
        h.check(h.iff(guess(h, full, h.choice("unit", UNKNOWN)), average(h, full)), "type by name")

    @case(cs, name="again", time=100, max_paths=4000, conc=20, bounds="the same name and unit before and after any other name and unit (of 4 units and names of 5 kinds)")
    def again(h):
        units = ["K", "W", "unknown", None]
        u, v = h.choice("unit", units), h.choice("other unit", units)
        a, b = [h.word(h.choice(n, ["Emissions", "x"])) + h.string(n + " end", "|a", 0, 1) for n in ("name", "other")]
        first = guess(h, a, u)
        guess(h, b, v)
        h.check(h.iff(guess(h, a, u), first), "the same again")

    return cs
