"""Independent reference of the standard gases: written from the documented conventions, not read from the code."""
CARBON, NITROGEN, SULFUR = "C", "N", "S"

# name -> (base species, amount of the base species per unit amount of the gas)
DERIVED = {
    "C": ("C", 1), "carbon": ("C", 1), "CO2": ("C", 12 / 44), "carbon_dioxide": ("C", 12 / 44),
    "CH4": ("CH4", 1), "methane": ("CH4", 1),
    "N": ("N", 1), "nitrogen": ("N", 1), "N2O": ("N", 14 / 44), "nitrous_oxide": ("N", 14 / 44),
    "N2ON": ("N", 14 / 28), "nitrous_oxide_farming_style": ("N", 14 / 28), "NH3": ("N", 14 / 17), "ammonia": ("N", 14 / 17),
    "NOx": ("NOx", 1), "nox": ("NOx", 1),
    "S": ("S", 1), "sulfur": ("S", 1), "SO2": ("S", 32 / 64), "sulfur_dioxide": ("S", 32 / 64), "SOx": ("S", 32 / 64),
    "BC": ("BC", 1), "black_carbon": ("BC", 1), "OC": ("OC", 1), "CO": ("CO", 1), "carbon_monoxide": ("CO", 1),
    "VOC": ("VOC", 1), "NMVOC": ("VOC", 1), "non_methane_volatile_organic_compounds": ("VOC", 1),
    "HFC4310mee": ("HFC4310mee", 1), "HFC4310": ("HFC4310mee", 1),
}
OTHERS = """CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b HCFC142b HCFC225ca HCFC225cb
HFC23 HFC32 HFC41 HFC125 HFC134 HFC134a HFC143 HFC143a HFC152 HFC152a HFC161 HFC227ea HFC236cb HFC236ea HFC236fa HFC245ca
HFC245fa HFC365mfc Halon1201 Halon1202 Halon1211 Halon1301 Halon2402 CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12 C6F14 C7F16 C8F18
C10F18 HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2 HFE347mcc3 HFE347pcf2 HFE356pcc3 HFE449sl HFE569sf2 HFE4310pccc124
HFE236ca12 HFE338pcc13 HFE227ea HFE236ea2 HFE236fa HFE245fa1 HFE263fb2 HFE329mcc2 HFE338mcf2 HFE347mcf2 HFE356mec3 HFE356pcf2
HFE356pcf3 HFE365mcf3 HFE374pc2 PFPMIE CCl4 CHCl3 CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 SF6 NF3""".split()
LONG = [n for n in DERIVED if n.islower() and n != "nox"]  # alias names, without joint units

GASES = dict(DERIVED)
for _n in OTHERS:
    GASES[_n] = (_n, 1)
SYMBOLS = [n for n in GASES if n not in LONG]  # have joint mass units and upper-case spellings
UPPER = {n.upper(): GASES[n] for n in SYMBOLS if n.upper() != n}
SPECIES = sorted({b for b, _ in GASES.values()})

MASS = {"g": 1e-3, "kg": 1.0, "t": 1e3, "kt": 1e6, "Mt": 1e9, "Gt": 1e12, "Tg": 1e9, "Pg": 1e12}
YEAR = 31557600.0  # pint's year of 365.25 days
TIME = {"yr": YEAR, "a": YEAR, "year": YEAR, "d": 86400.0, "day": 86400.0, "h": 3600.0, "hour": 3600.0, "s": 1.0}
