"""Independent table of unit definitions (SI brochure, NIST SP 811, 1959 yard-and-pound
agreement, IAU 2012/2015).  Nothing here is read from the repository."""
from fractions import Fraction as F

DIM = {  # M L T I Th N J A
    "Mass": (1, 0, 0, 0, 0, 0, 0, 0), "Length": (0, 1, 0, 0, 0, 0, 0, 0), "Time": (0, 0, 1, 0, 0, 0, 0, 0),
    "Current": (0, 0, 0, 1, 0, 0, 0, 0), "Temperature": (0, 0, 0, 0, 1, 0, 0, 0), "Amount": (0, 0, 0, 0, 0, 1, 0, 0),
    "Luminosity": (0, 0, 0, 0, 0, 0, 1, 0), "Angle": (0, 0, 0, 0, 0, 0, 0, 1), "Area": (0, 2, 0, 0, 0, 0, 0, 0),
    "Volume": (0, 3, 0, 0, 0, 0, 0, 0), "Frequency": (0, 0, -1, 0, 0, 0, 0, 0), "Force": (1, 1, -2, 0, 0, 0, 0, 0),
    "Energy": (1, 2, -2, 0, 0, 0, 0, 0), "Power": (1, 2, -3, 0, 0, 0, 0, 0), "Pressure": (1, -1, -2, 0, 0, 0, 0, 0),
    "Electric Charge": (0, 0, 1, 1, 0, 0, 0, 0), "Electric Potential": (1, 2, -3, -1, 0, 0, 0, 0),
    "Capacitance": (-1, -2, 4, 2, 0, 0, 0, 0), "Electric Resistance": (1, 2, -3, -2, 0, 0, 0, 0),
    "Electric Conductance": (-1, -2, 3, 2, 0, 0, 0, 0), "Inductance": (1, 2, -2, -2, 0, 0, 0, 0),
    "Magnetic Field": (1, 0, -2, -1, 0, 0, 0, 0), "Magnetic Flux": (1, 2, -2, -1, 0, 0, 0, 0),
    "Illuminance": (0, -2, 0, 0, 0, 0, 1, 0), "Volume Mass Density": (1, -3, 0, 0, 0, 0, 0, 0),
    "Linear Mass Density": (1, -1, 0, 0, 0, 0, 0, 0), "Dynamic Viscosity": (1, -1, -1, 0, 0, 0, 0, 0),
    "Kinematic Viscosity": (0, 2, -1, 0, 0, 0, 0, 0),
}
lb, ft, inch = F("0.45359237"), F("0.3048"), F("0.0254")
g0 = F("9.80665")
gal, ukgal = 231 * inch**3, F("0.00454609")
lbf = lb * g0
# name, symbols, dimension, value in coherent SI units (kg based), power of pi, offset (in the unit's own steps), natively stored, takes SI prefixes
U = []
def u(dim, name, syms, val, pi=0, off="0", stored=True, prefix=False, tol=1e-12):
    U.append(dict(dim=dim, name=name, syms=syms.split(), val=F(val), pi=pi, off=F(off), stored=stored, prefix=prefix, tol=tol))
N = dict(stored=False)
P = dict(prefix=True)
u("Mass", "gram", "g", F(1, 1000), **P)
u("Mass", "grain", "gr", lb / 7000, **N)
u("Mass", "carat", "ct", "0.0002")
u("Mass", "ounce", "oz", lb / 16, **N)
u("Mass", "troy_ounce", "ozt", lb / 7000 * 480, **N)
u("Mass", "troy_pound", "lbt", lb / 7000 * 5760, **N)
u("Mass", "pound", "lb", lb, **N)
u("Mass", "stone", "st", 14 * lb, **N)
u("Mass", "ton", "t", 2240 * lb, **N)
u("Length", "meter", "m", 1, **P)
u("Length", "inch", "in", inch, **N)
u("Length", "foot", "ft", ft, **N)
u("Length", "yard", "yd", 3 * ft, **N)
u("Length", "mile", "mi", 5280 * ft, **N)
u("Length", "nautical_mile", "nmi", 1852, **N)
u("Length", "astronomical_unit", "AU", 149597870700, **N)
u("Length", "light_year", "ly", 9460730472580800, **N)
u("Length", "parsec", "pc", "3.0856775814913673e16", stored=False, tol=1e-10)
u("Time", "second", "s", 1, **P)
u("Time", "minute", "min", 60)
u("Time", "hour", "h hr", 3600)
u("Time", "day", "d", 86400)
u("Time", "week", "wk", 604800, **N)
u("Time", "month", "mo", 30 * 86400)
u("Time", "year", "yr", 31556926, **N)
u("Current", "ampere", "A", 1, **P)
u("Temperature", "kelvin", "K", 1, **P)
u("Temperature", "celsius", "degC", 1, off="273.15")
u("Temperature", "rankine", "degR", F(5, 9))
u("Temperature", "fahrenheit", "degF", F(5, 9), off="459.67")
u("Amount", "mole", "mol", 1, **P)
u("Luminosity", "candela", "cd", 1, **P)
u("Luminosity", "lumen", "lm", 1)
u("Angle", "radian", "rad", 1, **P)
u("Angle", "degree", "deg", F(1, 180), pi=1)
u("Angle", "gradian", "grad", F(1, 200), pi=1)
u("Angle", "turn", "rot turn", 2, pi=1)
u("Angle", "arcminute", "arcmin", F(1, 180 * 60), pi=1)
u("Angle", "arcsecond", "arcsec", F(1, 180 * 3600), pi=1)
u("Area", "hectare", "hect", 10000, **P)
u("Area", "acre", "acre", 43560 * ft**2, **N)
u("Volume", "liter", "L l", F(1, 1000), **P)
for k, s, f in (("gallon", "gal gallon", 1), ("quart", "qrt", F(1, 4)), ("pint", "pnt", F(1, 8)), ("cup", "cup", F(1, 16)), ("fluid_ounce", "fl_oz", F(1, 128)), ("tablespoon", "tbsp", F(1, 256)), ("teaspoon", "tsp", F(1, 768))):
    u("Volume", k, s, gal * f, **N)
for k, s, f in (("gallon", "gal", 1), ("quart", "qrt", F(1, 4)), ("pint", "pnt", F(1, 8)), ("cup", "cup", F(1, 16)), ("fluid_ounce", "fl_oz", F(1, 160)), ("tablespoon", "tbsp", F(1, 256)), ("teaspoon", "tsp", F(1, 768))):
    u("Volume", "uk_" + k, "uk_" + s, ukgal * f, **N)
u("Volume", "bushel", "bu", F("2150.42") * inch**3, **N)
u("Frequency", "hertz", "Hz", 1, **P)
u("Force", "newton", "N", 1, **P)
u("Energy", "joule", "J", 1, **P)
u("Energy", "electron_volt", "eV", "1.602176634e-19", **N)
u("Energy", "erg", "erg", "1e-7")
u("Energy", "newton_meter", "Nm", 1)
u("Energy", "calorie", "cal", "4.184", **N)
u("Energy", "foot_pound", "ft_lb", ft * lbf, **N)
u("Energy", "kilowatt_hour", "kWh", 3600000)
u("Energy", "therm", "thm", "105505585.262", **N)
u("Power", "watt", "W", 1, **P)
u("Power", "horsepower", "hp", 550 * ft * lbf, **N)
u("Pressure", "pascal", "Pa", 1, **P)
u("Pressure", "torr", "Torr", F(101325, 760), **N)
u("Pressure", "psi", "psi", lbf / inch**2, **N)
u("Pressure", "bar", "bar", 100000)
u("Pressure", "atmosphere", "atm", 101325, **N)
for d, n, s in (("Electric Charge", "coulomb", "C"), ("Electric Potential", "volt", "V"), ("Capacitance", "farad", "F"), ("Electric Resistance", "ohm", "Ω"), ("Electric Conductance", "siemens", "S"), ("Inductance", "henry", "H"), ("Magnetic Field", "tesla", "T"), ("Magnetic Flux", "weber", "Wb"), ("Illuminance", "lux", "lx")):
    u(d, n, s, 1, **P)
u("Magnetic Field", "gauss", "G", "1e-4")
u("Kinematic Viscosity", "stokes", "St", "1e-4", **P)

PREFIX = [("quecto", ["q"], -30), ("ronto", ["r"], -27), ("yocto", ["y"], -24), ("zepto", ["z"], -21), ("atto", ["a"], -18),
          ("femto", ["f"], -15), ("pico", ["p"], -12), ("nano", ["n"], -9), ("micro", ["µ", "u"], -6), ("milli", ["m"], -3),
          ("centi", ["c"], -2), ("deci", ["d"], -1), ("deca", ["da"], 1), ("hecto", ["h"], 2), ("kilo", ["k"], 3),
          ("mega", ["M"], 6), ("giga", ["G"], 9), ("tera", ["T"], 12), ("peta", ["P"], 15), ("exa", ["E"], 18),
          ("zetta", ["Z"], 21), ("yotta", ["Y"], 24), ("ronna", ["R"], 27), ("quetta", ["Q"], 30)]


def scale_of(x):
    """value as 2^a 3^b 5^c pi^d when it is one"""
    e = []
    n, d = x["val"].numerator, x["val"].denominator
    for q in (2, 3, 5):
        k = 0
        while n % q == 0:
            n //= q
            k += 1
        while d % q == 0:
            d //= q
            k -= 1
        e.append(k)
    return e + [x["pi"]] if n == d == 1 and x["stored"] else None


def rust():
    q = lambda s: '"' + s + '"'
    o = ["// generated by lib/units_oracle.py", "pub struct Or { pub name: &'static str, pub syms: &'static [&'static str], pub dims: [i16; 8], pub val: f64, pub pi: i16, pub off: f64, pub stored: bool, pub prefix: bool, pub tol: f64, pub sc: Option<[i16; 4]> }", "pub static ORACLE: &[Or] = &["]
    for x in U:
        o.append(f"    Or {{ name: {q(x['name'])}, syms: &[{', '.join(map(q, x['syms']))}], dims: {list(DIM[x['dim']])}, val: {float(x['val'])!r}f64, pi: {x['pi']}, off: {float(x['off'])!r}f64, stored: {str(x['stored']).lower()}, prefix: {str(x['prefix']).lower()}, tol: {x['tol']!r}, sc: {'Some(' + str(scale_of(x)) + ')' if scale_of(x) else 'None'} }},")
    o += ["];", "pub struct Pre { pub name: &'static str, pub syms: &'static [&'static str], pub exp: i16 }", "pub static PREFIXES: &[Pre] = &["]
    for n, s, e in PREFIX:
        o.append(f"    Pre {{ name: {q(n)}, syms: &[{', '.join(map(q, s))}], exp: {e} }},")
    o += ["];", "pub static DIMS: &[(&str, [i16; 8])] = &["]
    for n, e in DIM.items():
        o.append(f"    ({q(n)}, {list(e)}),")
    o.append("];")
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    import sys
    open(sys.argv[1], "w").write(rust())
