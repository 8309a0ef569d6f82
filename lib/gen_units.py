"""Writes harness-units/src/cases.rs: one case per unit and route, from the independent unit table."""
import os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units_oracle import U, PREFIX, DIM

KEYWORDS = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn".split()
PLURAL = {"inch": "inches", "foot": "feet", "henry": "henries"}
SAME = "stone lux candela fahrenheit rankine psi horsepower torr bar celsius kelvin".split()
plural = lambda n: PLURAL.get(n, n if n in SAME else n + "s")

# identifier -> (unit index, power of ten); exact names and symbols win over prefixed ones
IDS = {}
for i, x in enumerate(U):
    for s in [x["name"]] + x["syms"]:
        IDS.setdefault(s, (i, 0))
for i, x in enumerate(U):
    if x["prefix"]:
        for pn, ps, e in PREFIX:
            for s in [p + y for p in ps for y in x["syms"]] + [pn + x["name"]]:
                IDS.setdefault(s, (i, e))
QUICKP = {"k", "m", "u", "M", "kilo", "nano"}


def quick(s, i, e):
    x = U[i]
    if e == 0 or x["name"] == "meter":
        return True
    for pn, ps, pe in PREFIX:
        if pe == e:
            return any(s == p + y for p in ps for y in x["syms"] if p in QUICKP) or (pn in QUICKP and s == pn + x["name"])


def f64(q):
    return repr(float(q)) + "f64"


def case(s, i, e, q):
    return f"    C {{ n: {json_s(s)}, u: {i}, e: {e}, f: {q} }},"


def json_s(s):
    return '"' + s.replace('"', "'") + '"'


COMP = [  # (text, [(identifier, power)])
    ("kg * m / s^2", [("kg", 1), ("m", 1), ("s", -2)]), ("m / s / s", [("m", 1), ("s", -2)]), ("J / (kg * K)", [("J", 1), ("kg", -1), ("K", -1)]),
    ("V * s^2 / m", [("V", 1), ("s", 2), ("m", -1)]), ("km / h", [("km", 1), ("h", -1)]), ("mi / h", [("mi", 1), ("h", -1)]),
    ("lb * ft^2 / min", [("lb", 1), ("ft", 2), ("min", -1)]), ("ft^3", [("ft", 3)]), ("m / ft", [("m", 1), ("ft", -1)]), ("gal / min", [("gal", 1), ("min", -1)]),
    ("W / m^2", [("W", 1), ("m", -2)]), ("mW / cm^2", [("mW", 1), ("cm", -2)]), ("m^-1", [("m", -1)]), ("1 / s", [("s", -1)]), ("ft^-2 * lb", [("ft", -2), ("lb", 1)]),
    ("(km * g) / (ms * A)", [("km", 1), ("g", 1), ("ms", -1), ("A", -1)]), ("kWh / yr", [("kWh", 1), ("yr", -1)]), ("deg / s", [("deg", 1), ("s", -1)]), ("rad * m^2", [("rad", 1), ("m", 2)]),
    ("psi * gal", [("psi", 1), ("gal", 1)]), ("mol / L", [("mol", 1), ("L", -1)]), ("hp * h", [("hp", 1), ("h", 1)]), ("acre * ft", [("acre", 1), ("ft", 1)]), ("eV / K", [("eV", 1), ("K", -1)]),
    ("N * m", [("N", 1), ("m", 1)]), ("Pa * s", [("Pa", 1), ("s", 1)]), ("A * s * V", [("A", 1), ("s", 1), ("V", 1)]), ("cd / m^2", [("cd", 1), ("m", -2)]), ("C / mol", [("C", 1), ("mol", -1)]),
    ("oz / ft / ft", [("oz", 1), ("ft", -2)]), ("(ft / s)^2", [("ft", 2), ("s", -2)]), ("(lb / ft^3)^-1", [("lb", -1), ("ft", 3)]), ("kg2 * m3", [("kg", 2), ("m", 3)]), ("yd . stone / wk", [("yd", 1), ("stone", 1), ("wk", -1)]),
    ("(ft)^-3", [("ft", -3)]), ("J * (lb * s)^-3", [("J", 1), ("lb", -3), ("s", -3)]), ("(ft * min)^-4 * kg", [("ft", -4), ("min", -4), ("kg", 1)]), ("yd^5", [("yd", 5)]), ("gal^-3", [("gal", -3)]), ("(mi / h)^3", [("mi", 3), ("h", -3)]),
    ("(lb^2 * ft) / (yd^2 * oz)", [("lb", 2), ("ft", 1), ("yd", -2), ("oz", -1)]), ("deg^-3", [("deg", -3)]), ("(mi * acre)^-1", [("mi", -1), ("acre", -1)]), ("lb * (ft / (min * gal))", [("lb", 1), ("ft", 1), ("min", -1), ("gal", -1)]),
    ("degC * ft", [("degC", 1), ("ft", 1)]), ("lb / degF", [("lb", 1), ("degF", -1)]), ("degC / min", [("degC", 1), ("min", -1)]), ("m * degF", [("m", 1), ("degF", 1)]), ("J / degC", [("J", 1), ("degC", -1)]),
]

TYPED = [("ft", [("ft", 1)]), ("degC", [("degC", 1)]), ("degF", [("degF", 1)]), ("fahrenheit", [("fahrenheit", 1)]), ("km", [("km", 1)]), ("mi / h", [("mi", 1), ("h", -1)]), ("J / (kg * K)", [("J", 1), ("kg", -1), ("K", -1)]), ("lb", [("lb", 1)]), ("acre", [("acre", 1)])]

TYPED_LIT = "m km mm kg g s min h A mA K mol cd rad deg V kW Pa N J Hz L mL ft inch lb mi degC degF celsius acre psi".split()


def main(out):
    o = ["// generated by lib/gen_units.py from lib/units_oracle.py", "use super::*;", ""]
    for tier in ("quick", "rest"):
        ids = [(s, i, e) for s, (i, e) in IDS.items() if s not in KEYWORDS and (quick(s, i, e) is True) == (tier == "quick")]
        if tier == "rest":
            ids = [x for x in ids]
        T = tier.upper()
        g = "" if tier == "quick" else '#[cfg(feature = "rest")]\n'
        o.append(f"{g}pub static MAKE_{T}: &[C] = &[")
        for s, i, e in ids:
            o.append(case(s, i, e, f"|v| out(quantity!(v, {s}))"))
        o.append("];")
        o.append(f"{g}pub static READ_{T}: &[R] = &[")
        for s, i, e in ids:
            d = list(DIM[U[i]["dim"]])
            o.append(f"    R {{ n: {json_s(s)}, u: {i}, e: {e}, own: |v| value!(quantity!(v, {s}), {s}), base: |v| value!(Q0::<{', '.join('{%d}' % k for k in d)}>::new(v), {s}), kilo: |v| value!(Q1::<{', '.join('{%d}' % k for k in d)}>::new(v), {s}) }},")
        o.append("];")
    # method-style declarators
    o.append("pub static DECL: &[C] = &[")
    for i, x in enumerate(U):
        o.append(case(plural(x["name"]), i, 0, f"|v| out(v.{plural(x['name'])}())"))
        # the methods exist with every prefix for all stored metric units, not only for the SI ones
        if x["prefix"] or (x["stored"] and not x["off"] and x["name"] != "rankine"):
            for pn, ps, e in PREFIX:
                o.append(case(pn + plural(x["name"]), i, e, f"|v| out(v.{pn}{plural(x['name'])}())"))
    o.append("];")
    o.append("pub static DECLI: &[DI] = &[")
    for i, x in enumerate(U):
        if not x["off"]:
            o.append(f"    DI {{ n: {json_s(plural(x['name']))}, u: {i}, f: |v| outi(v.{plural(x['name'])}()) }},")
    o.append("];")
    # literals: constants through the literal macros against quantity!
    o.append("pub fn literals(f: &mut dyn FnMut(Out, Out, &'static str)) {")
    o.append("    lits(f)\n}\n#[culit::culit(whippyunits::default_declarators::literals)]\nfn lits(f: &mut dyn FnMut(Out, Out, &'static str)) {")
    for s, (i, e) in IDS.items():
        if s in KEYWORDS or not quick(s, i, e) or s in [x["name"] for x in U] + [p[0] + U[i]["name"] for p in PREFIX] or not s.isascii() or s[0] in "eE" or (e == -6 and s[0] == "u"):
            continue
        o.append(f"    f(out(7.1{s}), out(quantity!(7.1, {s})), {json_s(s)});")
    o.append("}")
    # typed suffixes
    o.append("pub fn literals_typed(f: &mut dyn FnMut(OutT, OutT, &'static str)) {")
    o.append("    lits_typed(f)\n}\n#[culit::culit(whippyunits::default_declarators::literals)]\nfn lits_typed(f: &mut dyn FnMut(OutT, OutT, &'static str)) {")
    for s in TYPED_LIT:
        for v, T in (("7.1", "f64"), ("7.1", "f32"), ("16777217", "i32"), ("5000000011", "i64"), ("16777217", "u32"), ("5000000011", "u64")):
            o.append(f"    f(typed({v}{s}_{T}), typed(quantity!({v}{T}, {s}, {T})), {json_s(s + '_' + T)});")
        o.append(f"    f(typed(16777217{s}), typed(quantity!(16777217i32, {s}, i32)), {json_s(s + ' int')});")
    o.append("}")
    # compound expressions
    o.append("pub static COMP: &[K] = &[")
    for t, fs in COMP:
        dims = [0] * 8
        val, pi, stored, aff = F(1), 0, True, False
        for s, p in fs:
            i, e = IDS[s]
            x = U[i]
            val *= (x["val"] * F(10) ** e) ** p
            pi += x["pi"] * p
            stored &= x["stored"] and not (x["off"] and p > 0)
            aff |= bool(x["off"])
            dims = [a + b * p for a, b in zip(dims, DIM[x["dim"]])]
        o.append(f"    K {{ n: {json_s(t)}, d: {dims}, val: {f64(val)}, pi: {pi}, stored: {str(stored).lower()}, aff: {str(aff).lower()}, f: |v| out(quantity!(v, {t})), back: |v| value!(quantity!(v, {t}), {t}) }},")
    o.append("];")
    # explicit storage type and brand
    o.append("pub static TYPED: &[Y] = &[")
    for t, fs in TYPED:
        x = None
        if len(fs) == 1:
            i, e = IDS[fs[0][0]]
        dims = [0] * 8
        val, off, pi, stored = F(1), 0.0, 0, True
        for s, p in fs:
            i, e = IDS[s]
            x = U[i]
            val *= (x["val"] * F(10) ** e) ** p
            pi += x["pi"] * p
            off = x["off"]
            stored &= x["stored"] and not x["off"]
            dims = [a + b * p for a, b in zip(dims, DIM[x["dim"]])]
        for k, T in enumerate(("f64", "f32", "i32", "i64", "u16")):
            cast = "v.f" if k == 0 else "v.f as f32" if k == 1 else f"v.i as {T}"
            o.append(f"    Y {{ n: {json_s(t + ', ' + T)}, d: {dims}, val: {f64(val)}, off: {f64(off)}, pi: {pi}, stored: {str(stored).lower()}, k: {k}, f: |v| typed(quantity!({cast}, {t}, {T}, Br)), back: |v| value!(rebrand::<{T}, _>(quantity!({cast}, {t}, {T}, Br)), {t}, {T}, Br) as f64 }},")
    o.append("];")
    open(out, "w").write("\n".join(o) + "\n")
    print(sum(l.lstrip().startswith(("C {", "R {", "DI {", "K {")) for l in o), "cases")


if __name__ == "__main__":
    main(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness-units/src/cases.rs"))
