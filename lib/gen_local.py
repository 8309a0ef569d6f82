"""Writes harness-local/src/cases.rs: local unit systems and the quantities written inside them."""
import os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units_oracle import U, PREFIX, DIM
from gen_units import IDS, KEYWORDS, COMP, QUICKP, quick, plural, f64, json_s

NAME = {x["name"]: x for x in U}
PRE = {pn: e for pn, ps, e in PREFIX}
# namespace, brand, base units of mass, length, time, current, temperature, amount, luminosity, angle
SYSTEMS = [
    ("sa", None, "Gram Kilometer Millisecond Milliampere Millikelvin Kilomole Millicandela Milliradian"),
    ("sb", "Bb", "Kilogram Millimeter Second Ampere Kelvin Mole Candela Radian"),
    ("sc", "Cc", "Milligram Centimeter Minute Kiloampere Rankine Micromole Kilocandela Degree"),
    ("sd", None, "Megagram Nanometer Hour Microampere Kelvin Nanomole Hectocandela Turn"),
]
# dimension exponents beyond the table's: every base unit to +-4, and mixed ones
EXTRA = [(f"{s}^{p}", [(s, p)]) for s in "kg m s A K mol cd rad".split() for p in (-4, -3, -2, 2, 3, 4) if not (s == "m" and p in (2, 3))]
EXTRA += [
    ("kg * m * s * A * K * mol * cd * rad", [(s, 1) for s in "kg m s A K mol cd rad".split()]),
    ("kg^2 * m^-3 / s * A^2 / K^3 * mol^-2 * cd / rad", [("kg", 2), ("m", -3), ("s", -1), ("A", 2), ("K", -3), ("mol", -2), ("cd", -1), ("rad", -1)][:0]),
    ("g / cm^3", [("g", 1), ("cm", -3)]), ("mg / mm", [("mg", 1), ("mm", -1)]), ("mol / m^3", [("mol", 1), ("m", -3)]), ("cd * s", [("cd", 1), ("s", 1)]), ("K / mm", [("K", 1), ("mm", -1)]), ("deg / min", [("deg", 1), ("min", -1)]),
    ("kJ / (kg * K)", [("kJ", 1), ("kg", -1), ("K", -1)]), ("mW / m^2", [("mW", 1), ("m", -2)]), ("kPa * L", [("kPa", 1), ("L", 1)]), ("uF * V", [("uF", 1), ("V", 1)]), ("m / mm", [("m", 1), ("mm", -1)]), ("ft / mi", [("ft", 1), ("mi", -1)]),
    ("min / h", [("min", 1), ("h", -1)]), ("deg / rad", [("deg", 1), ("rad", -1)]), ("1 / min", [("min", -1)]), ("rad / s^2", [("rad", 1), ("s", -2)]), ("A^2 * s^4 / (kg * m^2)", [("A", 2), ("s", 4), ("kg", -1), ("m", -2)]),
]
EXTRA = [x for x in EXTRA if x[1]]


def base(n):
    """a base unit's size (rational, power of pi)"""
    n = n.lower()
    if n in NAME:
        return NAME[n]["val"], NAME[n]["pi"]
    for pn in PRE:
        if n.startswith(pn) and n[len(pn):] in NAME:
            x = NAME[n[len(pn):]]
            return x["val"] * F(10) ** PRE[pn], x["pi"]
    raise SystemExit(n)


def expo(q):
    """exponents of 2, 3 and 5"""
    r = []
    for p in (2, 3, 5):
        k = 0
        while q.numerator % p == 0:
            q, k = q / p, k + 1
        while q.denominator % p == 0:
            q, k = q * p, k - 1
        r.append(k)
    assert q == 1, q
    return r


def scale(sysm, dims):
    """exponents of the unit built from the declared base units"""
    r = [0] * 4
    for n, d in zip(sysm[2].split(), dims):
        v, pi = base(n)
        for i, k in enumerate(expo(v) + [pi]):
            r[i] += k * d
    return r


def parts(fs):
    dims, val, pi, off, aff, tol = [0] * 8, F(1), 0, 0.0, False, 1e-12
    for s, p in fs:
        i, e = IDS[s]
        x = U[i]
        val *= (x["val"] * F(10) ** e) ** p
        pi += x["pi"] * p
        off = float(x["off"])
        aff |= bool(x["off"])
        tol = max(tol, x["tol"])
        dims = [a + b * p for a, b in zip(dims, DIM[x["dim"]])]
    return dims, val, pi, off, aff, tol


def row(sysm, n, fs, f, back):
    dims, val, pi, off, aff, tol = parts(fs)
    if aff and len(fs) > 1:
        return None
    return f"    L {{ n: {json_s(n)}, d: {dims}, s: {scale(sysm, dims)}, val: {f64(val)}, pi: {pi}, off: {f64(off)}, tol: {tol!r}, f: {f}, back: {back} }},"


def main(out):
    o = ["// generated by lib/gen_local.py from lib/units_oracle.py", "use super::*;", ""]
    for ns, b, names in SYSTEMS:
        o.append(f"whippyunits::define_unit_declarators!({', '.join([ns] + ([b] if b else []) + names.split())});")
    o.append("whippyunits::define_unit_declarators!(sx, Xx);")
    for k, sysm in enumerate(SYSTEMS):
        ns, b, _ = sysm
        B = f"{ns}::{b}" if b else "()"
        single = [s for s, (i, e) in IDS.items() if s not in KEYWORDS and (e == 0 or (k == 0 and (e in (3, -3)) and quick(s, i, e)) or (k == 1 and e in (3, -6, 6) and quick(s, i, e) and s[:1] in "kuM" and s not in [x["name"] for x in U]))]
        if k > 1:
            single = [s for s in single if s in U[IDS[s][0]]["syms"][:1] + [U[IDS[s][0]]["name"]]]
        o.append(f"pub static UNIT_{ns.upper()}: &[L] = &[")
        # a block macro for the namespace's own quantity!
        q = f"{ns}::quantity!"
        for s in single:
            o.append(row(sysm, f"{ns}: {s}", [(s, 1)], f"|v| out({q}(v, {s}))", f"|v| value!({q}(v, {s}), {s}, f64, {B})"))
        o.append("];")
        o.append(f"pub static COMP_{ns.upper()}: &[L] = &[")
        for t, fs in COMP + EXTRA:
            r = row(sysm, f"{ns}: {t}", fs, f"|v| out({q}(v, {t}))", f"|v| value!({q}(v, {t}), {t}, f64, {B})")
            if r:
                o.append(r)
        o.append("];")
        # methods
        o.append(f"pub mod m_{ns} {{ use super::*; use super::{ns}::*;")
        o.append("pub static METHOD: &[L] = &[")
        ints = []
        for n in "gram meter second ampere kelvin mole candela radian".split():
            for pn, e in [("", 0)] + sorted(PRE.items()):
                w = pn + plural(n)
                s = pn + n
                if s in KEYWORDS or s not in IDS:
                    continue
                o.append(row(sysm, f"{ns}: {w}", [(s, 1)], f"|v| out(v.{w}())", f"|v| value!(v.{w}(), {s}, f64, {B})"))
                ints.append((w, s))
        o.append("];")
        # integers: whole ratios of the written unit to the stored one
        o.append("pub static INT: &[LI] = &[")
        cases = [(w, s, f"v.{w}()", (v, T)) for w, s in ints for T, v in (("i32", "v as i32"), ("i64", "v"))] + [(t, None, None, (v, T)) for t, _ in (COMP + EXTRA) for T, v in (("i32", "v as i32"), ("i64", "v"))]
        cases += [(s, s, None, (v, T)) for s in "kg g km m mm h min s kA A kV V kJ J kPa Pa kHz L mol cd deg rad".split() for T, v in (("i32", "v as i32"), ("i64", "v"))]
        comp = dict(COMP + EXTRA)
        for n, s, call, (v, T) in cases:
            fs = [(s, 1)] if s else comp[n]
            if any(not U[IDS[x][0]]["stored"] or U[IDS[x][0]]["off"] for x, _ in fs):
                continue
            dims, val, pi, off, aff, tol = parts(fs)
            st = scale(sysm, dims)
            ratio = val / (F(2) ** st[0] * F(3) ** st[1] * F(5) ** st[2])
            if pi != st[3] or not (ratio.denominator == 1 or ratio.numerator == 1) or not F(1, 10**6) <= ratio <= 10**6:
                continue
            f = f"({v}).{n}()" if call else f"{q}({v}, {n}, {T})"
            o.append(f"    LI {{ n: {json_s(ns + ': ' + n + ' ' + T)}, d: {dims}, s: {st}, num: {ratio.numerator}, den: {ratio.denominator}, ty: {2 if T == 'i32' else 3}, brand: std::any::type_name::<{B}>, f: |v| outi({f}) }},")
        o.append("];\n}")
        # literals
        o.append(f"pub fn lits_{ns}(f: &mut dyn FnMut(OutT, OutT, &'static str)) {{ use {ns}::quantity as q; go(f); #[culit::culit({ns}::literals)]\nfn go(f: &mut dyn FnMut(OutT, OutT, &'static str)) {{")
        syms = [s for s, (i, e) in IDS.items() if s in sum([x["syms"] for x in U], []) or (e in (3, -3) and any(s == p + y for pn, ps, pe in PREFIX if pe == e for p in ps for y in U[i]["syms"]))]
        syms = [s for s in syms if s not in KEYWORDS and s.isascii() and s[0] not in "eE"]
        for j, s in enumerate(syms):
            o.append(f"    f(typed(7.1{s}), typed({q}(7.1, {s})), {json_s(ns + ': 7.1' + s)});")
            if j % 5 == k and U[IDS[s][0]]["stored"] and not U[IDS[s][0]]["off"]:
                dims, val, pi, *_ = parts([(s, 1)])
                st = scale(sysm, dims)
                ratio = val / (F(2) ** st[0] * F(3) ** st[1] * F(5) ** st[2])
                whole = pi == st[3] and (ratio.denominator == 1 or ratio.numerator == 1) and F(1, 10**6) <= ratio <= 10**6
                for v, T in (("7.1", "f64"), ("7.1", "f32")) + ((("25", "i32"), ("25", "i64")) if whole else ()):
                    o.append(f"    f(typed({v}{s}_{T}), typed({q}({v}{T}, {s}, {T})), {json_s(ns + ': ' + v + s + '_' + T)});")
                if whole:
                    o.append(f"    f(typed(25{s}), typed({q}(25i32, {s}, i32)), {json_s(ns + ': 25' + s)});")
        o.append("} }")
    # a brand without base units stores what is written
    o.append("pub static BRAND: &[L] = &[")
    none = (None, None, "Kilogram Meter Second Ampere Kelvin Mole Candela Radian")
    for s in "g kg m km mm s min h A mA K mol cd rad deg N kN J mJ W mW V Pa kHz L".split():
        r = row(none, f"sx: {s}", [(s, 1)], f"|v| out(sx::quantity!(v, {s}))", f"|v| value!(sx::quantity!(v, {s}), {s}, f64, sx::Xx)")
        dims, val, pi, *_ = parts([(s, 1)])
        o.append(r.replace(f"s: {scale(none, dims)}", f"s: {expo(val) + [pi]}"))
    for t in ("m / s^2", "kg * m^2 / s^3", "km / h", "J / (kg * K)"):
        fs = dict(COMP).get(t) or {"m / s^2": [("m", 1), ("s", -2)], "kg * m^2 / s^3": [("kg", 1), ("m", 2), ("s", -3)]}[t]
        dims, val, pi, *_ = parts(fs)
        r = row(none, f"sx: {t}", fs, f"|v| out(sx::quantity!(v, {t}))", f"|v| value!(sx::quantity!(v, {t}), {t}, f64, sx::Xx)")
        o.append(r.replace(f"s: {scale(none, dims)}", f"s: {expo(val) + [pi]}"))
    o.append("];\npub mod m_sx { use super::*; use super::sx::*;\npub static METHOD: &[L] = &[")
    for n in "gram meter second ampere kelvin mole candela radian newton joule watt pascal minute hour degree turn hectare liter".split():
        s = n
        dims, val, pi, *_ = parts([(s, 1)])
        x = NAME[n]
        r = row(none, f"sx: {plural(n)}", [(s, 1)], f"|v| out(v.{plural(n)}())", f"|v| value!(v.{plural(n)}(), {x['syms'][0]}, f64, sx::Xx)")
        o.append(r.replace(f"s: {scale(none, dims)}", f"s: {expo(val) + [pi]}"))
    o.append("];\npub static INT: &[LI] = &[")
    for n in "gram meter second ampere kelvin mole candela radian newton joule watt pascal minute hour degree turn hectare liter".split():
        dims, val, pi, *_ = parts([(n, 1)])
        for T, v in (("i32", "v as i32"), ("i64", "v")):
            for w, f in ((plural(n), f"({v}).{plural(n)}()"), (n, f"sx::quantity!({v}, {NAME[n]['syms'][0]}, {T})")):
                o.append(f"    LI {{ n: {json_s('sx: ' + w + ' ' + T)}, d: {dims}, s: {expo(val) + [pi]}, num: 1, den: 1, ty: {2 if T == 'i32' else 3}, brand: std::any::type_name::<sx::Xx>, f: |v| outi({f}) }},")
    o.append("];\n}")
    open(out, "w").write("\n".join(x for x in o if x is not None) + "\n")
    print(sum(l.lstrip().startswith(("L {", "LI {")) for l in o if l), "cases")


if __name__ == "__main__":
    main(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness-local/src/cases.rs"))
