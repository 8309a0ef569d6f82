// generated by lib/gen_local.py from lib/units_oracle.py
use super::*;

whippyunits::define_unit_declarators!(sa, Gram, Kilometer, Millisecond, Milliampere, Millikelvin, Kilomole, Millicandela, Milliradian);
whippyunits::define_unit_declarators!(sb, Bb, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
whippyunits::define_unit_declarators!(sc, Cc, Milligram, Centimeter, Minute, Kiloampere, Rankine, Micromole, Kilocandela, Degree);
whippyunits::define_unit_declarators!(sd, Megagram, Nanometer, Hour, Microampere, Kelvin, Nanomole, Hectocandela, Turn);
whippyunits::define_unit_declarators!(sx, Xx);
pub static UNIT_SA: &[L] = &[
    L { n: "sa: gram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gram)), back: |v| value!(sa::quantity!(v, gram), gram, f64, ()) },
    L { n: "sa: g", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, g)), back: |v| value!(sa::quantity!(v, g), g, f64, ()) },
    L { n: "sa: grain", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, grain)), back: |v| value!(sa::quantity!(v, grain), grain, f64, ()) },
    L { n: "sa: gr", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gr)), back: |v| value!(sa::quantity!(v, gr), gr, f64, ()) },
    L { n: "sa: carat", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, carat)), back: |v| value!(sa::quantity!(v, carat), carat, f64, ()) },
    L { n: "sa: ct", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ct)), back: |v| value!(sa::quantity!(v, ct), ct, f64, ()) },
    L { n: "sa: ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ounce)), back: |v| value!(sa::quantity!(v, ounce), ounce, f64, ()) },
    L { n: "sa: oz", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, oz)), back: |v| value!(sa::quantity!(v, oz), oz, f64, ()) },
    L { n: "sa: troy_ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, troy_ounce)), back: |v| value!(sa::quantity!(v, troy_ounce), troy_ounce, f64, ()) },
    L { n: "sa: ozt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ozt)), back: |v| value!(sa::quantity!(v, ozt), ozt, f64, ()) },
    L { n: "sa: troy_pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, troy_pound)), back: |v| value!(sa::quantity!(v, troy_pound), troy_pound, f64, ()) },
    L { n: "sa: lbt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lbt)), back: |v| value!(sa::quantity!(v, lbt), lbt, f64, ()) },
    L { n: "sa: pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, pound)), back: |v| value!(sa::quantity!(v, pound), pound, f64, ()) },
    L { n: "sa: lb", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lb)), back: |v| value!(sa::quantity!(v, lb), lb, f64, ()) },
    L { n: "sa: stone", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, stone)), back: |v| value!(sa::quantity!(v, stone), stone, f64, ()) },
    L { n: "sa: st", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, st)), back: |v| value!(sa::quantity!(v, st), st, f64, ()) },
    L { n: "sa: ton", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ton)), back: |v| value!(sa::quantity!(v, ton), ton, f64, ()) },
    L { n: "sa: t", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, t)), back: |v| value!(sa::quantity!(v, t), t, f64, ()) },
    L { n: "sa: meter", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, meter)), back: |v| value!(sa::quantity!(v, meter), meter, f64, ()) },
    L { n: "sa: m", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m)), back: |v| value!(sa::quantity!(v, m), m, f64, ()) },
    L { n: "sa: inch", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0254f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, inch)), back: |v| value!(sa::quantity!(v, inch), inch, f64, ()) },
    L { n: "sa: foot", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, foot)), back: |v| value!(sa::quantity!(v, foot), foot, f64, ()) },
    L { n: "sa: ft", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ft)), back: |v| value!(sa::quantity!(v, ft), ft, f64, ()) },
    L { n: "sa: yard", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, yard)), back: |v| value!(sa::quantity!(v, yard), yard, f64, ()) },
    L { n: "sa: yd", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, yd)), back: |v| value!(sa::quantity!(v, yd), yd, f64, ()) },
    L { n: "sa: mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mile)), back: |v| value!(sa::quantity!(v, mile), mile, f64, ()) },
    L { n: "sa: mi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mi)), back: |v| value!(sa::quantity!(v, mi), mi, f64, ()) },
    L { n: "sa: nautical_mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, nautical_mile)), back: |v| value!(sa::quantity!(v, nautical_mile), nautical_mile, f64, ()) },
    L { n: "sa: nmi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, nmi)), back: |v| value!(sa::quantity!(v, nmi), nmi, f64, ()) },
    L { n: "sa: astronomical_unit", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, astronomical_unit)), back: |v| value!(sa::quantity!(v, astronomical_unit), astronomical_unit, f64, ()) },
    L { n: "sa: AU", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, AU)), back: |v| value!(sa::quantity!(v, AU), AU, f64, ()) },
    L { n: "sa: light_year", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, light_year)), back: |v| value!(sa::quantity!(v, light_year), light_year, f64, ()) },
    L { n: "sa: ly", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ly)), back: |v| value!(sa::quantity!(v, ly), ly, f64, ()) },
    L { n: "sa: parsec", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sa::quantity!(v, parsec)), back: |v| value!(sa::quantity!(v, parsec), parsec, f64, ()) },
    L { n: "sa: pc", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sa::quantity!(v, pc)), back: |v| value!(sa::quantity!(v, pc), pc, f64, ()) },
    L { n: "sa: second", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, second)), back: |v| value!(sa::quantity!(v, second), second, f64, ()) },
    L { n: "sa: s", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s)), back: |v| value!(sa::quantity!(v, s), s, f64, ()) },
    L { n: "sa: minute", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, minute)), back: |v| value!(sa::quantity!(v, minute), minute, f64, ()) },
    L { n: "sa: min", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, min)), back: |v| value!(sa::quantity!(v, min), min, f64, ()) },
    L { n: "sa: hour", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hour)), back: |v| value!(sa::quantity!(v, hour), hour, f64, ()) },
    L { n: "sa: h", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, h)), back: |v| value!(sa::quantity!(v, h), h, f64, ()) },
    L { n: "sa: hr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hr)), back: |v| value!(sa::quantity!(v, hr), hr, f64, ()) },
    L { n: "sa: day", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, day)), back: |v| value!(sa::quantity!(v, day), day, f64, ()) },
    L { n: "sa: d", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, d)), back: |v| value!(sa::quantity!(v, d), d, f64, ()) },
    L { n: "sa: week", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, week)), back: |v| value!(sa::quantity!(v, week), week, f64, ()) },
    L { n: "sa: wk", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, wk)), back: |v| value!(sa::quantity!(v, wk), wk, f64, ()) },
    L { n: "sa: month", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, month)), back: |v| value!(sa::quantity!(v, month), month, f64, ()) },
    L { n: "sa: mo", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mo)), back: |v| value!(sa::quantity!(v, mo), mo, f64, ()) },
    L { n: "sa: year", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, year)), back: |v| value!(sa::quantity!(v, year), year, f64, ()) },
    L { n: "sa: yr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, yr)), back: |v| value!(sa::quantity!(v, yr), yr, f64, ()) },
    L { n: "sa: ampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ampere)), back: |v| value!(sa::quantity!(v, ampere), ampere, f64, ()) },
    L { n: "sa: A", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A)), back: |v| value!(sa::quantity!(v, A), A, f64, ()) },
    L { n: "sa: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kelvin)), back: |v| value!(sa::quantity!(v, kelvin), kelvin, f64, ()) },
    L { n: "sa: K", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K)), back: |v| value!(sa::quantity!(v, K), K, f64, ()) },
    L { n: "sa: celsius", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sa::quantity!(v, celsius)), back: |v| value!(sa::quantity!(v, celsius), celsius, f64, ()) },
    L { n: "sa: degC", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sa::quantity!(v, degC)), back: |v| value!(sa::quantity!(v, degC), degC, f64, ()) },
    L { n: "sa: rankine", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rankine)), back: |v| value!(sa::quantity!(v, rankine), rankine, f64, ()) },
    L { n: "sa: degR", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, degR)), back: |v| value!(sa::quantity!(v, degR), degR, f64, ()) },
    L { n: "sa: fahrenheit", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sa::quantity!(v, fahrenheit)), back: |v| value!(sa::quantity!(v, fahrenheit), fahrenheit, f64, ()) },
    L { n: "sa: degF", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sa::quantity!(v, degF)), back: |v| value!(sa::quantity!(v, degF), degF, f64, ()) },
    L { n: "sa: mole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mole)), back: |v| value!(sa::quantity!(v, mole), mole, f64, ()) },
    L { n: "sa: mol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol)), back: |v| value!(sa::quantity!(v, mol), mol, f64, ()) },
    L { n: "sa: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, candela)), back: |v| value!(sa::quantity!(v, candela), candela, f64, ()) },
    L { n: "sa: cd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd)), back: |v| value!(sa::quantity!(v, cd), cd, f64, ()) },
    L { n: "sa: lumen", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lumen)), back: |v| value!(sa::quantity!(v, lumen), lumen, f64, ()) },
    L { n: "sa: lm", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lm)), back: |v| value!(sa::quantity!(v, lm), lm, f64, ()) },
    L { n: "sa: radian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, radian)), back: |v| value!(sa::quantity!(v, radian), radian, f64, ()) },
    L { n: "sa: rad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad)), back: |v| value!(sa::quantity!(v, rad), rad, f64, ()) },
    L { n: "sa: degree", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, degree)), back: |v| value!(sa::quantity!(v, degree), degree, f64, ()) },
    L { n: "sa: deg", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, deg)), back: |v| value!(sa::quantity!(v, deg), deg, f64, ()) },
    L { n: "sa: gradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gradian)), back: |v| value!(sa::quantity!(v, gradian), gradian, f64, ()) },
    L { n: "sa: grad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, grad)), back: |v| value!(sa::quantity!(v, grad), grad, f64, ()) },
    L { n: "sa: turn", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, turn)), back: |v| value!(sa::quantity!(v, turn), turn, f64, ()) },
    L { n: "sa: rot", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rot)), back: |v| value!(sa::quantity!(v, rot), rot, f64, ()) },
    L { n: "sa: arcminute", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, arcminute)), back: |v| value!(sa::quantity!(v, arcminute), arcminute, f64, ()) },
    L { n: "sa: arcmin", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, arcmin)), back: |v| value!(sa::quantity!(v, arcmin), arcmin, f64, ()) },
    L { n: "sa: arcsecond", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, arcsecond)), back: |v| value!(sa::quantity!(v, arcsecond), arcsecond, f64, ()) },
    L { n: "sa: arcsec", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, arcsec)), back: |v| value!(sa::quantity!(v, arcsec), arcsec, f64, ()) },
    L { n: "sa: hectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hectare)), back: |v| value!(sa::quantity!(v, hectare), hectare, f64, ()) },
    L { n: "sa: hect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hect)), back: |v| value!(sa::quantity!(v, hect), hect, f64, ()) },
    L { n: "sa: acre", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 4046.8564224f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, acre)), back: |v| value!(sa::quantity!(v, acre), acre, f64, ()) },
    L { n: "sa: liter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, liter)), back: |v| value!(sa::quantity!(v, liter), liter, f64, ()) },
    L { n: "sa: L", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, L)), back: |v| value!(sa::quantity!(v, L), L, f64, ()) },
    L { n: "sa: l", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, l)), back: |v| value!(sa::quantity!(v, l), l, f64, ()) },
    L { n: "sa: gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gallon)), back: |v| value!(sa::quantity!(v, gallon), gallon, f64, ()) },
    L { n: "sa: gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gal)), back: |v| value!(sa::quantity!(v, gal), gal, f64, ()) },
    L { n: "sa: quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, quart)), back: |v| value!(sa::quantity!(v, quart), quart, f64, ()) },
    L { n: "sa: qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, qrt)), back: |v| value!(sa::quantity!(v, qrt), qrt, f64, ()) },
    L { n: "sa: pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, pint)), back: |v| value!(sa::quantity!(v, pint), pint, f64, ()) },
    L { n: "sa: pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, pnt)), back: |v| value!(sa::quantity!(v, pnt), pnt, f64, ()) },
    L { n: "sa: cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.0002365882365f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cup)), back: |v| value!(sa::quantity!(v, cup), cup, f64, ()) },
    L { n: "sa: fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, fluid_ounce)), back: |v| value!(sa::quantity!(v, fluid_ounce), fluid_ounce, f64, ()) },
    L { n: "sa: fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, fl_oz)), back: |v| value!(sa::quantity!(v, fl_oz), fl_oz, f64, ()) },
    L { n: "sa: tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, tablespoon)), back: |v| value!(sa::quantity!(v, tablespoon), tablespoon, f64, ()) },
    L { n: "sa: tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, tbsp)), back: |v| value!(sa::quantity!(v, tbsp), tbsp, f64, ()) },
    L { n: "sa: teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, teaspoon)), back: |v| value!(sa::quantity!(v, teaspoon), teaspoon, f64, ()) },
    L { n: "sa: tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, tsp)), back: |v| value!(sa::quantity!(v, tsp), tsp, f64, ()) },
    L { n: "sa: uk_gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_gallon)), back: |v| value!(sa::quantity!(v, uk_gallon), uk_gallon, f64, ()) },
    L { n: "sa: uk_gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_gal)), back: |v| value!(sa::quantity!(v, uk_gal), uk_gal, f64, ()) },
    L { n: "sa: uk_quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_quart)), back: |v| value!(sa::quantity!(v, uk_quart), uk_quart, f64, ()) },
    L { n: "sa: uk_qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_qrt)), back: |v| value!(sa::quantity!(v, uk_qrt), uk_qrt, f64, ()) },
    L { n: "sa: uk_pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_pint)), back: |v| value!(sa::quantity!(v, uk_pint), uk_pint, f64, ()) },
    L { n: "sa: uk_pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_pnt)), back: |v| value!(sa::quantity!(v, uk_pnt), uk_pnt, f64, ()) },
    L { n: "sa: uk_cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.000284130625f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_cup)), back: |v| value!(sa::quantity!(v, uk_cup), uk_cup, f64, ()) },
    L { n: "sa: uk_fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_fluid_ounce)), back: |v| value!(sa::quantity!(v, uk_fluid_ounce), uk_fluid_ounce, f64, ()) },
    L { n: "sa: uk_fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_fl_oz)), back: |v| value!(sa::quantity!(v, uk_fl_oz), uk_fl_oz, f64, ()) },
    L { n: "sa: uk_tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_tablespoon)), back: |v| value!(sa::quantity!(v, uk_tablespoon), uk_tablespoon, f64, ()) },
    L { n: "sa: uk_tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_tbsp)), back: |v| value!(sa::quantity!(v, uk_tbsp), uk_tbsp, f64, ()) },
    L { n: "sa: uk_teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_teaspoon)), back: |v| value!(sa::quantity!(v, uk_teaspoon), uk_teaspoon, f64, ()) },
    L { n: "sa: uk_tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uk_tsp)), back: |v| value!(sa::quantity!(v, uk_tsp), uk_tsp, f64, ()) },
    L { n: "sa: bushel", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, bushel)), back: |v| value!(sa::quantity!(v, bushel), bushel, f64, ()) },
    L { n: "sa: bu", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, bu)), back: |v| value!(sa::quantity!(v, bu), bu, f64, ()) },
    L { n: "sa: hertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hertz)), back: |v| value!(sa::quantity!(v, hertz), hertz, f64, ()) },
    L { n: "sa: Hz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Hz)), back: |v| value!(sa::quantity!(v, Hz), Hz, f64, ()) },
    L { n: "sa: newton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, newton)), back: |v| value!(sa::quantity!(v, newton), newton, f64, ()) },
    L { n: "sa: N", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, N)), back: |v| value!(sa::quantity!(v, N), N, f64, ()) },
    L { n: "sa: joule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, joule)), back: |v| value!(sa::quantity!(v, joule), joule, f64, ()) },
    L { n: "sa: J", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, J)), back: |v| value!(sa::quantity!(v, J), J, f64, ()) },
    L { n: "sa: electron_volt", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, electron_volt)), back: |v| value!(sa::quantity!(v, electron_volt), electron_volt, f64, ()) },
    L { n: "sa: eV", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, eV)), back: |v| value!(sa::quantity!(v, eV), eV, f64, ()) },
    L { n: "sa: erg", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, erg)), back: |v| value!(sa::quantity!(v, erg), erg, f64, ()) },
    L { n: "sa: newton_meter", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, newton_meter)), back: |v| value!(sa::quantity!(v, newton_meter), newton_meter, f64, ()) },
    L { n: "sa: Nm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Nm)), back: |v| value!(sa::quantity!(v, Nm), Nm, f64, ()) },
    L { n: "sa: calorie", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, calorie)), back: |v| value!(sa::quantity!(v, calorie), calorie, f64, ()) },
    L { n: "sa: cal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cal)), back: |v| value!(sa::quantity!(v, cal), cal, f64, ()) },
    L { n: "sa: foot_pound", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, foot_pound)), back: |v| value!(sa::quantity!(v, foot_pound), foot_pound, f64, ()) },
    L { n: "sa: ft_lb", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ft_lb)), back: |v| value!(sa::quantity!(v, ft_lb), ft_lb, f64, ()) },
    L { n: "sa: kilowatt_hour", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilowatt_hour)), back: |v| value!(sa::quantity!(v, kilowatt_hour), kilowatt_hour, f64, ()) },
    L { n: "sa: kWh", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kWh)), back: |v| value!(sa::quantity!(v, kWh), kWh, f64, ()) },
    L { n: "sa: therm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, therm)), back: |v| value!(sa::quantity!(v, therm), therm, f64, ()) },
    L { n: "sa: thm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, thm)), back: |v| value!(sa::quantity!(v, thm), thm, f64, ()) },
    L { n: "sa: watt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, watt)), back: |v| value!(sa::quantity!(v, watt), watt, f64, ()) },
    L { n: "sa: W", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, W)), back: |v| value!(sa::quantity!(v, W), W, f64, ()) },
    L { n: "sa: horsepower", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, horsepower)), back: |v| value!(sa::quantity!(v, horsepower), horsepower, f64, ()) },
    L { n: "sa: hp", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hp)), back: |v| value!(sa::quantity!(v, hp), hp, f64, ()) },
    L { n: "sa: pascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, pascal)), back: |v| value!(sa::quantity!(v, pascal), pascal, f64, ()) },
    L { n: "sa: Pa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Pa)), back: |v| value!(sa::quantity!(v, Pa), Pa, f64, ()) },
    L { n: "sa: torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, torr)), back: |v| value!(sa::quantity!(v, torr), torr, f64, ()) },
    L { n: "sa: Torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Torr)), back: |v| value!(sa::quantity!(v, Torr), Torr, f64, ()) },
    L { n: "sa: psi", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 6894.757293168362f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, psi)), back: |v| value!(sa::quantity!(v, psi), psi, f64, ()) },
    L { n: "sa: bar", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 100000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, bar)), back: |v| value!(sa::quantity!(v, bar), bar, f64, ()) },
    L { n: "sa: atmosphere", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, atmosphere)), back: |v| value!(sa::quantity!(v, atmosphere), atmosphere, f64, ()) },
    L { n: "sa: atm", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, atm)), back: |v| value!(sa::quantity!(v, atm), atm, f64, ()) },
    L { n: "sa: coulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, coulomb)), back: |v| value!(sa::quantity!(v, coulomb), coulomb, f64, ()) },
    L { n: "sa: C", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, C)), back: |v| value!(sa::quantity!(v, C), C, f64, ()) },
    L { n: "sa: volt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, volt)), back: |v| value!(sa::quantity!(v, volt), volt, f64, ()) },
    L { n: "sa: V", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, V)), back: |v| value!(sa::quantity!(v, V), V, f64, ()) },
    L { n: "sa: farad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, farad)), back: |v| value!(sa::quantity!(v, farad), farad, f64, ()) },
    L { n: "sa: F", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, F)), back: |v| value!(sa::quantity!(v, F), F, f64, ()) },
    L { n: "sa: ohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ohm)), back: |v| value!(sa::quantity!(v, ohm), ohm, f64, ()) },
    L { n: "sa: Ω", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Ω)), back: |v| value!(sa::quantity!(v, Ω), Ω, f64, ()) },
    L { n: "sa: siemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, siemens)), back: |v| value!(sa::quantity!(v, siemens), siemens, f64, ()) },
    L { n: "sa: S", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, S)), back: |v| value!(sa::quantity!(v, S), S, f64, ()) },
    L { n: "sa: henry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, henry)), back: |v| value!(sa::quantity!(v, henry), henry, f64, ()) },
    L { n: "sa: H", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, H)), back: |v| value!(sa::quantity!(v, H), H, f64, ()) },
    L { n: "sa: tesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, tesla)), back: |v| value!(sa::quantity!(v, tesla), tesla, f64, ()) },
    L { n: "sa: T", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, T)), back: |v| value!(sa::quantity!(v, T), T, f64, ()) },
    L { n: "sa: weber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, weber)), back: |v| value!(sa::quantity!(v, weber), weber, f64, ()) },
    L { n: "sa: Wb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Wb)), back: |v| value!(sa::quantity!(v, Wb), Wb, f64, ()) },
    L { n: "sa: lux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lux)), back: |v| value!(sa::quantity!(v, lux), lux, f64, ()) },
    L { n: "sa: lx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lx)), back: |v| value!(sa::quantity!(v, lx), lx, f64, ()) },
    L { n: "sa: gauss", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gauss)), back: |v| value!(sa::quantity!(v, gauss), gauss, f64, ()) },
    L { n: "sa: G", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, G)), back: |v| value!(sa::quantity!(v, G), G, f64, ()) },
    L { n: "sa: stokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, stokes)), back: |v| value!(sa::quantity!(v, stokes), stokes, f64, ()) },
    L { n: "sa: St", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, St)), back: |v| value!(sa::quantity!(v, St), St, f64, ()) },
    L { n: "sa: mg", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mg)), back: |v| value!(sa::quantity!(v, mg), mg, f64, ()) },
    L { n: "sa: kg", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg)), back: |v| value!(sa::quantity!(v, kg), kg, f64, ()) },
    L { n: "sa: kilogram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilogram)), back: |v| value!(sa::quantity!(v, kilogram), kilogram, f64, ()) },
    L { n: "sa: mm", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mm)), back: |v| value!(sa::quantity!(v, mm), mm, f64, ()) },
    L { n: "sa: millimeter", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, millimeter)), back: |v| value!(sa::quantity!(v, millimeter), millimeter, f64, ()) },
    L { n: "sa: km", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, km)), back: |v| value!(sa::quantity!(v, km), km, f64, ()) },
    L { n: "sa: kilometer", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilometer)), back: |v| value!(sa::quantity!(v, kilometer), kilometer, f64, ()) },
    L { n: "sa: ms", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ms)), back: |v| value!(sa::quantity!(v, ms), ms, f64, ()) },
    L { n: "sa: ks", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ks)), back: |v| value!(sa::quantity!(v, ks), ks, f64, ()) },
    L { n: "sa: kilosecond", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilosecond)), back: |v| value!(sa::quantity!(v, kilosecond), kilosecond, f64, ()) },
    L { n: "sa: mA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mA)), back: |v| value!(sa::quantity!(v, mA), mA, f64, ()) },
    L { n: "sa: kA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kA)), back: |v| value!(sa::quantity!(v, kA), kA, f64, ()) },
    L { n: "sa: kiloampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kiloampere)), back: |v| value!(sa::quantity!(v, kiloampere), kiloampere, f64, ()) },
    L { n: "sa: mK", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mK)), back: |v| value!(sa::quantity!(v, mK), mK, f64, ()) },
    L { n: "sa: kK", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kK)), back: |v| value!(sa::quantity!(v, kK), kK, f64, ()) },
    L { n: "sa: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilokelvin)), back: |v| value!(sa::quantity!(v, kilokelvin), kilokelvin, f64, ()) },
    L { n: "sa: mmol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mmol)), back: |v| value!(sa::quantity!(v, mmol), mmol, f64, ()) },
    L { n: "sa: kmol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kmol)), back: |v| value!(sa::quantity!(v, kmol), kmol, f64, ()) },
    L { n: "sa: kilomole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilomole)), back: |v| value!(sa::quantity!(v, kilomole), kilomole, f64, ()) },
    L { n: "sa: mcd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mcd)), back: |v| value!(sa::quantity!(v, mcd), mcd, f64, ()) },
    L { n: "sa: kcd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kcd)), back: |v| value!(sa::quantity!(v, kcd), kcd, f64, ()) },
    L { n: "sa: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilocandela)), back: |v| value!(sa::quantity!(v, kilocandela), kilocandela, f64, ()) },
    L { n: "sa: mrad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mrad)), back: |v| value!(sa::quantity!(v, mrad), mrad, f64, ()) },
    L { n: "sa: krad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, krad)), back: |v| value!(sa::quantity!(v, krad), krad, f64, ()) },
    L { n: "sa: kiloradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kiloradian)), back: |v| value!(sa::quantity!(v, kiloradian), kiloradian, f64, ()) },
    L { n: "sa: mhect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mhect)), back: |v| value!(sa::quantity!(v, mhect), mhect, f64, ()) },
    L { n: "sa: khect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, khect)), back: |v| value!(sa::quantity!(v, khect), khect, f64, ()) },
    L { n: "sa: kilohectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilohectare)), back: |v| value!(sa::quantity!(v, kilohectare), kilohectare, f64, ()) },
    L { n: "sa: mL", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mL)), back: |v| value!(sa::quantity!(v, mL), mL, f64, ()) },
    L { n: "sa: ml", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ml)), back: |v| value!(sa::quantity!(v, ml), ml, f64, ()) },
    L { n: "sa: kL", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kL)), back: |v| value!(sa::quantity!(v, kL), kL, f64, ()) },
    L { n: "sa: kl", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kl)), back: |v| value!(sa::quantity!(v, kl), kl, f64, ()) },
    L { n: "sa: kiloliter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kiloliter)), back: |v| value!(sa::quantity!(v, kiloliter), kiloliter, f64, ()) },
    L { n: "sa: mHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mHz)), back: |v| value!(sa::quantity!(v, mHz), mHz, f64, ()) },
    L { n: "sa: kHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kHz)), back: |v| value!(sa::quantity!(v, kHz), kHz, f64, ()) },
    L { n: "sa: kilohertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilohertz)), back: |v| value!(sa::quantity!(v, kilohertz), kilohertz, f64, ()) },
    L { n: "sa: mN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mN)), back: |v| value!(sa::quantity!(v, mN), mN, f64, ()) },
    L { n: "sa: kN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kN)), back: |v| value!(sa::quantity!(v, kN), kN, f64, ()) },
    L { n: "sa: kilonewton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilonewton)), back: |v| value!(sa::quantity!(v, kilonewton), kilonewton, f64, ()) },
    L { n: "sa: mJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mJ)), back: |v| value!(sa::quantity!(v, mJ), mJ, f64, ()) },
    L { n: "sa: kJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kJ)), back: |v| value!(sa::quantity!(v, kJ), kJ, f64, ()) },
    L { n: "sa: kilojoule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilojoule)), back: |v| value!(sa::quantity!(v, kilojoule), kilojoule, f64, ()) },
    L { n: "sa: mW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mW)), back: |v| value!(sa::quantity!(v, mW), mW, f64, ()) },
    L { n: "sa: kW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kW)), back: |v| value!(sa::quantity!(v, kW), kW, f64, ()) },
    L { n: "sa: kilowatt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilowatt)), back: |v| value!(sa::quantity!(v, kilowatt), kilowatt, f64, ()) },
    L { n: "sa: mPa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mPa)), back: |v| value!(sa::quantity!(v, mPa), mPa, f64, ()) },
    L { n: "sa: kPa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kPa)), back: |v| value!(sa::quantity!(v, kPa), kPa, f64, ()) },
    L { n: "sa: kilopascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilopascal)), back: |v| value!(sa::quantity!(v, kilopascal), kilopascal, f64, ()) },
    L { n: "sa: mC", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mC)), back: |v| value!(sa::quantity!(v, mC), mC, f64, ()) },
    L { n: "sa: kC", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kC)), back: |v| value!(sa::quantity!(v, kC), kC, f64, ()) },
    L { n: "sa: kilocoulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilocoulomb)), back: |v| value!(sa::quantity!(v, kilocoulomb), kilocoulomb, f64, ()) },
    L { n: "sa: mV", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mV)), back: |v| value!(sa::quantity!(v, mV), mV, f64, ()) },
    L { n: "sa: kV", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kV)), back: |v| value!(sa::quantity!(v, kV), kV, f64, ()) },
    L { n: "sa: kilovolt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilovolt)), back: |v| value!(sa::quantity!(v, kilovolt), kilovolt, f64, ()) },
    L { n: "sa: mF", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mF)), back: |v| value!(sa::quantity!(v, mF), mF, f64, ()) },
    L { n: "sa: kF", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kF)), back: |v| value!(sa::quantity!(v, kF), kF, f64, ()) },
    L { n: "sa: kilofarad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilofarad)), back: |v| value!(sa::quantity!(v, kilofarad), kilofarad, f64, ()) },
    L { n: "sa: mΩ", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mΩ)), back: |v| value!(sa::quantity!(v, mΩ), mΩ, f64, ()) },
    L { n: "sa: kΩ", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kΩ)), back: |v| value!(sa::quantity!(v, kΩ), kΩ, f64, ()) },
    L { n: "sa: kiloohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kiloohm)), back: |v| value!(sa::quantity!(v, kiloohm), kiloohm, f64, ()) },
    L { n: "sa: mS", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mS)), back: |v| value!(sa::quantity!(v, mS), mS, f64, ()) },
    L { n: "sa: kS", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kS)), back: |v| value!(sa::quantity!(v, kS), kS, f64, ()) },
    L { n: "sa: kilosiemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilosiemens)), back: |v| value!(sa::quantity!(v, kilosiemens), kilosiemens, f64, ()) },
    L { n: "sa: mH", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mH)), back: |v| value!(sa::quantity!(v, mH), mH, f64, ()) },
    L { n: "sa: kH", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kH)), back: |v| value!(sa::quantity!(v, kH), kH, f64, ()) },
    L { n: "sa: kilohenry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilohenry)), back: |v| value!(sa::quantity!(v, kilohenry), kilohenry, f64, ()) },
    L { n: "sa: mT", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mT)), back: |v| value!(sa::quantity!(v, mT), mT, f64, ()) },
    L { n: "sa: kT", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kT)), back: |v| value!(sa::quantity!(v, kT), kT, f64, ()) },
    L { n: "sa: kilotesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilotesla)), back: |v| value!(sa::quantity!(v, kilotesla), kilotesla, f64, ()) },
    L { n: "sa: mWb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mWb)), back: |v| value!(sa::quantity!(v, mWb), mWb, f64, ()) },
    L { n: "sa: kWb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kWb)), back: |v| value!(sa::quantity!(v, kWb), kWb, f64, ()) },
    L { n: "sa: kiloweber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kiloweber)), back: |v| value!(sa::quantity!(v, kiloweber), kiloweber, f64, ()) },
    L { n: "sa: mlx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mlx)), back: |v| value!(sa::quantity!(v, mlx), mlx, f64, ()) },
    L { n: "sa: klx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, klx)), back: |v| value!(sa::quantity!(v, klx), klx, f64, ()) },
    L { n: "sa: kilolux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilolux)), back: |v| value!(sa::quantity!(v, kilolux), kilolux, f64, ()) },
    L { n: "sa: mSt", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mSt)), back: |v| value!(sa::quantity!(v, mSt), mSt, f64, ()) },
    L { n: "sa: kSt", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kSt)), back: |v| value!(sa::quantity!(v, kSt), kSt, f64, ()) },
    L { n: "sa: kilostokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kilostokes)), back: |v| value!(sa::quantity!(v, kilostokes), kilostokes, f64, ()) },
];
pub static COMP_SA: &[L] = &[
    L { n: "sa: kg * m / s^2", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg * m / s^2)), back: |v| value!(sa::quantity!(v, kg * m / s^2), kg * m / s^2, f64, ()) },
    L { n: "sa: m / s / s", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m / s / s)), back: |v| value!(sa::quantity!(v, m / s / s), m / s / s, f64, ()) },
    L { n: "sa: J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [15, 0, 15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, J / (kg * K))), back: |v| value!(sa::quantity!(v, J / (kg * K)), J / (kg * K), f64, ()) },
    L { n: "sa: V * s^2 / m", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, V * s^2 / m)), back: |v| value!(sa::quantity!(v, V * s^2 / m), V * s^2 / m, f64, ()) },
    L { n: "sa: km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.2777777777777778f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, km / h)), back: |v| value!(sa::quantity!(v, km / h), km / h, f64, ()) },
    L { n: "sa: mi / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.44704f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mi / h)), back: |v| value!(sa::quantity!(v, mi / h), mi / h, f64, ()) },
    L { n: "sa: lb * ft^2 / min", d: [1, 2, -1, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.00070233516823008f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lb * ft^2 / min)), back: |v| value!(sa::quantity!(v, lb * ft^2 / min), lb * ft^2 / min, f64, ()) },
    L { n: "sa: ft^3", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 0.028316846592f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ft^3)), back: |v| value!(sa::quantity!(v, ft^3), ft^3, f64, ()) },
    L { n: "sa: m / ft", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3.2808398950131235f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m / ft)), back: |v| value!(sa::quantity!(v, m / ft), m / ft, f64, ()) },
    L { n: "sa: gal / min", d: [0, 3, -1, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 6.30901964e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gal / min)), back: |v| value!(sa::quantity!(v, gal / min), gal / min, f64, ()) },
    L { n: "sa: W / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, W / m^2)), back: |v| value!(sa::quantity!(v, W / m^2), W / m^2, f64, ()) },
    L { n: "sa: mW / cm^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mW / cm^2)), back: |v| value!(sa::quantity!(v, mW / cm^2), mW / cm^2, f64, ()) },
    L { n: "sa: m^-1", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m^-1)), back: |v| value!(sa::quantity!(v, m^-1), m^-1, f64, ()) },
    L { n: "sa: 1 / s", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, 1 / s)), back: |v| value!(sa::quantity!(v, 1 / s), 1 / s, f64, ()) },
    L { n: "sa: ft^-2 * lb", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 4.88242763638305f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ft^-2 * lb)), back: |v| value!(sa::quantity!(v, ft^-2 * lb), ft^-2 * lb, f64, ()) },
    L { n: "sa: (km * g) / (ms * A)", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (km * g) / (ms * A))), back: |v| value!(sa::quantity!(v, (km * g) / (ms * A)), (km * g) / (ms * A), f64, ()) },
    L { n: "sa: kWh / yr", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.11407955261548605f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kWh / yr)), back: |v| value!(sa::quantity!(v, kWh / yr), kWh / yr, f64, ()) },
    L { n: "sa: deg / s", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, deg / s)), back: |v| value!(sa::quantity!(v, deg / s), deg / s, f64, ()) },
    L { n: "sa: rad * m^2", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad * m^2)), back: |v| value!(sa::quantity!(v, rad * m^2), rad * m^2, f64, ()) },
    L { n: "sa: psi * gal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 26.09949550537946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, psi * gal)), back: |v| value!(sa::quantity!(v, psi * gal), psi * gal, f64, ()) },
    L { n: "sa: mol / L", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol / L)), back: |v| value!(sa::quantity!(v, mol / L), mol / L, f64, ()) },
    L { n: "sa: hp * h", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 2684519.537696173f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, hp * h)), back: |v| value!(sa::quantity!(v, hp * h), hp * h, f64, ()) },
    L { n: "sa: acre * ft", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1233.48183754752f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, acre * ft)), back: |v| value!(sa::quantity!(v, acre * ft), acre * ft, f64, ()) },
    L { n: "sa: eV / K", d: [1, 2, -2, 0, -1, 0, 0, 0], s: [12, 0, 12, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, eV / K)), back: |v| value!(sa::quantity!(v, eV / K), eV / K, f64, ()) },
    L { n: "sa: N * m", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, N * m)), back: |v| value!(sa::quantity!(v, N * m), N * m, f64, ()) },
    L { n: "sa: Pa * s", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, Pa * s)), back: |v| value!(sa::quantity!(v, Pa * s), Pa * s, f64, ()) },
    L { n: "sa: A * s * V", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A * s * V)), back: |v| value!(sa::quantity!(v, A * s * V), A * s * V, f64, ()) },
    L { n: "sa: cd / m^2", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd / m^2)), back: |v| value!(sa::quantity!(v, cd / m^2), cd / m^2, f64, ()) },
    L { n: "sa: C / mol", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, C / mol)), back: |v| value!(sa::quantity!(v, C / mol), C / mol, f64, ()) },
    L { n: "sa: oz / ft / ft", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.30515172727394063f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, oz / ft / ft)), back: |v| value!(sa::quantity!(v, oz / ft / ft), oz / ft / ft, f64, ()) },
    L { n: "sa: (ft / s)^2", d: [0, 2, -2, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.09290304f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (ft / s)^2)), back: |v| value!(sa::quantity!(v, (ft / s)^2), (ft / s)^2, f64, ()) },
    L { n: "sa: (lb / ft^3)^-1", d: [-1, 3, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.06242796057614461f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (lb / ft^3)^-1)), back: |v| value!(sa::quantity!(v, (lb / ft^3)^-1), (lb / ft^3)^-1, f64, ()) },
    L { n: "sa: kg2 * m3", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg2 * m3)), back: |v| value!(sa::quantity!(v, kg2 * m3), kg2 * m3, f64, ()) },
    L { n: "sa: yd . stone / wk", d: [1, 1, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 9.601038498333333e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, yd . stone / wk)), back: |v| value!(sa::quantity!(v, yd . stone / wk), yd . stone / wk, f64, ()) },
    L { n: "sa: (ft)^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 35.31466672148859f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (ft)^-3)), back: |v| value!(sa::quantity!(v, (ft)^-3), (ft)^-3, f64, ()) },
    L { n: "sa: J * (lb * s)^-3", d: [-2, 2, -5, 0, 0, 0, 0, 0], s: [27, 0, 27, 0], val: 10.715261600999527f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, J * (lb * s)^-3)), back: |v| value!(sa::quantity!(v, J * (lb * s)^-3), J * (lb * s)^-3, f64, ()) },
    L { n: "sa: (ft * min)^-4 * kg", d: [1, -4, -4, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 8.939951192820376e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (ft * min)^-4 * kg)), back: |v| value!(sa::quantity!(v, (ft * min)^-4 * kg), (ft * min)^-4 * kg, f64, ()) },
    L { n: "sa: yd^5", d: [0, 5, 0, 0, 0, 0, 0, 0], s: [15, 0, 15, 0], val: 0.6392652349813368f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, yd^5)), back: |v| value!(sa::quantity!(v, yd^5), yd^5, f64, ()) },
    L { n: "sa: gal^-3", d: [0, -9, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 18435741.533348676f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, gal^-3)), back: |v| value!(sa::quantity!(v, gal^-3), gal^-3, f64, ()) },
    L { n: "sa: (mi / h)^3", d: [0, 3, -3, 0, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 0.089338602225664f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (mi / h)^3)), back: |v| value!(sa::quantity!(v, (mi / h)^3), (mi / h)^3, f64, ()) },
    L { n: "sa: (lb^2 * ft) / (yd^2 * oz)", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2.6456247885680955f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (lb^2 * ft) / (yd^2 * oz))), back: |v| value!(sa::quantity!(v, (lb^2 * ft) / (yd^2 * oz)), (lb^2 * ft) / (yd^2 * oz), f64, ()) },
    L { n: "sa: deg^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [9, 0, 9, 0], val: 5832000.0f64, pi: -3, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, deg^-3)), back: |v| value!(sa::quantity!(v, deg^-3), deg^-3, f64, ()) },
    L { n: "sa: (mi * acre)^-1", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.5354416549051374e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, (mi * acre)^-1)), back: |v| value!(sa::quantity!(v, (mi * acre)^-1), (mi * acre)^-1, f64, ()) },
    L { n: "sa: lb * (ft / (min * gal))", d: [1, -2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.6087182507698349f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, lb * (ft / (min * gal)))), back: |v| value!(sa::quantity!(v, lb * (ft / (min * gal))), lb * (ft / (min * gal)), f64, ()) },
    L { n: "sa: kg^-4", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^-4)), back: |v| value!(sa::quantity!(v, kg^-4), kg^-4, f64, ()) },
    L { n: "sa: kg^-3", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^-3)), back: |v| value!(sa::quantity!(v, kg^-3), kg^-3, f64, ()) },
    L { n: "sa: kg^-2", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^-2)), back: |v| value!(sa::quantity!(v, kg^-2), kg^-2, f64, ()) },
    L { n: "sa: kg^2", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^2)), back: |v| value!(sa::quantity!(v, kg^2), kg^2, f64, ()) },
    L { n: "sa: kg^3", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^3)), back: |v| value!(sa::quantity!(v, kg^3), kg^3, f64, ()) },
    L { n: "sa: kg^4", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg^4)), back: |v| value!(sa::quantity!(v, kg^4), kg^4, f64, ()) },
    L { n: "sa: m^-4", d: [0, -4, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m^-4)), back: |v| value!(sa::quantity!(v, m^-4), m^-4, f64, ()) },
    L { n: "sa: m^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m^-3)), back: |v| value!(sa::quantity!(v, m^-3), m^-3, f64, ()) },
    L { n: "sa: m^-2", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m^-2)), back: |v| value!(sa::quantity!(v, m^-2), m^-2, f64, ()) },
    L { n: "sa: m^4", d: [0, 4, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m^4)), back: |v| value!(sa::quantity!(v, m^4), m^4, f64, ()) },
    L { n: "sa: s^-4", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^-4)), back: |v| value!(sa::quantity!(v, s^-4), s^-4, f64, ()) },
    L { n: "sa: s^-3", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^-3)), back: |v| value!(sa::quantity!(v, s^-3), s^-3, f64, ()) },
    L { n: "sa: s^-2", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^-2)), back: |v| value!(sa::quantity!(v, s^-2), s^-2, f64, ()) },
    L { n: "sa: s^2", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^2)), back: |v| value!(sa::quantity!(v, s^2), s^2, f64, ()) },
    L { n: "sa: s^3", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^3)), back: |v| value!(sa::quantity!(v, s^3), s^3, f64, ()) },
    L { n: "sa: s^4", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, s^4)), back: |v| value!(sa::quantity!(v, s^4), s^4, f64, ()) },
    L { n: "sa: A^-4", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^-4)), back: |v| value!(sa::quantity!(v, A^-4), A^-4, f64, ()) },
    L { n: "sa: A^-3", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^-3)), back: |v| value!(sa::quantity!(v, A^-3), A^-3, f64, ()) },
    L { n: "sa: A^-2", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^-2)), back: |v| value!(sa::quantity!(v, A^-2), A^-2, f64, ()) },
    L { n: "sa: A^2", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^2)), back: |v| value!(sa::quantity!(v, A^2), A^2, f64, ()) },
    L { n: "sa: A^3", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^3)), back: |v| value!(sa::quantity!(v, A^3), A^3, f64, ()) },
    L { n: "sa: A^4", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^4)), back: |v| value!(sa::quantity!(v, A^4), A^4, f64, ()) },
    L { n: "sa: K^-4", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^-4)), back: |v| value!(sa::quantity!(v, K^-4), K^-4, f64, ()) },
    L { n: "sa: K^-3", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^-3)), back: |v| value!(sa::quantity!(v, K^-3), K^-3, f64, ()) },
    L { n: "sa: K^-2", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^-2)), back: |v| value!(sa::quantity!(v, K^-2), K^-2, f64, ()) },
    L { n: "sa: K^2", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^2)), back: |v| value!(sa::quantity!(v, K^2), K^2, f64, ()) },
    L { n: "sa: K^3", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^3)), back: |v| value!(sa::quantity!(v, K^3), K^3, f64, ()) },
    L { n: "sa: K^4", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K^4)), back: |v| value!(sa::quantity!(v, K^4), K^4, f64, ()) },
    L { n: "sa: mol^-4", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^-4)), back: |v| value!(sa::quantity!(v, mol^-4), mol^-4, f64, ()) },
    L { n: "sa: mol^-3", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^-3)), back: |v| value!(sa::quantity!(v, mol^-3), mol^-3, f64, ()) },
    L { n: "sa: mol^-2", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^-2)), back: |v| value!(sa::quantity!(v, mol^-2), mol^-2, f64, ()) },
    L { n: "sa: mol^2", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^2)), back: |v| value!(sa::quantity!(v, mol^2), mol^2, f64, ()) },
    L { n: "sa: mol^3", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^3)), back: |v| value!(sa::quantity!(v, mol^3), mol^3, f64, ()) },
    L { n: "sa: mol^4", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol^4)), back: |v| value!(sa::quantity!(v, mol^4), mol^4, f64, ()) },
    L { n: "sa: cd^-4", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^-4)), back: |v| value!(sa::quantity!(v, cd^-4), cd^-4, f64, ()) },
    L { n: "sa: cd^-3", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^-3)), back: |v| value!(sa::quantity!(v, cd^-3), cd^-3, f64, ()) },
    L { n: "sa: cd^-2", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^-2)), back: |v| value!(sa::quantity!(v, cd^-2), cd^-2, f64, ()) },
    L { n: "sa: cd^2", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^2)), back: |v| value!(sa::quantity!(v, cd^2), cd^2, f64, ()) },
    L { n: "sa: cd^3", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^3)), back: |v| value!(sa::quantity!(v, cd^3), cd^3, f64, ()) },
    L { n: "sa: cd^4", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd^4)), back: |v| value!(sa::quantity!(v, cd^4), cd^4, f64, ()) },
    L { n: "sa: rad^-4", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^-4)), back: |v| value!(sa::quantity!(v, rad^-4), rad^-4, f64, ()) },
    L { n: "sa: rad^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^-3)), back: |v| value!(sa::quantity!(v, rad^-3), rad^-3, f64, ()) },
    L { n: "sa: rad^-2", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^-2)), back: |v| value!(sa::quantity!(v, rad^-2), rad^-2, f64, ()) },
    L { n: "sa: rad^2", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^2)), back: |v| value!(sa::quantity!(v, rad^2), rad^2, f64, ()) },
    L { n: "sa: rad^3", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^3)), back: |v| value!(sa::quantity!(v, rad^3), rad^3, f64, ()) },
    L { n: "sa: rad^4", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad^4)), back: |v| value!(sa::quantity!(v, rad^4), rad^4, f64, ()) },
    L { n: "sa: kg * m * s * A * K * mol * cd * rad", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kg * m * s * A * K * mol * cd * rad)), back: |v| value!(sa::quantity!(v, kg * m * s * A * K * mol * cd * rad), kg * m * s * A * K * mol * cd * rad, f64, ()) },
    L { n: "sa: g / cm^3", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, g / cm^3)), back: |v| value!(sa::quantity!(v, g / cm^3), g / cm^3, f64, ()) },
    L { n: "sa: mg / mm", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mg / mm)), back: |v| value!(sa::quantity!(v, mg / mm), mg / mm, f64, ()) },
    L { n: "sa: mol / m^3", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mol / m^3)), back: |v| value!(sa::quantity!(v, mol / m^3), mol / m^3, f64, ()) },
    L { n: "sa: cd * s", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, cd * s)), back: |v| value!(sa::quantity!(v, cd * s), cd * s, f64, ()) },
    L { n: "sa: K / mm", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, K / mm)), back: |v| value!(sa::quantity!(v, K / mm), K / mm, f64, ()) },
    L { n: "sa: deg / min", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, deg / min)), back: |v| value!(sa::quantity!(v, deg / min), deg / min, f64, ()) },
    L { n: "sa: kJ / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [15, 0, 15, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kJ / (kg * K))), back: |v| value!(sa::quantity!(v, kJ / (kg * K)), kJ / (kg * K), f64, ()) },
    L { n: "sa: mW / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, mW / m^2)), back: |v| value!(sa::quantity!(v, mW / m^2), mW / m^2, f64, ()) },
    L { n: "sa: kPa * L", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, kPa * L)), back: |v| value!(sa::quantity!(v, kPa * L), kPa * L, f64, ()) },
    L { n: "sa: uF * V", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, uF * V)), back: |v| value!(sa::quantity!(v, uF * V), uF * V, f64, ()) },
    L { n: "sa: m / mm", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, m / mm)), back: |v| value!(sa::quantity!(v, m / mm), m / mm, f64, ()) },
    L { n: "sa: ft / mi", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001893939393939394f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, ft / mi)), back: |v| value!(sa::quantity!(v, ft / mi), ft / mi, f64, ()) },
    L { n: "sa: min / h", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, min / h)), back: |v| value!(sa::quantity!(v, min / h), min / h, f64, ()) },
    L { n: "sa: deg / rad", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, deg / rad)), back: |v| value!(sa::quantity!(v, deg / rad), deg / rad, f64, ()) },
    L { n: "sa: 1 / min", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, 1 / min)), back: |v| value!(sa::quantity!(v, 1 / min), 1 / min, f64, ()) },
    L { n: "sa: rad / s^2", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, rad / s^2)), back: |v| value!(sa::quantity!(v, rad / s^2), rad / s^2, f64, ()) },
    L { n: "sa: A^2 * s^4 / (kg * m^2)", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sa::quantity!(v, A^2 * s^4 / (kg * m^2))), back: |v| value!(sa::quantity!(v, A^2 * s^4 / (kg * m^2)), A^2 * s^4 / (kg * m^2), f64, ()) },
];
pub mod m_sa { use super::*; use super::sa::*;
pub static METHOD: &[L] = &[
    L { n: "sa: grams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.grams()), back: |v| value!(v.grams(), gram, f64, ()) },
    L { n: "sa: attograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attograms()), back: |v| value!(v.attograms(), attogram, f64, ()) },
    L { n: "sa: centigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centigrams()), back: |v| value!(v.centigrams(), centigram, f64, ()) },
    L { n: "sa: decagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decagrams()), back: |v| value!(v.decagrams(), decagram, f64, ()) },
    L { n: "sa: decigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decigrams()), back: |v| value!(v.decigrams(), decigram, f64, ()) },
    L { n: "sa: exagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exagrams()), back: |v| value!(v.exagrams(), exagram, f64, ()) },
    L { n: "sa: femtograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtograms()), back: |v| value!(v.femtograms(), femtogram, f64, ()) },
    L { n: "sa: gigagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigagrams()), back: |v| value!(v.gigagrams(), gigagram, f64, ()) },
    L { n: "sa: hectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectograms()), back: |v| value!(v.hectograms(), hectogram, f64, ()) },
    L { n: "sa: kilograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilograms()), back: |v| value!(v.kilograms(), kilogram, f64, ()) },
    L { n: "sa: megagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megagrams()), back: |v| value!(v.megagrams(), megagram, f64, ()) },
    L { n: "sa: micrograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrograms()), back: |v| value!(v.micrograms(), microgram, f64, ()) },
    L { n: "sa: milligrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milligrams()), back: |v| value!(v.milligrams(), milligram, f64, ()) },
    L { n: "sa: nanograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanograms()), back: |v| value!(v.nanograms(), nanogram, f64, ()) },
    L { n: "sa: petagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petagrams()), back: |v| value!(v.petagrams(), petagram, f64, ()) },
    L { n: "sa: picograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picograms()), back: |v| value!(v.picograms(), picogram, f64, ()) },
    L { n: "sa: quectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-33f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectograms()), back: |v| value!(v.quectograms(), quectogram, f64, ()) },
    L { n: "sa: quettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettagrams()), back: |v| value!(v.quettagrams(), quettagram, f64, ()) },
    L { n: "sa: ronnagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnagrams()), back: |v| value!(v.ronnagrams(), ronnagram, f64, ()) },
    L { n: "sa: rontograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontograms()), back: |v| value!(v.rontograms(), rontogram, f64, ()) },
    L { n: "sa: teragrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teragrams()), back: |v| value!(v.teragrams(), teragram, f64, ()) },
    L { n: "sa: yoctograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctograms()), back: |v| value!(v.yoctograms(), yoctogram, f64, ()) },
    L { n: "sa: yottagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottagrams()), back: |v| value!(v.yottagrams(), yottagram, f64, ()) },
    L { n: "sa: zeptograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptograms()), back: |v| value!(v.zeptograms(), zeptogram, f64, ()) },
    L { n: "sa: zettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettagrams()), back: |v| value!(v.zettagrams(), zettagram, f64, ()) },
    L { n: "sa: meters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.meters()), back: |v| value!(v.meters(), meter, f64, ()) },
    L { n: "sa: attometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attometers()), back: |v| value!(v.attometers(), attometer, f64, ()) },
    L { n: "sa: centimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimeters()), back: |v| value!(v.centimeters(), centimeter, f64, ()) },
    L { n: "sa: decameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decameters()), back: |v| value!(v.decameters(), decameter, f64, ()) },
    L { n: "sa: decimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimeters()), back: |v| value!(v.decimeters(), decimeter, f64, ()) },
    L { n: "sa: exameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exameters()), back: |v| value!(v.exameters(), exameter, f64, ()) },
    L { n: "sa: femtometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtometers()), back: |v| value!(v.femtometers(), femtometer, f64, ()) },
    L { n: "sa: gigameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigameters()), back: |v| value!(v.gigameters(), gigameter, f64, ()) },
    L { n: "sa: hectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectometers()), back: |v| value!(v.hectometers(), hectometer, f64, ()) },
    L { n: "sa: kilometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilometers()), back: |v| value!(v.kilometers(), kilometer, f64, ()) },
    L { n: "sa: megameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megameters()), back: |v| value!(v.megameters(), megameter, f64, ()) },
    L { n: "sa: micrometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrometers()), back: |v| value!(v.micrometers(), micrometer, f64, ()) },
    L { n: "sa: millimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimeters()), back: |v| value!(v.millimeters(), millimeter, f64, ()) },
    L { n: "sa: nanometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanometers()), back: |v| value!(v.nanometers(), nanometer, f64, ()) },
    L { n: "sa: petameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petameters()), back: |v| value!(v.petameters(), petameter, f64, ()) },
    L { n: "sa: picometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picometers()), back: |v| value!(v.picometers(), picometer, f64, ()) },
    L { n: "sa: quectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectometers()), back: |v| value!(v.quectometers(), quectometer, f64, ()) },
    L { n: "sa: quettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettameters()), back: |v| value!(v.quettameters(), quettameter, f64, ()) },
    L { n: "sa: ronnameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnameters()), back: |v| value!(v.ronnameters(), ronnameter, f64, ()) },
    L { n: "sa: rontometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontometers()), back: |v| value!(v.rontometers(), rontometer, f64, ()) },
    L { n: "sa: terameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terameters()), back: |v| value!(v.terameters(), terameter, f64, ()) },
    L { n: "sa: yoctometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctometers()), back: |v| value!(v.yoctometers(), yoctometer, f64, ()) },
    L { n: "sa: yottameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottameters()), back: |v| value!(v.yottameters(), yottameter, f64, ()) },
    L { n: "sa: zeptometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptometers()), back: |v| value!(v.zeptometers(), zeptometer, f64, ()) },
    L { n: "sa: zettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettameters()), back: |v| value!(v.zettameters(), zettameter, f64, ()) },
    L { n: "sa: seconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.seconds()), back: |v| value!(v.seconds(), second, f64, ()) },
    L { n: "sa: attoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoseconds()), back: |v| value!(v.attoseconds(), attosecond, f64, ()) },
    L { n: "sa: centiseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiseconds()), back: |v| value!(v.centiseconds(), centisecond, f64, ()) },
    L { n: "sa: decaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaseconds()), back: |v| value!(v.decaseconds(), decasecond, f64, ()) },
    L { n: "sa: deciseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciseconds()), back: |v| value!(v.deciseconds(), decisecond, f64, ()) },
    L { n: "sa: exaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaseconds()), back: |v| value!(v.exaseconds(), exasecond, f64, ()) },
    L { n: "sa: femtoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoseconds()), back: |v| value!(v.femtoseconds(), femtosecond, f64, ()) },
    L { n: "sa: gigaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaseconds()), back: |v| value!(v.gigaseconds(), gigasecond, f64, ()) },
    L { n: "sa: hectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoseconds()), back: |v| value!(v.hectoseconds(), hectosecond, f64, ()) },
    L { n: "sa: kiloseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloseconds()), back: |v| value!(v.kiloseconds(), kilosecond, f64, ()) },
    L { n: "sa: megaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaseconds()), back: |v| value!(v.megaseconds(), megasecond, f64, ()) },
    L { n: "sa: microseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microseconds()), back: |v| value!(v.microseconds(), microsecond, f64, ()) },
    L { n: "sa: milliseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliseconds()), back: |v| value!(v.milliseconds(), millisecond, f64, ()) },
    L { n: "sa: nanoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoseconds()), back: |v| value!(v.nanoseconds(), nanosecond, f64, ()) },
    L { n: "sa: petaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaseconds()), back: |v| value!(v.petaseconds(), petasecond, f64, ()) },
    L { n: "sa: picoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoseconds()), back: |v| value!(v.picoseconds(), picosecond, f64, ()) },
    L { n: "sa: quectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoseconds()), back: |v| value!(v.quectoseconds(), quectosecond, f64, ()) },
    L { n: "sa: quettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaseconds()), back: |v| value!(v.quettaseconds(), quettasecond, f64, ()) },
    L { n: "sa: ronnaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaseconds()), back: |v| value!(v.ronnaseconds(), ronnasecond, f64, ()) },
    L { n: "sa: rontoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoseconds()), back: |v| value!(v.rontoseconds(), rontosecond, f64, ()) },
    L { n: "sa: teraseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraseconds()), back: |v| value!(v.teraseconds(), terasecond, f64, ()) },
    L { n: "sa: yoctoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoseconds()), back: |v| value!(v.yoctoseconds(), yoctosecond, f64, ()) },
    L { n: "sa: yottaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaseconds()), back: |v| value!(v.yottaseconds(), yottasecond, f64, ()) },
    L { n: "sa: zeptoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoseconds()), back: |v| value!(v.zeptoseconds(), zeptosecond, f64, ()) },
    L { n: "sa: zettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaseconds()), back: |v| value!(v.zettaseconds(), zettasecond, f64, ()) },
    L { n: "sa: amperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.amperes()), back: |v| value!(v.amperes(), ampere, f64, ()) },
    L { n: "sa: attoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoamperes()), back: |v| value!(v.attoamperes(), attoampere, f64, ()) },
    L { n: "sa: centiamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiamperes()), back: |v| value!(v.centiamperes(), centiampere, f64, ()) },
    L { n: "sa: decaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaamperes()), back: |v| value!(v.decaamperes(), decaampere, f64, ()) },
    L { n: "sa: deciamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciamperes()), back: |v| value!(v.deciamperes(), deciampere, f64, ()) },
    L { n: "sa: exaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaamperes()), back: |v| value!(v.exaamperes(), exaampere, f64, ()) },
    L { n: "sa: femtoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoamperes()), back: |v| value!(v.femtoamperes(), femtoampere, f64, ()) },
    L { n: "sa: gigaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaamperes()), back: |v| value!(v.gigaamperes(), gigaampere, f64, ()) },
    L { n: "sa: hectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoamperes()), back: |v| value!(v.hectoamperes(), hectoampere, f64, ()) },
    L { n: "sa: kiloamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloamperes()), back: |v| value!(v.kiloamperes(), kiloampere, f64, ()) },
    L { n: "sa: megaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaamperes()), back: |v| value!(v.megaamperes(), megaampere, f64, ()) },
    L { n: "sa: microamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microamperes()), back: |v| value!(v.microamperes(), microampere, f64, ()) },
    L { n: "sa: milliamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliamperes()), back: |v| value!(v.milliamperes(), milliampere, f64, ()) },
    L { n: "sa: nanoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoamperes()), back: |v| value!(v.nanoamperes(), nanoampere, f64, ()) },
    L { n: "sa: petaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaamperes()), back: |v| value!(v.petaamperes(), petaampere, f64, ()) },
    L { n: "sa: picoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoamperes()), back: |v| value!(v.picoamperes(), picoampere, f64, ()) },
    L { n: "sa: quectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoamperes()), back: |v| value!(v.quectoamperes(), quectoampere, f64, ()) },
    L { n: "sa: quettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaamperes()), back: |v| value!(v.quettaamperes(), quettaampere, f64, ()) },
    L { n: "sa: ronnaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaamperes()), back: |v| value!(v.ronnaamperes(), ronnaampere, f64, ()) },
    L { n: "sa: rontoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoamperes()), back: |v| value!(v.rontoamperes(), rontoampere, f64, ()) },
    L { n: "sa: teraamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraamperes()), back: |v| value!(v.teraamperes(), teraampere, f64, ()) },
    L { n: "sa: yoctoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoamperes()), back: |v| value!(v.yoctoamperes(), yoctoampere, f64, ()) },
    L { n: "sa: yottaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaamperes()), back: |v| value!(v.yottaamperes(), yottaampere, f64, ()) },
    L { n: "sa: zeptoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoamperes()), back: |v| value!(v.zeptoamperes(), zeptoampere, f64, ()) },
    L { n: "sa: zettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaamperes()), back: |v| value!(v.zettaamperes(), zettaampere, f64, ()) },
    L { n: "sa: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kelvin()), back: |v| value!(v.kelvin(), kelvin, f64, ()) },
    L { n: "sa: attokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attokelvin()), back: |v| value!(v.attokelvin(), attokelvin, f64, ()) },
    L { n: "sa: centikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centikelvin()), back: |v| value!(v.centikelvin(), centikelvin, f64, ()) },
    L { n: "sa: decakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decakelvin()), back: |v| value!(v.decakelvin(), decakelvin, f64, ()) },
    L { n: "sa: decikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decikelvin()), back: |v| value!(v.decikelvin(), decikelvin, f64, ()) },
    L { n: "sa: exakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exakelvin()), back: |v| value!(v.exakelvin(), exakelvin, f64, ()) },
    L { n: "sa: femtokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtokelvin()), back: |v| value!(v.femtokelvin(), femtokelvin, f64, ()) },
    L { n: "sa: gigakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigakelvin()), back: |v| value!(v.gigakelvin(), gigakelvin, f64, ()) },
    L { n: "sa: hectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectokelvin()), back: |v| value!(v.hectokelvin(), hectokelvin, f64, ()) },
    L { n: "sa: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilokelvin()), back: |v| value!(v.kilokelvin(), kilokelvin, f64, ()) },
    L { n: "sa: megakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megakelvin()), back: |v| value!(v.megakelvin(), megakelvin, f64, ()) },
    L { n: "sa: microkelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microkelvin()), back: |v| value!(v.microkelvin(), microkelvin, f64, ()) },
    L { n: "sa: millikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millikelvin()), back: |v| value!(v.millikelvin(), millikelvin, f64, ()) },
    L { n: "sa: nanokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanokelvin()), back: |v| value!(v.nanokelvin(), nanokelvin, f64, ()) },
    L { n: "sa: petakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petakelvin()), back: |v| value!(v.petakelvin(), petakelvin, f64, ()) },
    L { n: "sa: picokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picokelvin()), back: |v| value!(v.picokelvin(), picokelvin, f64, ()) },
    L { n: "sa: quectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectokelvin()), back: |v| value!(v.quectokelvin(), quectokelvin, f64, ()) },
    L { n: "sa: quettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettakelvin()), back: |v| value!(v.quettakelvin(), quettakelvin, f64, ()) },
    L { n: "sa: ronnakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnakelvin()), back: |v| value!(v.ronnakelvin(), ronnakelvin, f64, ()) },
    L { n: "sa: rontokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontokelvin()), back: |v| value!(v.rontokelvin(), rontokelvin, f64, ()) },
    L { n: "sa: terakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terakelvin()), back: |v| value!(v.terakelvin(), terakelvin, f64, ()) },
    L { n: "sa: yoctokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctokelvin()), back: |v| value!(v.yoctokelvin(), yoctokelvin, f64, ()) },
    L { n: "sa: yottakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottakelvin()), back: |v| value!(v.yottakelvin(), yottakelvin, f64, ()) },
    L { n: "sa: zeptokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptokelvin()), back: |v| value!(v.zeptokelvin(), zeptokelvin, f64, ()) },
    L { n: "sa: zettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettakelvin()), back: |v| value!(v.zettakelvin(), zettakelvin, f64, ()) },
    L { n: "sa: moles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.moles()), back: |v| value!(v.moles(), mole, f64, ()) },
    L { n: "sa: attomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attomoles()), back: |v| value!(v.attomoles(), attomole, f64, ()) },
    L { n: "sa: centimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimoles()), back: |v| value!(v.centimoles(), centimole, f64, ()) },
    L { n: "sa: decamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decamoles()), back: |v| value!(v.decamoles(), decamole, f64, ()) },
    L { n: "sa: decimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimoles()), back: |v| value!(v.decimoles(), decimole, f64, ()) },
    L { n: "sa: examoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.examoles()), back: |v| value!(v.examoles(), examole, f64, ()) },
    L { n: "sa: femtomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtomoles()), back: |v| value!(v.femtomoles(), femtomole, f64, ()) },
    L { n: "sa: gigamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigamoles()), back: |v| value!(v.gigamoles(), gigamole, f64, ()) },
    L { n: "sa: hectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectomoles()), back: |v| value!(v.hectomoles(), hectomole, f64, ()) },
    L { n: "sa: kilomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilomoles()), back: |v| value!(v.kilomoles(), kilomole, f64, ()) },
    L { n: "sa: megamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megamoles()), back: |v| value!(v.megamoles(), megamole, f64, ()) },
    L { n: "sa: micromoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micromoles()), back: |v| value!(v.micromoles(), micromole, f64, ()) },
    L { n: "sa: millimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimoles()), back: |v| value!(v.millimoles(), millimole, f64, ()) },
    L { n: "sa: nanomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanomoles()), back: |v| value!(v.nanomoles(), nanomole, f64, ()) },
    L { n: "sa: petamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petamoles()), back: |v| value!(v.petamoles(), petamole, f64, ()) },
    L { n: "sa: picomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picomoles()), back: |v| value!(v.picomoles(), picomole, f64, ()) },
    L { n: "sa: quectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectomoles()), back: |v| value!(v.quectomoles(), quectomole, f64, ()) },
    L { n: "sa: quettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettamoles()), back: |v| value!(v.quettamoles(), quettamole, f64, ()) },
    L { n: "sa: ronnamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnamoles()), back: |v| value!(v.ronnamoles(), ronnamole, f64, ()) },
    L { n: "sa: rontomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontomoles()), back: |v| value!(v.rontomoles(), rontomole, f64, ()) },
    L { n: "sa: teramoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teramoles()), back: |v| value!(v.teramoles(), teramole, f64, ()) },
    L { n: "sa: yoctomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctomoles()), back: |v| value!(v.yoctomoles(), yoctomole, f64, ()) },
    L { n: "sa: yottamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottamoles()), back: |v| value!(v.yottamoles(), yottamole, f64, ()) },
    L { n: "sa: zeptomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptomoles()), back: |v| value!(v.zeptomoles(), zeptomole, f64, ()) },
    L { n: "sa: zettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettamoles()), back: |v| value!(v.zettamoles(), zettamole, f64, ()) },
    L { n: "sa: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.candela()), back: |v| value!(v.candela(), candela, f64, ()) },
    L { n: "sa: attocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attocandela()), back: |v| value!(v.attocandela(), attocandela, f64, ()) },
    L { n: "sa: centicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centicandela()), back: |v| value!(v.centicandela(), centicandela, f64, ()) },
    L { n: "sa: decacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decacandela()), back: |v| value!(v.decacandela(), decacandela, f64, ()) },
    L { n: "sa: decicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decicandela()), back: |v| value!(v.decicandela(), decicandela, f64, ()) },
    L { n: "sa: exacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exacandela()), back: |v| value!(v.exacandela(), exacandela, f64, ()) },
    L { n: "sa: femtocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtocandela()), back: |v| value!(v.femtocandela(), femtocandela, f64, ()) },
    L { n: "sa: gigacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigacandela()), back: |v| value!(v.gigacandela(), gigacandela, f64, ()) },
    L { n: "sa: hectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectocandela()), back: |v| value!(v.hectocandela(), hectocandela, f64, ()) },
    L { n: "sa: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilocandela()), back: |v| value!(v.kilocandela(), kilocandela, f64, ()) },
    L { n: "sa: megacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megacandela()), back: |v| value!(v.megacandela(), megacandela, f64, ()) },
    L { n: "sa: microcandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microcandela()), back: |v| value!(v.microcandela(), microcandela, f64, ()) },
    L { n: "sa: millicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millicandela()), back: |v| value!(v.millicandela(), millicandela, f64, ()) },
    L { n: "sa: nanocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanocandela()), back: |v| value!(v.nanocandela(), nanocandela, f64, ()) },
    L { n: "sa: petacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petacandela()), back: |v| value!(v.petacandela(), petacandela, f64, ()) },
    L { n: "sa: picocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picocandela()), back: |v| value!(v.picocandela(), picocandela, f64, ()) },
    L { n: "sa: quectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectocandela()), back: |v| value!(v.quectocandela(), quectocandela, f64, ()) },
    L { n: "sa: quettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettacandela()), back: |v| value!(v.quettacandela(), quettacandela, f64, ()) },
    L { n: "sa: ronnacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnacandela()), back: |v| value!(v.ronnacandela(), ronnacandela, f64, ()) },
    L { n: "sa: rontocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontocandela()), back: |v| value!(v.rontocandela(), rontocandela, f64, ()) },
    L { n: "sa: teracandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teracandela()), back: |v| value!(v.teracandela(), teracandela, f64, ()) },
    L { n: "sa: yoctocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctocandela()), back: |v| value!(v.yoctocandela(), yoctocandela, f64, ()) },
    L { n: "sa: yottacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottacandela()), back: |v| value!(v.yottacandela(), yottacandela, f64, ()) },
    L { n: "sa: zeptocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptocandela()), back: |v| value!(v.zeptocandela(), zeptocandela, f64, ()) },
    L { n: "sa: zettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettacandela()), back: |v| value!(v.zettacandela(), zettacandela, f64, ()) },
    L { n: "sa: radians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.radians()), back: |v| value!(v.radians(), radian, f64, ()) },
    L { n: "sa: attoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoradians()), back: |v| value!(v.attoradians(), attoradian, f64, ()) },
    L { n: "sa: centiradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiradians()), back: |v| value!(v.centiradians(), centiradian, f64, ()) },
    L { n: "sa: decaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaradians()), back: |v| value!(v.decaradians(), decaradian, f64, ()) },
    L { n: "sa: deciradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciradians()), back: |v| value!(v.deciradians(), deciradian, f64, ()) },
    L { n: "sa: exaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaradians()), back: |v| value!(v.exaradians(), exaradian, f64, ()) },
    L { n: "sa: femtoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoradians()), back: |v| value!(v.femtoradians(), femtoradian, f64, ()) },
    L { n: "sa: gigaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaradians()), back: |v| value!(v.gigaradians(), gigaradian, f64, ()) },
    L { n: "sa: hectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoradians()), back: |v| value!(v.hectoradians(), hectoradian, f64, ()) },
    L { n: "sa: kiloradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloradians()), back: |v| value!(v.kiloradians(), kiloradian, f64, ()) },
    L { n: "sa: megaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaradians()), back: |v| value!(v.megaradians(), megaradian, f64, ()) },
    L { n: "sa: microradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microradians()), back: |v| value!(v.microradians(), microradian, f64, ()) },
    L { n: "sa: milliradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliradians()), back: |v| value!(v.milliradians(), milliradian, f64, ()) },
    L { n: "sa: nanoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoradians()), back: |v| value!(v.nanoradians(), nanoradian, f64, ()) },
    L { n: "sa: petaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaradians()), back: |v| value!(v.petaradians(), petaradian, f64, ()) },
    L { n: "sa: picoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoradians()), back: |v| value!(v.picoradians(), picoradian, f64, ()) },
    L { n: "sa: quectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoradians()), back: |v| value!(v.quectoradians(), quectoradian, f64, ()) },
    L { n: "sa: quettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaradians()), back: |v| value!(v.quettaradians(), quettaradian, f64, ()) },
    L { n: "sa: ronnaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaradians()), back: |v| value!(v.ronnaradians(), ronnaradian, f64, ()) },
    L { n: "sa: rontoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoradians()), back: |v| value!(v.rontoradians(), rontoradian, f64, ()) },
    L { n: "sa: teraradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraradians()), back: |v| value!(v.teraradians(), teraradian, f64, ()) },
    L { n: "sa: yoctoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoradians()), back: |v| value!(v.yoctoradians(), yoctoradian, f64, ()) },
    L { n: "sa: yottaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaradians()), back: |v| value!(v.yottaradians(), yottaradian, f64, ()) },
    L { n: "sa: zeptoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoradians()), back: |v| value!(v.zeptoradians(), zeptoradian, f64, ()) },
    L { n: "sa: zettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaradians()), back: |v| value!(v.zettaradians(), zettaradian, f64, ()) },
];
pub static INT: &[LI] = &[
    LI { n: "sa: grams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).grams()) },
    LI { n: "sa: grams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).grams()) },
    LI { n: "sa: centigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centigrams()) },
    LI { n: "sa: centigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centigrams()) },
    LI { n: "sa: decagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decagrams()) },
    LI { n: "sa: decagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decagrams()) },
    LI { n: "sa: decigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decigrams()) },
    LI { n: "sa: decigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decigrams()) },
    LI { n: "sa: hectograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectograms()) },
    LI { n: "sa: hectograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectograms()) },
    LI { n: "sa: kilograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilograms()) },
    LI { n: "sa: kilograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilograms()) },
    LI { n: "sa: megagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megagrams()) },
    LI { n: "sa: megagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megagrams()) },
    LI { n: "sa: micrograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).micrograms()) },
    LI { n: "sa: micrograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).micrograms()) },
    LI { n: "sa: milligrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).milligrams()) },
    LI { n: "sa: milligrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).milligrams()) },
    LI { n: "sa: meters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).meters()) },
    LI { n: "sa: meters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).meters()) },
    LI { n: "sa: centimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centimeters()) },
    LI { n: "sa: centimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centimeters()) },
    LI { n: "sa: decameters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decameters()) },
    LI { n: "sa: decameters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decameters()) },
    LI { n: "sa: decimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decimeters()) },
    LI { n: "sa: decimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decimeters()) },
    LI { n: "sa: gigameters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).gigameters()) },
    LI { n: "sa: gigameters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).gigameters()) },
    LI { n: "sa: hectometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectometers()) },
    LI { n: "sa: hectometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectometers()) },
    LI { n: "sa: kilometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilometers()) },
    LI { n: "sa: kilometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilometers()) },
    LI { n: "sa: megameters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megameters()) },
    LI { n: "sa: megameters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megameters()) },
    LI { n: "sa: millimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millimeters()) },
    LI { n: "sa: millimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millimeters()) },
    LI { n: "sa: seconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).seconds()) },
    LI { n: "sa: seconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).seconds()) },
    LI { n: "sa: centiseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centiseconds()) },
    LI { n: "sa: centiseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centiseconds()) },
    LI { n: "sa: decaseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decaseconds()) },
    LI { n: "sa: decaseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decaseconds()) },
    LI { n: "sa: deciseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).deciseconds()) },
    LI { n: "sa: deciseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).deciseconds()) },
    LI { n: "sa: hectoseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectoseconds()) },
    LI { n: "sa: hectoseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectoseconds()) },
    LI { n: "sa: kiloseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kiloseconds()) },
    LI { n: "sa: kiloseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kiloseconds()) },
    LI { n: "sa: microseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microseconds()) },
    LI { n: "sa: microseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microseconds()) },
    LI { n: "sa: milliseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).milliseconds()) },
    LI { n: "sa: milliseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).milliseconds()) },
    LI { n: "sa: nanoseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanoseconds()) },
    LI { n: "sa: nanoseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanoseconds()) },
    LI { n: "sa: amperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).amperes()) },
    LI { n: "sa: amperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).amperes()) },
    LI { n: "sa: centiamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centiamperes()) },
    LI { n: "sa: centiamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centiamperes()) },
    LI { n: "sa: decaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decaamperes()) },
    LI { n: "sa: decaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decaamperes()) },
    LI { n: "sa: deciamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).deciamperes()) },
    LI { n: "sa: deciamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).deciamperes()) },
    LI { n: "sa: hectoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectoamperes()) },
    LI { n: "sa: hectoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectoamperes()) },
    LI { n: "sa: kiloamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kiloamperes()) },
    LI { n: "sa: kiloamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kiloamperes()) },
    LI { n: "sa: microamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microamperes()) },
    LI { n: "sa: microamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microamperes()) },
    LI { n: "sa: milliamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).milliamperes()) },
    LI { n: "sa: milliamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).milliamperes()) },
    LI { n: "sa: nanoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanoamperes()) },
    LI { n: "sa: nanoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanoamperes()) },
    LI { n: "sa: kelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kelvin()) },
    LI { n: "sa: kelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kelvin()) },
    LI { n: "sa: centikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centikelvin()) },
    LI { n: "sa: centikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centikelvin()) },
    LI { n: "sa: decakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decakelvin()) },
    LI { n: "sa: decakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decakelvin()) },
    LI { n: "sa: decikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decikelvin()) },
    LI { n: "sa: decikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decikelvin()) },
    LI { n: "sa: hectokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectokelvin()) },
    LI { n: "sa: hectokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectokelvin()) },
    LI { n: "sa: kilokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilokelvin()) },
    LI { n: "sa: kilokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilokelvin()) },
    LI { n: "sa: microkelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microkelvin()) },
    LI { n: "sa: microkelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microkelvin()) },
    LI { n: "sa: millikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millikelvin()) },
    LI { n: "sa: millikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millikelvin()) },
    LI { n: "sa: nanokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanokelvin()) },
    LI { n: "sa: nanokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanokelvin()) },
    LI { n: "sa: moles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).moles()) },
    LI { n: "sa: moles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).moles()) },
    LI { n: "sa: centimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centimoles()) },
    LI { n: "sa: centimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centimoles()) },
    LI { n: "sa: decamoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decamoles()) },
    LI { n: "sa: decamoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decamoles()) },
    LI { n: "sa: decimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decimoles()) },
    LI { n: "sa: decimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decimoles()) },
    LI { n: "sa: gigamoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).gigamoles()) },
    LI { n: "sa: gigamoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).gigamoles()) },
    LI { n: "sa: hectomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectomoles()) },
    LI { n: "sa: hectomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectomoles()) },
    LI { n: "sa: kilomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilomoles()) },
    LI { n: "sa: kilomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilomoles()) },
    LI { n: "sa: megamoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megamoles()) },
    LI { n: "sa: megamoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megamoles()) },
    LI { n: "sa: millimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millimoles()) },
    LI { n: "sa: millimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millimoles()) },
    LI { n: "sa: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).candela()) },
    LI { n: "sa: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).candela()) },
    LI { n: "sa: centicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centicandela()) },
    LI { n: "sa: centicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centicandela()) },
    LI { n: "sa: decacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decacandela()) },
    LI { n: "sa: decacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decacandela()) },
    LI { n: "sa: decicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decicandela()) },
    LI { n: "sa: decicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decicandela()) },
    LI { n: "sa: hectocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectocandela()) },
    LI { n: "sa: hectocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectocandela()) },
    LI { n: "sa: kilocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilocandela()) },
    LI { n: "sa: kilocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilocandela()) },
    LI { n: "sa: microcandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microcandela()) },
    LI { n: "sa: microcandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microcandela()) },
    LI { n: "sa: millicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millicandela()) },
    LI { n: "sa: millicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millicandela()) },
    LI { n: "sa: nanocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanocandela()) },
    LI { n: "sa: nanocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanocandela()) },
    LI { n: "sa: radians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).radians()) },
    LI { n: "sa: radians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).radians()) },
    LI { n: "sa: centiradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centiradians()) },
    LI { n: "sa: centiradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centiradians()) },
    LI { n: "sa: decaradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decaradians()) },
    LI { n: "sa: decaradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decaradians()) },
    LI { n: "sa: deciradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).deciradians()) },
    LI { n: "sa: deciradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).deciradians()) },
    LI { n: "sa: hectoradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectoradians()) },
    LI { n: "sa: hectoradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectoradians()) },
    LI { n: "sa: kiloradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kiloradians()) },
    LI { n: "sa: kiloradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kiloradians()) },
    LI { n: "sa: microradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microradians()) },
    LI { n: "sa: microradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microradians()) },
    LI { n: "sa: milliradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).milliradians()) },
    LI { n: "sa: milliradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).milliradians()) },
    LI { n: "sa: nanoradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanoradians()) },
    LI { n: "sa: nanoradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanoradians()) },
    LI { n: "sa: kg * m / s^2 i32", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kg * m / s^2, i32)) },
    LI { n: "sa: kg * m / s^2 i64", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kg * m / s^2, i64)) },
    LI { n: "sa: V * s^2 / m i32", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, V * s^2 / m, i32)) },
    LI { n: "sa: V * s^2 / m i64", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, V * s^2 / m, i64)) },
    LI { n: "sa: W / m^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, W / m^2, i32)) },
    LI { n: "sa: W / m^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, W / m^2, i64)) },
    LI { n: "sa: mW / cm^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mW / cm^2, i32)) },
    LI { n: "sa: mW / cm^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mW / cm^2, i64)) },
    LI { n: "sa: m^-1 i32", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, m^-1, i32)) },
    LI { n: "sa: m^-1 i64", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, m^-1, i64)) },
    LI { n: "sa: 1 / s i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, 1 / s, i32)) },
    LI { n: "sa: 1 / s i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, 1 / s, i64)) },
    LI { n: "sa: (km * g) / (ms * A) i32", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, (km * g) / (ms * A), i32)) },
    LI { n: "sa: (km * g) / (ms * A) i64", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, (km * g) / (ms * A), i64)) },
    LI { n: "sa: rad * m^2 i32", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, rad * m^2, i32)) },
    LI { n: "sa: rad * m^2 i64", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, rad * m^2, i64)) },
    LI { n: "sa: Pa * s i32", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, Pa * s, i32)) },
    LI { n: "sa: Pa * s i64", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, Pa * s, i64)) },
    LI { n: "sa: kg2 * m3 i32", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kg2 * m3, i32)) },
    LI { n: "sa: kg2 * m3 i64", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kg2 * m3, i64)) },
    LI { n: "sa: kg^-2 i32", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kg^-2, i32)) },
    LI { n: "sa: kg^-2 i64", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kg^-2, i64)) },
    LI { n: "sa: kg^2 i32", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kg^2, i32)) },
    LI { n: "sa: kg^2 i64", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kg^2, i64)) },
    LI { n: "sa: m^-2 i32", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, m^-2, i32)) },
    LI { n: "sa: m^-2 i64", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, m^-2, i64)) },
    LI { n: "sa: s^-2 i32", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, s^-2, i32)) },
    LI { n: "sa: s^-2 i64", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, s^-2, i64)) },
    LI { n: "sa: s^2 i32", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, s^2, i32)) },
    LI { n: "sa: s^2 i64", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, s^2, i64)) },
    LI { n: "sa: A^-2 i32", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, A^-2, i32)) },
    LI { n: "sa: A^-2 i64", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, A^-2, i64)) },
    LI { n: "sa: A^2 i32", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, A^2, i32)) },
    LI { n: "sa: A^2 i64", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, A^2, i64)) },
    LI { n: "sa: K^-2 i32", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, K^-2, i32)) },
    LI { n: "sa: K^-2 i64", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, K^-2, i64)) },
    LI { n: "sa: K^2 i32", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, K^2, i32)) },
    LI { n: "sa: K^2 i64", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, K^2, i64)) },
    LI { n: "sa: mol^-2 i32", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mol^-2, i32)) },
    LI { n: "sa: mol^-2 i64", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mol^-2, i64)) },
    LI { n: "sa: mol^2 i32", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mol^2, i32)) },
    LI { n: "sa: mol^2 i64", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mol^2, i64)) },
    LI { n: "sa: cd^-2 i32", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, cd^-2, i32)) },
    LI { n: "sa: cd^-2 i64", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, cd^-2, i64)) },
    LI { n: "sa: cd^2 i32", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, cd^2, i32)) },
    LI { n: "sa: cd^2 i64", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, cd^2, i64)) },
    LI { n: "sa: rad^-2 i32", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, rad^-2, i32)) },
    LI { n: "sa: rad^-2 i64", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, rad^-2, i64)) },
    LI { n: "sa: rad^2 i32", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, rad^2, i32)) },
    LI { n: "sa: rad^2 i64", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, rad^2, i64)) },
    LI { n: "sa: mg / mm i32", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mg / mm, i32)) },
    LI { n: "sa: mg / mm i64", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mg / mm, i64)) },
    LI { n: "sa: mol / m^3 i32", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mol / m^3, i32)) },
    LI { n: "sa: mol / m^3 i64", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mol / m^3, i64)) },
    LI { n: "sa: cd * s i32", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, cd * s, i32)) },
    LI { n: "sa: cd * s i64", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, cd * s, i64)) },
    LI { n: "sa: uF * V i32", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, uF * V, i32)) },
    LI { n: "sa: uF * V i64", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, uF * V, i64)) },
    LI { n: "sa: m / mm i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, m / mm, i32)) },
    LI { n: "sa: m / mm i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, m / mm, i64)) },
    LI { n: "sa: min / h i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, min / h, i32)) },
    LI { n: "sa: min / h i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, min / h, i64)) },
    LI { n: "sa: 1 / min i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 60000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, 1 / min, i32)) },
    LI { n: "sa: 1 / min i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 60000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, 1 / min, i64)) },
    LI { n: "sa: rad / s^2 i32", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, rad / s^2, i32)) },
    LI { n: "sa: rad / s^2 i64", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, rad / s^2, i64)) },
    LI { n: "sa: kg i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kg, i32)) },
    LI { n: "sa: kg i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kg, i64)) },
    LI { n: "sa: g i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, g, i32)) },
    LI { n: "sa: g i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, g, i64)) },
    LI { n: "sa: km i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, km, i32)) },
    LI { n: "sa: km i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, km, i64)) },
    LI { n: "sa: m i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, m, i32)) },
    LI { n: "sa: m i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, m, i64)) },
    LI { n: "sa: mm i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mm, i32)) },
    LI { n: "sa: mm i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mm, i64)) },
    LI { n: "sa: min i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 60000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, min, i32)) },
    LI { n: "sa: min i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 60000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, min, i64)) },
    LI { n: "sa: s i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, s, i32)) },
    LI { n: "sa: s i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, s, i64)) },
    LI { n: "sa: kA i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kA, i32)) },
    LI { n: "sa: kA i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kA, i64)) },
    LI { n: "sa: A i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, A, i32)) },
    LI { n: "sa: A i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, A, i64)) },
    LI { n: "sa: kJ i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kJ, i32)) },
    LI { n: "sa: kJ i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kJ, i64)) },
    LI { n: "sa: kPa i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kPa, i32)) },
    LI { n: "sa: kPa i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kPa, i64)) },
    LI { n: "sa: Pa i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, Pa, i32)) },
    LI { n: "sa: Pa i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, Pa, i64)) },
    LI { n: "sa: kHz i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, kHz, i32)) },
    LI { n: "sa: kHz i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, kHz, i64)) },
    LI { n: "sa: mol i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, mol, i32)) },
    LI { n: "sa: mol i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, mol, i64)) },
    LI { n: "sa: cd i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, cd, i32)) },
    LI { n: "sa: cd i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, cd, i64)) },
    LI { n: "sa: rad i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v as i32, rad, i32)) },
    LI { n: "sa: rad i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sa::quantity!(v, rad, i64)) },
];
}
pub fn lits_sa(f: &mut dyn FnMut(OutT, OutT, &'static str)) { use sa::quantity as q; go(f); #[culit::culit(sa::literals)]
fn go(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    f(typed(7.1g), typed(sa::quantity!(7.1, g)), "sa: 7.1g");
    f(typed(7.1g_f64), typed(sa::quantity!(7.1f64, g, f64)), "sa: 7.1g_f64");
    f(typed(7.1g_f32), typed(sa::quantity!(7.1f32, g, f32)), "sa: 7.1g_f32");
    f(typed(25g_i32), typed(sa::quantity!(25i32, g, i32)), "sa: 25g_i32");
    f(typed(25g_i64), typed(sa::quantity!(25i64, g, i64)), "sa: 25g_i64");
    f(typed(25g), typed(sa::quantity!(25i32, g, i32)), "sa: 25g");
    f(typed(7.1gr), typed(sa::quantity!(7.1, gr)), "sa: 7.1gr");
    f(typed(7.1ct), typed(sa::quantity!(7.1, ct)), "sa: 7.1ct");
    f(typed(7.1oz), typed(sa::quantity!(7.1, oz)), "sa: 7.1oz");
    f(typed(7.1ozt), typed(sa::quantity!(7.1, ozt)), "sa: 7.1ozt");
    f(typed(7.1lbt), typed(sa::quantity!(7.1, lbt)), "sa: 7.1lbt");
    f(typed(7.1lb), typed(sa::quantity!(7.1, lb)), "sa: 7.1lb");
    f(typed(7.1st), typed(sa::quantity!(7.1, st)), "sa: 7.1st");
    f(typed(7.1t), typed(sa::quantity!(7.1, t)), "sa: 7.1t");
    f(typed(7.1m), typed(sa::quantity!(7.1, m)), "sa: 7.1m");
    f(typed(7.1ft), typed(sa::quantity!(7.1, ft)), "sa: 7.1ft");
    f(typed(7.1yd), typed(sa::quantity!(7.1, yd)), "sa: 7.1yd");
    f(typed(7.1mi), typed(sa::quantity!(7.1, mi)), "sa: 7.1mi");
    f(typed(7.1nmi), typed(sa::quantity!(7.1, nmi)), "sa: 7.1nmi");
    f(typed(7.1AU), typed(sa::quantity!(7.1, AU)), "sa: 7.1AU");
    f(typed(7.1ly), typed(sa::quantity!(7.1, ly)), "sa: 7.1ly");
    f(typed(7.1pc), typed(sa::quantity!(7.1, pc)), "sa: 7.1pc");
    f(typed(7.1s), typed(sa::quantity!(7.1, s)), "sa: 7.1s");
    f(typed(7.1min), typed(sa::quantity!(7.1, min)), "sa: 7.1min");
    f(typed(7.1h), typed(sa::quantity!(7.1, h)), "sa: 7.1h");
    f(typed(7.1hr), typed(sa::quantity!(7.1, hr)), "sa: 7.1hr");
    f(typed(7.1hr_f64), typed(sa::quantity!(7.1f64, hr, f64)), "sa: 7.1hr_f64");
    f(typed(7.1hr_f32), typed(sa::quantity!(7.1f32, hr, f32)), "sa: 7.1hr_f32");
    f(typed(7.1d), typed(sa::quantity!(7.1, d)), "sa: 7.1d");
    f(typed(7.1wk), typed(sa::quantity!(7.1, wk)), "sa: 7.1wk");
    f(typed(7.1mo), typed(sa::quantity!(7.1, mo)), "sa: 7.1mo");
    f(typed(7.1yr), typed(sa::quantity!(7.1, yr)), "sa: 7.1yr");
    f(typed(7.1A), typed(sa::quantity!(7.1, A)), "sa: 7.1A");
    f(typed(7.1A_f64), typed(sa::quantity!(7.1f64, A, f64)), "sa: 7.1A_f64");
    f(typed(7.1A_f32), typed(sa::quantity!(7.1f32, A, f32)), "sa: 7.1A_f32");
    f(typed(25A_i32), typed(sa::quantity!(25i32, A, i32)), "sa: 25A_i32");
    f(typed(25A_i64), typed(sa::quantity!(25i64, A, i64)), "sa: 25A_i64");
    f(typed(25A), typed(sa::quantity!(25i32, A, i32)), "sa: 25A");
    f(typed(7.1K), typed(sa::quantity!(7.1, K)), "sa: 7.1K");
    f(typed(7.1degC), typed(sa::quantity!(7.1, degC)), "sa: 7.1degC");
    f(typed(7.1degR), typed(sa::quantity!(7.1, degR)), "sa: 7.1degR");
    f(typed(7.1degF), typed(sa::quantity!(7.1, degF)), "sa: 7.1degF");
    f(typed(7.1mol), typed(sa::quantity!(7.1, mol)), "sa: 7.1mol");
    f(typed(7.1mol_f64), typed(sa::quantity!(7.1f64, mol, f64)), "sa: 7.1mol_f64");
    f(typed(7.1mol_f32), typed(sa::quantity!(7.1f32, mol, f32)), "sa: 7.1mol_f32");
    f(typed(25mol_i32), typed(sa::quantity!(25i32, mol, i32)), "sa: 25mol_i32");
    f(typed(25mol_i64), typed(sa::quantity!(25i64, mol, i64)), "sa: 25mol_i64");
    f(typed(25mol), typed(sa::quantity!(25i32, mol, i32)), "sa: 25mol");
    f(typed(7.1cd), typed(sa::quantity!(7.1, cd)), "sa: 7.1cd");
    f(typed(7.1lm), typed(sa::quantity!(7.1, lm)), "sa: 7.1lm");
    f(typed(7.1rad), typed(sa::quantity!(7.1, rad)), "sa: 7.1rad");
    f(typed(7.1deg), typed(sa::quantity!(7.1, deg)), "sa: 7.1deg");
    f(typed(7.1grad), typed(sa::quantity!(7.1, grad)), "sa: 7.1grad");
    f(typed(7.1grad_f64), typed(sa::quantity!(7.1f64, grad, f64)), "sa: 7.1grad_f64");
    f(typed(7.1grad_f32), typed(sa::quantity!(7.1f32, grad, f32)), "sa: 7.1grad_f32");
    f(typed(7.1turn), typed(sa::quantity!(7.1, turn)), "sa: 7.1turn");
    f(typed(7.1rot), typed(sa::quantity!(7.1, rot)), "sa: 7.1rot");
    f(typed(7.1arcmin), typed(sa::quantity!(7.1, arcmin)), "sa: 7.1arcmin");
    f(typed(7.1arcsec), typed(sa::quantity!(7.1, arcsec)), "sa: 7.1arcsec");
    f(typed(7.1hect), typed(sa::quantity!(7.1, hect)), "sa: 7.1hect");
    f(typed(7.1hect_f64), typed(sa::quantity!(7.1f64, hect, f64)), "sa: 7.1hect_f64");
    f(typed(7.1hect_f32), typed(sa::quantity!(7.1f32, hect, f32)), "sa: 7.1hect_f32");
    f(typed(25hect_i32), typed(sa::quantity!(25i32, hect, i32)), "sa: 25hect_i32");
    f(typed(25hect_i64), typed(sa::quantity!(25i64, hect, i64)), "sa: 25hect_i64");
    f(typed(25hect), typed(sa::quantity!(25i32, hect, i32)), "sa: 25hect");
    f(typed(7.1acre), typed(sa::quantity!(7.1, acre)), "sa: 7.1acre");
    f(typed(7.1L), typed(sa::quantity!(7.1, L)), "sa: 7.1L");
    f(typed(7.1l), typed(sa::quantity!(7.1, l)), "sa: 7.1l");
    f(typed(7.1gallon), typed(sa::quantity!(7.1, gallon)), "sa: 7.1gallon");
    f(typed(7.1gal), typed(sa::quantity!(7.1, gal)), "sa: 7.1gal");
    f(typed(7.1qrt), typed(sa::quantity!(7.1, qrt)), "sa: 7.1qrt");
    f(typed(7.1pnt), typed(sa::quantity!(7.1, pnt)), "sa: 7.1pnt");
    f(typed(7.1cup), typed(sa::quantity!(7.1, cup)), "sa: 7.1cup");
    f(typed(7.1fl_oz), typed(sa::quantity!(7.1, fl_oz)), "sa: 7.1fl_oz");
    f(typed(7.1tbsp), typed(sa::quantity!(7.1, tbsp)), "sa: 7.1tbsp");
    f(typed(7.1tsp), typed(sa::quantity!(7.1, tsp)), "sa: 7.1tsp");
    f(typed(7.1uk_gal), typed(sa::quantity!(7.1, uk_gal)), "sa: 7.1uk_gal");
    f(typed(7.1uk_qrt), typed(sa::quantity!(7.1, uk_qrt)), "sa: 7.1uk_qrt");
    f(typed(7.1uk_pnt), typed(sa::quantity!(7.1, uk_pnt)), "sa: 7.1uk_pnt");
    f(typed(7.1uk_cup), typed(sa::quantity!(7.1, uk_cup)), "sa: 7.1uk_cup");
    f(typed(7.1uk_fl_oz), typed(sa::quantity!(7.1, uk_fl_oz)), "sa: 7.1uk_fl_oz");
    f(typed(7.1uk_tbsp), typed(sa::quantity!(7.1, uk_tbsp)), "sa: 7.1uk_tbsp");
    f(typed(7.1uk_tsp), typed(sa::quantity!(7.1, uk_tsp)), "sa: 7.1uk_tsp");
    f(typed(7.1bu), typed(sa::quantity!(7.1, bu)), "sa: 7.1bu");
    f(typed(7.1Hz), typed(sa::quantity!(7.1, Hz)), "sa: 7.1Hz");
    f(typed(7.1Hz_f64), typed(sa::quantity!(7.1f64, Hz, f64)), "sa: 7.1Hz_f64");
    f(typed(7.1Hz_f32), typed(sa::quantity!(7.1f32, Hz, f32)), "sa: 7.1Hz_f32");
    f(typed(25Hz_i32), typed(sa::quantity!(25i32, Hz, i32)), "sa: 25Hz_i32");
    f(typed(25Hz_i64), typed(sa::quantity!(25i64, Hz, i64)), "sa: 25Hz_i64");
    f(typed(25Hz), typed(sa::quantity!(25i32, Hz, i32)), "sa: 25Hz");
    f(typed(7.1N), typed(sa::quantity!(7.1, N)), "sa: 7.1N");
    f(typed(7.1J), typed(sa::quantity!(7.1, J)), "sa: 7.1J");
    f(typed(7.1Nm), typed(sa::quantity!(7.1, Nm)), "sa: 7.1Nm");
    f(typed(7.1cal), typed(sa::quantity!(7.1, cal)), "sa: 7.1cal");
    f(typed(7.1ft_lb), typed(sa::quantity!(7.1, ft_lb)), "sa: 7.1ft_lb");
    f(typed(7.1kWh), typed(sa::quantity!(7.1, kWh)), "sa: 7.1kWh");
    f(typed(7.1thm), typed(sa::quantity!(7.1, thm)), "sa: 7.1thm");
    f(typed(7.1W), typed(sa::quantity!(7.1, W)), "sa: 7.1W");
    f(typed(7.1hp), typed(sa::quantity!(7.1, hp)), "sa: 7.1hp");
    f(typed(7.1Pa), typed(sa::quantity!(7.1, Pa)), "sa: 7.1Pa");
    f(typed(7.1Pa_f64), typed(sa::quantity!(7.1f64, Pa, f64)), "sa: 7.1Pa_f64");
    f(typed(7.1Pa_f32), typed(sa::quantity!(7.1f32, Pa, f32)), "sa: 7.1Pa_f32");
    f(typed(25Pa_i32), typed(sa::quantity!(25i32, Pa, i32)), "sa: 25Pa_i32");
    f(typed(25Pa_i64), typed(sa::quantity!(25i64, Pa, i64)), "sa: 25Pa_i64");
    f(typed(25Pa), typed(sa::quantity!(25i32, Pa, i32)), "sa: 25Pa");
    f(typed(7.1Torr), typed(sa::quantity!(7.1, Torr)), "sa: 7.1Torr");
    f(typed(7.1psi), typed(sa::quantity!(7.1, psi)), "sa: 7.1psi");
    f(typed(7.1bar), typed(sa::quantity!(7.1, bar)), "sa: 7.1bar");
    f(typed(7.1atm), typed(sa::quantity!(7.1, atm)), "sa: 7.1atm");
    f(typed(7.1C), typed(sa::quantity!(7.1, C)), "sa: 7.1C");
    f(typed(7.1C_f64), typed(sa::quantity!(7.1f64, C, f64)), "sa: 7.1C_f64");
    f(typed(7.1C_f32), typed(sa::quantity!(7.1f32, C, f32)), "sa: 7.1C_f32");
    f(typed(25C_i32), typed(sa::quantity!(25i32, C, i32)), "sa: 25C_i32");
    f(typed(25C_i64), typed(sa::quantity!(25i64, C, i64)), "sa: 25C_i64");
    f(typed(25C), typed(sa::quantity!(25i32, C, i32)), "sa: 25C");
    f(typed(7.1V), typed(sa::quantity!(7.1, V)), "sa: 7.1V");
    f(typed(7.1F), typed(sa::quantity!(7.1, F)), "sa: 7.1F");
    f(typed(7.1S), typed(sa::quantity!(7.1, S)), "sa: 7.1S");
    f(typed(7.1H), typed(sa::quantity!(7.1, H)), "sa: 7.1H");
    f(typed(7.1T), typed(sa::quantity!(7.1, T)), "sa: 7.1T");
    f(typed(7.1T_f64), typed(sa::quantity!(7.1f64, T, f64)), "sa: 7.1T_f64");
    f(typed(7.1T_f32), typed(sa::quantity!(7.1f32, T, f32)), "sa: 7.1T_f32");
    f(typed(25T_i32), typed(sa::quantity!(25i32, T, i32)), "sa: 25T_i32");
    f(typed(25T_i64), typed(sa::quantity!(25i64, T, i64)), "sa: 25T_i64");
    f(typed(25T), typed(sa::quantity!(25i32, T, i32)), "sa: 25T");
    f(typed(7.1Wb), typed(sa::quantity!(7.1, Wb)), "sa: 7.1Wb");
    f(typed(7.1lx), typed(sa::quantity!(7.1, lx)), "sa: 7.1lx");
    f(typed(7.1G), typed(sa::quantity!(7.1, G)), "sa: 7.1G");
    f(typed(7.1St), typed(sa::quantity!(7.1, St)), "sa: 7.1St");
    f(typed(7.1mg), typed(sa::quantity!(7.1, mg)), "sa: 7.1mg");
    f(typed(7.1mg_f64), typed(sa::quantity!(7.1f64, mg, f64)), "sa: 7.1mg_f64");
    f(typed(7.1mg_f32), typed(sa::quantity!(7.1f32, mg, f32)), "sa: 7.1mg_f32");
    f(typed(25mg_i32), typed(sa::quantity!(25i32, mg, i32)), "sa: 25mg_i32");
    f(typed(25mg_i64), typed(sa::quantity!(25i64, mg, i64)), "sa: 25mg_i64");
    f(typed(25mg), typed(sa::quantity!(25i32, mg, i32)), "sa: 25mg");
    f(typed(7.1kg), typed(sa::quantity!(7.1, kg)), "sa: 7.1kg");
    f(typed(7.1mm), typed(sa::quantity!(7.1, mm)), "sa: 7.1mm");
    f(typed(7.1km), typed(sa::quantity!(7.1, km)), "sa: 7.1km");
    f(typed(7.1ms), typed(sa::quantity!(7.1, ms)), "sa: 7.1ms");
    f(typed(7.1ks), typed(sa::quantity!(7.1, ks)), "sa: 7.1ks");
    f(typed(7.1ks_f64), typed(sa::quantity!(7.1f64, ks, f64)), "sa: 7.1ks_f64");
    f(typed(7.1ks_f32), typed(sa::quantity!(7.1f32, ks, f32)), "sa: 7.1ks_f32");
    f(typed(25ks_i32), typed(sa::quantity!(25i32, ks, i32)), "sa: 25ks_i32");
    f(typed(25ks_i64), typed(sa::quantity!(25i64, ks, i64)), "sa: 25ks_i64");
    f(typed(25ks), typed(sa::quantity!(25i32, ks, i32)), "sa: 25ks");
    f(typed(7.1mA), typed(sa::quantity!(7.1, mA)), "sa: 7.1mA");
    f(typed(7.1kA), typed(sa::quantity!(7.1, kA)), "sa: 7.1kA");
    f(typed(7.1mK), typed(sa::quantity!(7.1, mK)), "sa: 7.1mK");
    f(typed(7.1kK), typed(sa::quantity!(7.1, kK)), "sa: 7.1kK");
    f(typed(7.1mmol), typed(sa::quantity!(7.1, mmol)), "sa: 7.1mmol");
    f(typed(7.1mmol_f64), typed(sa::quantity!(7.1f64, mmol, f64)), "sa: 7.1mmol_f64");
    f(typed(7.1mmol_f32), typed(sa::quantity!(7.1f32, mmol, f32)), "sa: 7.1mmol_f32");
    f(typed(25mmol_i32), typed(sa::quantity!(25i32, mmol, i32)), "sa: 25mmol_i32");
    f(typed(25mmol_i64), typed(sa::quantity!(25i64, mmol, i64)), "sa: 25mmol_i64");
    f(typed(25mmol), typed(sa::quantity!(25i32, mmol, i32)), "sa: 25mmol");
    f(typed(7.1kmol), typed(sa::quantity!(7.1, kmol)), "sa: 7.1kmol");
    f(typed(7.1mcd), typed(sa::quantity!(7.1, mcd)), "sa: 7.1mcd");
    f(typed(7.1kcd), typed(sa::quantity!(7.1, kcd)), "sa: 7.1kcd");
    f(typed(7.1mrad), typed(sa::quantity!(7.1, mrad)), "sa: 7.1mrad");
    f(typed(7.1krad), typed(sa::quantity!(7.1, krad)), "sa: 7.1krad");
    f(typed(7.1krad_f64), typed(sa::quantity!(7.1f64, krad, f64)), "sa: 7.1krad_f64");
    f(typed(7.1krad_f32), typed(sa::quantity!(7.1f32, krad, f32)), "sa: 7.1krad_f32");
    f(typed(25krad_i32), typed(sa::quantity!(25i32, krad, i32)), "sa: 25krad_i32");
    f(typed(25krad_i64), typed(sa::quantity!(25i64, krad, i64)), "sa: 25krad_i64");
    f(typed(25krad), typed(sa::quantity!(25i32, krad, i32)), "sa: 25krad");
    f(typed(7.1mhect), typed(sa::quantity!(7.1, mhect)), "sa: 7.1mhect");
    f(typed(7.1khect), typed(sa::quantity!(7.1, khect)), "sa: 7.1khect");
    f(typed(7.1mL), typed(sa::quantity!(7.1, mL)), "sa: 7.1mL");
    f(typed(7.1ml), typed(sa::quantity!(7.1, ml)), "sa: 7.1ml");
    f(typed(7.1kL), typed(sa::quantity!(7.1, kL)), "sa: 7.1kL");
    f(typed(7.1kL_f64), typed(sa::quantity!(7.1f64, kL, f64)), "sa: 7.1kL_f64");
    f(typed(7.1kL_f32), typed(sa::quantity!(7.1f32, kL, f32)), "sa: 7.1kL_f32");
    f(typed(7.1kl), typed(sa::quantity!(7.1, kl)), "sa: 7.1kl");
    f(typed(7.1mHz), typed(sa::quantity!(7.1, mHz)), "sa: 7.1mHz");
    f(typed(7.1kHz), typed(sa::quantity!(7.1, kHz)), "sa: 7.1kHz");
    f(typed(7.1mN), typed(sa::quantity!(7.1, mN)), "sa: 7.1mN");
    f(typed(7.1kN), typed(sa::quantity!(7.1, kN)), "sa: 7.1kN");
    f(typed(7.1kN_f64), typed(sa::quantity!(7.1f64, kN, f64)), "sa: 7.1kN_f64");
    f(typed(7.1kN_f32), typed(sa::quantity!(7.1f32, kN, f32)), "sa: 7.1kN_f32");
    f(typed(25kN_i32), typed(sa::quantity!(25i32, kN, i32)), "sa: 25kN_i32");
    f(typed(25kN_i64), typed(sa::quantity!(25i64, kN, i64)), "sa: 25kN_i64");
    f(typed(25kN), typed(sa::quantity!(25i32, kN, i32)), "sa: 25kN");
    f(typed(7.1mJ), typed(sa::quantity!(7.1, mJ)), "sa: 7.1mJ");
    f(typed(7.1kJ), typed(sa::quantity!(7.1, kJ)), "sa: 7.1kJ");
    f(typed(7.1mW), typed(sa::quantity!(7.1, mW)), "sa: 7.1mW");
    f(typed(7.1kW), typed(sa::quantity!(7.1, kW)), "sa: 7.1kW");
    f(typed(7.1mPa), typed(sa::quantity!(7.1, mPa)), "sa: 7.1mPa");
    f(typed(7.1mPa_f64), typed(sa::quantity!(7.1f64, mPa, f64)), "sa: 7.1mPa_f64");
    f(typed(7.1mPa_f32), typed(sa::quantity!(7.1f32, mPa, f32)), "sa: 7.1mPa_f32");
    f(typed(25mPa_i32), typed(sa::quantity!(25i32, mPa, i32)), "sa: 25mPa_i32");
    f(typed(25mPa_i64), typed(sa::quantity!(25i64, mPa, i64)), "sa: 25mPa_i64");
    f(typed(25mPa), typed(sa::quantity!(25i32, mPa, i32)), "sa: 25mPa");
    f(typed(7.1kPa), typed(sa::quantity!(7.1, kPa)), "sa: 7.1kPa");
    f(typed(7.1mC), typed(sa::quantity!(7.1, mC)), "sa: 7.1mC");
    f(typed(7.1kC), typed(sa::quantity!(7.1, kC)), "sa: 7.1kC");
    f(typed(7.1mV), typed(sa::quantity!(7.1, mV)), "sa: 7.1mV");
    f(typed(7.1kV), typed(sa::quantity!(7.1, kV)), "sa: 7.1kV");
    f(typed(7.1kV_f64), typed(sa::quantity!(7.1f64, kV, f64)), "sa: 7.1kV_f64");
    f(typed(7.1kV_f32), typed(sa::quantity!(7.1f32, kV, f32)), "sa: 7.1kV_f32");
    f(typed(7.1mF), typed(sa::quantity!(7.1, mF)), "sa: 7.1mF");
    f(typed(7.1kF), typed(sa::quantity!(7.1, kF)), "sa: 7.1kF");
    f(typed(7.1mS), typed(sa::quantity!(7.1, mS)), "sa: 7.1mS");
    f(typed(7.1kS), typed(sa::quantity!(7.1, kS)), "sa: 7.1kS");
    f(typed(7.1mH), typed(sa::quantity!(7.1, mH)), "sa: 7.1mH");
    f(typed(7.1mH_f64), typed(sa::quantity!(7.1f64, mH, f64)), "sa: 7.1mH_f64");
    f(typed(7.1mH_f32), typed(sa::quantity!(7.1f32, mH, f32)), "sa: 7.1mH_f32");
    f(typed(7.1kH), typed(sa::quantity!(7.1, kH)), "sa: 7.1kH");
    f(typed(7.1mT), typed(sa::quantity!(7.1, mT)), "sa: 7.1mT");
    f(typed(7.1kT), typed(sa::quantity!(7.1, kT)), "sa: 7.1kT");
    f(typed(7.1mWb), typed(sa::quantity!(7.1, mWb)), "sa: 7.1mWb");
    f(typed(7.1kWb), typed(sa::quantity!(7.1, kWb)), "sa: 7.1kWb");
    f(typed(7.1kWb_f64), typed(sa::quantity!(7.1f64, kWb, f64)), "sa: 7.1kWb_f64");
    f(typed(7.1kWb_f32), typed(sa::quantity!(7.1f32, kWb, f32)), "sa: 7.1kWb_f32");
    f(typed(7.1mlx), typed(sa::quantity!(7.1, mlx)), "sa: 7.1mlx");
    f(typed(7.1klx), typed(sa::quantity!(7.1, klx)), "sa: 7.1klx");
    f(typed(7.1mSt), typed(sa::quantity!(7.1, mSt)), "sa: 7.1mSt");
    f(typed(7.1kSt), typed(sa::quantity!(7.1, kSt)), "sa: 7.1kSt");
} }
pub static UNIT_SB: &[L] = &[
    L { n: "sb: gram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gram)), back: |v| value!(sb::quantity!(v, gram), gram, f64, sb::Bb) },
    L { n: "sb: g", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, g)), back: |v| value!(sb::quantity!(v, g), g, f64, sb::Bb) },
    L { n: "sb: grain", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, grain)), back: |v| value!(sb::quantity!(v, grain), grain, f64, sb::Bb) },
    L { n: "sb: gr", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gr)), back: |v| value!(sb::quantity!(v, gr), gr, f64, sb::Bb) },
    L { n: "sb: carat", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, carat)), back: |v| value!(sb::quantity!(v, carat), carat, f64, sb::Bb) },
    L { n: "sb: ct", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ct)), back: |v| value!(sb::quantity!(v, ct), ct, f64, sb::Bb) },
    L { n: "sb: ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ounce)), back: |v| value!(sb::quantity!(v, ounce), ounce, f64, sb::Bb) },
    L { n: "sb: oz", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, oz)), back: |v| value!(sb::quantity!(v, oz), oz, f64, sb::Bb) },
    L { n: "sb: troy_ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, troy_ounce)), back: |v| value!(sb::quantity!(v, troy_ounce), troy_ounce, f64, sb::Bb) },
    L { n: "sb: ozt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ozt)), back: |v| value!(sb::quantity!(v, ozt), ozt, f64, sb::Bb) },
    L { n: "sb: troy_pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, troy_pound)), back: |v| value!(sb::quantity!(v, troy_pound), troy_pound, f64, sb::Bb) },
    L { n: "sb: lbt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lbt)), back: |v| value!(sb::quantity!(v, lbt), lbt, f64, sb::Bb) },
    L { n: "sb: pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, pound)), back: |v| value!(sb::quantity!(v, pound), pound, f64, sb::Bb) },
    L { n: "sb: lb", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lb)), back: |v| value!(sb::quantity!(v, lb), lb, f64, sb::Bb) },
    L { n: "sb: stone", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, stone)), back: |v| value!(sb::quantity!(v, stone), stone, f64, sb::Bb) },
    L { n: "sb: st", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, st)), back: |v| value!(sb::quantity!(v, st), st, f64, sb::Bb) },
    L { n: "sb: ton", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ton)), back: |v| value!(sb::quantity!(v, ton), ton, f64, sb::Bb) },
    L { n: "sb: t", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, t)), back: |v| value!(sb::quantity!(v, t), t, f64, sb::Bb) },
    L { n: "sb: meter", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, meter)), back: |v| value!(sb::quantity!(v, meter), meter, f64, sb::Bb) },
    L { n: "sb: m", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m)), back: |v| value!(sb::quantity!(v, m), m, f64, sb::Bb) },
    L { n: "sb: inch", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.0254f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, inch)), back: |v| value!(sb::quantity!(v, inch), inch, f64, sb::Bb) },
    L { n: "sb: foot", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, foot)), back: |v| value!(sb::quantity!(v, foot), foot, f64, sb::Bb) },
    L { n: "sb: ft", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ft)), back: |v| value!(sb::quantity!(v, ft), ft, f64, sb::Bb) },
    L { n: "sb: yard", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, yard)), back: |v| value!(sb::quantity!(v, yard), yard, f64, sb::Bb) },
    L { n: "sb: yd", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, yd)), back: |v| value!(sb::quantity!(v, yd), yd, f64, sb::Bb) },
    L { n: "sb: mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mile)), back: |v| value!(sb::quantity!(v, mile), mile, f64, sb::Bb) },
    L { n: "sb: mi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mi)), back: |v| value!(sb::quantity!(v, mi), mi, f64, sb::Bb) },
    L { n: "sb: nautical_mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, nautical_mile)), back: |v| value!(sb::quantity!(v, nautical_mile), nautical_mile, f64, sb::Bb) },
    L { n: "sb: nmi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, nmi)), back: |v| value!(sb::quantity!(v, nmi), nmi, f64, sb::Bb) },
    L { n: "sb: astronomical_unit", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, astronomical_unit)), back: |v| value!(sb::quantity!(v, astronomical_unit), astronomical_unit, f64, sb::Bb) },
    L { n: "sb: AU", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, AU)), back: |v| value!(sb::quantity!(v, AU), AU, f64, sb::Bb) },
    L { n: "sb: light_year", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, light_year)), back: |v| value!(sb::quantity!(v, light_year), light_year, f64, sb::Bb) },
    L { n: "sb: ly", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ly)), back: |v| value!(sb::quantity!(v, ly), ly, f64, sb::Bb) },
    L { n: "sb: parsec", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sb::quantity!(v, parsec)), back: |v| value!(sb::quantity!(v, parsec), parsec, f64, sb::Bb) },
    L { n: "sb: pc", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sb::quantity!(v, pc)), back: |v| value!(sb::quantity!(v, pc), pc, f64, sb::Bb) },
    L { n: "sb: second", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, second)), back: |v| value!(sb::quantity!(v, second), second, f64, sb::Bb) },
    L { n: "sb: s", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s)), back: |v| value!(sb::quantity!(v, s), s, f64, sb::Bb) },
    L { n: "sb: minute", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, minute)), back: |v| value!(sb::quantity!(v, minute), minute, f64, sb::Bb) },
    L { n: "sb: min", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, min)), back: |v| value!(sb::quantity!(v, min), min, f64, sb::Bb) },
    L { n: "sb: hour", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hour)), back: |v| value!(sb::quantity!(v, hour), hour, f64, sb::Bb) },
    L { n: "sb: h", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, h)), back: |v| value!(sb::quantity!(v, h), h, f64, sb::Bb) },
    L { n: "sb: hr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hr)), back: |v| value!(sb::quantity!(v, hr), hr, f64, sb::Bb) },
    L { n: "sb: day", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, day)), back: |v| value!(sb::quantity!(v, day), day, f64, sb::Bb) },
    L { n: "sb: d", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, d)), back: |v| value!(sb::quantity!(v, d), d, f64, sb::Bb) },
    L { n: "sb: week", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, week)), back: |v| value!(sb::quantity!(v, week), week, f64, sb::Bb) },
    L { n: "sb: wk", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, wk)), back: |v| value!(sb::quantity!(v, wk), wk, f64, sb::Bb) },
    L { n: "sb: month", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, month)), back: |v| value!(sb::quantity!(v, month), month, f64, sb::Bb) },
    L { n: "sb: mo", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mo)), back: |v| value!(sb::quantity!(v, mo), mo, f64, sb::Bb) },
    L { n: "sb: year", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, year)), back: |v| value!(sb::quantity!(v, year), year, f64, sb::Bb) },
    L { n: "sb: yr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, yr)), back: |v| value!(sb::quantity!(v, yr), yr, f64, sb::Bb) },
    L { n: "sb: ampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ampere)), back: |v| value!(sb::quantity!(v, ampere), ampere, f64, sb::Bb) },
    L { n: "sb: A", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A)), back: |v| value!(sb::quantity!(v, A), A, f64, sb::Bb) },
    L { n: "sb: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kelvin)), back: |v| value!(sb::quantity!(v, kelvin), kelvin, f64, sb::Bb) },
    L { n: "sb: K", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K)), back: |v| value!(sb::quantity!(v, K), K, f64, sb::Bb) },
    L { n: "sb: celsius", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sb::quantity!(v, celsius)), back: |v| value!(sb::quantity!(v, celsius), celsius, f64, sb::Bb) },
    L { n: "sb: degC", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sb::quantity!(v, degC)), back: |v| value!(sb::quantity!(v, degC), degC, f64, sb::Bb) },
    L { n: "sb: rankine", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rankine)), back: |v| value!(sb::quantity!(v, rankine), rankine, f64, sb::Bb) },
    L { n: "sb: degR", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, degR)), back: |v| value!(sb::quantity!(v, degR), degR, f64, sb::Bb) },
    L { n: "sb: fahrenheit", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sb::quantity!(v, fahrenheit)), back: |v| value!(sb::quantity!(v, fahrenheit), fahrenheit, f64, sb::Bb) },
    L { n: "sb: degF", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sb::quantity!(v, degF)), back: |v| value!(sb::quantity!(v, degF), degF, f64, sb::Bb) },
    L { n: "sb: mole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mole)), back: |v| value!(sb::quantity!(v, mole), mole, f64, sb::Bb) },
    L { n: "sb: mol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol)), back: |v| value!(sb::quantity!(v, mol), mol, f64, sb::Bb) },
    L { n: "sb: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, candela)), back: |v| value!(sb::quantity!(v, candela), candela, f64, sb::Bb) },
    L { n: "sb: cd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd)), back: |v| value!(sb::quantity!(v, cd), cd, f64, sb::Bb) },
    L { n: "sb: lumen", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lumen)), back: |v| value!(sb::quantity!(v, lumen), lumen, f64, sb::Bb) },
    L { n: "sb: lm", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lm)), back: |v| value!(sb::quantity!(v, lm), lm, f64, sb::Bb) },
    L { n: "sb: radian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, radian)), back: |v| value!(sb::quantity!(v, radian), radian, f64, sb::Bb) },
    L { n: "sb: rad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad)), back: |v| value!(sb::quantity!(v, rad), rad, f64, sb::Bb) },
    L { n: "sb: degree", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, degree)), back: |v| value!(sb::quantity!(v, degree), degree, f64, sb::Bb) },
    L { n: "sb: deg", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, deg)), back: |v| value!(sb::quantity!(v, deg), deg, f64, sb::Bb) },
    L { n: "sb: gradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gradian)), back: |v| value!(sb::quantity!(v, gradian), gradian, f64, sb::Bb) },
    L { n: "sb: grad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, grad)), back: |v| value!(sb::quantity!(v, grad), grad, f64, sb::Bb) },
    L { n: "sb: turn", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, turn)), back: |v| value!(sb::quantity!(v, turn), turn, f64, sb::Bb) },
    L { n: "sb: rot", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rot)), back: |v| value!(sb::quantity!(v, rot), rot, f64, sb::Bb) },
    L { n: "sb: arcminute", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, arcminute)), back: |v| value!(sb::quantity!(v, arcminute), arcminute, f64, sb::Bb) },
    L { n: "sb: arcmin", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, arcmin)), back: |v| value!(sb::quantity!(v, arcmin), arcmin, f64, sb::Bb) },
    L { n: "sb: arcsecond", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, arcsecond)), back: |v| value!(sb::quantity!(v, arcsecond), arcsecond, f64, sb::Bb) },
    L { n: "sb: arcsec", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, arcsec)), back: |v| value!(sb::quantity!(v, arcsec), arcsec, f64, sb::Bb) },
    L { n: "sb: hectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hectare)), back: |v| value!(sb::quantity!(v, hectare), hectare, f64, sb::Bb) },
    L { n: "sb: hect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hect)), back: |v| value!(sb::quantity!(v, hect), hect, f64, sb::Bb) },
    L { n: "sb: acre", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 4046.8564224f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, acre)), back: |v| value!(sb::quantity!(v, acre), acre, f64, sb::Bb) },
    L { n: "sb: liter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, liter)), back: |v| value!(sb::quantity!(v, liter), liter, f64, sb::Bb) },
    L { n: "sb: L", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, L)), back: |v| value!(sb::quantity!(v, L), L, f64, sb::Bb) },
    L { n: "sb: l", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, l)), back: |v| value!(sb::quantity!(v, l), l, f64, sb::Bb) },
    L { n: "sb: gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gallon)), back: |v| value!(sb::quantity!(v, gallon), gallon, f64, sb::Bb) },
    L { n: "sb: gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gal)), back: |v| value!(sb::quantity!(v, gal), gal, f64, sb::Bb) },
    L { n: "sb: quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, quart)), back: |v| value!(sb::quantity!(v, quart), quart, f64, sb::Bb) },
    L { n: "sb: qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, qrt)), back: |v| value!(sb::quantity!(v, qrt), qrt, f64, sb::Bb) },
    L { n: "sb: pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, pint)), back: |v| value!(sb::quantity!(v, pint), pint, f64, sb::Bb) },
    L { n: "sb: pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, pnt)), back: |v| value!(sb::quantity!(v, pnt), pnt, f64, sb::Bb) },
    L { n: "sb: cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.0002365882365f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cup)), back: |v| value!(sb::quantity!(v, cup), cup, f64, sb::Bb) },
    L { n: "sb: fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, fluid_ounce)), back: |v| value!(sb::quantity!(v, fluid_ounce), fluid_ounce, f64, sb::Bb) },
    L { n: "sb: fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, fl_oz)), back: |v| value!(sb::quantity!(v, fl_oz), fl_oz, f64, sb::Bb) },
    L { n: "sb: tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, tablespoon)), back: |v| value!(sb::quantity!(v, tablespoon), tablespoon, f64, sb::Bb) },
    L { n: "sb: tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, tbsp)), back: |v| value!(sb::quantity!(v, tbsp), tbsp, f64, sb::Bb) },
    L { n: "sb: teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, teaspoon)), back: |v| value!(sb::quantity!(v, teaspoon), teaspoon, f64, sb::Bb) },
    L { n: "sb: tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, tsp)), back: |v| value!(sb::quantity!(v, tsp), tsp, f64, sb::Bb) },
    L { n: "sb: uk_gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_gallon)), back: |v| value!(sb::quantity!(v, uk_gallon), uk_gallon, f64, sb::Bb) },
    L { n: "sb: uk_gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_gal)), back: |v| value!(sb::quantity!(v, uk_gal), uk_gal, f64, sb::Bb) },
    L { n: "sb: uk_quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_quart)), back: |v| value!(sb::quantity!(v, uk_quart), uk_quart, f64, sb::Bb) },
    L { n: "sb: uk_qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_qrt)), back: |v| value!(sb::quantity!(v, uk_qrt), uk_qrt, f64, sb::Bb) },
    L { n: "sb: uk_pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_pint)), back: |v| value!(sb::quantity!(v, uk_pint), uk_pint, f64, sb::Bb) },
    L { n: "sb: uk_pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_pnt)), back: |v| value!(sb::quantity!(v, uk_pnt), uk_pnt, f64, sb::Bb) },
    L { n: "sb: uk_cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.000284130625f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_cup)), back: |v| value!(sb::quantity!(v, uk_cup), uk_cup, f64, sb::Bb) },
    L { n: "sb: uk_fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_fluid_ounce)), back: |v| value!(sb::quantity!(v, uk_fluid_ounce), uk_fluid_ounce, f64, sb::Bb) },
    L { n: "sb: uk_fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_fl_oz)), back: |v| value!(sb::quantity!(v, uk_fl_oz), uk_fl_oz, f64, sb::Bb) },
    L { n: "sb: uk_tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_tablespoon)), back: |v| value!(sb::quantity!(v, uk_tablespoon), uk_tablespoon, f64, sb::Bb) },
    L { n: "sb: uk_tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_tbsp)), back: |v| value!(sb::quantity!(v, uk_tbsp), uk_tbsp, f64, sb::Bb) },
    L { n: "sb: uk_teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_teaspoon)), back: |v| value!(sb::quantity!(v, uk_teaspoon), uk_teaspoon, f64, sb::Bb) },
    L { n: "sb: uk_tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uk_tsp)), back: |v| value!(sb::quantity!(v, uk_tsp), uk_tsp, f64, sb::Bb) },
    L { n: "sb: bushel", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, bushel)), back: |v| value!(sb::quantity!(v, bushel), bushel, f64, sb::Bb) },
    L { n: "sb: bu", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, bu)), back: |v| value!(sb::quantity!(v, bu), bu, f64, sb::Bb) },
    L { n: "sb: hertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hertz)), back: |v| value!(sb::quantity!(v, hertz), hertz, f64, sb::Bb) },
    L { n: "sb: Hz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Hz)), back: |v| value!(sb::quantity!(v, Hz), Hz, f64, sb::Bb) },
    L { n: "sb: newton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, newton)), back: |v| value!(sb::quantity!(v, newton), newton, f64, sb::Bb) },
    L { n: "sb: N", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, N)), back: |v| value!(sb::quantity!(v, N), N, f64, sb::Bb) },
    L { n: "sb: joule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, joule)), back: |v| value!(sb::quantity!(v, joule), joule, f64, sb::Bb) },
    L { n: "sb: J", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, J)), back: |v| value!(sb::quantity!(v, J), J, f64, sb::Bb) },
    L { n: "sb: electron_volt", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, electron_volt)), back: |v| value!(sb::quantity!(v, electron_volt), electron_volt, f64, sb::Bb) },
    L { n: "sb: eV", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, eV)), back: |v| value!(sb::quantity!(v, eV), eV, f64, sb::Bb) },
    L { n: "sb: erg", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, erg)), back: |v| value!(sb::quantity!(v, erg), erg, f64, sb::Bb) },
    L { n: "sb: newton_meter", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, newton_meter)), back: |v| value!(sb::quantity!(v, newton_meter), newton_meter, f64, sb::Bb) },
    L { n: "sb: Nm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Nm)), back: |v| value!(sb::quantity!(v, Nm), Nm, f64, sb::Bb) },
    L { n: "sb: calorie", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, calorie)), back: |v| value!(sb::quantity!(v, calorie), calorie, f64, sb::Bb) },
    L { n: "sb: cal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cal)), back: |v| value!(sb::quantity!(v, cal), cal, f64, sb::Bb) },
    L { n: "sb: foot_pound", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, foot_pound)), back: |v| value!(sb::quantity!(v, foot_pound), foot_pound, f64, sb::Bb) },
    L { n: "sb: ft_lb", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ft_lb)), back: |v| value!(sb::quantity!(v, ft_lb), ft_lb, f64, sb::Bb) },
    L { n: "sb: kilowatt_hour", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilowatt_hour)), back: |v| value!(sb::quantity!(v, kilowatt_hour), kilowatt_hour, f64, sb::Bb) },
    L { n: "sb: kWh", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kWh)), back: |v| value!(sb::quantity!(v, kWh), kWh, f64, sb::Bb) },
    L { n: "sb: therm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, therm)), back: |v| value!(sb::quantity!(v, therm), therm, f64, sb::Bb) },
    L { n: "sb: thm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, thm)), back: |v| value!(sb::quantity!(v, thm), thm, f64, sb::Bb) },
    L { n: "sb: watt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, watt)), back: |v| value!(sb::quantity!(v, watt), watt, f64, sb::Bb) },
    L { n: "sb: W", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, W)), back: |v| value!(sb::quantity!(v, W), W, f64, sb::Bb) },
    L { n: "sb: horsepower", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, horsepower)), back: |v| value!(sb::quantity!(v, horsepower), horsepower, f64, sb::Bb) },
    L { n: "sb: hp", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hp)), back: |v| value!(sb::quantity!(v, hp), hp, f64, sb::Bb) },
    L { n: "sb: pascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, pascal)), back: |v| value!(sb::quantity!(v, pascal), pascal, f64, sb::Bb) },
    L { n: "sb: Pa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Pa)), back: |v| value!(sb::quantity!(v, Pa), Pa, f64, sb::Bb) },
    L { n: "sb: torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, torr)), back: |v| value!(sb::quantity!(v, torr), torr, f64, sb::Bb) },
    L { n: "sb: Torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Torr)), back: |v| value!(sb::quantity!(v, Torr), Torr, f64, sb::Bb) },
    L { n: "sb: psi", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 6894.757293168362f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, psi)), back: |v| value!(sb::quantity!(v, psi), psi, f64, sb::Bb) },
    L { n: "sb: bar", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 100000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, bar)), back: |v| value!(sb::quantity!(v, bar), bar, f64, sb::Bb) },
    L { n: "sb: atmosphere", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, atmosphere)), back: |v| value!(sb::quantity!(v, atmosphere), atmosphere, f64, sb::Bb) },
    L { n: "sb: atm", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, atm)), back: |v| value!(sb::quantity!(v, atm), atm, f64, sb::Bb) },
    L { n: "sb: coulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, coulomb)), back: |v| value!(sb::quantity!(v, coulomb), coulomb, f64, sb::Bb) },
    L { n: "sb: C", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, C)), back: |v| value!(sb::quantity!(v, C), C, f64, sb::Bb) },
    L { n: "sb: volt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, volt)), back: |v| value!(sb::quantity!(v, volt), volt, f64, sb::Bb) },
    L { n: "sb: V", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, V)), back: |v| value!(sb::quantity!(v, V), V, f64, sb::Bb) },
    L { n: "sb: farad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, farad)), back: |v| value!(sb::quantity!(v, farad), farad, f64, sb::Bb) },
    L { n: "sb: F", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, F)), back: |v| value!(sb::quantity!(v, F), F, f64, sb::Bb) },
    L { n: "sb: ohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ohm)), back: |v| value!(sb::quantity!(v, ohm), ohm, f64, sb::Bb) },
    L { n: "sb: Ω", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Ω)), back: |v| value!(sb::quantity!(v, Ω), Ω, f64, sb::Bb) },
    L { n: "sb: siemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, siemens)), back: |v| value!(sb::quantity!(v, siemens), siemens, f64, sb::Bb) },
    L { n: "sb: S", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, S)), back: |v| value!(sb::quantity!(v, S), S, f64, sb::Bb) },
    L { n: "sb: henry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, henry)), back: |v| value!(sb::quantity!(v, henry), henry, f64, sb::Bb) },
    L { n: "sb: H", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, H)), back: |v| value!(sb::quantity!(v, H), H, f64, sb::Bb) },
    L { n: "sb: tesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, tesla)), back: |v| value!(sb::quantity!(v, tesla), tesla, f64, sb::Bb) },
    L { n: "sb: T", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, T)), back: |v| value!(sb::quantity!(v, T), T, f64, sb::Bb) },
    L { n: "sb: weber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, weber)), back: |v| value!(sb::quantity!(v, weber), weber, f64, sb::Bb) },
    L { n: "sb: Wb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Wb)), back: |v| value!(sb::quantity!(v, Wb), Wb, f64, sb::Bb) },
    L { n: "sb: lux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lux)), back: |v| value!(sb::quantity!(v, lux), lux, f64, sb::Bb) },
    L { n: "sb: lx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lx)), back: |v| value!(sb::quantity!(v, lx), lx, f64, sb::Bb) },
    L { n: "sb: gauss", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gauss)), back: |v| value!(sb::quantity!(v, gauss), gauss, f64, sb::Bb) },
    L { n: "sb: G", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, G)), back: |v| value!(sb::quantity!(v, G), G, f64, sb::Bb) },
    L { n: "sb: stokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, stokes)), back: |v| value!(sb::quantity!(v, stokes), stokes, f64, sb::Bb) },
    L { n: "sb: St", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, St)), back: |v| value!(sb::quantity!(v, St), St, f64, sb::Bb) },
    L { n: "sb: ug", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ug)), back: |v| value!(sb::quantity!(v, ug), ug, f64, sb::Bb) },
    L { n: "sb: kg", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg)), back: |v| value!(sb::quantity!(v, kg), kg, f64, sb::Bb) },
    L { n: "sb: kilogram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilogram)), back: |v| value!(sb::quantity!(v, kilogram), kilogram, f64, sb::Bb) },
    L { n: "sb: Mg", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mg)), back: |v| value!(sb::quantity!(v, Mg), Mg, f64, sb::Bb) },
    L { n: "sb: um", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, um)), back: |v| value!(sb::quantity!(v, um), um, f64, sb::Bb) },
    L { n: "sb: km", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, km)), back: |v| value!(sb::quantity!(v, km), km, f64, sb::Bb) },
    L { n: "sb: kilometer", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilometer)), back: |v| value!(sb::quantity!(v, kilometer), kilometer, f64, sb::Bb) },
    L { n: "sb: Mm", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mm)), back: |v| value!(sb::quantity!(v, Mm), Mm, f64, sb::Bb) },
    L { n: "sb: us", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, us)), back: |v| value!(sb::quantity!(v, us), us, f64, sb::Bb) },
    L { n: "sb: ks", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ks)), back: |v| value!(sb::quantity!(v, ks), ks, f64, sb::Bb) },
    L { n: "sb: kilosecond", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilosecond)), back: |v| value!(sb::quantity!(v, kilosecond), kilosecond, f64, sb::Bb) },
    L { n: "sb: Ms", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Ms)), back: |v| value!(sb::quantity!(v, Ms), Ms, f64, sb::Bb) },
    L { n: "sb: uA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uA)), back: |v| value!(sb::quantity!(v, uA), uA, f64, sb::Bb) },
    L { n: "sb: kA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kA)), back: |v| value!(sb::quantity!(v, kA), kA, f64, sb::Bb) },
    L { n: "sb: kiloampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kiloampere)), back: |v| value!(sb::quantity!(v, kiloampere), kiloampere, f64, sb::Bb) },
    L { n: "sb: MA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MA)), back: |v| value!(sb::quantity!(v, MA), MA, f64, sb::Bb) },
    L { n: "sb: uK", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uK)), back: |v| value!(sb::quantity!(v, uK), uK, f64, sb::Bb) },
    L { n: "sb: kK", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kK)), back: |v| value!(sb::quantity!(v, kK), kK, f64, sb::Bb) },
    L { n: "sb: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilokelvin)), back: |v| value!(sb::quantity!(v, kilokelvin), kilokelvin, f64, sb::Bb) },
    L { n: "sb: MK", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MK)), back: |v| value!(sb::quantity!(v, MK), MK, f64, sb::Bb) },
    L { n: "sb: umol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, umol)), back: |v| value!(sb::quantity!(v, umol), umol, f64, sb::Bb) },
    L { n: "sb: kmol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kmol)), back: |v| value!(sb::quantity!(v, kmol), kmol, f64, sb::Bb) },
    L { n: "sb: kilomole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilomole)), back: |v| value!(sb::quantity!(v, kilomole), kilomole, f64, sb::Bb) },
    L { n: "sb: Mmol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mmol)), back: |v| value!(sb::quantity!(v, Mmol), Mmol, f64, sb::Bb) },
    L { n: "sb: ucd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ucd)), back: |v| value!(sb::quantity!(v, ucd), ucd, f64, sb::Bb) },
    L { n: "sb: kcd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kcd)), back: |v| value!(sb::quantity!(v, kcd), kcd, f64, sb::Bb) },
    L { n: "sb: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilocandela)), back: |v| value!(sb::quantity!(v, kilocandela), kilocandela, f64, sb::Bb) },
    L { n: "sb: Mcd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mcd)), back: |v| value!(sb::quantity!(v, Mcd), Mcd, f64, sb::Bb) },
    L { n: "sb: urad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, urad)), back: |v| value!(sb::quantity!(v, urad), urad, f64, sb::Bb) },
    L { n: "sb: krad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, krad)), back: |v| value!(sb::quantity!(v, krad), krad, f64, sb::Bb) },
    L { n: "sb: kiloradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kiloradian)), back: |v| value!(sb::quantity!(v, kiloradian), kiloradian, f64, sb::Bb) },
    L { n: "sb: Mrad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mrad)), back: |v| value!(sb::quantity!(v, Mrad), Mrad, f64, sb::Bb) },
    L { n: "sb: uhect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uhect)), back: |v| value!(sb::quantity!(v, uhect), uhect, f64, sb::Bb) },
    L { n: "sb: khect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, khect)), back: |v| value!(sb::quantity!(v, khect), khect, f64, sb::Bb) },
    L { n: "sb: kilohectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilohectare)), back: |v| value!(sb::quantity!(v, kilohectare), kilohectare, f64, sb::Bb) },
    L { n: "sb: Mhect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mhect)), back: |v| value!(sb::quantity!(v, Mhect), Mhect, f64, sb::Bb) },
    L { n: "sb: uL", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uL)), back: |v| value!(sb::quantity!(v, uL), uL, f64, sb::Bb) },
    L { n: "sb: ul", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ul)), back: |v| value!(sb::quantity!(v, ul), ul, f64, sb::Bb) },
    L { n: "sb: kL", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kL)), back: |v| value!(sb::quantity!(v, kL), kL, f64, sb::Bb) },
    L { n: "sb: kl", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kl)), back: |v| value!(sb::quantity!(v, kl), kl, f64, sb::Bb) },
    L { n: "sb: kiloliter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kiloliter)), back: |v| value!(sb::quantity!(v, kiloliter), kiloliter, f64, sb::Bb) },
    L { n: "sb: ML", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ML)), back: |v| value!(sb::quantity!(v, ML), ML, f64, sb::Bb) },
    L { n: "sb: Ml", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Ml)), back: |v| value!(sb::quantity!(v, Ml), Ml, f64, sb::Bb) },
    L { n: "sb: uHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uHz)), back: |v| value!(sb::quantity!(v, uHz), uHz, f64, sb::Bb) },
    L { n: "sb: kHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kHz)), back: |v| value!(sb::quantity!(v, kHz), kHz, f64, sb::Bb) },
    L { n: "sb: kilohertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilohertz)), back: |v| value!(sb::quantity!(v, kilohertz), kilohertz, f64, sb::Bb) },
    L { n: "sb: MHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MHz)), back: |v| value!(sb::quantity!(v, MHz), MHz, f64, sb::Bb) },
    L { n: "sb: uN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uN)), back: |v| value!(sb::quantity!(v, uN), uN, f64, sb::Bb) },
    L { n: "sb: kN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kN)), back: |v| value!(sb::quantity!(v, kN), kN, f64, sb::Bb) },
    L { n: "sb: kilonewton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilonewton)), back: |v| value!(sb::quantity!(v, kilonewton), kilonewton, f64, sb::Bb) },
    L { n: "sb: MN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MN)), back: |v| value!(sb::quantity!(v, MN), MN, f64, sb::Bb) },
    L { n: "sb: uJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uJ)), back: |v| value!(sb::quantity!(v, uJ), uJ, f64, sb::Bb) },
    L { n: "sb: kJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kJ)), back: |v| value!(sb::quantity!(v, kJ), kJ, f64, sb::Bb) },
    L { n: "sb: kilojoule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilojoule)), back: |v| value!(sb::quantity!(v, kilojoule), kilojoule, f64, sb::Bb) },
    L { n: "sb: MJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MJ)), back: |v| value!(sb::quantity!(v, MJ), MJ, f64, sb::Bb) },
    L { n: "sb: uW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uW)), back: |v| value!(sb::quantity!(v, uW), uW, f64, sb::Bb) },
    L { n: "sb: kW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kW)), back: |v| value!(sb::quantity!(v, kW), kW, f64, sb::Bb) },
    L { n: "sb: kilowatt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilowatt)), back: |v| value!(sb::quantity!(v, kilowatt), kilowatt, f64, sb::Bb) },
    L { n: "sb: MW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MW)), back: |v| value!(sb::quantity!(v, MW), MW, f64, sb::Bb) },
    L { n: "sb: uPa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uPa)), back: |v| value!(sb::quantity!(v, uPa), uPa, f64, sb::Bb) },
    L { n: "sb: kPa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kPa)), back: |v| value!(sb::quantity!(v, kPa), kPa, f64, sb::Bb) },
    L { n: "sb: kilopascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilopascal)), back: |v| value!(sb::quantity!(v, kilopascal), kilopascal, f64, sb::Bb) },
    L { n: "sb: MPa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MPa)), back: |v| value!(sb::quantity!(v, MPa), MPa, f64, sb::Bb) },
    L { n: "sb: uC", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uC)), back: |v| value!(sb::quantity!(v, uC), uC, f64, sb::Bb) },
    L { n: "sb: kC", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kC)), back: |v| value!(sb::quantity!(v, kC), kC, f64, sb::Bb) },
    L { n: "sb: kilocoulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilocoulomb)), back: |v| value!(sb::quantity!(v, kilocoulomb), kilocoulomb, f64, sb::Bb) },
    L { n: "sb: MC", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MC)), back: |v| value!(sb::quantity!(v, MC), MC, f64, sb::Bb) },
    L { n: "sb: uV", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uV)), back: |v| value!(sb::quantity!(v, uV), uV, f64, sb::Bb) },
    L { n: "sb: kV", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kV)), back: |v| value!(sb::quantity!(v, kV), kV, f64, sb::Bb) },
    L { n: "sb: kilovolt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilovolt)), back: |v| value!(sb::quantity!(v, kilovolt), kilovolt, f64, sb::Bb) },
    L { n: "sb: MV", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MV)), back: |v| value!(sb::quantity!(v, MV), MV, f64, sb::Bb) },
    L { n: "sb: uF", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uF)), back: |v| value!(sb::quantity!(v, uF), uF, f64, sb::Bb) },
    L { n: "sb: kF", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kF)), back: |v| value!(sb::quantity!(v, kF), kF, f64, sb::Bb) },
    L { n: "sb: kilofarad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilofarad)), back: |v| value!(sb::quantity!(v, kilofarad), kilofarad, f64, sb::Bb) },
    L { n: "sb: MF", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MF)), back: |v| value!(sb::quantity!(v, MF), MF, f64, sb::Bb) },
    L { n: "sb: uΩ", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uΩ)), back: |v| value!(sb::quantity!(v, uΩ), uΩ, f64, sb::Bb) },
    L { n: "sb: kΩ", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kΩ)), back: |v| value!(sb::quantity!(v, kΩ), kΩ, f64, sb::Bb) },
    L { n: "sb: kiloohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kiloohm)), back: |v| value!(sb::quantity!(v, kiloohm), kiloohm, f64, sb::Bb) },
    L { n: "sb: MΩ", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MΩ)), back: |v| value!(sb::quantity!(v, MΩ), MΩ, f64, sb::Bb) },
    L { n: "sb: uS", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uS)), back: |v| value!(sb::quantity!(v, uS), uS, f64, sb::Bb) },
    L { n: "sb: kS", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kS)), back: |v| value!(sb::quantity!(v, kS), kS, f64, sb::Bb) },
    L { n: "sb: kilosiemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilosiemens)), back: |v| value!(sb::quantity!(v, kilosiemens), kilosiemens, f64, sb::Bb) },
    L { n: "sb: MS", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MS)), back: |v| value!(sb::quantity!(v, MS), MS, f64, sb::Bb) },
    L { n: "sb: uH", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uH)), back: |v| value!(sb::quantity!(v, uH), uH, f64, sb::Bb) },
    L { n: "sb: kH", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kH)), back: |v| value!(sb::quantity!(v, kH), kH, f64, sb::Bb) },
    L { n: "sb: kilohenry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilohenry)), back: |v| value!(sb::quantity!(v, kilohenry), kilohenry, f64, sb::Bb) },
    L { n: "sb: MH", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MH)), back: |v| value!(sb::quantity!(v, MH), MH, f64, sb::Bb) },
    L { n: "sb: uT", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uT)), back: |v| value!(sb::quantity!(v, uT), uT, f64, sb::Bb) },
    L { n: "sb: kT", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kT)), back: |v| value!(sb::quantity!(v, kT), kT, f64, sb::Bb) },
    L { n: "sb: kilotesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilotesla)), back: |v| value!(sb::quantity!(v, kilotesla), kilotesla, f64, sb::Bb) },
    L { n: "sb: MT", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MT)), back: |v| value!(sb::quantity!(v, MT), MT, f64, sb::Bb) },
    L { n: "sb: uWb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uWb)), back: |v| value!(sb::quantity!(v, uWb), uWb, f64, sb::Bb) },
    L { n: "sb: kWb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kWb)), back: |v| value!(sb::quantity!(v, kWb), kWb, f64, sb::Bb) },
    L { n: "sb: kiloweber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kiloweber)), back: |v| value!(sb::quantity!(v, kiloweber), kiloweber, f64, sb::Bb) },
    L { n: "sb: MWb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MWb)), back: |v| value!(sb::quantity!(v, MWb), MWb, f64, sb::Bb) },
    L { n: "sb: ulx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ulx)), back: |v| value!(sb::quantity!(v, ulx), ulx, f64, sb::Bb) },
    L { n: "sb: klx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, klx)), back: |v| value!(sb::quantity!(v, klx), klx, f64, sb::Bb) },
    L { n: "sb: kilolux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilolux)), back: |v| value!(sb::quantity!(v, kilolux), kilolux, f64, sb::Bb) },
    L { n: "sb: Mlx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Mlx)), back: |v| value!(sb::quantity!(v, Mlx), Mlx, f64, sb::Bb) },
    L { n: "sb: uSt", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-10f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uSt)), back: |v| value!(sb::quantity!(v, uSt), uSt, f64, sb::Bb) },
    L { n: "sb: kSt", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kSt)), back: |v| value!(sb::quantity!(v, kSt), kSt, f64, sb::Bb) },
    L { n: "sb: kilostokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kilostokes)), back: |v| value!(sb::quantity!(v, kilostokes), kilostokes, f64, sb::Bb) },
    L { n: "sb: MSt", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, MSt)), back: |v| value!(sb::quantity!(v, MSt), MSt, f64, sb::Bb) },
];
pub static COMP_SB: &[L] = &[
    L { n: "sb: kg * m / s^2", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg * m / s^2)), back: |v| value!(sb::quantity!(v, kg * m / s^2), kg * m / s^2, f64, sb::Bb) },
    L { n: "sb: m / s / s", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m / s / s)), back: |v| value!(sb::quantity!(v, m / s / s), m / s / s, f64, sb::Bb) },
    L { n: "sb: J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, J / (kg * K))), back: |v| value!(sb::quantity!(v, J / (kg * K)), J / (kg * K), f64, sb::Bb) },
    L { n: "sb: V * s^2 / m", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, V * s^2 / m)), back: |v| value!(sb::quantity!(v, V * s^2 / m), V * s^2 / m, f64, sb::Bb) },
    L { n: "sb: km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.2777777777777778f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, km / h)), back: |v| value!(sb::quantity!(v, km / h), km / h, f64, sb::Bb) },
    L { n: "sb: mi / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.44704f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mi / h)), back: |v| value!(sb::quantity!(v, mi / h), mi / h, f64, sb::Bb) },
    L { n: "sb: lb * ft^2 / min", d: [1, 2, -1, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.00070233516823008f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lb * ft^2 / min)), back: |v| value!(sb::quantity!(v, lb * ft^2 / min), lb * ft^2 / min, f64, sb::Bb) },
    L { n: "sb: ft^3", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.028316846592f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ft^3)), back: |v| value!(sb::quantity!(v, ft^3), ft^3, f64, sb::Bb) },
    L { n: "sb: m / ft", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3.2808398950131235f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m / ft)), back: |v| value!(sb::quantity!(v, m / ft), m / ft, f64, sb::Bb) },
    L { n: "sb: gal / min", d: [0, 3, -1, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 6.30901964e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gal / min)), back: |v| value!(sb::quantity!(v, gal / min), gal / min, f64, sb::Bb) },
    L { n: "sb: W / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, W / m^2)), back: |v| value!(sb::quantity!(v, W / m^2), W / m^2, f64, sb::Bb) },
    L { n: "sb: mW / cm^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mW / cm^2)), back: |v| value!(sb::quantity!(v, mW / cm^2), mW / cm^2, f64, sb::Bb) },
    L { n: "sb: m^-1", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m^-1)), back: |v| value!(sb::quantity!(v, m^-1), m^-1, f64, sb::Bb) },
    L { n: "sb: 1 / s", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, 1 / s)), back: |v| value!(sb::quantity!(v, 1 / s), 1 / s, f64, sb::Bb) },
    L { n: "sb: ft^-2 * lb", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 4.88242763638305f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ft^-2 * lb)), back: |v| value!(sb::quantity!(v, ft^-2 * lb), ft^-2 * lb, f64, sb::Bb) },
    L { n: "sb: (km * g) / (ms * A)", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (km * g) / (ms * A))), back: |v| value!(sb::quantity!(v, (km * g) / (ms * A)), (km * g) / (ms * A), f64, sb::Bb) },
    L { n: "sb: kWh / yr", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.11407955261548605f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kWh / yr)), back: |v| value!(sb::quantity!(v, kWh / yr), kWh / yr, f64, sb::Bb) },
    L { n: "sb: deg / s", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, deg / s)), back: |v| value!(sb::quantity!(v, deg / s), deg / s, f64, sb::Bb) },
    L { n: "sb: rad * m^2", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad * m^2)), back: |v| value!(sb::quantity!(v, rad * m^2), rad * m^2, f64, sb::Bb) },
    L { n: "sb: psi * gal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 26.09949550537946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, psi * gal)), back: |v| value!(sb::quantity!(v, psi * gal), psi * gal, f64, sb::Bb) },
    L { n: "sb: mol / L", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [9, 0, 9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol / L)), back: |v| value!(sb::quantity!(v, mol / L), mol / L, f64, sb::Bb) },
    L { n: "sb: hp * h", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2684519.537696173f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, hp * h)), back: |v| value!(sb::quantity!(v, hp * h), hp * h, f64, sb::Bb) },
    L { n: "sb: acre * ft", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1233.48183754752f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, acre * ft)), back: |v| value!(sb::quantity!(v, acre * ft), acre * ft, f64, sb::Bb) },
    L { n: "sb: eV / K", d: [1, 2, -2, 0, -1, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, eV / K)), back: |v| value!(sb::quantity!(v, eV / K), eV / K, f64, sb::Bb) },
    L { n: "sb: N * m", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, N * m)), back: |v| value!(sb::quantity!(v, N * m), N * m, f64, sb::Bb) },
    L { n: "sb: Pa * s", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, Pa * s)), back: |v| value!(sb::quantity!(v, Pa * s), Pa * s, f64, sb::Bb) },
    L { n: "sb: A * s * V", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A * s * V)), back: |v| value!(sb::quantity!(v, A * s * V), A * s * V, f64, sb::Bb) },
    L { n: "sb: cd / m^2", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd / m^2)), back: |v| value!(sb::quantity!(v, cd / m^2), cd / m^2, f64, sb::Bb) },
    L { n: "sb: C / mol", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, C / mol)), back: |v| value!(sb::quantity!(v, C / mol), C / mol, f64, sb::Bb) },
    L { n: "sb: oz / ft / ft", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.30515172727394063f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, oz / ft / ft)), back: |v| value!(sb::quantity!(v, oz / ft / ft), oz / ft / ft, f64, sb::Bb) },
    L { n: "sb: (ft / s)^2", d: [0, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.09290304f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (ft / s)^2)), back: |v| value!(sb::quantity!(v, (ft / s)^2), (ft / s)^2, f64, sb::Bb) },
    L { n: "sb: (lb / ft^3)^-1", d: [-1, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.06242796057614461f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (lb / ft^3)^-1)), back: |v| value!(sb::quantity!(v, (lb / ft^3)^-1), (lb / ft^3)^-1, f64, sb::Bb) },
    L { n: "sb: kg2 * m3", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg2 * m3)), back: |v| value!(sb::quantity!(v, kg2 * m3), kg2 * m3, f64, sb::Bb) },
    L { n: "sb: yd . stone / wk", d: [1, 1, -1, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 9.601038498333333e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, yd . stone / wk)), back: |v| value!(sb::quantity!(v, yd . stone / wk), yd . stone / wk, f64, sb::Bb) },
    L { n: "sb: (ft)^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 35.31466672148859f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (ft)^-3)), back: |v| value!(sb::quantity!(v, (ft)^-3), (ft)^-3, f64, sb::Bb) },
    L { n: "sb: J * (lb * s)^-3", d: [-2, 2, -5, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10.715261600999527f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, J * (lb * s)^-3)), back: |v| value!(sb::quantity!(v, J * (lb * s)^-3), J * (lb * s)^-3, f64, sb::Bb) },
    L { n: "sb: (ft * min)^-4 * kg", d: [1, -4, -4, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 8.939951192820376e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (ft * min)^-4 * kg)), back: |v| value!(sb::quantity!(v, (ft * min)^-4 * kg), (ft * min)^-4 * kg, f64, sb::Bb) },
    L { n: "sb: yd^5", d: [0, 5, 0, 0, 0, 0, 0, 0], s: [-15, 0, -15, 0], val: 0.6392652349813368f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, yd^5)), back: |v| value!(sb::quantity!(v, yd^5), yd^5, f64, sb::Bb) },
    L { n: "sb: gal^-3", d: [0, -9, 0, 0, 0, 0, 0, 0], s: [27, 0, 27, 0], val: 18435741.533348676f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, gal^-3)), back: |v| value!(sb::quantity!(v, gal^-3), gal^-3, f64, sb::Bb) },
    L { n: "sb: (mi / h)^3", d: [0, 3, -3, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.089338602225664f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (mi / h)^3)), back: |v| value!(sb::quantity!(v, (mi / h)^3), (mi / h)^3, f64, sb::Bb) },
    L { n: "sb: (lb^2 * ft) / (yd^2 * oz)", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 2.6456247885680955f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (lb^2 * ft) / (yd^2 * oz))), back: |v| value!(sb::quantity!(v, (lb^2 * ft) / (yd^2 * oz)), (lb^2 * ft) / (yd^2 * oz), f64, sb::Bb) },
    L { n: "sb: deg^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [0, 0, 0, 0], val: 5832000.0f64, pi: -3, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, deg^-3)), back: |v| value!(sb::quantity!(v, deg^-3), deg^-3, f64, sb::Bb) },
    L { n: "sb: (mi * acre)^-1", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.5354416549051374e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, (mi * acre)^-1)), back: |v| value!(sb::quantity!(v, (mi * acre)^-1), (mi * acre)^-1, f64, sb::Bb) },
    L { n: "sb: lb * (ft / (min * gal))", d: [1, -2, -1, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 0.6087182507698349f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, lb * (ft / (min * gal)))), back: |v| value!(sb::quantity!(v, lb * (ft / (min * gal))), lb * (ft / (min * gal)), f64, sb::Bb) },
    L { n: "sb: kg^-4", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^-4)), back: |v| value!(sb::quantity!(v, kg^-4), kg^-4, f64, sb::Bb) },
    L { n: "sb: kg^-3", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^-3)), back: |v| value!(sb::quantity!(v, kg^-3), kg^-3, f64, sb::Bb) },
    L { n: "sb: kg^-2", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^-2)), back: |v| value!(sb::quantity!(v, kg^-2), kg^-2, f64, sb::Bb) },
    L { n: "sb: kg^2", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^2)), back: |v| value!(sb::quantity!(v, kg^2), kg^2, f64, sb::Bb) },
    L { n: "sb: kg^3", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^3)), back: |v| value!(sb::quantity!(v, kg^3), kg^3, f64, sb::Bb) },
    L { n: "sb: kg^4", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg^4)), back: |v| value!(sb::quantity!(v, kg^4), kg^4, f64, sb::Bb) },
    L { n: "sb: m^-4", d: [0, -4, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m^-4)), back: |v| value!(sb::quantity!(v, m^-4), m^-4, f64, sb::Bb) },
    L { n: "sb: m^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m^-3)), back: |v| value!(sb::quantity!(v, m^-3), m^-3, f64, sb::Bb) },
    L { n: "sb: m^-2", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m^-2)), back: |v| value!(sb::quantity!(v, m^-2), m^-2, f64, sb::Bb) },
    L { n: "sb: m^4", d: [0, 4, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m^4)), back: |v| value!(sb::quantity!(v, m^4), m^4, f64, sb::Bb) },
    L { n: "sb: s^-4", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^-4)), back: |v| value!(sb::quantity!(v, s^-4), s^-4, f64, sb::Bb) },
    L { n: "sb: s^-3", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^-3)), back: |v| value!(sb::quantity!(v, s^-3), s^-3, f64, sb::Bb) },
    L { n: "sb: s^-2", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^-2)), back: |v| value!(sb::quantity!(v, s^-2), s^-2, f64, sb::Bb) },
    L { n: "sb: s^2", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^2)), back: |v| value!(sb::quantity!(v, s^2), s^2, f64, sb::Bb) },
    L { n: "sb: s^3", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^3)), back: |v| value!(sb::quantity!(v, s^3), s^3, f64, sb::Bb) },
    L { n: "sb: s^4", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, s^4)), back: |v| value!(sb::quantity!(v, s^4), s^4, f64, sb::Bb) },
    L { n: "sb: A^-4", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^-4)), back: |v| value!(sb::quantity!(v, A^-4), A^-4, f64, sb::Bb) },
    L { n: "sb: A^-3", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^-3)), back: |v| value!(sb::quantity!(v, A^-3), A^-3, f64, sb::Bb) },
    L { n: "sb: A^-2", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^-2)), back: |v| value!(sb::quantity!(v, A^-2), A^-2, f64, sb::Bb) },
    L { n: "sb: A^2", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^2)), back: |v| value!(sb::quantity!(v, A^2), A^2, f64, sb::Bb) },
    L { n: "sb: A^3", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^3)), back: |v| value!(sb::quantity!(v, A^3), A^3, f64, sb::Bb) },
    L { n: "sb: A^4", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^4)), back: |v| value!(sb::quantity!(v, A^4), A^4, f64, sb::Bb) },
    L { n: "sb: K^-4", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^-4)), back: |v| value!(sb::quantity!(v, K^-4), K^-4, f64, sb::Bb) },
    L { n: "sb: K^-3", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^-3)), back: |v| value!(sb::quantity!(v, K^-3), K^-3, f64, sb::Bb) },
    L { n: "sb: K^-2", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^-2)), back: |v| value!(sb::quantity!(v, K^-2), K^-2, f64, sb::Bb) },
    L { n: "sb: K^2", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^2)), back: |v| value!(sb::quantity!(v, K^2), K^2, f64, sb::Bb) },
    L { n: "sb: K^3", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^3)), back: |v| value!(sb::quantity!(v, K^3), K^3, f64, sb::Bb) },
    L { n: "sb: K^4", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K^4)), back: |v| value!(sb::quantity!(v, K^4), K^4, f64, sb::Bb) },
    L { n: "sb: mol^-4", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^-4)), back: |v| value!(sb::quantity!(v, mol^-4), mol^-4, f64, sb::Bb) },
    L { n: "sb: mol^-3", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^-3)), back: |v| value!(sb::quantity!(v, mol^-3), mol^-3, f64, sb::Bb) },
    L { n: "sb: mol^-2", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^-2)), back: |v| value!(sb::quantity!(v, mol^-2), mol^-2, f64, sb::Bb) },
    L { n: "sb: mol^2", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^2)), back: |v| value!(sb::quantity!(v, mol^2), mol^2, f64, sb::Bb) },
    L { n: "sb: mol^3", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^3)), back: |v| value!(sb::quantity!(v, mol^3), mol^3, f64, sb::Bb) },
    L { n: "sb: mol^4", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol^4)), back: |v| value!(sb::quantity!(v, mol^4), mol^4, f64, sb::Bb) },
    L { n: "sb: cd^-4", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^-4)), back: |v| value!(sb::quantity!(v, cd^-4), cd^-4, f64, sb::Bb) },
    L { n: "sb: cd^-3", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^-3)), back: |v| value!(sb::quantity!(v, cd^-3), cd^-3, f64, sb::Bb) },
    L { n: "sb: cd^-2", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^-2)), back: |v| value!(sb::quantity!(v, cd^-2), cd^-2, f64, sb::Bb) },
    L { n: "sb: cd^2", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^2)), back: |v| value!(sb::quantity!(v, cd^2), cd^2, f64, sb::Bb) },
    L { n: "sb: cd^3", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^3)), back: |v| value!(sb::quantity!(v, cd^3), cd^3, f64, sb::Bb) },
    L { n: "sb: cd^4", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd^4)), back: |v| value!(sb::quantity!(v, cd^4), cd^4, f64, sb::Bb) },
    L { n: "sb: rad^-4", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^-4)), back: |v| value!(sb::quantity!(v, rad^-4), rad^-4, f64, sb::Bb) },
    L { n: "sb: rad^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^-3)), back: |v| value!(sb::quantity!(v, rad^-3), rad^-3, f64, sb::Bb) },
    L { n: "sb: rad^-2", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^-2)), back: |v| value!(sb::quantity!(v, rad^-2), rad^-2, f64, sb::Bb) },
    L { n: "sb: rad^2", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^2)), back: |v| value!(sb::quantity!(v, rad^2), rad^2, f64, sb::Bb) },
    L { n: "sb: rad^3", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^3)), back: |v| value!(sb::quantity!(v, rad^3), rad^3, f64, sb::Bb) },
    L { n: "sb: rad^4", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad^4)), back: |v| value!(sb::quantity!(v, rad^4), rad^4, f64, sb::Bb) },
    L { n: "sb: kg * m * s * A * K * mol * cd * rad", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kg * m * s * A * K * mol * cd * rad)), back: |v| value!(sb::quantity!(v, kg * m * s * A * K * mol * cd * rad), kg * m * s * A * K * mol * cd * rad, f64, sb::Bb) },
    L { n: "sb: g / cm^3", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, g / cm^3)), back: |v| value!(sb::quantity!(v, g / cm^3), g / cm^3, f64, sb::Bb) },
    L { n: "sb: mg / mm", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mg / mm)), back: |v| value!(sb::quantity!(v, mg / mm), mg / mm, f64, sb::Bb) },
    L { n: "sb: mol / m^3", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mol / m^3)), back: |v| value!(sb::quantity!(v, mol / m^3), mol / m^3, f64, sb::Bb) },
    L { n: "sb: cd * s", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, cd * s)), back: |v| value!(sb::quantity!(v, cd * s), cd * s, f64, sb::Bb) },
    L { n: "sb: K / mm", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, K / mm)), back: |v| value!(sb::quantity!(v, K / mm), K / mm, f64, sb::Bb) },
    L { n: "sb: deg / min", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, deg / min)), back: |v| value!(sb::quantity!(v, deg / min), deg / min, f64, sb::Bb) },
    L { n: "sb: kJ / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kJ / (kg * K))), back: |v| value!(sb::quantity!(v, kJ / (kg * K)), kJ / (kg * K), f64, sb::Bb) },
    L { n: "sb: mW / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, mW / m^2)), back: |v| value!(sb::quantity!(v, mW / m^2), mW / m^2, f64, sb::Bb) },
    L { n: "sb: kPa * L", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, kPa * L)), back: |v| value!(sb::quantity!(v, kPa * L), kPa * L, f64, sb::Bb) },
    L { n: "sb: uF * V", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, uF * V)), back: |v| value!(sb::quantity!(v, uF * V), uF * V, f64, sb::Bb) },
    L { n: "sb: m / mm", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, m / mm)), back: |v| value!(sb::quantity!(v, m / mm), m / mm, f64, sb::Bb) },
    L { n: "sb: ft / mi", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001893939393939394f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, ft / mi)), back: |v| value!(sb::quantity!(v, ft / mi), ft / mi, f64, sb::Bb) },
    L { n: "sb: min / h", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, min / h)), back: |v| value!(sb::quantity!(v, min / h), min / h, f64, sb::Bb) },
    L { n: "sb: deg / rad", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, deg / rad)), back: |v| value!(sb::quantity!(v, deg / rad), deg / rad, f64, sb::Bb) },
    L { n: "sb: 1 / min", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, 1 / min)), back: |v| value!(sb::quantity!(v, 1 / min), 1 / min, f64, sb::Bb) },
    L { n: "sb: rad / s^2", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, rad / s^2)), back: |v| value!(sb::quantity!(v, rad / s^2), rad / s^2, f64, sb::Bb) },
    L { n: "sb: A^2 * s^4 / (kg * m^2)", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sb::quantity!(v, A^2 * s^4 / (kg * m^2))), back: |v| value!(sb::quantity!(v, A^2 * s^4 / (kg * m^2)), A^2 * s^4 / (kg * m^2), f64, sb::Bb) },
];
pub mod m_sb { use super::*; use super::sb::*;
pub static METHOD: &[L] = &[
    L { n: "sb: grams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.grams()), back: |v| value!(v.grams(), gram, f64, sb::Bb) },
    L { n: "sb: attograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attograms()), back: |v| value!(v.attograms(), attogram, f64, sb::Bb) },
    L { n: "sb: centigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centigrams()), back: |v| value!(v.centigrams(), centigram, f64, sb::Bb) },
    L { n: "sb: decagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decagrams()), back: |v| value!(v.decagrams(), decagram, f64, sb::Bb) },
    L { n: "sb: decigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decigrams()), back: |v| value!(v.decigrams(), decigram, f64, sb::Bb) },
    L { n: "sb: exagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exagrams()), back: |v| value!(v.exagrams(), exagram, f64, sb::Bb) },
    L { n: "sb: femtograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtograms()), back: |v| value!(v.femtograms(), femtogram, f64, sb::Bb) },
    L { n: "sb: gigagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigagrams()), back: |v| value!(v.gigagrams(), gigagram, f64, sb::Bb) },
    L { n: "sb: hectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectograms()), back: |v| value!(v.hectograms(), hectogram, f64, sb::Bb) },
    L { n: "sb: kilograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilograms()), back: |v| value!(v.kilograms(), kilogram, f64, sb::Bb) },
    L { n: "sb: megagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megagrams()), back: |v| value!(v.megagrams(), megagram, f64, sb::Bb) },
    L { n: "sb: micrograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrograms()), back: |v| value!(v.micrograms(), microgram, f64, sb::Bb) },
    L { n: "sb: milligrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milligrams()), back: |v| value!(v.milligrams(), milligram, f64, sb::Bb) },
    L { n: "sb: nanograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanograms()), back: |v| value!(v.nanograms(), nanogram, f64, sb::Bb) },
    L { n: "sb: petagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petagrams()), back: |v| value!(v.petagrams(), petagram, f64, sb::Bb) },
    L { n: "sb: picograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picograms()), back: |v| value!(v.picograms(), picogram, f64, sb::Bb) },
    L { n: "sb: quectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-33f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectograms()), back: |v| value!(v.quectograms(), quectogram, f64, sb::Bb) },
    L { n: "sb: quettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettagrams()), back: |v| value!(v.quettagrams(), quettagram, f64, sb::Bb) },
    L { n: "sb: ronnagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnagrams()), back: |v| value!(v.ronnagrams(), ronnagram, f64, sb::Bb) },
    L { n: "sb: rontograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontograms()), back: |v| value!(v.rontograms(), rontogram, f64, sb::Bb) },
    L { n: "sb: teragrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teragrams()), back: |v| value!(v.teragrams(), teragram, f64, sb::Bb) },
    L { n: "sb: yoctograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctograms()), back: |v| value!(v.yoctograms(), yoctogram, f64, sb::Bb) },
    L { n: "sb: yottagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottagrams()), back: |v| value!(v.yottagrams(), yottagram, f64, sb::Bb) },
    L { n: "sb: zeptograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptograms()), back: |v| value!(v.zeptograms(), zeptogram, f64, sb::Bb) },
    L { n: "sb: zettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettagrams()), back: |v| value!(v.zettagrams(), zettagram, f64, sb::Bb) },
    L { n: "sb: meters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.meters()), back: |v| value!(v.meters(), meter, f64, sb::Bb) },
    L { n: "sb: attometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attometers()), back: |v| value!(v.attometers(), attometer, f64, sb::Bb) },
    L { n: "sb: centimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimeters()), back: |v| value!(v.centimeters(), centimeter, f64, sb::Bb) },
    L { n: "sb: decameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decameters()), back: |v| value!(v.decameters(), decameter, f64, sb::Bb) },
    L { n: "sb: decimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimeters()), back: |v| value!(v.decimeters(), decimeter, f64, sb::Bb) },
    L { n: "sb: exameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exameters()), back: |v| value!(v.exameters(), exameter, f64, sb::Bb) },
    L { n: "sb: femtometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtometers()), back: |v| value!(v.femtometers(), femtometer, f64, sb::Bb) },
    L { n: "sb: gigameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigameters()), back: |v| value!(v.gigameters(), gigameter, f64, sb::Bb) },
    L { n: "sb: hectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectometers()), back: |v| value!(v.hectometers(), hectometer, f64, sb::Bb) },
    L { n: "sb: kilometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilometers()), back: |v| value!(v.kilometers(), kilometer, f64, sb::Bb) },
    L { n: "sb: megameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megameters()), back: |v| value!(v.megameters(), megameter, f64, sb::Bb) },
    L { n: "sb: micrometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrometers()), back: |v| value!(v.micrometers(), micrometer, f64, sb::Bb) },
    L { n: "sb: millimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimeters()), back: |v| value!(v.millimeters(), millimeter, f64, sb::Bb) },
    L { n: "sb: nanometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanometers()), back: |v| value!(v.nanometers(), nanometer, f64, sb::Bb) },
    L { n: "sb: petameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petameters()), back: |v| value!(v.petameters(), petameter, f64, sb::Bb) },
    L { n: "sb: picometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picometers()), back: |v| value!(v.picometers(), picometer, f64, sb::Bb) },
    L { n: "sb: quectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectometers()), back: |v| value!(v.quectometers(), quectometer, f64, sb::Bb) },
    L { n: "sb: quettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettameters()), back: |v| value!(v.quettameters(), quettameter, f64, sb::Bb) },
    L { n: "sb: ronnameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnameters()), back: |v| value!(v.ronnameters(), ronnameter, f64, sb::Bb) },
    L { n: "sb: rontometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontometers()), back: |v| value!(v.rontometers(), rontometer, f64, sb::Bb) },
    L { n: "sb: terameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terameters()), back: |v| value!(v.terameters(), terameter, f64, sb::Bb) },
    L { n: "sb: yoctometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctometers()), back: |v| value!(v.yoctometers(), yoctometer, f64, sb::Bb) },
    L { n: "sb: yottameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottameters()), back: |v| value!(v.yottameters(), yottameter, f64, sb::Bb) },
    L { n: "sb: zeptometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptometers()), back: |v| value!(v.zeptometers(), zeptometer, f64, sb::Bb) },
    L { n: "sb: zettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettameters()), back: |v| value!(v.zettameters(), zettameter, f64, sb::Bb) },
    L { n: "sb: seconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.seconds()), back: |v| value!(v.seconds(), second, f64, sb::Bb) },
    L { n: "sb: attoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoseconds()), back: |v| value!(v.attoseconds(), attosecond, f64, sb::Bb) },
    L { n: "sb: centiseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiseconds()), back: |v| value!(v.centiseconds(), centisecond, f64, sb::Bb) },
    L { n: "sb: decaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaseconds()), back: |v| value!(v.decaseconds(), decasecond, f64, sb::Bb) },
    L { n: "sb: deciseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciseconds()), back: |v| value!(v.deciseconds(), decisecond, f64, sb::Bb) },
    L { n: "sb: exaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaseconds()), back: |v| value!(v.exaseconds(), exasecond, f64, sb::Bb) },
    L { n: "sb: femtoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoseconds()), back: |v| value!(v.femtoseconds(), femtosecond, f64, sb::Bb) },
    L { n: "sb: gigaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaseconds()), back: |v| value!(v.gigaseconds(), gigasecond, f64, sb::Bb) },
    L { n: "sb: hectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoseconds()), back: |v| value!(v.hectoseconds(), hectosecond, f64, sb::Bb) },
    L { n: "sb: kiloseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloseconds()), back: |v| value!(v.kiloseconds(), kilosecond, f64, sb::Bb) },
    L { n: "sb: megaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaseconds()), back: |v| value!(v.megaseconds(), megasecond, f64, sb::Bb) },
    L { n: "sb: microseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microseconds()), back: |v| value!(v.microseconds(), microsecond, f64, sb::Bb) },
    L { n: "sb: milliseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliseconds()), back: |v| value!(v.milliseconds(), millisecond, f64, sb::Bb) },
    L { n: "sb: nanoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoseconds()), back: |v| value!(v.nanoseconds(), nanosecond, f64, sb::Bb) },
    L { n: "sb: petaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaseconds()), back: |v| value!(v.petaseconds(), petasecond, f64, sb::Bb) },
    L { n: "sb: picoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoseconds()), back: |v| value!(v.picoseconds(), picosecond, f64, sb::Bb) },
    L { n: "sb: quectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoseconds()), back: |v| value!(v.quectoseconds(), quectosecond, f64, sb::Bb) },
    L { n: "sb: quettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaseconds()), back: |v| value!(v.quettaseconds(), quettasecond, f64, sb::Bb) },
    L { n: "sb: ronnaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaseconds()), back: |v| value!(v.ronnaseconds(), ronnasecond, f64, sb::Bb) },
    L { n: "sb: rontoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoseconds()), back: |v| value!(v.rontoseconds(), rontosecond, f64, sb::Bb) },
    L { n: "sb: teraseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraseconds()), back: |v| value!(v.teraseconds(), terasecond, f64, sb::Bb) },
    L { n: "sb: yoctoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoseconds()), back: |v| value!(v.yoctoseconds(), yoctosecond, f64, sb::Bb) },
    L { n: "sb: yottaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaseconds()), back: |v| value!(v.yottaseconds(), yottasecond, f64, sb::Bb) },
    L { n: "sb: zeptoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoseconds()), back: |v| value!(v.zeptoseconds(), zeptosecond, f64, sb::Bb) },
    L { n: "sb: zettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaseconds()), back: |v| value!(v.zettaseconds(), zettasecond, f64, sb::Bb) },
    L { n: "sb: amperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.amperes()), back: |v| value!(v.amperes(), ampere, f64, sb::Bb) },
    L { n: "sb: attoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoamperes()), back: |v| value!(v.attoamperes(), attoampere, f64, sb::Bb) },
    L { n: "sb: centiamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiamperes()), back: |v| value!(v.centiamperes(), centiampere, f64, sb::Bb) },
    L { n: "sb: decaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaamperes()), back: |v| value!(v.decaamperes(), decaampere, f64, sb::Bb) },
    L { n: "sb: deciamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciamperes()), back: |v| value!(v.deciamperes(), deciampere, f64, sb::Bb) },
    L { n: "sb: exaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaamperes()), back: |v| value!(v.exaamperes(), exaampere, f64, sb::Bb) },
    L { n: "sb: femtoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoamperes()), back: |v| value!(v.femtoamperes(), femtoampere, f64, sb::Bb) },
    L { n: "sb: gigaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaamperes()), back: |v| value!(v.gigaamperes(), gigaampere, f64, sb::Bb) },
    L { n: "sb: hectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoamperes()), back: |v| value!(v.hectoamperes(), hectoampere, f64, sb::Bb) },
    L { n: "sb: kiloamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloamperes()), back: |v| value!(v.kiloamperes(), kiloampere, f64, sb::Bb) },
    L { n: "sb: megaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaamperes()), back: |v| value!(v.megaamperes(), megaampere, f64, sb::Bb) },
    L { n: "sb: microamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microamperes()), back: |v| value!(v.microamperes(), microampere, f64, sb::Bb) },
    L { n: "sb: milliamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliamperes()), back: |v| value!(v.milliamperes(), milliampere, f64, sb::Bb) },
    L { n: "sb: nanoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoamperes()), back: |v| value!(v.nanoamperes(), nanoampere, f64, sb::Bb) },
    L { n: "sb: petaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaamperes()), back: |v| value!(v.petaamperes(), petaampere, f64, sb::Bb) },
    L { n: "sb: picoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoamperes()), back: |v| value!(v.picoamperes(), picoampere, f64, sb::Bb) },
    L { n: "sb: quectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoamperes()), back: |v| value!(v.quectoamperes(), quectoampere, f64, sb::Bb) },
    L { n: "sb: quettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaamperes()), back: |v| value!(v.quettaamperes(), quettaampere, f64, sb::Bb) },
    L { n: "sb: ronnaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaamperes()), back: |v| value!(v.ronnaamperes(), ronnaampere, f64, sb::Bb) },
    L { n: "sb: rontoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoamperes()), back: |v| value!(v.rontoamperes(), rontoampere, f64, sb::Bb) },
    L { n: "sb: teraamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraamperes()), back: |v| value!(v.teraamperes(), teraampere, f64, sb::Bb) },
    L { n: "sb: yoctoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoamperes()), back: |v| value!(v.yoctoamperes(), yoctoampere, f64, sb::Bb) },
    L { n: "sb: yottaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaamperes()), back: |v| value!(v.yottaamperes(), yottaampere, f64, sb::Bb) },
    L { n: "sb: zeptoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoamperes()), back: |v| value!(v.zeptoamperes(), zeptoampere, f64, sb::Bb) },
    L { n: "sb: zettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaamperes()), back: |v| value!(v.zettaamperes(), zettaampere, f64, sb::Bb) },
    L { n: "sb: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kelvin()), back: |v| value!(v.kelvin(), kelvin, f64, sb::Bb) },
    L { n: "sb: attokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attokelvin()), back: |v| value!(v.attokelvin(), attokelvin, f64, sb::Bb) },
    L { n: "sb: centikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centikelvin()), back: |v| value!(v.centikelvin(), centikelvin, f64, sb::Bb) },
    L { n: "sb: decakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decakelvin()), back: |v| value!(v.decakelvin(), decakelvin, f64, sb::Bb) },
    L { n: "sb: decikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decikelvin()), back: |v| value!(v.decikelvin(), decikelvin, f64, sb::Bb) },
    L { n: "sb: exakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exakelvin()), back: |v| value!(v.exakelvin(), exakelvin, f64, sb::Bb) },
    L { n: "sb: femtokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtokelvin()), back: |v| value!(v.femtokelvin(), femtokelvin, f64, sb::Bb) },
    L { n: "sb: gigakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigakelvin()), back: |v| value!(v.gigakelvin(), gigakelvin, f64, sb::Bb) },
    L { n: "sb: hectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectokelvin()), back: |v| value!(v.hectokelvin(), hectokelvin, f64, sb::Bb) },
    L { n: "sb: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilokelvin()), back: |v| value!(v.kilokelvin(), kilokelvin, f64, sb::Bb) },
    L { n: "sb: megakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megakelvin()), back: |v| value!(v.megakelvin(), megakelvin, f64, sb::Bb) },
    L { n: "sb: microkelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microkelvin()), back: |v| value!(v.microkelvin(), microkelvin, f64, sb::Bb) },
    L { n: "sb: millikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millikelvin()), back: |v| value!(v.millikelvin(), millikelvin, f64, sb::Bb) },
    L { n: "sb: nanokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanokelvin()), back: |v| value!(v.nanokelvin(), nanokelvin, f64, sb::Bb) },
    L { n: "sb: petakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petakelvin()), back: |v| value!(v.petakelvin(), petakelvin, f64, sb::Bb) },
    L { n: "sb: picokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picokelvin()), back: |v| value!(v.picokelvin(), picokelvin, f64, sb::Bb) },
    L { n: "sb: quectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectokelvin()), back: |v| value!(v.quectokelvin(), quectokelvin, f64, sb::Bb) },
    L { n: "sb: quettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettakelvin()), back: |v| value!(v.quettakelvin(), quettakelvin, f64, sb::Bb) },
    L { n: "sb: ronnakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnakelvin()), back: |v| value!(v.ronnakelvin(), ronnakelvin, f64, sb::Bb) },
    L { n: "sb: rontokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontokelvin()), back: |v| value!(v.rontokelvin(), rontokelvin, f64, sb::Bb) },
    L { n: "sb: terakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terakelvin()), back: |v| value!(v.terakelvin(), terakelvin, f64, sb::Bb) },
    L { n: "sb: yoctokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctokelvin()), back: |v| value!(v.yoctokelvin(), yoctokelvin, f64, sb::Bb) },
    L { n: "sb: yottakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottakelvin()), back: |v| value!(v.yottakelvin(), yottakelvin, f64, sb::Bb) },
    L { n: "sb: zeptokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptokelvin()), back: |v| value!(v.zeptokelvin(), zeptokelvin, f64, sb::Bb) },
    L { n: "sb: zettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettakelvin()), back: |v| value!(v.zettakelvin(), zettakelvin, f64, sb::Bb) },
    L { n: "sb: moles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.moles()), back: |v| value!(v.moles(), mole, f64, sb::Bb) },
    L { n: "sb: attomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attomoles()), back: |v| value!(v.attomoles(), attomole, f64, sb::Bb) },
    L { n: "sb: centimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimoles()), back: |v| value!(v.centimoles(), centimole, f64, sb::Bb) },
    L { n: "sb: decamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decamoles()), back: |v| value!(v.decamoles(), decamole, f64, sb::Bb) },
    L { n: "sb: decimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimoles()), back: |v| value!(v.decimoles(), decimole, f64, sb::Bb) },
    L { n: "sb: examoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.examoles()), back: |v| value!(v.examoles(), examole, f64, sb::Bb) },
    L { n: "sb: femtomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtomoles()), back: |v| value!(v.femtomoles(), femtomole, f64, sb::Bb) },
    L { n: "sb: gigamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigamoles()), back: |v| value!(v.gigamoles(), gigamole, f64, sb::Bb) },
    L { n: "sb: hectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectomoles()), back: |v| value!(v.hectomoles(), hectomole, f64, sb::Bb) },
    L { n: "sb: kilomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilomoles()), back: |v| value!(v.kilomoles(), kilomole, f64, sb::Bb) },
    L { n: "sb: megamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megamoles()), back: |v| value!(v.megamoles(), megamole, f64, sb::Bb) },
    L { n: "sb: micromoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micromoles()), back: |v| value!(v.micromoles(), micromole, f64, sb::Bb) },
    L { n: "sb: millimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimoles()), back: |v| value!(v.millimoles(), millimole, f64, sb::Bb) },
    L { n: "sb: nanomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanomoles()), back: |v| value!(v.nanomoles(), nanomole, f64, sb::Bb) },
    L { n: "sb: petamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petamoles()), back: |v| value!(v.petamoles(), petamole, f64, sb::Bb) },
    L { n: "sb: picomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picomoles()), back: |v| value!(v.picomoles(), picomole, f64, sb::Bb) },
    L { n: "sb: quectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectomoles()), back: |v| value!(v.quectomoles(), quectomole, f64, sb::Bb) },
    L { n: "sb: quettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettamoles()), back: |v| value!(v.quettamoles(), quettamole, f64, sb::Bb) },
    L { n: "sb: ronnamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnamoles()), back: |v| value!(v.ronnamoles(), ronnamole, f64, sb::Bb) },
    L { n: "sb: rontomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontomoles()), back: |v| value!(v.rontomoles(), rontomole, f64, sb::Bb) },
    L { n: "sb: teramoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teramoles()), back: |v| value!(v.teramoles(), teramole, f64, sb::Bb) },
    L { n: "sb: yoctomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctomoles()), back: |v| value!(v.yoctomoles(), yoctomole, f64, sb::Bb) },
    L { n: "sb: yottamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottamoles()), back: |v| value!(v.yottamoles(), yottamole, f64, sb::Bb) },
    L { n: "sb: zeptomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptomoles()), back: |v| value!(v.zeptomoles(), zeptomole, f64, sb::Bb) },
    L { n: "sb: zettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettamoles()), back: |v| value!(v.zettamoles(), zettamole, f64, sb::Bb) },
    L { n: "sb: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.candela()), back: |v| value!(v.candela(), candela, f64, sb::Bb) },
    L { n: "sb: attocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attocandela()), back: |v| value!(v.attocandela(), attocandela, f64, sb::Bb) },
    L { n: "sb: centicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centicandela()), back: |v| value!(v.centicandela(), centicandela, f64, sb::Bb) },
    L { n: "sb: decacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decacandela()), back: |v| value!(v.decacandela(), decacandela, f64, sb::Bb) },
    L { n: "sb: decicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decicandela()), back: |v| value!(v.decicandela(), decicandela, f64, sb::Bb) },
    L { n: "sb: exacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exacandela()), back: |v| value!(v.exacandela(), exacandela, f64, sb::Bb) },
    L { n: "sb: femtocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtocandela()), back: |v| value!(v.femtocandela(), femtocandela, f64, sb::Bb) },
    L { n: "sb: gigacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigacandela()), back: |v| value!(v.gigacandela(), gigacandela, f64, sb::Bb) },
    L { n: "sb: hectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectocandela()), back: |v| value!(v.hectocandela(), hectocandela, f64, sb::Bb) },
    L { n: "sb: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilocandela()), back: |v| value!(v.kilocandela(), kilocandela, f64, sb::Bb) },
    L { n: "sb: megacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megacandela()), back: |v| value!(v.megacandela(), megacandela, f64, sb::Bb) },
    L { n: "sb: microcandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microcandela()), back: |v| value!(v.microcandela(), microcandela, f64, sb::Bb) },
    L { n: "sb: millicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millicandela()), back: |v| value!(v.millicandela(), millicandela, f64, sb::Bb) },
    L { n: "sb: nanocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanocandela()), back: |v| value!(v.nanocandela(), nanocandela, f64, sb::Bb) },
    L { n: "sb: petacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petacandela()), back: |v| value!(v.petacandela(), petacandela, f64, sb::Bb) },
    L { n: "sb: picocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picocandela()), back: |v| value!(v.picocandela(), picocandela, f64, sb::Bb) },
    L { n: "sb: quectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectocandela()), back: |v| value!(v.quectocandela(), quectocandela, f64, sb::Bb) },
    L { n: "sb: quettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettacandela()), back: |v| value!(v.quettacandela(), quettacandela, f64, sb::Bb) },
    L { n: "sb: ronnacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnacandela()), back: |v| value!(v.ronnacandela(), ronnacandela, f64, sb::Bb) },
    L { n: "sb: rontocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontocandela()), back: |v| value!(v.rontocandela(), rontocandela, f64, sb::Bb) },
    L { n: "sb: teracandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teracandela()), back: |v| value!(v.teracandela(), teracandela, f64, sb::Bb) },
    L { n: "sb: yoctocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctocandela()), back: |v| value!(v.yoctocandela(), yoctocandela, f64, sb::Bb) },
    L { n: "sb: yottacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottacandela()), back: |v| value!(v.yottacandela(), yottacandela, f64, sb::Bb) },
    L { n: "sb: zeptocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptocandela()), back: |v| value!(v.zeptocandela(), zeptocandela, f64, sb::Bb) },
    L { n: "sb: zettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettacandela()), back: |v| value!(v.zettacandela(), zettacandela, f64, sb::Bb) },
    L { n: "sb: radians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.radians()), back: |v| value!(v.radians(), radian, f64, sb::Bb) },
    L { n: "sb: attoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoradians()), back: |v| value!(v.attoradians(), attoradian, f64, sb::Bb) },
    L { n: "sb: centiradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiradians()), back: |v| value!(v.centiradians(), centiradian, f64, sb::Bb) },
    L { n: "sb: decaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaradians()), back: |v| value!(v.decaradians(), decaradian, f64, sb::Bb) },
    L { n: "sb: deciradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciradians()), back: |v| value!(v.deciradians(), deciradian, f64, sb::Bb) },
    L { n: "sb: exaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaradians()), back: |v| value!(v.exaradians(), exaradian, f64, sb::Bb) },
    L { n: "sb: femtoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoradians()), back: |v| value!(v.femtoradians(), femtoradian, f64, sb::Bb) },
    L { n: "sb: gigaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaradians()), back: |v| value!(v.gigaradians(), gigaradian, f64, sb::Bb) },
    L { n: "sb: hectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoradians()), back: |v| value!(v.hectoradians(), hectoradian, f64, sb::Bb) },
    L { n: "sb: kiloradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloradians()), back: |v| value!(v.kiloradians(), kiloradian, f64, sb::Bb) },
    L { n: "sb: megaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaradians()), back: |v| value!(v.megaradians(), megaradian, f64, sb::Bb) },
    L { n: "sb: microradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microradians()), back: |v| value!(v.microradians(), microradian, f64, sb::Bb) },
    L { n: "sb: milliradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliradians()), back: |v| value!(v.milliradians(), milliradian, f64, sb::Bb) },
    L { n: "sb: nanoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoradians()), back: |v| value!(v.nanoradians(), nanoradian, f64, sb::Bb) },
    L { n: "sb: petaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaradians()), back: |v| value!(v.petaradians(), petaradian, f64, sb::Bb) },
    L { n: "sb: picoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoradians()), back: |v| value!(v.picoradians(), picoradian, f64, sb::Bb) },
    L { n: "sb: quectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoradians()), back: |v| value!(v.quectoradians(), quectoradian, f64, sb::Bb) },
    L { n: "sb: quettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaradians()), back: |v| value!(v.quettaradians(), quettaradian, f64, sb::Bb) },
    L { n: "sb: ronnaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaradians()), back: |v| value!(v.ronnaradians(), ronnaradian, f64, sb::Bb) },
    L { n: "sb: rontoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoradians()), back: |v| value!(v.rontoradians(), rontoradian, f64, sb::Bb) },
    L { n: "sb: teraradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraradians()), back: |v| value!(v.teraradians(), teraradian, f64, sb::Bb) },
    L { n: "sb: yoctoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoradians()), back: |v| value!(v.yoctoradians(), yoctoradian, f64, sb::Bb) },
    L { n: "sb: yottaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaradians()), back: |v| value!(v.yottaradians(), yottaradian, f64, sb::Bb) },
    L { n: "sb: zeptoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoradians()), back: |v| value!(v.zeptoradians(), zeptoradian, f64, sb::Bb) },
    L { n: "sb: zettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaradians()), back: |v| value!(v.zettaradians(), zettaradian, f64, sb::Bb) },
];
pub static INT: &[LI] = &[
    LI { n: "sb: grams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).grams()) },
    LI { n: "sb: grams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).grams()) },
    LI { n: "sb: centigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centigrams()) },
    LI { n: "sb: centigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centigrams()) },
    LI { n: "sb: decagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decagrams()) },
    LI { n: "sb: decagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decagrams()) },
    LI { n: "sb: decigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decigrams()) },
    LI { n: "sb: decigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decigrams()) },
    LI { n: "sb: gigagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).gigagrams()) },
    LI { n: "sb: gigagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).gigagrams()) },
    LI { n: "sb: hectograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectograms()) },
    LI { n: "sb: hectograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectograms()) },
    LI { n: "sb: kilograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kilograms()) },
    LI { n: "sb: kilograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kilograms()) },
    LI { n: "sb: megagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megagrams()) },
    LI { n: "sb: megagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megagrams()) },
    LI { n: "sb: milligrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).milligrams()) },
    LI { n: "sb: milligrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).milligrams()) },
    LI { n: "sb: meters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).meters()) },
    LI { n: "sb: meters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).meters()) },
    LI { n: "sb: centimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centimeters()) },
    LI { n: "sb: centimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centimeters()) },
    LI { n: "sb: decameters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decameters()) },
    LI { n: "sb: decameters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decameters()) },
    LI { n: "sb: decimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decimeters()) },
    LI { n: "sb: decimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decimeters()) },
    LI { n: "sb: hectometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectometers()) },
    LI { n: "sb: hectometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectometers()) },
    LI { n: "sb: kilometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kilometers()) },
    LI { n: "sb: kilometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kilometers()) },
    LI { n: "sb: micrometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).micrometers()) },
    LI { n: "sb: micrometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).micrometers()) },
    LI { n: "sb: millimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).millimeters()) },
    LI { n: "sb: millimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).millimeters()) },
    LI { n: "sb: nanometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).nanometers()) },
    LI { n: "sb: nanometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).nanometers()) },
    LI { n: "sb: seconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).seconds()) },
    LI { n: "sb: seconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).seconds()) },
    LI { n: "sb: centiseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centiseconds()) },
    LI { n: "sb: centiseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centiseconds()) },
    LI { n: "sb: decaseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decaseconds()) },
    LI { n: "sb: decaseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decaseconds()) },
    LI { n: "sb: deciseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).deciseconds()) },
    LI { n: "sb: deciseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).deciseconds()) },
    LI { n: "sb: hectoseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectoseconds()) },
    LI { n: "sb: hectoseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectoseconds()) },
    LI { n: "sb: kiloseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kiloseconds()) },
    LI { n: "sb: kiloseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kiloseconds()) },
    LI { n: "sb: megaseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megaseconds()) },
    LI { n: "sb: megaseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megaseconds()) },
    LI { n: "sb: microseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).microseconds()) },
    LI { n: "sb: microseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).microseconds()) },
    LI { n: "sb: milliseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).milliseconds()) },
    LI { n: "sb: milliseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).milliseconds()) },
    LI { n: "sb: amperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).amperes()) },
    LI { n: "sb: amperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).amperes()) },
    LI { n: "sb: centiamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centiamperes()) },
    LI { n: "sb: centiamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centiamperes()) },
    LI { n: "sb: decaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decaamperes()) },
    LI { n: "sb: decaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decaamperes()) },
    LI { n: "sb: deciamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).deciamperes()) },
    LI { n: "sb: deciamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).deciamperes()) },
    LI { n: "sb: hectoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectoamperes()) },
    LI { n: "sb: hectoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectoamperes()) },
    LI { n: "sb: kiloamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kiloamperes()) },
    LI { n: "sb: kiloamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kiloamperes()) },
    LI { n: "sb: megaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megaamperes()) },
    LI { n: "sb: megaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megaamperes()) },
    LI { n: "sb: microamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).microamperes()) },
    LI { n: "sb: microamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).microamperes()) },
    LI { n: "sb: milliamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).milliamperes()) },
    LI { n: "sb: milliamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).milliamperes()) },
    LI { n: "sb: kelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kelvin()) },
    LI { n: "sb: kelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kelvin()) },
    LI { n: "sb: centikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centikelvin()) },
    LI { n: "sb: centikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centikelvin()) },
    LI { n: "sb: decakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decakelvin()) },
    LI { n: "sb: decakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decakelvin()) },
    LI { n: "sb: decikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decikelvin()) },
    LI { n: "sb: decikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decikelvin()) },
    LI { n: "sb: hectokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectokelvin()) },
    LI { n: "sb: hectokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectokelvin()) },
    LI { n: "sb: kilokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kilokelvin()) },
    LI { n: "sb: kilokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kilokelvin()) },
    LI { n: "sb: megakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megakelvin()) },
    LI { n: "sb: megakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megakelvin()) },
    LI { n: "sb: microkelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).microkelvin()) },
    LI { n: "sb: microkelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).microkelvin()) },
    LI { n: "sb: millikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).millikelvin()) },
    LI { n: "sb: millikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).millikelvin()) },
    LI { n: "sb: moles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).moles()) },
    LI { n: "sb: moles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).moles()) },
    LI { n: "sb: centimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centimoles()) },
    LI { n: "sb: centimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centimoles()) },
    LI { n: "sb: decamoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decamoles()) },
    LI { n: "sb: decamoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decamoles()) },
    LI { n: "sb: decimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decimoles()) },
    LI { n: "sb: decimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decimoles()) },
    LI { n: "sb: hectomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectomoles()) },
    LI { n: "sb: hectomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectomoles()) },
    LI { n: "sb: kilomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kilomoles()) },
    LI { n: "sb: kilomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kilomoles()) },
    LI { n: "sb: megamoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megamoles()) },
    LI { n: "sb: megamoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megamoles()) },
    LI { n: "sb: micromoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).micromoles()) },
    LI { n: "sb: micromoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).micromoles()) },
    LI { n: "sb: millimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).millimoles()) },
    LI { n: "sb: millimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).millimoles()) },
    LI { n: "sb: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).candela()) },
    LI { n: "sb: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).candela()) },
    LI { n: "sb: centicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centicandela()) },
    LI { n: "sb: centicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centicandela()) },
    LI { n: "sb: decacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decacandela()) },
    LI { n: "sb: decacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decacandela()) },
    LI { n: "sb: decicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decicandela()) },
    LI { n: "sb: decicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decicandela()) },
    LI { n: "sb: hectocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectocandela()) },
    LI { n: "sb: hectocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectocandela()) },
    LI { n: "sb: kilocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kilocandela()) },
    LI { n: "sb: kilocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kilocandela()) },
    LI { n: "sb: megacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megacandela()) },
    LI { n: "sb: megacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megacandela()) },
    LI { n: "sb: microcandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).microcandela()) },
    LI { n: "sb: microcandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).microcandela()) },
    LI { n: "sb: millicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).millicandela()) },
    LI { n: "sb: millicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).millicandela()) },
    LI { n: "sb: radians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).radians()) },
    LI { n: "sb: radians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).radians()) },
    LI { n: "sb: centiradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).centiradians()) },
    LI { n: "sb: centiradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).centiradians()) },
    LI { n: "sb: decaradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).decaradians()) },
    LI { n: "sb: decaradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).decaradians()) },
    LI { n: "sb: deciradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).deciradians()) },
    LI { n: "sb: deciradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).deciradians()) },
    LI { n: "sb: hectoradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).hectoradians()) },
    LI { n: "sb: hectoradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).hectoradians()) },
    LI { n: "sb: kiloradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).kiloradians()) },
    LI { n: "sb: kiloradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).kiloradians()) },
    LI { n: "sb: megaradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).megaradians()) },
    LI { n: "sb: megaradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).megaradians()) },
    LI { n: "sb: microradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).microradians()) },
    LI { n: "sb: microradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).microradians()) },
    LI { n: "sb: milliradians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v as i32).milliradians()) },
    LI { n: "sb: milliradians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi((v).milliradians()) },
    LI { n: "sb: kg * m / s^2 i32", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg * m / s^2, i32)) },
    LI { n: "sb: kg * m / s^2 i64", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg * m / s^2, i64)) },
    LI { n: "sb: m / s / s i32", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, m / s / s, i32)) },
    LI { n: "sb: m / s / s i64", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, m / s / s, i64)) },
    LI { n: "sb: J / (kg * K) i32", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, J / (kg * K), i32)) },
    LI { n: "sb: J / (kg * K) i64", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, J / (kg * K), i64)) },
    LI { n: "sb: V * s^2 / m i32", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, V * s^2 / m, i32)) },
    LI { n: "sb: V * s^2 / m i64", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, V * s^2 / m, i64)) },
    LI { n: "sb: W / m^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, W / m^2, i32)) },
    LI { n: "sb: W / m^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, W / m^2, i64)) },
    LI { n: "sb: mW / cm^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mW / cm^2, i32)) },
    LI { n: "sb: mW / cm^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mW / cm^2, i64)) },
    LI { n: "sb: m^-1 i32", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, m^-1, i32)) },
    LI { n: "sb: m^-1 i64", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, m^-1, i64)) },
    LI { n: "sb: 1 / s i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, 1 / s, i32)) },
    LI { n: "sb: 1 / s i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, 1 / s, i64)) },
    LI { n: "sb: (km * g) / (ms * A) i32", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, (km * g) / (ms * A), i32)) },
    LI { n: "sb: (km * g) / (ms * A) i64", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, (km * g) / (ms * A), i64)) },
    LI { n: "sb: rad * m^2 i32", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad * m^2, i32)) },
    LI { n: "sb: rad * m^2 i64", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad * m^2, i64)) },
    LI { n: "sb: mol / L i32", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol / L, i32)) },
    LI { n: "sb: mol / L i64", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol / L, i64)) },
    LI { n: "sb: N * m i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, N * m, i32)) },
    LI { n: "sb: N * m i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, N * m, i64)) },
    LI { n: "sb: Pa * s i32", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, Pa * s, i32)) },
    LI { n: "sb: Pa * s i64", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, Pa * s, i64)) },
    LI { n: "sb: A * s * V i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A * s * V, i32)) },
    LI { n: "sb: A * s * V i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A * s * V, i64)) },
    LI { n: "sb: cd / m^2 i32", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd / m^2, i32)) },
    LI { n: "sb: cd / m^2 i64", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd / m^2, i64)) },
    LI { n: "sb: C / mol i32", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, C / mol, i32)) },
    LI { n: "sb: C / mol i64", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, C / mol, i64)) },
    LI { n: "sb: kg^-4 i32", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^-4, i32)) },
    LI { n: "sb: kg^-4 i64", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^-4, i64)) },
    LI { n: "sb: kg^-3 i32", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^-3, i32)) },
    LI { n: "sb: kg^-3 i64", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^-3, i64)) },
    LI { n: "sb: kg^-2 i32", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^-2, i32)) },
    LI { n: "sb: kg^-2 i64", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^-2, i64)) },
    LI { n: "sb: kg^2 i32", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^2, i32)) },
    LI { n: "sb: kg^2 i64", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^2, i64)) },
    LI { n: "sb: kg^3 i32", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^3, i32)) },
    LI { n: "sb: kg^3 i64", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^3, i64)) },
    LI { n: "sb: kg^4 i32", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg^4, i32)) },
    LI { n: "sb: kg^4 i64", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg^4, i64)) },
    LI { n: "sb: m^-2 i32", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, m^-2, i32)) },
    LI { n: "sb: m^-2 i64", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, m^-2, i64)) },
    LI { n: "sb: s^-4 i32", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^-4, i32)) },
    LI { n: "sb: s^-4 i64", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^-4, i64)) },
    LI { n: "sb: s^-3 i32", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^-3, i32)) },
    LI { n: "sb: s^-3 i64", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^-3, i64)) },
    LI { n: "sb: s^-2 i32", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^-2, i32)) },
    LI { n: "sb: s^-2 i64", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^-2, i64)) },
    LI { n: "sb: s^2 i32", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^2, i32)) },
    LI { n: "sb: s^2 i64", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^2, i64)) },
    LI { n: "sb: s^3 i32", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^3, i32)) },
    LI { n: "sb: s^3 i64", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^3, i64)) },
    LI { n: "sb: s^4 i32", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s^4, i32)) },
    LI { n: "sb: s^4 i64", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s^4, i64)) },
    LI { n: "sb: A^-4 i32", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^-4, i32)) },
    LI { n: "sb: A^-4 i64", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^-4, i64)) },
    LI { n: "sb: A^-3 i32", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^-3, i32)) },
    LI { n: "sb: A^-3 i64", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^-3, i64)) },
    LI { n: "sb: A^-2 i32", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^-2, i32)) },
    LI { n: "sb: A^-2 i64", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^-2, i64)) },
    LI { n: "sb: A^2 i32", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^2, i32)) },
    LI { n: "sb: A^2 i64", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^2, i64)) },
    LI { n: "sb: A^3 i32", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^3, i32)) },
    LI { n: "sb: A^3 i64", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^3, i64)) },
    LI { n: "sb: A^4 i32", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^4, i32)) },
    LI { n: "sb: A^4 i64", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^4, i64)) },
    LI { n: "sb: K^-4 i32", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^-4, i32)) },
    LI { n: "sb: K^-4 i64", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^-4, i64)) },
    LI { n: "sb: K^-3 i32", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^-3, i32)) },
    LI { n: "sb: K^-3 i64", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^-3, i64)) },
    LI { n: "sb: K^-2 i32", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^-2, i32)) },
    LI { n: "sb: K^-2 i64", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^-2, i64)) },
    LI { n: "sb: K^2 i32", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^2, i32)) },
    LI { n: "sb: K^2 i64", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^2, i64)) },
    LI { n: "sb: K^3 i32", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^3, i32)) },
    LI { n: "sb: K^3 i64", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^3, i64)) },
    LI { n: "sb: K^4 i32", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K^4, i32)) },
    LI { n: "sb: K^4 i64", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K^4, i64)) },
    LI { n: "sb: mol^-4 i32", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^-4, i32)) },
    LI { n: "sb: mol^-4 i64", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^-4, i64)) },
    LI { n: "sb: mol^-3 i32", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^-3, i32)) },
    LI { n: "sb: mol^-3 i64", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^-3, i64)) },
    LI { n: "sb: mol^-2 i32", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^-2, i32)) },
    LI { n: "sb: mol^-2 i64", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^-2, i64)) },
    LI { n: "sb: mol^2 i32", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^2, i32)) },
    LI { n: "sb: mol^2 i64", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^2, i64)) },
    LI { n: "sb: mol^3 i32", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^3, i32)) },
    LI { n: "sb: mol^3 i64", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^3, i64)) },
    LI { n: "sb: mol^4 i32", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol^4, i32)) },
    LI { n: "sb: mol^4 i64", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol^4, i64)) },
    LI { n: "sb: cd^-4 i32", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^-4, i32)) },
    LI { n: "sb: cd^-4 i64", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^-4, i64)) },
    LI { n: "sb: cd^-3 i32", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^-3, i32)) },
    LI { n: "sb: cd^-3 i64", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^-3, i64)) },
    LI { n: "sb: cd^-2 i32", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^-2, i32)) },
    LI { n: "sb: cd^-2 i64", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^-2, i64)) },
    LI { n: "sb: cd^2 i32", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^2, i32)) },
    LI { n: "sb: cd^2 i64", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^2, i64)) },
    LI { n: "sb: cd^3 i32", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^3, i32)) },
    LI { n: "sb: cd^3 i64", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^3, i64)) },
    LI { n: "sb: cd^4 i32", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd^4, i32)) },
    LI { n: "sb: cd^4 i64", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd^4, i64)) },
    LI { n: "sb: rad^-4 i32", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^-4, i32)) },
    LI { n: "sb: rad^-4 i64", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^-4, i64)) },
    LI { n: "sb: rad^-3 i32", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^-3, i32)) },
    LI { n: "sb: rad^-3 i64", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^-3, i64)) },
    LI { n: "sb: rad^-2 i32", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^-2, i32)) },
    LI { n: "sb: rad^-2 i64", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^-2, i64)) },
    LI { n: "sb: rad^2 i32", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^2, i32)) },
    LI { n: "sb: rad^2 i64", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^2, i64)) },
    LI { n: "sb: rad^3 i32", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^3, i32)) },
    LI { n: "sb: rad^3 i64", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^3, i64)) },
    LI { n: "sb: rad^4 i32", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad^4, i32)) },
    LI { n: "sb: rad^4 i64", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad^4, i64)) },
    LI { n: "sb: kg * m * s * A * K * mol * cd * rad i32", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg * m * s * A * K * mol * cd * rad, i32)) },
    LI { n: "sb: kg * m * s * A * K * mol * cd * rad i64", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg * m * s * A * K * mol * cd * rad, i64)) },
    LI { n: "sb: g / cm^3 i32", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, g / cm^3, i32)) },
    LI { n: "sb: g / cm^3 i64", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, g / cm^3, i64)) },
    LI { n: "sb: mg / mm i32", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mg / mm, i32)) },
    LI { n: "sb: mg / mm i64", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mg / mm, i64)) },
    LI { n: "sb: cd * s i32", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd * s, i32)) },
    LI { n: "sb: cd * s i64", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd * s, i64)) },
    LI { n: "sb: K / mm i32", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, K / mm, i32)) },
    LI { n: "sb: K / mm i64", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, K / mm, i64)) },
    LI { n: "sb: mW / m^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mW / m^2, i32)) },
    LI { n: "sb: mW / m^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mW / m^2, i64)) },
    LI { n: "sb: kPa * L i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kPa * L, i32)) },
    LI { n: "sb: kPa * L i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kPa * L, i64)) },
    LI { n: "sb: uF * V i32", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, uF * V, i32)) },
    LI { n: "sb: uF * V i64", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, uF * V, i64)) },
    LI { n: "sb: m / mm i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, m / mm, i32)) },
    LI { n: "sb: m / mm i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, m / mm, i64)) },
    LI { n: "sb: min / h i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, min / h, i32)) },
    LI { n: "sb: min / h i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, min / h, i64)) },
    LI { n: "sb: 1 / min i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, 1 / min, i32)) },
    LI { n: "sb: 1 / min i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, 1 / min, i64)) },
    LI { n: "sb: rad / s^2 i32", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad / s^2, i32)) },
    LI { n: "sb: rad / s^2 i64", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad / s^2, i64)) },
    LI { n: "sb: A^2 * s^4 / (kg * m^2) i32", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A^2 * s^4 / (kg * m^2), i32)) },
    LI { n: "sb: A^2 * s^4 / (kg * m^2) i64", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A^2 * s^4 / (kg * m^2), i64)) },
    LI { n: "sb: kg i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kg, i32)) },
    LI { n: "sb: kg i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kg, i64)) },
    LI { n: "sb: g i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, g, i32)) },
    LI { n: "sb: g i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, g, i64)) },
    LI { n: "sb: km i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, km, i32)) },
    LI { n: "sb: km i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, km, i64)) },
    LI { n: "sb: m i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, m, i32)) },
    LI { n: "sb: m i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, m, i64)) },
    LI { n: "sb: mm i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mm, i32)) },
    LI { n: "sb: mm i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mm, i64)) },
    LI { n: "sb: h i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 3600, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, h, i32)) },
    LI { n: "sb: h i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 3600, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, h, i64)) },
    LI { n: "sb: min i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 60, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, min, i32)) },
    LI { n: "sb: min i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 60, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, min, i64)) },
    LI { n: "sb: s i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, s, i32)) },
    LI { n: "sb: s i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, s, i64)) },
    LI { n: "sb: kA i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kA, i32)) },
    LI { n: "sb: kA i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kA, i64)) },
    LI { n: "sb: A i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, A, i32)) },
    LI { n: "sb: A i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, A, i64)) },
    LI { n: "sb: V i32", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, V, i32)) },
    LI { n: "sb: V i64", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, V, i64)) },
    LI { n: "sb: J i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, J, i32)) },
    LI { n: "sb: J i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, J, i64)) },
    LI { n: "sb: kPa i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kPa, i32)) },
    LI { n: "sb: kPa i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kPa, i64)) },
    LI { n: "sb: Pa i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, Pa, i32)) },
    LI { n: "sb: Pa i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, Pa, i64)) },
    LI { n: "sb: kHz i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, kHz, i32)) },
    LI { n: "sb: kHz i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, kHz, i64)) },
    LI { n: "sb: L i32", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, L, i32)) },
    LI { n: "sb: L i64", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, L, i64)) },
    LI { n: "sb: mol i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, mol, i32)) },
    LI { n: "sb: mol i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, mol, i64)) },
    LI { n: "sb: cd i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, cd, i32)) },
    LI { n: "sb: cd i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, cd, i64)) },
    LI { n: "sb: rad i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v as i32, rad, i32)) },
    LI { n: "sb: rad i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sb::Bb>, f: |v| outi(sb::quantity!(v, rad, i64)) },
];
}
pub fn lits_sb(f: &mut dyn FnMut(OutT, OutT, &'static str)) { use sb::quantity as q; go(f); #[culit::culit(sb::literals)]
fn go(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    f(typed(7.1g), typed(sb::quantity!(7.1, g)), "sb: 7.1g");
    f(typed(7.1gr), typed(sb::quantity!(7.1, gr)), "sb: 7.1gr");
    f(typed(7.1ct), typed(sb::quantity!(7.1, ct)), "sb: 7.1ct");
    f(typed(7.1oz), typed(sb::quantity!(7.1, oz)), "sb: 7.1oz");
    f(typed(7.1ozt), typed(sb::quantity!(7.1, ozt)), "sb: 7.1ozt");
    f(typed(7.1lbt), typed(sb::quantity!(7.1, lbt)), "sb: 7.1lbt");
    f(typed(7.1lb), typed(sb::quantity!(7.1, lb)), "sb: 7.1lb");
    f(typed(7.1st), typed(sb::quantity!(7.1, st)), "sb: 7.1st");
    f(typed(7.1t), typed(sb::quantity!(7.1, t)), "sb: 7.1t");
    f(typed(7.1m), typed(sb::quantity!(7.1, m)), "sb: 7.1m");
    f(typed(7.1ft), typed(sb::quantity!(7.1, ft)), "sb: 7.1ft");
    f(typed(7.1yd), typed(sb::quantity!(7.1, yd)), "sb: 7.1yd");
    f(typed(7.1mi), typed(sb::quantity!(7.1, mi)), "sb: 7.1mi");
    f(typed(7.1nmi), typed(sb::quantity!(7.1, nmi)), "sb: 7.1nmi");
    f(typed(7.1AU), typed(sb::quantity!(7.1, AU)), "sb: 7.1AU");
    f(typed(7.1ly), typed(sb::quantity!(7.1, ly)), "sb: 7.1ly");
    f(typed(7.1pc), typed(sb::quantity!(7.1, pc)), "sb: 7.1pc");
    f(typed(7.1s), typed(sb::quantity!(7.1, s)), "sb: 7.1s");
    f(typed(7.1min), typed(sb::quantity!(7.1, min)), "sb: 7.1min");
    f(typed(7.1h), typed(sb::quantity!(7.1, h)), "sb: 7.1h");
    f(typed(7.1hr), typed(sb::quantity!(7.1, hr)), "sb: 7.1hr");
    f(typed(7.1d), typed(sb::quantity!(7.1, d)), "sb: 7.1d");
    f(typed(7.1d_f64), typed(sb::quantity!(7.1f64, d, f64)), "sb: 7.1d_f64");
    f(typed(7.1d_f32), typed(sb::quantity!(7.1f32, d, f32)), "sb: 7.1d_f32");
    f(typed(25d_i32), typed(sb::quantity!(25i32, d, i32)), "sb: 25d_i32");
    f(typed(25d_i64), typed(sb::quantity!(25i64, d, i64)), "sb: 25d_i64");
    f(typed(25d), typed(sb::quantity!(25i32, d, i32)), "sb: 25d");
    f(typed(7.1wk), typed(sb::quantity!(7.1, wk)), "sb: 7.1wk");
    f(typed(7.1mo), typed(sb::quantity!(7.1, mo)), "sb: 7.1mo");
    f(typed(7.1yr), typed(sb::quantity!(7.1, yr)), "sb: 7.1yr");
    f(typed(7.1A), typed(sb::quantity!(7.1, A)), "sb: 7.1A");
    f(typed(7.1K), typed(sb::quantity!(7.1, K)), "sb: 7.1K");
    f(typed(7.1K_f64), typed(sb::quantity!(7.1f64, K, f64)), "sb: 7.1K_f64");
    f(typed(7.1K_f32), typed(sb::quantity!(7.1f32, K, f32)), "sb: 7.1K_f32");
    f(typed(25K_i32), typed(sb::quantity!(25i32, K, i32)), "sb: 25K_i32");
    f(typed(25K_i64), typed(sb::quantity!(25i64, K, i64)), "sb: 25K_i64");
    f(typed(25K), typed(sb::quantity!(25i32, K, i32)), "sb: 25K");
    f(typed(7.1degC), typed(sb::quantity!(7.1, degC)), "sb: 7.1degC");
    f(typed(7.1degR), typed(sb::quantity!(7.1, degR)), "sb: 7.1degR");
    f(typed(7.1degF), typed(sb::quantity!(7.1, degF)), "sb: 7.1degF");
    f(typed(7.1mol), typed(sb::quantity!(7.1, mol)), "sb: 7.1mol");
    f(typed(7.1cd), typed(sb::quantity!(7.1, cd)), "sb: 7.1cd");
    f(typed(7.1cd_f64), typed(sb::quantity!(7.1f64, cd, f64)), "sb: 7.1cd_f64");
    f(typed(7.1cd_f32), typed(sb::quantity!(7.1f32, cd, f32)), "sb: 7.1cd_f32");
    f(typed(25cd_i32), typed(sb::quantity!(25i32, cd, i32)), "sb: 25cd_i32");
    f(typed(25cd_i64), typed(sb::quantity!(25i64, cd, i64)), "sb: 25cd_i64");
    f(typed(25cd), typed(sb::quantity!(25i32, cd, i32)), "sb: 25cd");
    f(typed(7.1lm), typed(sb::quantity!(7.1, lm)), "sb: 7.1lm");
    f(typed(7.1rad), typed(sb::quantity!(7.1, rad)), "sb: 7.1rad");
    f(typed(7.1deg), typed(sb::quantity!(7.1, deg)), "sb: 7.1deg");
    f(typed(7.1grad), typed(sb::quantity!(7.1, grad)), "sb: 7.1grad");
    f(typed(7.1turn), typed(sb::quantity!(7.1, turn)), "sb: 7.1turn");
    f(typed(7.1turn_f64), typed(sb::quantity!(7.1f64, turn, f64)), "sb: 7.1turn_f64");
    f(typed(7.1turn_f32), typed(sb::quantity!(7.1f32, turn, f32)), "sb: 7.1turn_f32");
    f(typed(7.1rot), typed(sb::quantity!(7.1, rot)), "sb: 7.1rot");
    f(typed(7.1arcmin), typed(sb::quantity!(7.1, arcmin)), "sb: 7.1arcmin");
    f(typed(7.1arcsec), typed(sb::quantity!(7.1, arcsec)), "sb: 7.1arcsec");
    f(typed(7.1hect), typed(sb::quantity!(7.1, hect)), "sb: 7.1hect");
    f(typed(7.1acre), typed(sb::quantity!(7.1, acre)), "sb: 7.1acre");
    f(typed(7.1L), typed(sb::quantity!(7.1, L)), "sb: 7.1L");
    f(typed(7.1l), typed(sb::quantity!(7.1, l)), "sb: 7.1l");
    f(typed(7.1gallon), typed(sb::quantity!(7.1, gallon)), "sb: 7.1gallon");
    f(typed(7.1gal), typed(sb::quantity!(7.1, gal)), "sb: 7.1gal");
    f(typed(7.1qrt), typed(sb::quantity!(7.1, qrt)), "sb: 7.1qrt");
    f(typed(7.1pnt), typed(sb::quantity!(7.1, pnt)), "sb: 7.1pnt");
    f(typed(7.1cup), typed(sb::quantity!(7.1, cup)), "sb: 7.1cup");
    f(typed(7.1fl_oz), typed(sb::quantity!(7.1, fl_oz)), "sb: 7.1fl_oz");
    f(typed(7.1tbsp), typed(sb::quantity!(7.1, tbsp)), "sb: 7.1tbsp");
    f(typed(7.1tsp), typed(sb::quantity!(7.1, tsp)), "sb: 7.1tsp");
    f(typed(7.1uk_gal), typed(sb::quantity!(7.1, uk_gal)), "sb: 7.1uk_gal");
    f(typed(7.1uk_qrt), typed(sb::quantity!(7.1, uk_qrt)), "sb: 7.1uk_qrt");
    f(typed(7.1uk_pnt), typed(sb::quantity!(7.1, uk_pnt)), "sb: 7.1uk_pnt");
    f(typed(7.1uk_cup), typed(sb::quantity!(7.1, uk_cup)), "sb: 7.1uk_cup");
    f(typed(7.1uk_fl_oz), typed(sb::quantity!(7.1, uk_fl_oz)), "sb: 7.1uk_fl_oz");
    f(typed(7.1uk_tbsp), typed(sb::quantity!(7.1, uk_tbsp)), "sb: 7.1uk_tbsp");
    f(typed(7.1uk_tsp), typed(sb::quantity!(7.1, uk_tsp)), "sb: 7.1uk_tsp");
    f(typed(7.1bu), typed(sb::quantity!(7.1, bu)), "sb: 7.1bu");
    f(typed(7.1Hz), typed(sb::quantity!(7.1, Hz)), "sb: 7.1Hz");
    f(typed(7.1N), typed(sb::quantity!(7.1, N)), "sb: 7.1N");
    f(typed(7.1N_f64), typed(sb::quantity!(7.1f64, N, f64)), "sb: 7.1N_f64");
    f(typed(7.1N_f32), typed(sb::quantity!(7.1f32, N, f32)), "sb: 7.1N_f32");
    f(typed(25N_i32), typed(sb::quantity!(25i32, N, i32)), "sb: 25N_i32");
    f(typed(25N_i64), typed(sb::quantity!(25i64, N, i64)), "sb: 25N_i64");
    f(typed(25N), typed(sb::quantity!(25i32, N, i32)), "sb: 25N");
    f(typed(7.1J), typed(sb::quantity!(7.1, J)), "sb: 7.1J");
    f(typed(7.1Nm), typed(sb::quantity!(7.1, Nm)), "sb: 7.1Nm");
    f(typed(7.1cal), typed(sb::quantity!(7.1, cal)), "sb: 7.1cal");
    f(typed(7.1ft_lb), typed(sb::quantity!(7.1, ft_lb)), "sb: 7.1ft_lb");
    f(typed(7.1kWh), typed(sb::quantity!(7.1, kWh)), "sb: 7.1kWh");
    f(typed(7.1kWh_f64), typed(sb::quantity!(7.1f64, kWh, f64)), "sb: 7.1kWh_f64");
    f(typed(7.1kWh_f32), typed(sb::quantity!(7.1f32, kWh, f32)), "sb: 7.1kWh_f32");
    f(typed(7.1thm), typed(sb::quantity!(7.1, thm)), "sb: 7.1thm");
    f(typed(7.1W), typed(sb::quantity!(7.1, W)), "sb: 7.1W");
    f(typed(7.1hp), typed(sb::quantity!(7.1, hp)), "sb: 7.1hp");
    f(typed(7.1Pa), typed(sb::quantity!(7.1, Pa)), "sb: 7.1Pa");
    f(typed(7.1Torr), typed(sb::quantity!(7.1, Torr)), "sb: 7.1Torr");
    f(typed(7.1psi), typed(sb::quantity!(7.1, psi)), "sb: 7.1psi");
    f(typed(7.1bar), typed(sb::quantity!(7.1, bar)), "sb: 7.1bar");
    f(typed(7.1atm), typed(sb::quantity!(7.1, atm)), "sb: 7.1atm");
    f(typed(7.1C), typed(sb::quantity!(7.1, C)), "sb: 7.1C");
    f(typed(7.1V), typed(sb::quantity!(7.1, V)), "sb: 7.1V");
    f(typed(7.1V_f64), typed(sb::quantity!(7.1f64, V, f64)), "sb: 7.1V_f64");
    f(typed(7.1V_f32), typed(sb::quantity!(7.1f32, V, f32)), "sb: 7.1V_f32");
    f(typed(25V_i32), typed(sb::quantity!(25i32, V, i32)), "sb: 25V_i32");
    f(typed(25V_i64), typed(sb::quantity!(25i64, V, i64)), "sb: 25V_i64");
    f(typed(25V), typed(sb::quantity!(25i32, V, i32)), "sb: 25V");
    f(typed(7.1F), typed(sb::quantity!(7.1, F)), "sb: 7.1F");
    f(typed(7.1S), typed(sb::quantity!(7.1, S)), "sb: 7.1S");
    f(typed(7.1H), typed(sb::quantity!(7.1, H)), "sb: 7.1H");
    f(typed(7.1T), typed(sb::quantity!(7.1, T)), "sb: 7.1T");
    f(typed(7.1Wb), typed(sb::quantity!(7.1, Wb)), "sb: 7.1Wb");
    f(typed(7.1Wb_f64), typed(sb::quantity!(7.1f64, Wb, f64)), "sb: 7.1Wb_f64");
    f(typed(7.1Wb_f32), typed(sb::quantity!(7.1f32, Wb, f32)), "sb: 7.1Wb_f32");
    f(typed(25Wb_i32), typed(sb::quantity!(25i32, Wb, i32)), "sb: 25Wb_i32");
    f(typed(25Wb_i64), typed(sb::quantity!(25i64, Wb, i64)), "sb: 25Wb_i64");
    f(typed(25Wb), typed(sb::quantity!(25i32, Wb, i32)), "sb: 25Wb");
    f(typed(7.1lx), typed(sb::quantity!(7.1, lx)), "sb: 7.1lx");
    f(typed(7.1G), typed(sb::quantity!(7.1, G)), "sb: 7.1G");
    f(typed(7.1St), typed(sb::quantity!(7.1, St)), "sb: 7.1St");
    f(typed(7.1mg), typed(sb::quantity!(7.1, mg)), "sb: 7.1mg");
    f(typed(7.1kg), typed(sb::quantity!(7.1, kg)), "sb: 7.1kg");
    f(typed(7.1kg_f64), typed(sb::quantity!(7.1f64, kg, f64)), "sb: 7.1kg_f64");
    f(typed(7.1kg_f32), typed(sb::quantity!(7.1f32, kg, f32)), "sb: 7.1kg_f32");
    f(typed(25kg_i32), typed(sb::quantity!(25i32, kg, i32)), "sb: 25kg_i32");
    f(typed(25kg_i64), typed(sb::quantity!(25i64, kg, i64)), "sb: 25kg_i64");
    f(typed(25kg), typed(sb::quantity!(25i32, kg, i32)), "sb: 25kg");
    f(typed(7.1mm), typed(sb::quantity!(7.1, mm)), "sb: 7.1mm");
    f(typed(7.1km), typed(sb::quantity!(7.1, km)), "sb: 7.1km");
    f(typed(7.1ms), typed(sb::quantity!(7.1, ms)), "sb: 7.1ms");
    f(typed(7.1ks), typed(sb::quantity!(7.1, ks)), "sb: 7.1ks");
    f(typed(7.1mA), typed(sb::quantity!(7.1, mA)), "sb: 7.1mA");
    f(typed(7.1mA_f64), typed(sb::quantity!(7.1f64, mA, f64)), "sb: 7.1mA_f64");
    f(typed(7.1mA_f32), typed(sb::quantity!(7.1f32, mA, f32)), "sb: 7.1mA_f32");
    f(typed(25mA_i32), typed(sb::quantity!(25i32, mA, i32)), "sb: 25mA_i32");
    f(typed(25mA_i64), typed(sb::quantity!(25i64, mA, i64)), "sb: 25mA_i64");
    f(typed(25mA), typed(sb::quantity!(25i32, mA, i32)), "sb: 25mA");
    f(typed(7.1kA), typed(sb::quantity!(7.1, kA)), "sb: 7.1kA");
    f(typed(7.1mK), typed(sb::quantity!(7.1, mK)), "sb: 7.1mK");
    f(typed(7.1kK), typed(sb::quantity!(7.1, kK)), "sb: 7.1kK");
    f(typed(7.1mmol), typed(sb::quantity!(7.1, mmol)), "sb: 7.1mmol");
    f(typed(7.1kmol), typed(sb::quantity!(7.1, kmol)), "sb: 7.1kmol");
    f(typed(7.1kmol_f64), typed(sb::quantity!(7.1f64, kmol, f64)), "sb: 7.1kmol_f64");
    f(typed(7.1kmol_f32), typed(sb::quantity!(7.1f32, kmol, f32)), "sb: 7.1kmol_f32");
    f(typed(25kmol_i32), typed(sb::quantity!(25i32, kmol, i32)), "sb: 25kmol_i32");
    f(typed(25kmol_i64), typed(sb::quantity!(25i64, kmol, i64)), "sb: 25kmol_i64");
    f(typed(25kmol), typed(sb::quantity!(25i32, kmol, i32)), "sb: 25kmol");
    f(typed(7.1mcd), typed(sb::quantity!(7.1, mcd)), "sb: 7.1mcd");
    f(typed(7.1kcd), typed(sb::quantity!(7.1, kcd)), "sb: 7.1kcd");
    f(typed(7.1mrad), typed(sb::quantity!(7.1, mrad)), "sb: 7.1mrad");
    f(typed(7.1krad), typed(sb::quantity!(7.1, krad)), "sb: 7.1krad");
    f(typed(7.1mhect), typed(sb::quantity!(7.1, mhect)), "sb: 7.1mhect");
    f(typed(7.1mhect_f64), typed(sb::quantity!(7.1f64, mhect, f64)), "sb: 7.1mhect_f64");
    f(typed(7.1mhect_f32), typed(sb::quantity!(7.1f32, mhect, f32)), "sb: 7.1mhect_f32");
    f(typed(7.1khect), typed(sb::quantity!(7.1, khect)), "sb: 7.1khect");
    f(typed(7.1mL), typed(sb::quantity!(7.1, mL)), "sb: 7.1mL");
    f(typed(7.1ml), typed(sb::quantity!(7.1, ml)), "sb: 7.1ml");
    f(typed(7.1kL), typed(sb::quantity!(7.1, kL)), "sb: 7.1kL");
    f(typed(7.1kl), typed(sb::quantity!(7.1, kl)), "sb: 7.1kl");
    f(typed(7.1kl_f64), typed(sb::quantity!(7.1f64, kl, f64)), "sb: 7.1kl_f64");
    f(typed(7.1kl_f32), typed(sb::quantity!(7.1f32, kl, f32)), "sb: 7.1kl_f32");
    f(typed(7.1mHz), typed(sb::quantity!(7.1, mHz)), "sb: 7.1mHz");
    f(typed(7.1kHz), typed(sb::quantity!(7.1, kHz)), "sb: 7.1kHz");
    f(typed(7.1mN), typed(sb::quantity!(7.1, mN)), "sb: 7.1mN");
    f(typed(7.1kN), typed(sb::quantity!(7.1, kN)), "sb: 7.1kN");
    f(typed(7.1mJ), typed(sb::quantity!(7.1, mJ)), "sb: 7.1mJ");
    f(typed(7.1mJ_f64), typed(sb::quantity!(7.1f64, mJ, f64)), "sb: 7.1mJ_f64");
    f(typed(7.1mJ_f32), typed(sb::quantity!(7.1f32, mJ, f32)), "sb: 7.1mJ_f32");
    f(typed(25mJ_i32), typed(sb::quantity!(25i32, mJ, i32)), "sb: 25mJ_i32");
    f(typed(25mJ_i64), typed(sb::quantity!(25i64, mJ, i64)), "sb: 25mJ_i64");
    f(typed(25mJ), typed(sb::quantity!(25i32, mJ, i32)), "sb: 25mJ");
    f(typed(7.1kJ), typed(sb::quantity!(7.1, kJ)), "sb: 7.1kJ");
    f(typed(7.1mW), typed(sb::quantity!(7.1, mW)), "sb: 7.1mW");
    f(typed(7.1kW), typed(sb::quantity!(7.1, kW)), "sb: 7.1kW");
    f(typed(7.1mPa), typed(sb::quantity!(7.1, mPa)), "sb: 7.1mPa");
    f(typed(7.1kPa), typed(sb::quantity!(7.1, kPa)), "sb: 7.1kPa");
    f(typed(7.1kPa_f64), typed(sb::quantity!(7.1f64, kPa, f64)), "sb: 7.1kPa_f64");
    f(typed(7.1kPa_f32), typed(sb::quantity!(7.1f32, kPa, f32)), "sb: 7.1kPa_f32");
    f(typed(25kPa_i32), typed(sb::quantity!(25i32, kPa, i32)), "sb: 25kPa_i32");
    f(typed(25kPa_i64), typed(sb::quantity!(25i64, kPa, i64)), "sb: 25kPa_i64");
    f(typed(25kPa), typed(sb::quantity!(25i32, kPa, i32)), "sb: 25kPa");
    f(typed(7.1mC), typed(sb::quantity!(7.1, mC)), "sb: 7.1mC");
    f(typed(7.1kC), typed(sb::quantity!(7.1, kC)), "sb: 7.1kC");
    f(typed(7.1mV), typed(sb::quantity!(7.1, mV)), "sb: 7.1mV");
    f(typed(7.1kV), typed(sb::quantity!(7.1, kV)), "sb: 7.1kV");
    f(typed(7.1mF), typed(sb::quantity!(7.1, mF)), "sb: 7.1mF");
    f(typed(7.1mF_f64), typed(sb::quantity!(7.1f64, mF, f64)), "sb: 7.1mF_f64");
    f(typed(7.1mF_f32), typed(sb::quantity!(7.1f32, mF, f32)), "sb: 7.1mF_f32");
    f(typed(7.1kF), typed(sb::quantity!(7.1, kF)), "sb: 7.1kF");
    f(typed(7.1mS), typed(sb::quantity!(7.1, mS)), "sb: 7.1mS");
    f(typed(7.1kS), typed(sb::quantity!(7.1, kS)), "sb: 7.1kS");
    f(typed(7.1mH), typed(sb::quantity!(7.1, mH)), "sb: 7.1mH");
    f(typed(7.1kH), typed(sb::quantity!(7.1, kH)), "sb: 7.1kH");
    f(typed(7.1kH_f64), typed(sb::quantity!(7.1f64, kH, f64)), "sb: 7.1kH_f64");
    f(typed(7.1kH_f32), typed(sb::quantity!(7.1f32, kH, f32)), "sb: 7.1kH_f32");
    f(typed(7.1mT), typed(sb::quantity!(7.1, mT)), "sb: 7.1mT");
    f(typed(7.1kT), typed(sb::quantity!(7.1, kT)), "sb: 7.1kT");
    f(typed(7.1mWb), typed(sb::quantity!(7.1, mWb)), "sb: 7.1mWb");
    f(typed(7.1kWb), typed(sb::quantity!(7.1, kWb)), "sb: 7.1kWb");
    f(typed(7.1mlx), typed(sb::quantity!(7.1, mlx)), "sb: 7.1mlx");
    f(typed(7.1mlx_f64), typed(sb::quantity!(7.1f64, mlx, f64)), "sb: 7.1mlx_f64");
    f(typed(7.1mlx_f32), typed(sb::quantity!(7.1f32, mlx, f32)), "sb: 7.1mlx_f32");
    f(typed(7.1klx), typed(sb::quantity!(7.1, klx)), "sb: 7.1klx");
    f(typed(7.1mSt), typed(sb::quantity!(7.1, mSt)), "sb: 7.1mSt");
    f(typed(7.1kSt), typed(sb::quantity!(7.1, kSt)), "sb: 7.1kSt");
} }
pub static UNIT_SC: &[L] = &[
    L { n: "sc: gram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gram)), back: |v| value!(sc::quantity!(v, gram), gram, f64, sc::Cc) },
    L { n: "sc: g", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, g)), back: |v| value!(sc::quantity!(v, g), g, f64, sc::Cc) },
    L { n: "sc: grain", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, grain)), back: |v| value!(sc::quantity!(v, grain), grain, f64, sc::Cc) },
    L { n: "sc: gr", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gr)), back: |v| value!(sc::quantity!(v, gr), gr, f64, sc::Cc) },
    L { n: "sc: carat", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, carat)), back: |v| value!(sc::quantity!(v, carat), carat, f64, sc::Cc) },
    L { n: "sc: ct", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ct)), back: |v| value!(sc::quantity!(v, ct), ct, f64, sc::Cc) },
    L { n: "sc: ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ounce)), back: |v| value!(sc::quantity!(v, ounce), ounce, f64, sc::Cc) },
    L { n: "sc: oz", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, oz)), back: |v| value!(sc::quantity!(v, oz), oz, f64, sc::Cc) },
    L { n: "sc: troy_ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, troy_ounce)), back: |v| value!(sc::quantity!(v, troy_ounce), troy_ounce, f64, sc::Cc) },
    L { n: "sc: ozt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ozt)), back: |v| value!(sc::quantity!(v, ozt), ozt, f64, sc::Cc) },
    L { n: "sc: troy_pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, troy_pound)), back: |v| value!(sc::quantity!(v, troy_pound), troy_pound, f64, sc::Cc) },
    L { n: "sc: lbt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lbt)), back: |v| value!(sc::quantity!(v, lbt), lbt, f64, sc::Cc) },
    L { n: "sc: pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, pound)), back: |v| value!(sc::quantity!(v, pound), pound, f64, sc::Cc) },
    L { n: "sc: lb", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lb)), back: |v| value!(sc::quantity!(v, lb), lb, f64, sc::Cc) },
    L { n: "sc: stone", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, stone)), back: |v| value!(sc::quantity!(v, stone), stone, f64, sc::Cc) },
    L { n: "sc: st", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, st)), back: |v| value!(sc::quantity!(v, st), st, f64, sc::Cc) },
    L { n: "sc: ton", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ton)), back: |v| value!(sc::quantity!(v, ton), ton, f64, sc::Cc) },
    L { n: "sc: t", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, t)), back: |v| value!(sc::quantity!(v, t), t, f64, sc::Cc) },
    L { n: "sc: meter", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, meter)), back: |v| value!(sc::quantity!(v, meter), meter, f64, sc::Cc) },
    L { n: "sc: m", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m)), back: |v| value!(sc::quantity!(v, m), m, f64, sc::Cc) },
    L { n: "sc: inch", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.0254f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, inch)), back: |v| value!(sc::quantity!(v, inch), inch, f64, sc::Cc) },
    L { n: "sc: foot", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, foot)), back: |v| value!(sc::quantity!(v, foot), foot, f64, sc::Cc) },
    L { n: "sc: ft", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ft)), back: |v| value!(sc::quantity!(v, ft), ft, f64, sc::Cc) },
    L { n: "sc: yard", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, yard)), back: |v| value!(sc::quantity!(v, yard), yard, f64, sc::Cc) },
    L { n: "sc: yd", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, yd)), back: |v| value!(sc::quantity!(v, yd), yd, f64, sc::Cc) },
    L { n: "sc: mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mile)), back: |v| value!(sc::quantity!(v, mile), mile, f64, sc::Cc) },
    L { n: "sc: mi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mi)), back: |v| value!(sc::quantity!(v, mi), mi, f64, sc::Cc) },
    L { n: "sc: nautical_mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, nautical_mile)), back: |v| value!(sc::quantity!(v, nautical_mile), nautical_mile, f64, sc::Cc) },
    L { n: "sc: nmi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, nmi)), back: |v| value!(sc::quantity!(v, nmi), nmi, f64, sc::Cc) },
    L { n: "sc: astronomical_unit", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, astronomical_unit)), back: |v| value!(sc::quantity!(v, astronomical_unit), astronomical_unit, f64, sc::Cc) },
    L { n: "sc: AU", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, AU)), back: |v| value!(sc::quantity!(v, AU), AU, f64, sc::Cc) },
    L { n: "sc: light_year", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, light_year)), back: |v| value!(sc::quantity!(v, light_year), light_year, f64, sc::Cc) },
    L { n: "sc: ly", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ly)), back: |v| value!(sc::quantity!(v, ly), ly, f64, sc::Cc) },
    L { n: "sc: parsec", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sc::quantity!(v, parsec)), back: |v| value!(sc::quantity!(v, parsec), parsec, f64, sc::Cc) },
    L { n: "sc: pc", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sc::quantity!(v, pc)), back: |v| value!(sc::quantity!(v, pc), pc, f64, sc::Cc) },
    L { n: "sc: second", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, second)), back: |v| value!(sc::quantity!(v, second), second, f64, sc::Cc) },
    L { n: "sc: s", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s)), back: |v| value!(sc::quantity!(v, s), s, f64, sc::Cc) },
    L { n: "sc: minute", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, minute)), back: |v| value!(sc::quantity!(v, minute), minute, f64, sc::Cc) },
    L { n: "sc: min", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, min)), back: |v| value!(sc::quantity!(v, min), min, f64, sc::Cc) },
    L { n: "sc: hour", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hour)), back: |v| value!(sc::quantity!(v, hour), hour, f64, sc::Cc) },
    L { n: "sc: h", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, h)), back: |v| value!(sc::quantity!(v, h), h, f64, sc::Cc) },
    L { n: "sc: day", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, day)), back: |v| value!(sc::quantity!(v, day), day, f64, sc::Cc) },
    L { n: "sc: d", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, d)), back: |v| value!(sc::quantity!(v, d), d, f64, sc::Cc) },
    L { n: "sc: week", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, week)), back: |v| value!(sc::quantity!(v, week), week, f64, sc::Cc) },
    L { n: "sc: wk", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, wk)), back: |v| value!(sc::quantity!(v, wk), wk, f64, sc::Cc) },
    L { n: "sc: month", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, month)), back: |v| value!(sc::quantity!(v, month), month, f64, sc::Cc) },
    L { n: "sc: mo", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mo)), back: |v| value!(sc::quantity!(v, mo), mo, f64, sc::Cc) },
    L { n: "sc: year", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, year)), back: |v| value!(sc::quantity!(v, year), year, f64, sc::Cc) },
    L { n: "sc: yr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, yr)), back: |v| value!(sc::quantity!(v, yr), yr, f64, sc::Cc) },
    L { n: "sc: ampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ampere)), back: |v| value!(sc::quantity!(v, ampere), ampere, f64, sc::Cc) },
    L { n: "sc: A", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A)), back: |v| value!(sc::quantity!(v, A), A, f64, sc::Cc) },
    L { n: "sc: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kelvin)), back: |v| value!(sc::quantity!(v, kelvin), kelvin, f64, sc::Cc) },
    L { n: "sc: K", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K)), back: |v| value!(sc::quantity!(v, K), K, f64, sc::Cc) },
    L { n: "sc: celsius", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sc::quantity!(v, celsius)), back: |v| value!(sc::quantity!(v, celsius), celsius, f64, sc::Cc) },
    L { n: "sc: degC", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sc::quantity!(v, degC)), back: |v| value!(sc::quantity!(v, degC), degC, f64, sc::Cc) },
    L { n: "sc: rankine", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rankine)), back: |v| value!(sc::quantity!(v, rankine), rankine, f64, sc::Cc) },
    L { n: "sc: degR", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, degR)), back: |v| value!(sc::quantity!(v, degR), degR, f64, sc::Cc) },
    L { n: "sc: fahrenheit", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sc::quantity!(v, fahrenheit)), back: |v| value!(sc::quantity!(v, fahrenheit), fahrenheit, f64, sc::Cc) },
    L { n: "sc: degF", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sc::quantity!(v, degF)), back: |v| value!(sc::quantity!(v, degF), degF, f64, sc::Cc) },
    L { n: "sc: mole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mole)), back: |v| value!(sc::quantity!(v, mole), mole, f64, sc::Cc) },
    L { n: "sc: mol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol)), back: |v| value!(sc::quantity!(v, mol), mol, f64, sc::Cc) },
    L { n: "sc: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, candela)), back: |v| value!(sc::quantity!(v, candela), candela, f64, sc::Cc) },
    L { n: "sc: cd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd)), back: |v| value!(sc::quantity!(v, cd), cd, f64, sc::Cc) },
    L { n: "sc: lumen", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lumen)), back: |v| value!(sc::quantity!(v, lumen), lumen, f64, sc::Cc) },
    L { n: "sc: lm", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lm)), back: |v| value!(sc::quantity!(v, lm), lm, f64, sc::Cc) },
    L { n: "sc: radian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, radian)), back: |v| value!(sc::quantity!(v, radian), radian, f64, sc::Cc) },
    L { n: "sc: rad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad)), back: |v| value!(sc::quantity!(v, rad), rad, f64, sc::Cc) },
    L { n: "sc: degree", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, degree)), back: |v| value!(sc::quantity!(v, degree), degree, f64, sc::Cc) },
    L { n: "sc: deg", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, deg)), back: |v| value!(sc::quantity!(v, deg), deg, f64, sc::Cc) },
    L { n: "sc: gradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gradian)), back: |v| value!(sc::quantity!(v, gradian), gradian, f64, sc::Cc) },
    L { n: "sc: grad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, grad)), back: |v| value!(sc::quantity!(v, grad), grad, f64, sc::Cc) },
    L { n: "sc: turn", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, turn)), back: |v| value!(sc::quantity!(v, turn), turn, f64, sc::Cc) },
    L { n: "sc: rot", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rot)), back: |v| value!(sc::quantity!(v, rot), rot, f64, sc::Cc) },
    L { n: "sc: arcminute", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, arcminute)), back: |v| value!(sc::quantity!(v, arcminute), arcminute, f64, sc::Cc) },
    L { n: "sc: arcmin", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, arcmin)), back: |v| value!(sc::quantity!(v, arcmin), arcmin, f64, sc::Cc) },
    L { n: "sc: arcsecond", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, arcsecond)), back: |v| value!(sc::quantity!(v, arcsecond), arcsecond, f64, sc::Cc) },
    L { n: "sc: arcsec", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, arcsec)), back: |v| value!(sc::quantity!(v, arcsec), arcsec, f64, sc::Cc) },
    L { n: "sc: hectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hectare)), back: |v| value!(sc::quantity!(v, hectare), hectare, f64, sc::Cc) },
    L { n: "sc: hect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hect)), back: |v| value!(sc::quantity!(v, hect), hect, f64, sc::Cc) },
    L { n: "sc: acre", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], val: 4046.8564224f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, acre)), back: |v| value!(sc::quantity!(v, acre), acre, f64, sc::Cc) },
    L { n: "sc: liter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, liter)), back: |v| value!(sc::quantity!(v, liter), liter, f64, sc::Cc) },
    L { n: "sc: L", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, L)), back: |v| value!(sc::quantity!(v, L), L, f64, sc::Cc) },
    L { n: "sc: gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gallon)), back: |v| value!(sc::quantity!(v, gallon), gallon, f64, sc::Cc) },
    L { n: "sc: gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gal)), back: |v| value!(sc::quantity!(v, gal), gal, f64, sc::Cc) },
    L { n: "sc: quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, quart)), back: |v| value!(sc::quantity!(v, quart), quart, f64, sc::Cc) },
    L { n: "sc: qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, qrt)), back: |v| value!(sc::quantity!(v, qrt), qrt, f64, sc::Cc) },
    L { n: "sc: pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, pint)), back: |v| value!(sc::quantity!(v, pint), pint, f64, sc::Cc) },
    L { n: "sc: pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, pnt)), back: |v| value!(sc::quantity!(v, pnt), pnt, f64, sc::Cc) },
    L { n: "sc: cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0002365882365f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cup)), back: |v| value!(sc::quantity!(v, cup), cup, f64, sc::Cc) },
    L { n: "sc: fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, fluid_ounce)), back: |v| value!(sc::quantity!(v, fluid_ounce), fluid_ounce, f64, sc::Cc) },
    L { n: "sc: fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, fl_oz)), back: |v| value!(sc::quantity!(v, fl_oz), fl_oz, f64, sc::Cc) },
    L { n: "sc: tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, tablespoon)), back: |v| value!(sc::quantity!(v, tablespoon), tablespoon, f64, sc::Cc) },
    L { n: "sc: tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, tbsp)), back: |v| value!(sc::quantity!(v, tbsp), tbsp, f64, sc::Cc) },
    L { n: "sc: teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, teaspoon)), back: |v| value!(sc::quantity!(v, teaspoon), teaspoon, f64, sc::Cc) },
    L { n: "sc: tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, tsp)), back: |v| value!(sc::quantity!(v, tsp), tsp, f64, sc::Cc) },
    L { n: "sc: uk_gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_gallon)), back: |v| value!(sc::quantity!(v, uk_gallon), uk_gallon, f64, sc::Cc) },
    L { n: "sc: uk_gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_gal)), back: |v| value!(sc::quantity!(v, uk_gal), uk_gal, f64, sc::Cc) },
    L { n: "sc: uk_quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_quart)), back: |v| value!(sc::quantity!(v, uk_quart), uk_quart, f64, sc::Cc) },
    L { n: "sc: uk_qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_qrt)), back: |v| value!(sc::quantity!(v, uk_qrt), uk_qrt, f64, sc::Cc) },
    L { n: "sc: uk_pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_pint)), back: |v| value!(sc::quantity!(v, uk_pint), uk_pint, f64, sc::Cc) },
    L { n: "sc: uk_pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_pnt)), back: |v| value!(sc::quantity!(v, uk_pnt), uk_pnt, f64, sc::Cc) },
    L { n: "sc: uk_cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.000284130625f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_cup)), back: |v| value!(sc::quantity!(v, uk_cup), uk_cup, f64, sc::Cc) },
    L { n: "sc: uk_fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_fluid_ounce)), back: |v| value!(sc::quantity!(v, uk_fluid_ounce), uk_fluid_ounce, f64, sc::Cc) },
    L { n: "sc: uk_fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_fl_oz)), back: |v| value!(sc::quantity!(v, uk_fl_oz), uk_fl_oz, f64, sc::Cc) },
    L { n: "sc: uk_tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_tablespoon)), back: |v| value!(sc::quantity!(v, uk_tablespoon), uk_tablespoon, f64, sc::Cc) },
    L { n: "sc: uk_tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_tbsp)), back: |v| value!(sc::quantity!(v, uk_tbsp), uk_tbsp, f64, sc::Cc) },
    L { n: "sc: uk_teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_teaspoon)), back: |v| value!(sc::quantity!(v, uk_teaspoon), uk_teaspoon, f64, sc::Cc) },
    L { n: "sc: uk_tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uk_tsp)), back: |v| value!(sc::quantity!(v, uk_tsp), uk_tsp, f64, sc::Cc) },
    L { n: "sc: bushel", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, bushel)), back: |v| value!(sc::quantity!(v, bushel), bushel, f64, sc::Cc) },
    L { n: "sc: bu", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, bu)), back: |v| value!(sc::quantity!(v, bu), bu, f64, sc::Cc) },
    L { n: "sc: hertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hertz)), back: |v| value!(sc::quantity!(v, hertz), hertz, f64, sc::Cc) },
    L { n: "sc: Hz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Hz)), back: |v| value!(sc::quantity!(v, Hz), Hz, f64, sc::Cc) },
    L { n: "sc: newton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-12, -2, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, newton)), back: |v| value!(sc::quantity!(v, newton), newton, f64, sc::Cc) },
    L { n: "sc: N", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-12, -2, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, N)), back: |v| value!(sc::quantity!(v, N), N, f64, sc::Cc) },
    L { n: "sc: joule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, joule)), back: |v| value!(sc::quantity!(v, joule), joule, f64, sc::Cc) },
    L { n: "sc: J", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, J)), back: |v| value!(sc::quantity!(v, J), J, f64, sc::Cc) },
    L { n: "sc: electron_volt", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, electron_volt)), back: |v| value!(sc::quantity!(v, electron_volt), electron_volt, f64, sc::Cc) },
    L { n: "sc: eV", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, eV)), back: |v| value!(sc::quantity!(v, eV), eV, f64, sc::Cc) },
    L { n: "sc: erg", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, erg)), back: |v| value!(sc::quantity!(v, erg), erg, f64, sc::Cc) },
    L { n: "sc: newton_meter", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, newton_meter)), back: |v| value!(sc::quantity!(v, newton_meter), newton_meter, f64, sc::Cc) },
    L { n: "sc: Nm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Nm)), back: |v| value!(sc::quantity!(v, Nm), Nm, f64, sc::Cc) },
    L { n: "sc: calorie", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, calorie)), back: |v| value!(sc::quantity!(v, calorie), calorie, f64, sc::Cc) },
    L { n: "sc: cal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cal)), back: |v| value!(sc::quantity!(v, cal), cal, f64, sc::Cc) },
    L { n: "sc: foot_pound", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, foot_pound)), back: |v| value!(sc::quantity!(v, foot_pound), foot_pound, f64, sc::Cc) },
    L { n: "sc: ft_lb", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ft_lb)), back: |v| value!(sc::quantity!(v, ft_lb), ft_lb, f64, sc::Cc) },
    L { n: "sc: kilowatt_hour", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kilowatt_hour)), back: |v| value!(sc::quantity!(v, kilowatt_hour), kilowatt_hour, f64, sc::Cc) },
    L { n: "sc: kWh", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kWh)), back: |v| value!(sc::quantity!(v, kWh), kWh, f64, sc::Cc) },
    L { n: "sc: therm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, therm)), back: |v| value!(sc::quantity!(v, therm), therm, f64, sc::Cc) },
    L { n: "sc: thm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, thm)), back: |v| value!(sc::quantity!(v, thm), thm, f64, sc::Cc) },
    L { n: "sc: watt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-16, -3, -13, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, watt)), back: |v| value!(sc::quantity!(v, watt), watt, f64, sc::Cc) },
    L { n: "sc: W", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-16, -3, -13, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, W)), back: |v| value!(sc::quantity!(v, W), W, f64, sc::Cc) },
    L { n: "sc: horsepower", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-16, -3, -13, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, horsepower)), back: |v| value!(sc::quantity!(v, horsepower), horsepower, f64, sc::Cc) },
    L { n: "sc: hp", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-16, -3, -13, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hp)), back: |v| value!(sc::quantity!(v, hp), hp, f64, sc::Cc) },
    L { n: "sc: pascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, pascal)), back: |v| value!(sc::quantity!(v, pascal), pascal, f64, sc::Cc) },
    L { n: "sc: Pa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Pa)), back: |v| value!(sc::quantity!(v, Pa), Pa, f64, sc::Cc) },
    L { n: "sc: torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, torr)), back: |v| value!(sc::quantity!(v, torr), torr, f64, sc::Cc) },
    L { n: "sc: Torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Torr)), back: |v| value!(sc::quantity!(v, Torr), Torr, f64, sc::Cc) },
    L { n: "sc: psi", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 6894.757293168362f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, psi)), back: |v| value!(sc::quantity!(v, psi), psi, f64, sc::Cc) },
    L { n: "sc: bar", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 100000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, bar)), back: |v| value!(sc::quantity!(v, bar), bar, f64, sc::Cc) },
    L { n: "sc: atmosphere", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, atmosphere)), back: |v| value!(sc::quantity!(v, atmosphere), atmosphere, f64, sc::Cc) },
    L { n: "sc: atm", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, atm)), back: |v| value!(sc::quantity!(v, atm), atm, f64, sc::Cc) },
    L { n: "sc: coulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [5, 1, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, coulomb)), back: |v| value!(sc::quantity!(v, coulomb), coulomb, f64, sc::Cc) },
    L { n: "sc: C", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [5, 1, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, C)), back: |v| value!(sc::quantity!(v, C), C, f64, sc::Cc) },
    L { n: "sc: volt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-19, -3, -16, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, volt)), back: |v| value!(sc::quantity!(v, volt), volt, f64, sc::Cc) },
    L { n: "sc: V", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-19, -3, -16, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, V)), back: |v| value!(sc::quantity!(v, V), V, f64, sc::Cc) },
    L { n: "sc: farad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [24, 4, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, farad)), back: |v| value!(sc::quantity!(v, farad), farad, f64, sc::Cc) },
    L { n: "sc: F", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [24, 4, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, F)), back: |v| value!(sc::quantity!(v, F), F, f64, sc::Cc) },
    L { n: "sc: ohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-22, -3, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ohm)), back: |v| value!(sc::quantity!(v, ohm), ohm, f64, sc::Cc) },
    L { n: "sc: Ω", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-22, -3, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Ω)), back: |v| value!(sc::quantity!(v, Ω), Ω, f64, sc::Cc) },
    L { n: "sc: siemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [22, 3, 19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, siemens)), back: |v| value!(sc::quantity!(v, siemens), siemens, f64, sc::Cc) },
    L { n: "sc: S", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [22, 3, 19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, S)), back: |v| value!(sc::quantity!(v, S), S, f64, sc::Cc) },
    L { n: "sc: henry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-20, -2, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, henry)), back: |v| value!(sc::quantity!(v, henry), henry, f64, sc::Cc) },
    L { n: "sc: H", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-20, -2, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, H)), back: |v| value!(sc::quantity!(v, H), H, f64, sc::Cc) },
    L { n: "sc: tesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, tesla)), back: |v| value!(sc::quantity!(v, tesla), tesla, f64, sc::Cc) },
    L { n: "sc: T", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, T)), back: |v| value!(sc::quantity!(v, T), T, f64, sc::Cc) },
    L { n: "sc: weber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-17, -2, -15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, weber)), back: |v| value!(sc::quantity!(v, weber), weber, f64, sc::Cc) },
    L { n: "sc: Wb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-17, -2, -15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Wb)), back: |v| value!(sc::quantity!(v, Wb), Wb, f64, sc::Cc) },
    L { n: "sc: lux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [7, 0, 7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lux)), back: |v| value!(sc::quantity!(v, lux), lux, f64, sc::Cc) },
    L { n: "sc: lx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [7, 0, 7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lx)), back: |v| value!(sc::quantity!(v, lx), lx, f64, sc::Cc) },
    L { n: "sc: gauss", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gauss)), back: |v| value!(sc::quantity!(v, gauss), gauss, f64, sc::Cc) },
    L { n: "sc: G", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, G)), back: |v| value!(sc::quantity!(v, G), G, f64, sc::Cc) },
    L { n: "sc: stokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, -1, -5, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, stokes)), back: |v| value!(sc::quantity!(v, stokes), stokes, f64, sc::Cc) },
    L { n: "sc: St", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-6, -1, -5, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, St)), back: |v| value!(sc::quantity!(v, St), St, f64, sc::Cc) },
];
pub static COMP_SC: &[L] = &[
    L { n: "sc: kg * m / s^2", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-12, -2, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg * m / s^2)), back: |v| value!(sc::quantity!(v, kg * m / s^2), kg * m / s^2, f64, sc::Cc) },
    L { n: "sc: m / s / s", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-6, -2, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m / s / s)), back: |v| value!(sc::quantity!(v, m / s / s), m / s / s, f64, sc::Cc) },
    L { n: "sc: J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-8, 0, -7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, J / (kg * K))), back: |v| value!(sc::quantity!(v, J / (kg * K)), J / (kg * K), f64, sc::Cc) },
    L { n: "sc: V * s^2 / m", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-13, -1, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, V * s^2 / m)), back: |v| value!(sc::quantity!(v, V * s^2 / m), V * s^2 / m, f64, sc::Cc) },
    L { n: "sc: km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-4, -1, -3, 0], val: 0.2777777777777778f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, km / h)), back: |v| value!(sc::quantity!(v, km / h), km / h, f64, sc::Cc) },
    L { n: "sc: mi / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-4, -1, -3, 0], val: 0.44704f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mi / h)), back: |v| value!(sc::quantity!(v, mi / h), mi / h, f64, sc::Cc) },
    L { n: "sc: lb * ft^2 / min", d: [1, 2, -1, 0, 0, 0, 0, 0], s: [-12, -1, -11, 0], val: 0.00070233516823008f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lb * ft^2 / min)), back: |v| value!(sc::quantity!(v, lb * ft^2 / min), lb * ft^2 / min, f64, sc::Cc) },
    L { n: "sc: ft^3", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.028316846592f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ft^3)), back: |v| value!(sc::quantity!(v, ft^3), ft^3, f64, sc::Cc) },
    L { n: "sc: m / ft", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3.2808398950131235f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m / ft)), back: |v| value!(sc::quantity!(v, m / ft), m / ft, f64, sc::Cc) },
    L { n: "sc: gal / min", d: [0, 3, -1, 0, 0, 0, 0, 0], s: [-8, -1, -7, 0], val: 6.30901964e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gal / min)), back: |v| value!(sc::quantity!(v, gal / min), gal / min, f64, sc::Cc) },
    L { n: "sc: W / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-12, -3, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, W / m^2)), back: |v| value!(sc::quantity!(v, W / m^2), W / m^2, f64, sc::Cc) },
    L { n: "sc: mW / cm^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-12, -3, -9, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mW / cm^2)), back: |v| value!(sc::quantity!(v, mW / cm^2), mW / cm^2, f64, sc::Cc) },
    L { n: "sc: m^-1", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m^-1)), back: |v| value!(sc::quantity!(v, m^-1), m^-1, f64, sc::Cc) },
    L { n: "sc: 1 / s", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, 1 / s)), back: |v| value!(sc::quantity!(v, 1 / s), 1 / s, f64, sc::Cc) },
    L { n: "sc: ft^-2 * lb", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 4.88242763638305f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ft^-2 * lb)), back: |v| value!(sc::quantity!(v, ft^-2 * lb), ft^-2 * lb, f64, sc::Cc) },
    L { n: "sc: (km * g) / (ms * A)", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-13, -1, -12, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (km * g) / (ms * A))), back: |v| value!(sc::quantity!(v, (km * g) / (ms * A)), (km * g) / (ms * A), f64, sc::Cc) },
    L { n: "sc: kWh / yr", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-16, -3, -13, 0], val: 0.11407955261548605f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kWh / yr)), back: |v| value!(sc::quantity!(v, kWh / yr), kWh / yr, f64, sc::Cc) },
    L { n: "sc: deg / s", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, deg / s)), back: |v| value!(sc::quantity!(v, deg / s), deg / s, f64, sc::Cc) },
    L { n: "sc: rad * m^2", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [-6, -2, -5, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad * m^2)), back: |v| value!(sc::quantity!(v, rad * m^2), rad * m^2, f64, sc::Cc) },
    L { n: "sc: psi * gal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 26.09949550537946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, psi * gal)), back: |v| value!(sc::quantity!(v, psi * gal), psi * gal, f64, sc::Cc) },
    L { n: "sc: mol / L", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol / L)), back: |v| value!(sc::quantity!(v, mol / L), mol / L, f64, sc::Cc) },
    L { n: "sc: hp * h", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 2684519.537696173f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, hp * h)), back: |v| value!(sc::quantity!(v, hp * h), hp * h, f64, sc::Cc) },
    L { n: "sc: acre * ft", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1233.48183754752f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, acre * ft)), back: |v| value!(sc::quantity!(v, acre * ft), acre * ft, f64, sc::Cc) },
    L { n: "sc: eV / K", d: [1, 2, -2, 0, -1, 0, 0, 0], s: [-14, 0, -13, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, eV / K)), back: |v| value!(sc::quantity!(v, eV / K), eV / K, f64, sc::Cc) },
    L { n: "sc: N * m", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, N * m)), back: |v| value!(sc::quantity!(v, N * m), N * m, f64, sc::Cc) },
    L { n: "sc: Pa * s", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-6, -1, -5, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, Pa * s)), back: |v| value!(sc::quantity!(v, Pa * s), Pa * s, f64, sc::Cc) },
    L { n: "sc: A * s * V", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A * s * V)), back: |v| value!(sc::quantity!(v, A * s * V), A * s * V, f64, sc::Cc) },
    L { n: "sc: cd / m^2", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [7, 0, 7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd / m^2)), back: |v| value!(sc::quantity!(v, cd / m^2), cd / m^2, f64, sc::Cc) },
    L { n: "sc: C / mol", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [11, 1, 10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, C / mol)), back: |v| value!(sc::quantity!(v, C / mol), C / mol, f64, sc::Cc) },
    L { n: "sc: oz / ft / ft", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.30515172727394063f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, oz / ft / ft)), back: |v| value!(sc::quantity!(v, oz / ft / ft), oz / ft / ft, f64, sc::Cc) },
    L { n: "sc: (ft / s)^2", d: [0, 2, -2, 0, 0, 0, 0, 0], s: [-8, -2, -6, 0], val: 0.09290304f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (ft / s)^2)), back: |v| value!(sc::quantity!(v, (ft / s)^2), (ft / s)^2, f64, sc::Cc) },
    L { n: "sc: (lb / ft^3)^-1", d: [-1, 3, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.06242796057614461f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (lb / ft^3)^-1)), back: |v| value!(sc::quantity!(v, (lb / ft^3)^-1), (lb / ft^3)^-1, f64, sc::Cc) },
    L { n: "sc: kg2 * m3", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg2 * m3)), back: |v| value!(sc::quantity!(v, kg2 * m3), kg2 * m3, f64, sc::Cc) },
    L { n: "sc: yd . stone / wk", d: [1, 1, -1, 0, 0, 0, 0, 0], s: [-10, -1, -9, 0], val: 9.601038498333333e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, yd . stone / wk)), back: |v| value!(sc::quantity!(v, yd . stone / wk), yd . stone / wk, f64, sc::Cc) },
    L { n: "sc: (ft)^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 35.31466672148859f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (ft)^-3)), back: |v| value!(sc::quantity!(v, (ft)^-3), (ft)^-3, f64, sc::Cc) },
    L { n: "sc: J * (lb * s)^-3", d: [-2, 2, -5, 0, 0, 0, 0, 0], s: [-2, -5, 3, 0], val: 10.715261600999527f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, J * (lb * s)^-3)), back: |v| value!(sc::quantity!(v, J * (lb * s)^-3), J * (lb * s)^-3, f64, sc::Cc) },
    L { n: "sc: (ft * min)^-4 * kg", d: [1, -4, -4, 0, 0, 0, 0, 0], s: [-6, -4, -2, 0], val: 8.939951192820376e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (ft * min)^-4 * kg)), back: |v| value!(sc::quantity!(v, (ft * min)^-4 * kg), (ft * min)^-4 * kg, f64, sc::Cc) },
    L { n: "sc: yd^5", d: [0, 5, 0, 0, 0, 0, 0, 0], s: [-10, 0, -10, 0], val: 0.6392652349813368f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, yd^5)), back: |v| value!(sc::quantity!(v, yd^5), yd^5, f64, sc::Cc) },
    L { n: "sc: gal^-3", d: [0, -9, 0, 0, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 18435741.533348676f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, gal^-3)), back: |v| value!(sc::quantity!(v, gal^-3), gal^-3, f64, sc::Cc) },
    L { n: "sc: (mi / h)^3", d: [0, 3, -3, 0, 0, 0, 0, 0], s: [-12, -3, -9, 0], val: 0.089338602225664f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (mi / h)^3)), back: |v| value!(sc::quantity!(v, (mi / h)^3), (mi / h)^3, f64, sc::Cc) },
    L { n: "sc: (lb^2 * ft) / (yd^2 * oz)", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], val: 2.6456247885680955f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (lb^2 * ft) / (yd^2 * oz))), back: |v| value!(sc::quantity!(v, (lb^2 * ft) / (yd^2 * oz)), (lb^2 * ft) / (yd^2 * oz), f64, sc::Cc) },
    L { n: "sc: deg^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [6, 6, 3, -3], val: 5832000.0f64, pi: -3, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, deg^-3)), back: |v| value!(sc::quantity!(v, deg^-3), deg^-3, f64, sc::Cc) },
    L { n: "sc: (mi * acre)^-1", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.5354416549051374e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, (mi * acre)^-1)), back: |v| value!(sc::quantity!(v, (mi * acre)^-1), (mi * acre)^-1, f64, sc::Cc) },
    L { n: "sc: lb * (ft / (min * gal))", d: [1, -2, -1, 0, 0, 0, 0, 0], s: [-4, -1, -3, 0], val: 0.6087182507698349f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, lb * (ft / (min * gal)))), back: |v| value!(sc::quantity!(v, lb * (ft / (min * gal))), lb * (ft / (min * gal)), f64, sc::Cc) },
    L { n: "sc: kg^-4", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [24, 0, 24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^-4)), back: |v| value!(sc::quantity!(v, kg^-4), kg^-4, f64, sc::Cc) },
    L { n: "sc: kg^-3", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^-3)), back: |v| value!(sc::quantity!(v, kg^-3), kg^-3, f64, sc::Cc) },
    L { n: "sc: kg^-2", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^-2)), back: |v| value!(sc::quantity!(v, kg^-2), kg^-2, f64, sc::Cc) },
    L { n: "sc: kg^2", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^2)), back: |v| value!(sc::quantity!(v, kg^2), kg^2, f64, sc::Cc) },
    L { n: "sc: kg^3", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^3)), back: |v| value!(sc::quantity!(v, kg^3), kg^3, f64, sc::Cc) },
    L { n: "sc: kg^4", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [-24, 0, -24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg^4)), back: |v| value!(sc::quantity!(v, kg^4), kg^4, f64, sc::Cc) },
    L { n: "sc: m^-4", d: [0, -4, 0, 0, 0, 0, 0, 0], s: [8, 0, 8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m^-4)), back: |v| value!(sc::quantity!(v, m^-4), m^-4, f64, sc::Cc) },
    L { n: "sc: m^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m^-3)), back: |v| value!(sc::quantity!(v, m^-3), m^-3, f64, sc::Cc) },
    L { n: "sc: m^-2", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m^-2)), back: |v| value!(sc::quantity!(v, m^-2), m^-2, f64, sc::Cc) },
    L { n: "sc: m^4", d: [0, 4, 0, 0, 0, 0, 0, 0], s: [-8, 0, -8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m^4)), back: |v| value!(sc::quantity!(v, m^4), m^4, f64, sc::Cc) },
    L { n: "sc: s^-4", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [-8, -4, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^-4)), back: |v| value!(sc::quantity!(v, s^-4), s^-4, f64, sc::Cc) },
    L { n: "sc: s^-3", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [-6, -3, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^-3)), back: |v| value!(sc::quantity!(v, s^-3), s^-3, f64, sc::Cc) },
    L { n: "sc: s^-2", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^-2)), back: |v| value!(sc::quantity!(v, s^-2), s^-2, f64, sc::Cc) },
    L { n: "sc: s^2", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^2)), back: |v| value!(sc::quantity!(v, s^2), s^2, f64, sc::Cc) },
    L { n: "sc: s^3", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [6, 3, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^3)), back: |v| value!(sc::quantity!(v, s^3), s^3, f64, sc::Cc) },
    L { n: "sc: s^4", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [8, 4, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, s^4)), back: |v| value!(sc::quantity!(v, s^4), s^4, f64, sc::Cc) },
    L { n: "sc: A^-4", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^-4)), back: |v| value!(sc::quantity!(v, A^-4), A^-4, f64, sc::Cc) },
    L { n: "sc: A^-3", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^-3)), back: |v| value!(sc::quantity!(v, A^-3), A^-3, f64, sc::Cc) },
    L { n: "sc: A^-2", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^-2)), back: |v| value!(sc::quantity!(v, A^-2), A^-2, f64, sc::Cc) },
    L { n: "sc: A^2", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^2)), back: |v| value!(sc::quantity!(v, A^2), A^2, f64, sc::Cc) },
    L { n: "sc: A^3", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^3)), back: |v| value!(sc::quantity!(v, A^3), A^3, f64, sc::Cc) },
    L { n: "sc: A^4", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^4)), back: |v| value!(sc::quantity!(v, A^4), A^4, f64, sc::Cc) },
    L { n: "sc: K^-4", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 8, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^-4)), back: |v| value!(sc::quantity!(v, K^-4), K^-4, f64, sc::Cc) },
    L { n: "sc: K^-3", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 6, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^-3)), back: |v| value!(sc::quantity!(v, K^-3), K^-3, f64, sc::Cc) },
    L { n: "sc: K^-2", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 4, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^-2)), back: |v| value!(sc::quantity!(v, K^-2), K^-2, f64, sc::Cc) },
    L { n: "sc: K^2", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, -4, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^2)), back: |v| value!(sc::quantity!(v, K^2), K^2, f64, sc::Cc) },
    L { n: "sc: K^3", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, -6, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^3)), back: |v| value!(sc::quantity!(v, K^3), K^3, f64, sc::Cc) },
    L { n: "sc: K^4", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, -8, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K^4)), back: |v| value!(sc::quantity!(v, K^4), K^4, f64, sc::Cc) },
    L { n: "sc: mol^-4", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [24, 0, 24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^-4)), back: |v| value!(sc::quantity!(v, mol^-4), mol^-4, f64, sc::Cc) },
    L { n: "sc: mol^-3", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^-3)), back: |v| value!(sc::quantity!(v, mol^-3), mol^-3, f64, sc::Cc) },
    L { n: "sc: mol^-2", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^-2)), back: |v| value!(sc::quantity!(v, mol^-2), mol^-2, f64, sc::Cc) },
    L { n: "sc: mol^2", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^2)), back: |v| value!(sc::quantity!(v, mol^2), mol^2, f64, sc::Cc) },
    L { n: "sc: mol^3", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^3)), back: |v| value!(sc::quantity!(v, mol^3), mol^3, f64, sc::Cc) },
    L { n: "sc: mol^4", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [-24, 0, -24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol^4)), back: |v| value!(sc::quantity!(v, mol^4), mol^4, f64, sc::Cc) },
    L { n: "sc: cd^-4", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^-4)), back: |v| value!(sc::quantity!(v, cd^-4), cd^-4, f64, sc::Cc) },
    L { n: "sc: cd^-3", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^-3)), back: |v| value!(sc::quantity!(v, cd^-3), cd^-3, f64, sc::Cc) },
    L { n: "sc: cd^-2", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^-2)), back: |v| value!(sc::quantity!(v, cd^-2), cd^-2, f64, sc::Cc) },
    L { n: "sc: cd^2", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^2)), back: |v| value!(sc::quantity!(v, cd^2), cd^2, f64, sc::Cc) },
    L { n: "sc: cd^3", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^3)), back: |v| value!(sc::quantity!(v, cd^3), cd^3, f64, sc::Cc) },
    L { n: "sc: cd^4", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd^4)), back: |v| value!(sc::quantity!(v, cd^4), cd^4, f64, sc::Cc) },
    L { n: "sc: rad^-4", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [8, 8, 4, -4], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^-4)), back: |v| value!(sc::quantity!(v, rad^-4), rad^-4, f64, sc::Cc) },
    L { n: "sc: rad^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [6, 6, 3, -3], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^-3)), back: |v| value!(sc::quantity!(v, rad^-3), rad^-3, f64, sc::Cc) },
    L { n: "sc: rad^-2", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [4, 4, 2, -2], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^-2)), back: |v| value!(sc::quantity!(v, rad^-2), rad^-2, f64, sc::Cc) },
    L { n: "sc: rad^2", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [-4, -4, -2, 2], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^2)), back: |v| value!(sc::quantity!(v, rad^2), rad^2, f64, sc::Cc) },
    L { n: "sc: rad^3", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [-6, -6, -3, 3], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^3)), back: |v| value!(sc::quantity!(v, rad^3), rad^3, f64, sc::Cc) },
    L { n: "sc: rad^4", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [-8, -8, -4, 4], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad^4)), back: |v| value!(sc::quantity!(v, rad^4), rad^4, f64, sc::Cc) },
    L { n: "sc: kg * m * s * A * K * mol * cd * rad", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-8, -3, -7, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kg * m * s * A * K * mol * cd * rad)), back: |v| value!(sc::quantity!(v, kg * m * s * A * K * mol * cd * rad), kg * m * s * A * K * mol * cd * rad, f64, sc::Cc) },
    L { n: "sc: g / cm^3", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, g / cm^3)), back: |v| value!(sc::quantity!(v, g / cm^3), g / cm^3, f64, sc::Cc) },
    L { n: "sc: mg / mm", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mg / mm)), back: |v| value!(sc::quantity!(v, mg / mm), mg / mm, f64, sc::Cc) },
    L { n: "sc: mol / m^3", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mol / m^3)), back: |v| value!(sc::quantity!(v, mol / m^3), mol / m^3, f64, sc::Cc) },
    L { n: "sc: cd * s", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [5, 1, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, cd * s)), back: |v| value!(sc::quantity!(v, cd * s), cd * s, f64, sc::Cc) },
    L { n: "sc: K / mm", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [2, -2, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, K / mm)), back: |v| value!(sc::quantity!(v, K / mm), K / mm, f64, sc::Cc) },
    L { n: "sc: deg / min", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, deg / min)), back: |v| value!(sc::quantity!(v, deg / min), deg / min, f64, sc::Cc) },
    L { n: "sc: kJ / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-8, 0, -7, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kJ / (kg * K))), back: |v| value!(sc::quantity!(v, kJ / (kg * K)), kJ / (kg * K), f64, sc::Cc) },
    L { n: "sc: mW / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-12, -3, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, mW / m^2)), back: |v| value!(sc::quantity!(v, mW / m^2), mW / m^2, f64, sc::Cc) },
    L { n: "sc: kPa * L", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-14, -2, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, kPa * L)), back: |v| value!(sc::quantity!(v, kPa * L), kPa * L, f64, sc::Cc) },
    L { n: "sc: uF * V", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [5, 1, 4, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, uF * V)), back: |v| value!(sc::quantity!(v, uF * V), uF * V, f64, sc::Cc) },
    L { n: "sc: m / mm", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, m / mm)), back: |v| value!(sc::quantity!(v, m / mm), m / mm, f64, sc::Cc) },
    L { n: "sc: ft / mi", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001893939393939394f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, ft / mi)), back: |v| value!(sc::quantity!(v, ft / mi), ft / mi, f64, sc::Cc) },
    L { n: "sc: min / h", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, min / h)), back: |v| value!(sc::quantity!(v, min / h), min / h, f64, sc::Cc) },
    L { n: "sc: deg / rad", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, deg / rad)), back: |v| value!(sc::quantity!(v, deg / rad), deg / rad, f64, sc::Cc) },
    L { n: "sc: 1 / min", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, 1 / min)), back: |v| value!(sc::quantity!(v, 1 / min), 1 / min, f64, sc::Cc) },
    L { n: "sc: rad / s^2", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [-6, -4, -3, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, rad / s^2)), back: |v| value!(sc::quantity!(v, rad / s^2), rad / s^2, f64, sc::Cc) },
    L { n: "sc: A^2 * s^4 / (kg * m^2)", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [24, 4, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sc::quantity!(v, A^2 * s^4 / (kg * m^2))), back: |v| value!(sc::quantity!(v, A^2 * s^4 / (kg * m^2)), A^2 * s^4 / (kg * m^2), f64, sc::Cc) },
];
pub mod m_sc { use super::*; use super::sc::*;
pub static METHOD: &[L] = &[
    L { n: "sc: grams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.grams()), back: |v| value!(v.grams(), gram, f64, sc::Cc) },
    L { n: "sc: attograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attograms()), back: |v| value!(v.attograms(), attogram, f64, sc::Cc) },
    L { n: "sc: centigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centigrams()), back: |v| value!(v.centigrams(), centigram, f64, sc::Cc) },
    L { n: "sc: decagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decagrams()), back: |v| value!(v.decagrams(), decagram, f64, sc::Cc) },
    L { n: "sc: decigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decigrams()), back: |v| value!(v.decigrams(), decigram, f64, sc::Cc) },
    L { n: "sc: exagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exagrams()), back: |v| value!(v.exagrams(), exagram, f64, sc::Cc) },
    L { n: "sc: femtograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtograms()), back: |v| value!(v.femtograms(), femtogram, f64, sc::Cc) },
    L { n: "sc: gigagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigagrams()), back: |v| value!(v.gigagrams(), gigagram, f64, sc::Cc) },
    L { n: "sc: hectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectograms()), back: |v| value!(v.hectograms(), hectogram, f64, sc::Cc) },
    L { n: "sc: kilograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilograms()), back: |v| value!(v.kilograms(), kilogram, f64, sc::Cc) },
    L { n: "sc: megagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megagrams()), back: |v| value!(v.megagrams(), megagram, f64, sc::Cc) },
    L { n: "sc: micrograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrograms()), back: |v| value!(v.micrograms(), microgram, f64, sc::Cc) },
    L { n: "sc: milligrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milligrams()), back: |v| value!(v.milligrams(), milligram, f64, sc::Cc) },
    L { n: "sc: nanograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanograms()), back: |v| value!(v.nanograms(), nanogram, f64, sc::Cc) },
    L { n: "sc: petagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petagrams()), back: |v| value!(v.petagrams(), petagram, f64, sc::Cc) },
    L { n: "sc: picograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picograms()), back: |v| value!(v.picograms(), picogram, f64, sc::Cc) },
    L { n: "sc: quectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-33f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectograms()), back: |v| value!(v.quectograms(), quectogram, f64, sc::Cc) },
    L { n: "sc: quettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettagrams()), back: |v| value!(v.quettagrams(), quettagram, f64, sc::Cc) },
    L { n: "sc: ronnagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnagrams()), back: |v| value!(v.ronnagrams(), ronnagram, f64, sc::Cc) },
    L { n: "sc: rontograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontograms()), back: |v| value!(v.rontograms(), rontogram, f64, sc::Cc) },
    L { n: "sc: teragrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teragrams()), back: |v| value!(v.teragrams(), teragram, f64, sc::Cc) },
    L { n: "sc: yoctograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctograms()), back: |v| value!(v.yoctograms(), yoctogram, f64, sc::Cc) },
    L { n: "sc: yottagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottagrams()), back: |v| value!(v.yottagrams(), yottagram, f64, sc::Cc) },
    L { n: "sc: zeptograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptograms()), back: |v| value!(v.zeptograms(), zeptogram, f64, sc::Cc) },
    L { n: "sc: zettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettagrams()), back: |v| value!(v.zettagrams(), zettagram, f64, sc::Cc) },
    L { n: "sc: meters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.meters()), back: |v| value!(v.meters(), meter, f64, sc::Cc) },
    L { n: "sc: attometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attometers()), back: |v| value!(v.attometers(), attometer, f64, sc::Cc) },
    L { n: "sc: centimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimeters()), back: |v| value!(v.centimeters(), centimeter, f64, sc::Cc) },
    L { n: "sc: decameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decameters()), back: |v| value!(v.decameters(), decameter, f64, sc::Cc) },
    L { n: "sc: decimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimeters()), back: |v| value!(v.decimeters(), decimeter, f64, sc::Cc) },
    L { n: "sc: exameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exameters()), back: |v| value!(v.exameters(), exameter, f64, sc::Cc) },
    L { n: "sc: femtometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtometers()), back: |v| value!(v.femtometers(), femtometer, f64, sc::Cc) },
    L { n: "sc: gigameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigameters()), back: |v| value!(v.gigameters(), gigameter, f64, sc::Cc) },
    L { n: "sc: hectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectometers()), back: |v| value!(v.hectometers(), hectometer, f64, sc::Cc) },
    L { n: "sc: kilometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilometers()), back: |v| value!(v.kilometers(), kilometer, f64, sc::Cc) },
    L { n: "sc: megameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megameters()), back: |v| value!(v.megameters(), megameter, f64, sc::Cc) },
    L { n: "sc: micrometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrometers()), back: |v| value!(v.micrometers(), micrometer, f64, sc::Cc) },
    L { n: "sc: millimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimeters()), back: |v| value!(v.millimeters(), millimeter, f64, sc::Cc) },
    L { n: "sc: nanometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanometers()), back: |v| value!(v.nanometers(), nanometer, f64, sc::Cc) },
    L { n: "sc: petameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petameters()), back: |v| value!(v.petameters(), petameter, f64, sc::Cc) },
    L { n: "sc: picometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picometers()), back: |v| value!(v.picometers(), picometer, f64, sc::Cc) },
    L { n: "sc: quectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectometers()), back: |v| value!(v.quectometers(), quectometer, f64, sc::Cc) },
    L { n: "sc: quettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettameters()), back: |v| value!(v.quettameters(), quettameter, f64, sc::Cc) },
    L { n: "sc: ronnameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnameters()), back: |v| value!(v.ronnameters(), ronnameter, f64, sc::Cc) },
    L { n: "sc: rontometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontometers()), back: |v| value!(v.rontometers(), rontometer, f64, sc::Cc) },
    L { n: "sc: terameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terameters()), back: |v| value!(v.terameters(), terameter, f64, sc::Cc) },
    L { n: "sc: yoctometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctometers()), back: |v| value!(v.yoctometers(), yoctometer, f64, sc::Cc) },
    L { n: "sc: yottameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottameters()), back: |v| value!(v.yottameters(), yottameter, f64, sc::Cc) },
    L { n: "sc: zeptometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptometers()), back: |v| value!(v.zeptometers(), zeptometer, f64, sc::Cc) },
    L { n: "sc: zettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettameters()), back: |v| value!(v.zettameters(), zettameter, f64, sc::Cc) },
    L { n: "sc: seconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.seconds()), back: |v| value!(v.seconds(), second, f64, sc::Cc) },
    L { n: "sc: attoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoseconds()), back: |v| value!(v.attoseconds(), attosecond, f64, sc::Cc) },
    L { n: "sc: centiseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiseconds()), back: |v| value!(v.centiseconds(), centisecond, f64, sc::Cc) },
    L { n: "sc: decaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaseconds()), back: |v| value!(v.decaseconds(), decasecond, f64, sc::Cc) },
    L { n: "sc: deciseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciseconds()), back: |v| value!(v.deciseconds(), decisecond, f64, sc::Cc) },
    L { n: "sc: exaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaseconds()), back: |v| value!(v.exaseconds(), exasecond, f64, sc::Cc) },
    L { n: "sc: femtoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoseconds()), back: |v| value!(v.femtoseconds(), femtosecond, f64, sc::Cc) },
    L { n: "sc: gigaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaseconds()), back: |v| value!(v.gigaseconds(), gigasecond, f64, sc::Cc) },
    L { n: "sc: hectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoseconds()), back: |v| value!(v.hectoseconds(), hectosecond, f64, sc::Cc) },
    L { n: "sc: kiloseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloseconds()), back: |v| value!(v.kiloseconds(), kilosecond, f64, sc::Cc) },
    L { n: "sc: megaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaseconds()), back: |v| value!(v.megaseconds(), megasecond, f64, sc::Cc) },
    L { n: "sc: microseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microseconds()), back: |v| value!(v.microseconds(), microsecond, f64, sc::Cc) },
    L { n: "sc: milliseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliseconds()), back: |v| value!(v.milliseconds(), millisecond, f64, sc::Cc) },
    L { n: "sc: nanoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoseconds()), back: |v| value!(v.nanoseconds(), nanosecond, f64, sc::Cc) },
    L { n: "sc: petaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaseconds()), back: |v| value!(v.petaseconds(), petasecond, f64, sc::Cc) },
    L { n: "sc: picoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoseconds()), back: |v| value!(v.picoseconds(), picosecond, f64, sc::Cc) },
    L { n: "sc: quectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoseconds()), back: |v| value!(v.quectoseconds(), quectosecond, f64, sc::Cc) },
    L { n: "sc: quettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaseconds()), back: |v| value!(v.quettaseconds(), quettasecond, f64, sc::Cc) },
    L { n: "sc: ronnaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaseconds()), back: |v| value!(v.ronnaseconds(), ronnasecond, f64, sc::Cc) },
    L { n: "sc: rontoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoseconds()), back: |v| value!(v.rontoseconds(), rontosecond, f64, sc::Cc) },
    L { n: "sc: teraseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraseconds()), back: |v| value!(v.teraseconds(), terasecond, f64, sc::Cc) },
    L { n: "sc: yoctoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoseconds()), back: |v| value!(v.yoctoseconds(), yoctosecond, f64, sc::Cc) },
    L { n: "sc: yottaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaseconds()), back: |v| value!(v.yottaseconds(), yottasecond, f64, sc::Cc) },
    L { n: "sc: zeptoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoseconds()), back: |v| value!(v.zeptoseconds(), zeptosecond, f64, sc::Cc) },
    L { n: "sc: zettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaseconds()), back: |v| value!(v.zettaseconds(), zettasecond, f64, sc::Cc) },
    L { n: "sc: amperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.amperes()), back: |v| value!(v.amperes(), ampere, f64, sc::Cc) },
    L { n: "sc: attoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoamperes()), back: |v| value!(v.attoamperes(), attoampere, f64, sc::Cc) },
    L { n: "sc: centiamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiamperes()), back: |v| value!(v.centiamperes(), centiampere, f64, sc::Cc) },
    L { n: "sc: decaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaamperes()), back: |v| value!(v.decaamperes(), decaampere, f64, sc::Cc) },
    L { n: "sc: deciamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciamperes()), back: |v| value!(v.deciamperes(), deciampere, f64, sc::Cc) },
    L { n: "sc: exaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaamperes()), back: |v| value!(v.exaamperes(), exaampere, f64, sc::Cc) },
    L { n: "sc: femtoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoamperes()), back: |v| value!(v.femtoamperes(), femtoampere, f64, sc::Cc) },
    L { n: "sc: gigaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaamperes()), back: |v| value!(v.gigaamperes(), gigaampere, f64, sc::Cc) },
    L { n: "sc: hectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoamperes()), back: |v| value!(v.hectoamperes(), hectoampere, f64, sc::Cc) },
    L { n: "sc: kiloamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloamperes()), back: |v| value!(v.kiloamperes(), kiloampere, f64, sc::Cc) },
    L { n: "sc: megaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaamperes()), back: |v| value!(v.megaamperes(), megaampere, f64, sc::Cc) },
    L { n: "sc: microamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microamperes()), back: |v| value!(v.microamperes(), microampere, f64, sc::Cc) },
    L { n: "sc: milliamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliamperes()), back: |v| value!(v.milliamperes(), milliampere, f64, sc::Cc) },
    L { n: "sc: nanoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoamperes()), back: |v| value!(v.nanoamperes(), nanoampere, f64, sc::Cc) },
    L { n: "sc: petaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaamperes()), back: |v| value!(v.petaamperes(), petaampere, f64, sc::Cc) },
    L { n: "sc: picoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoamperes()), back: |v| value!(v.picoamperes(), picoampere, f64, sc::Cc) },
    L { n: "sc: quectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoamperes()), back: |v| value!(v.quectoamperes(), quectoampere, f64, sc::Cc) },
    L { n: "sc: quettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaamperes()), back: |v| value!(v.quettaamperes(), quettaampere, f64, sc::Cc) },
    L { n: "sc: ronnaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaamperes()), back: |v| value!(v.ronnaamperes(), ronnaampere, f64, sc::Cc) },
    L { n: "sc: rontoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoamperes()), back: |v| value!(v.rontoamperes(), rontoampere, f64, sc::Cc) },
    L { n: "sc: teraamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraamperes()), back: |v| value!(v.teraamperes(), teraampere, f64, sc::Cc) },
    L { n: "sc: yoctoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoamperes()), back: |v| value!(v.yoctoamperes(), yoctoampere, f64, sc::Cc) },
    L { n: "sc: yottaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaamperes()), back: |v| value!(v.yottaamperes(), yottaampere, f64, sc::Cc) },
    L { n: "sc: zeptoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoamperes()), back: |v| value!(v.zeptoamperes(), zeptoampere, f64, sc::Cc) },
    L { n: "sc: zettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaamperes()), back: |v| value!(v.zettaamperes(), zettaampere, f64, sc::Cc) },
    L { n: "sc: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kelvin()), back: |v| value!(v.kelvin(), kelvin, f64, sc::Cc) },
    L { n: "sc: attokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attokelvin()), back: |v| value!(v.attokelvin(), attokelvin, f64, sc::Cc) },
    L { n: "sc: centikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centikelvin()), back: |v| value!(v.centikelvin(), centikelvin, f64, sc::Cc) },
    L { n: "sc: decakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decakelvin()), back: |v| value!(v.decakelvin(), decakelvin, f64, sc::Cc) },
    L { n: "sc: decikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decikelvin()), back: |v| value!(v.decikelvin(), decikelvin, f64, sc::Cc) },
    L { n: "sc: exakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exakelvin()), back: |v| value!(v.exakelvin(), exakelvin, f64, sc::Cc) },
    L { n: "sc: femtokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtokelvin()), back: |v| value!(v.femtokelvin(), femtokelvin, f64, sc::Cc) },
    L { n: "sc: gigakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigakelvin()), back: |v| value!(v.gigakelvin(), gigakelvin, f64, sc::Cc) },
    L { n: "sc: hectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectokelvin()), back: |v| value!(v.hectokelvin(), hectokelvin, f64, sc::Cc) },
    L { n: "sc: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilokelvin()), back: |v| value!(v.kilokelvin(), kilokelvin, f64, sc::Cc) },
    L { n: "sc: megakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megakelvin()), back: |v| value!(v.megakelvin(), megakelvin, f64, sc::Cc) },
    L { n: "sc: microkelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microkelvin()), back: |v| value!(v.microkelvin(), microkelvin, f64, sc::Cc) },
    L { n: "sc: millikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millikelvin()), back: |v| value!(v.millikelvin(), millikelvin, f64, sc::Cc) },
    L { n: "sc: nanokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanokelvin()), back: |v| value!(v.nanokelvin(), nanokelvin, f64, sc::Cc) },
    L { n: "sc: petakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petakelvin()), back: |v| value!(v.petakelvin(), petakelvin, f64, sc::Cc) },
    L { n: "sc: picokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picokelvin()), back: |v| value!(v.picokelvin(), picokelvin, f64, sc::Cc) },
    L { n: "sc: quectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectokelvin()), back: |v| value!(v.quectokelvin(), quectokelvin, f64, sc::Cc) },
    L { n: "sc: quettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettakelvin()), back: |v| value!(v.quettakelvin(), quettakelvin, f64, sc::Cc) },
    L { n: "sc: ronnakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnakelvin()), back: |v| value!(v.ronnakelvin(), ronnakelvin, f64, sc::Cc) },
    L { n: "sc: rontokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontokelvin()), back: |v| value!(v.rontokelvin(), rontokelvin, f64, sc::Cc) },
    L { n: "sc: terakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terakelvin()), back: |v| value!(v.terakelvin(), terakelvin, f64, sc::Cc) },
    L { n: "sc: yoctokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctokelvin()), back: |v| value!(v.yoctokelvin(), yoctokelvin, f64, sc::Cc) },
    L { n: "sc: yottakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottakelvin()), back: |v| value!(v.yottakelvin(), yottakelvin, f64, sc::Cc) },
    L { n: "sc: zeptokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptokelvin()), back: |v| value!(v.zeptokelvin(), zeptokelvin, f64, sc::Cc) },
    L { n: "sc: zettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettakelvin()), back: |v| value!(v.zettakelvin(), zettakelvin, f64, sc::Cc) },
    L { n: "sc: moles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.moles()), back: |v| value!(v.moles(), mole, f64, sc::Cc) },
    L { n: "sc: attomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attomoles()), back: |v| value!(v.attomoles(), attomole, f64, sc::Cc) },
    L { n: "sc: centimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimoles()), back: |v| value!(v.centimoles(), centimole, f64, sc::Cc) },
    L { n: "sc: decamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decamoles()), back: |v| value!(v.decamoles(), decamole, f64, sc::Cc) },
    L { n: "sc: decimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimoles()), back: |v| value!(v.decimoles(), decimole, f64, sc::Cc) },
    L { n: "sc: examoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.examoles()), back: |v| value!(v.examoles(), examole, f64, sc::Cc) },
    L { n: "sc: femtomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtomoles()), back: |v| value!(v.femtomoles(), femtomole, f64, sc::Cc) },
    L { n: "sc: gigamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigamoles()), back: |v| value!(v.gigamoles(), gigamole, f64, sc::Cc) },
    L { n: "sc: hectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectomoles()), back: |v| value!(v.hectomoles(), hectomole, f64, sc::Cc) },
    L { n: "sc: kilomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilomoles()), back: |v| value!(v.kilomoles(), kilomole, f64, sc::Cc) },
    L { n: "sc: megamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megamoles()), back: |v| value!(v.megamoles(), megamole, f64, sc::Cc) },
    L { n: "sc: micromoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micromoles()), back: |v| value!(v.micromoles(), micromole, f64, sc::Cc) },
    L { n: "sc: millimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimoles()), back: |v| value!(v.millimoles(), millimole, f64, sc::Cc) },
    L { n: "sc: nanomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanomoles()), back: |v| value!(v.nanomoles(), nanomole, f64, sc::Cc) },
    L { n: "sc: petamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petamoles()), back: |v| value!(v.petamoles(), petamole, f64, sc::Cc) },
    L { n: "sc: picomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picomoles()), back: |v| value!(v.picomoles(), picomole, f64, sc::Cc) },
    L { n: "sc: quectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectomoles()), back: |v| value!(v.quectomoles(), quectomole, f64, sc::Cc) },
    L { n: "sc: quettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettamoles()), back: |v| value!(v.quettamoles(), quettamole, f64, sc::Cc) },
    L { n: "sc: ronnamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnamoles()), back: |v| value!(v.ronnamoles(), ronnamole, f64, sc::Cc) },
    L { n: "sc: rontomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontomoles()), back: |v| value!(v.rontomoles(), rontomole, f64, sc::Cc) },
    L { n: "sc: teramoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teramoles()), back: |v| value!(v.teramoles(), teramole, f64, sc::Cc) },
    L { n: "sc: yoctomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctomoles()), back: |v| value!(v.yoctomoles(), yoctomole, f64, sc::Cc) },
    L { n: "sc: yottamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottamoles()), back: |v| value!(v.yottamoles(), yottamole, f64, sc::Cc) },
    L { n: "sc: zeptomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptomoles()), back: |v| value!(v.zeptomoles(), zeptomole, f64, sc::Cc) },
    L { n: "sc: zettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettamoles()), back: |v| value!(v.zettamoles(), zettamole, f64, sc::Cc) },
    L { n: "sc: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.candela()), back: |v| value!(v.candela(), candela, f64, sc::Cc) },
    L { n: "sc: attocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attocandela()), back: |v| value!(v.attocandela(), attocandela, f64, sc::Cc) },
    L { n: "sc: centicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centicandela()), back: |v| value!(v.centicandela(), centicandela, f64, sc::Cc) },
    L { n: "sc: decacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decacandela()), back: |v| value!(v.decacandela(), decacandela, f64, sc::Cc) },
    L { n: "sc: decicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decicandela()), back: |v| value!(v.decicandela(), decicandela, f64, sc::Cc) },
    L { n: "sc: exacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exacandela()), back: |v| value!(v.exacandela(), exacandela, f64, sc::Cc) },
    L { n: "sc: femtocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtocandela()), back: |v| value!(v.femtocandela(), femtocandela, f64, sc::Cc) },
    L { n: "sc: gigacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigacandela()), back: |v| value!(v.gigacandela(), gigacandela, f64, sc::Cc) },
    L { n: "sc: hectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectocandela()), back: |v| value!(v.hectocandela(), hectocandela, f64, sc::Cc) },
    L { n: "sc: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilocandela()), back: |v| value!(v.kilocandela(), kilocandela, f64, sc::Cc) },
    L { n: "sc: megacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megacandela()), back: |v| value!(v.megacandela(), megacandela, f64, sc::Cc) },
    L { n: "sc: microcandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microcandela()), back: |v| value!(v.microcandela(), microcandela, f64, sc::Cc) },
    L { n: "sc: millicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millicandela()), back: |v| value!(v.millicandela(), millicandela, f64, sc::Cc) },
    L { n: "sc: nanocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanocandela()), back: |v| value!(v.nanocandela(), nanocandela, f64, sc::Cc) },
    L { n: "sc: petacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petacandela()), back: |v| value!(v.petacandela(), petacandela, f64, sc::Cc) },
    L { n: "sc: picocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picocandela()), back: |v| value!(v.picocandela(), picocandela, f64, sc::Cc) },
    L { n: "sc: quectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectocandela()), back: |v| value!(v.quectocandela(), quectocandela, f64, sc::Cc) },
    L { n: "sc: quettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettacandela()), back: |v| value!(v.quettacandela(), quettacandela, f64, sc::Cc) },
    L { n: "sc: ronnacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnacandela()), back: |v| value!(v.ronnacandela(), ronnacandela, f64, sc::Cc) },
    L { n: "sc: rontocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontocandela()), back: |v| value!(v.rontocandela(), rontocandela, f64, sc::Cc) },
    L { n: "sc: teracandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teracandela()), back: |v| value!(v.teracandela(), teracandela, f64, sc::Cc) },
    L { n: "sc: yoctocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctocandela()), back: |v| value!(v.yoctocandela(), yoctocandela, f64, sc::Cc) },
    L { n: "sc: yottacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottacandela()), back: |v| value!(v.yottacandela(), yottacandela, f64, sc::Cc) },
    L { n: "sc: zeptocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptocandela()), back: |v| value!(v.zeptocandela(), zeptocandela, f64, sc::Cc) },
    L { n: "sc: zettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettacandela()), back: |v| value!(v.zettacandela(), zettacandela, f64, sc::Cc) },
    L { n: "sc: radians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.radians()), back: |v| value!(v.radians(), radian, f64, sc::Cc) },
    L { n: "sc: attoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoradians()), back: |v| value!(v.attoradians(), attoradian, f64, sc::Cc) },
    L { n: "sc: centiradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiradians()), back: |v| value!(v.centiradians(), centiradian, f64, sc::Cc) },
    L { n: "sc: decaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaradians()), back: |v| value!(v.decaradians(), decaradian, f64, sc::Cc) },
    L { n: "sc: deciradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciradians()), back: |v| value!(v.deciradians(), deciradian, f64, sc::Cc) },
    L { n: "sc: exaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaradians()), back: |v| value!(v.exaradians(), exaradian, f64, sc::Cc) },
    L { n: "sc: femtoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoradians()), back: |v| value!(v.femtoradians(), femtoradian, f64, sc::Cc) },
    L { n: "sc: gigaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaradians()), back: |v| value!(v.gigaradians(), gigaradian, f64, sc::Cc) },
    L { n: "sc: hectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoradians()), back: |v| value!(v.hectoradians(), hectoradian, f64, sc::Cc) },
    L { n: "sc: kiloradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloradians()), back: |v| value!(v.kiloradians(), kiloradian, f64, sc::Cc) },
    L { n: "sc: megaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaradians()), back: |v| value!(v.megaradians(), megaradian, f64, sc::Cc) },
    L { n: "sc: microradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microradians()), back: |v| value!(v.microradians(), microradian, f64, sc::Cc) },
    L { n: "sc: milliradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliradians()), back: |v| value!(v.milliradians(), milliradian, f64, sc::Cc) },
    L { n: "sc: nanoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoradians()), back: |v| value!(v.nanoradians(), nanoradian, f64, sc::Cc) },
    L { n: "sc: petaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaradians()), back: |v| value!(v.petaradians(), petaradian, f64, sc::Cc) },
    L { n: "sc: picoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoradians()), back: |v| value!(v.picoradians(), picoradian, f64, sc::Cc) },
    L { n: "sc: quectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoradians()), back: |v| value!(v.quectoradians(), quectoradian, f64, sc::Cc) },
    L { n: "sc: quettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaradians()), back: |v| value!(v.quettaradians(), quettaradian, f64, sc::Cc) },
    L { n: "sc: ronnaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaradians()), back: |v| value!(v.ronnaradians(), ronnaradian, f64, sc::Cc) },
    L { n: "sc: rontoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoradians()), back: |v| value!(v.rontoradians(), rontoradian, f64, sc::Cc) },
    L { n: "sc: teraradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraradians()), back: |v| value!(v.teraradians(), teraradian, f64, sc::Cc) },
    L { n: "sc: yoctoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoradians()), back: |v| value!(v.yoctoradians(), yoctoradian, f64, sc::Cc) },
    L { n: "sc: yottaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaradians()), back: |v| value!(v.yottaradians(), yottaradian, f64, sc::Cc) },
    L { n: "sc: zeptoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoradians()), back: |v| value!(v.zeptoradians(), zeptoradian, f64, sc::Cc) },
    L { n: "sc: zettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaradians()), back: |v| value!(v.zettaradians(), zettaradian, f64, sc::Cc) },
];
pub static INT: &[LI] = &[
    LI { n: "sc: grams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).grams()) },
    LI { n: "sc: grams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).grams()) },
    LI { n: "sc: centigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centigrams()) },
    LI { n: "sc: centigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centigrams()) },
    LI { n: "sc: decagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decagrams()) },
    LI { n: "sc: decagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decagrams()) },
    LI { n: "sc: decigrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decigrams()) },
    LI { n: "sc: decigrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decigrams()) },
    LI { n: "sc: hectograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).hectograms()) },
    LI { n: "sc: hectograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).hectograms()) },
    LI { n: "sc: kilograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).kilograms()) },
    LI { n: "sc: kilograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).kilograms()) },
    LI { n: "sc: micrograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).micrograms()) },
    LI { n: "sc: micrograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).micrograms()) },
    LI { n: "sc: milligrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).milligrams()) },
    LI { n: "sc: milligrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).milligrams()) },
    LI { n: "sc: nanograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).nanograms()) },
    LI { n: "sc: nanograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).nanograms()) },
    LI { n: "sc: meters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).meters()) },
    LI { n: "sc: meters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).meters()) },
    LI { n: "sc: centimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centimeters()) },
    LI { n: "sc: centimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centimeters()) },
    LI { n: "sc: decameters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decameters()) },
    LI { n: "sc: decameters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decameters()) },
    LI { n: "sc: decimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decimeters()) },
    LI { n: "sc: decimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decimeters()) },
    LI { n: "sc: hectometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).hectometers()) },
    LI { n: "sc: hectometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).hectometers()) },
    LI { n: "sc: kilometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).kilometers()) },
    LI { n: "sc: kilometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).kilometers()) },
    LI { n: "sc: micrometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).micrometers()) },
    LI { n: "sc: micrometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).micrometers()) },
    LI { n: "sc: millimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).millimeters()) },
    LI { n: "sc: millimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).millimeters()) },
    LI { n: "sc: seconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).seconds()) },
    LI { n: "sc: seconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).seconds()) },
    LI { n: "sc: centiseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 6000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centiseconds()) },
    LI { n: "sc: centiseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 6000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centiseconds()) },
    LI { n: "sc: decaseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 6, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decaseconds()) },
    LI { n: "sc: decaseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 6, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decaseconds()) },
    LI { n: "sc: deciseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 600, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).deciseconds()) },
    LI { n: "sc: deciseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 600, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).deciseconds()) },
    LI { n: "sc: milliseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).milliseconds()) },
    LI { n: "sc: milliseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).milliseconds()) },
    LI { n: "sc: amperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).amperes()) },
    LI { n: "sc: amperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).amperes()) },
    LI { n: "sc: centiamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centiamperes()) },
    LI { n: "sc: centiamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centiamperes()) },
    LI { n: "sc: decaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decaamperes()) },
    LI { n: "sc: decaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decaamperes()) },
    LI { n: "sc: deciamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).deciamperes()) },
    LI { n: "sc: deciamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).deciamperes()) },
    LI { n: "sc: gigaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).gigaamperes()) },
    LI { n: "sc: gigaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).gigaamperes()) },
    LI { n: "sc: hectoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).hectoamperes()) },
    LI { n: "sc: hectoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).hectoamperes()) },
    LI { n: "sc: kiloamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).kiloamperes()) },
    LI { n: "sc: kiloamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).kiloamperes()) },
    LI { n: "sc: megaamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).megaamperes()) },
    LI { n: "sc: megaamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).megaamperes()) },
    LI { n: "sc: milliamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).milliamperes()) },
    LI { n: "sc: milliamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).milliamperes()) },
    LI { n: "sc: decakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 18, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decakelvin()) },
    LI { n: "sc: decakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 18, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decakelvin()) },
    LI { n: "sc: hectokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 180, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).hectokelvin()) },
    LI { n: "sc: hectokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 180, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).hectokelvin()) },
    LI { n: "sc: kilokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 1800, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).kilokelvin()) },
    LI { n: "sc: kilokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, -2, 1, 0], num: 1800, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).kilokelvin()) },
    LI { n: "sc: moles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).moles()) },
    LI { n: "sc: moles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).moles()) },
    LI { n: "sc: centimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centimoles()) },
    LI { n: "sc: centimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centimoles()) },
    LI { n: "sc: decimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decimoles()) },
    LI { n: "sc: decimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decimoles()) },
    LI { n: "sc: micromoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).micromoles()) },
    LI { n: "sc: micromoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).micromoles()) },
    LI { n: "sc: millimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).millimoles()) },
    LI { n: "sc: millimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).millimoles()) },
    LI { n: "sc: nanomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).nanomoles()) },
    LI { n: "sc: nanomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).nanomoles()) },
    LI { n: "sc: picomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).picomoles()) },
    LI { n: "sc: picomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).picomoles()) },
    LI { n: "sc: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).candela()) },
    LI { n: "sc: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).candela()) },
    LI { n: "sc: centicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).centicandela()) },
    LI { n: "sc: centicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).centicandela()) },
    LI { n: "sc: decacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decacandela()) },
    LI { n: "sc: decacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decacandela()) },
    LI { n: "sc: decicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).decicandela()) },
    LI { n: "sc: decicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).decicandela()) },
    LI { n: "sc: gigacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).gigacandela()) },
    LI { n: "sc: gigacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).gigacandela()) },
    LI { n: "sc: hectocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).hectocandela()) },
    LI { n: "sc: hectocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).hectocandela()) },
    LI { n: "sc: kilocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).kilocandela()) },
    LI { n: "sc: kilocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).kilocandela()) },
    LI { n: "sc: megacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).megacandela()) },
    LI { n: "sc: megacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).megacandela()) },
    LI { n: "sc: millicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v as i32).millicandela()) },
    LI { n: "sc: millicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi((v).millicandela()) },
    LI { n: "sc: m / s / s i32", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-6, -2, -4, 0], num: 360000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m / s / s, i32)) },
    LI { n: "sc: m / s / s i64", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-6, -2, -4, 0], num: 360000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m / s / s, i64)) },
    LI { n: "sc: m^-1 i32", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m^-1, i32)) },
    LI { n: "sc: m^-1 i64", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m^-1, i64)) },
    LI { n: "sc: 1 / s i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 60, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, 1 / s, i32)) },
    LI { n: "sc: 1 / s i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 60, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, 1 / s, i64)) },
    LI { n: "sc: deg / s i32", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], num: 60, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, deg / s, i32)) },
    LI { n: "sc: deg / s i64", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], num: 60, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, deg / s, i64)) },
    LI { n: "sc: mol / L i32", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, mol / L, i32)) },
    LI { n: "sc: mol / L i64", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, mol / L, i64)) },
    LI { n: "sc: Pa * s i32", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-6, -1, -5, 0], num: 600000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, Pa * s, i32)) },
    LI { n: "sc: Pa * s i64", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [-6, -1, -5, 0], num: 600000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, Pa * s, i64)) },
    LI { n: "sc: deg^-3 i32", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [6, 6, 3, -3], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, deg^-3, i32)) },
    LI { n: "sc: deg^-3 i64", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [6, 6, 3, -3], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, deg^-3, i64)) },
    LI { n: "sc: m^-3 i32", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m^-3, i32)) },
    LI { n: "sc: m^-3 i64", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m^-3, i64)) },
    LI { n: "sc: m^-2 i32", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m^-2, i32)) },
    LI { n: "sc: m^-2 i64", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m^-2, i64)) },
    LI { n: "sc: s^-3 i32", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [-6, -3, -3, 0], num: 216000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, s^-3, i32)) },
    LI { n: "sc: s^-3 i64", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [-6, -3, -3, 0], num: 216000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, s^-3, i64)) },
    LI { n: "sc: s^-2 i32", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, s^-2, i32)) },
    LI { n: "sc: s^-2 i64", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, s^-2, i64)) },
    LI { n: "sc: s^2 i32", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, s^2, i32)) },
    LI { n: "sc: s^2 i64", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, s^2, i64)) },
    LI { n: "sc: s^3 i32", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [6, 3, 3, 0], num: 1, den: 216000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, s^3, i32)) },
    LI { n: "sc: s^3 i64", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [6, 3, 3, 0], num: 1, den: 216000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, s^3, i64)) },
    LI { n: "sc: A^-2 i32", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, A^-2, i32)) },
    LI { n: "sc: A^-2 i64", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, A^-2, i64)) },
    LI { n: "sc: A^2 i32", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, A^2, i32)) },
    LI { n: "sc: A^2 i64", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, A^2, i64)) },
    LI { n: "sc: cd^-2 i32", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, cd^-2, i32)) },
    LI { n: "sc: cd^-2 i64", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, cd^-2, i64)) },
    LI { n: "sc: cd^2 i32", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, cd^2, i32)) },
    LI { n: "sc: cd^2 i64", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, cd^2, i64)) },
    LI { n: "sc: g / cm^3 i32", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, g / cm^3, i32)) },
    LI { n: "sc: g / cm^3 i64", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, g / cm^3, i64)) },
    LI { n: "sc: mg / mm i32", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, mg / mm, i32)) },
    LI { n: "sc: mg / mm i64", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [-4, 0, -4, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, mg / mm, i64)) },
    LI { n: "sc: mol / m^3 i32", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, mol / m^3, i32)) },
    LI { n: "sc: mol / m^3 i64", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, mol / m^3, i64)) },
    LI { n: "sc: cd * s i32", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [5, 1, 4, 0], num: 1, den: 60000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, cd * s, i32)) },
    LI { n: "sc: cd * s i64", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [5, 1, 4, 0], num: 1, den: 60000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, cd * s, i64)) },
    LI { n: "sc: K / mm i32", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [2, -2, 3, 0], num: 18, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, K / mm, i32)) },
    LI { n: "sc: K / mm i64", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [2, -2, 3, 0], num: 18, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, K / mm, i64)) },
    LI { n: "sc: deg / min i32", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, deg / min, i32)) },
    LI { n: "sc: deg / min i64", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-4, -3, -2, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, deg / min, i64)) },
    LI { n: "sc: m / mm i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m / mm, i32)) },
    LI { n: "sc: m / mm i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m / mm, i64)) },
    LI { n: "sc: min / h i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, min / h, i32)) },
    LI { n: "sc: min / h i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, min / h, i64)) },
    LI { n: "sc: 1 / min i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, 1 / min, i32)) },
    LI { n: "sc: 1 / min i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, 1 / min, i64)) },
    LI { n: "sc: kg i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, kg, i32)) },
    LI { n: "sc: kg i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, kg, i64)) },
    LI { n: "sc: g i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, g, i32)) },
    LI { n: "sc: g i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, g, i64)) },
    LI { n: "sc: km i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, km, i32)) },
    LI { n: "sc: km i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, km, i64)) },
    LI { n: "sc: m i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, m, i32)) },
    LI { n: "sc: m i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, m, i64)) },
    LI { n: "sc: mm i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, mm, i32)) },
    LI { n: "sc: mm i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-2, 0, -2, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, mm, i64)) },
    LI { n: "sc: h i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 60, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, h, i32)) },
    LI { n: "sc: h i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 60, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, h, i64)) },
    LI { n: "sc: min i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, min, i32)) },
    LI { n: "sc: min i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, min, i64)) },
    LI { n: "sc: s i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, s, i32)) },
    LI { n: "sc: s i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, s, i64)) },
    LI { n: "sc: kA i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, kA, i32)) },
    LI { n: "sc: kA i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, kA, i64)) },
    LI { n: "sc: A i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, A, i32)) },
    LI { n: "sc: A i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, A, i64)) },
    LI { n: "sc: kHz i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 60000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, kHz, i32)) },
    LI { n: "sc: kHz i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-2, -1, -1, 0], num: 60000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, kHz, i64)) },
    LI { n: "sc: L i32", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, L, i32)) },
    LI { n: "sc: L i64", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, L, i64)) },
    LI { n: "sc: mol i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, mol, i32)) },
    LI { n: "sc: mol i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, mol, i64)) },
    LI { n: "sc: cd i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, cd, i32)) },
    LI { n: "sc: cd i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, cd, i64)) },
    LI { n: "sc: deg i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v as i32, deg, i32)) },
    LI { n: "sc: deg i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sc::Cc>, f: |v| outi(sc::quantity!(v, deg, i64)) },
];
}
pub fn lits_sc(f: &mut dyn FnMut(OutT, OutT, &'static str)) { use sc::quantity as q; go(f); #[culit::culit(sc::literals)]
fn go(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    f(typed(7.1g), typed(sc::quantity!(7.1, g)), "sc: 7.1g");
    f(typed(7.1gr), typed(sc::quantity!(7.1, gr)), "sc: 7.1gr");
    f(typed(7.1ct), typed(sc::quantity!(7.1, ct)), "sc: 7.1ct");
    f(typed(7.1ct_f64), typed(sc::quantity!(7.1f64, ct, f64)), "sc: 7.1ct_f64");
    f(typed(7.1ct_f32), typed(sc::quantity!(7.1f32, ct, f32)), "sc: 7.1ct_f32");
    f(typed(25ct_i32), typed(sc::quantity!(25i32, ct, i32)), "sc: 25ct_i32");
    f(typed(25ct_i64), typed(sc::quantity!(25i64, ct, i64)), "sc: 25ct_i64");
    f(typed(25ct), typed(sc::quantity!(25i32, ct, i32)), "sc: 25ct");
    f(typed(7.1oz), typed(sc::quantity!(7.1, oz)), "sc: 7.1oz");
    f(typed(7.1ozt), typed(sc::quantity!(7.1, ozt)), "sc: 7.1ozt");
    f(typed(7.1lbt), typed(sc::quantity!(7.1, lbt)), "sc: 7.1lbt");
    f(typed(7.1lb), typed(sc::quantity!(7.1, lb)), "sc: 7.1lb");
    f(typed(7.1st), typed(sc::quantity!(7.1, st)), "sc: 7.1st");
    f(typed(7.1t), typed(sc::quantity!(7.1, t)), "sc: 7.1t");
    f(typed(7.1m), typed(sc::quantity!(7.1, m)), "sc: 7.1m");
    f(typed(7.1ft), typed(sc::quantity!(7.1, ft)), "sc: 7.1ft");
    f(typed(7.1yd), typed(sc::quantity!(7.1, yd)), "sc: 7.1yd");
    f(typed(7.1mi), typed(sc::quantity!(7.1, mi)), "sc: 7.1mi");
    f(typed(7.1nmi), typed(sc::quantity!(7.1, nmi)), "sc: 7.1nmi");
    f(typed(7.1AU), typed(sc::quantity!(7.1, AU)), "sc: 7.1AU");
    f(typed(7.1ly), typed(sc::quantity!(7.1, ly)), "sc: 7.1ly");
    f(typed(7.1pc), typed(sc::quantity!(7.1, pc)), "sc: 7.1pc");
    f(typed(7.1s), typed(sc::quantity!(7.1, s)), "sc: 7.1s");
    f(typed(7.1s_f64), typed(sc::quantity!(7.1f64, s, f64)), "sc: 7.1s_f64");
    f(typed(7.1s_f32), typed(sc::quantity!(7.1f32, s, f32)), "sc: 7.1s_f32");
    f(typed(25s_i32), typed(sc::quantity!(25i32, s, i32)), "sc: 25s_i32");
    f(typed(25s_i64), typed(sc::quantity!(25i64, s, i64)), "sc: 25s_i64");
    f(typed(25s), typed(sc::quantity!(25i32, s, i32)), "sc: 25s");
    f(typed(7.1min), typed(sc::quantity!(7.1, min)), "sc: 7.1min");
    f(typed(7.1h), typed(sc::quantity!(7.1, h)), "sc: 7.1h");
    f(typed(7.1hr), typed(sc::quantity!(7.1, hr)), "sc: 7.1hr");
    f(typed(7.1d), typed(sc::quantity!(7.1, d)), "sc: 7.1d");
    f(typed(7.1wk), typed(sc::quantity!(7.1, wk)), "sc: 7.1wk");
    f(typed(7.1mo), typed(sc::quantity!(7.1, mo)), "sc: 7.1mo");
    f(typed(7.1yr), typed(sc::quantity!(7.1, yr)), "sc: 7.1yr");
    f(typed(7.1A), typed(sc::quantity!(7.1, A)), "sc: 7.1A");
    f(typed(7.1K), typed(sc::quantity!(7.1, K)), "sc: 7.1K");
    f(typed(7.1degC), typed(sc::quantity!(7.1, degC)), "sc: 7.1degC");
    f(typed(7.1degR), typed(sc::quantity!(7.1, degR)), "sc: 7.1degR");
    f(typed(7.1degF), typed(sc::quantity!(7.1, degF)), "sc: 7.1degF");
    f(typed(7.1mol), typed(sc::quantity!(7.1, mol)), "sc: 7.1mol");
    f(typed(7.1cd), typed(sc::quantity!(7.1, cd)), "sc: 7.1cd");
    f(typed(7.1lm), typed(sc::quantity!(7.1, lm)), "sc: 7.1lm");
    f(typed(7.1lm_f64), typed(sc::quantity!(7.1f64, lm, f64)), "sc: 7.1lm_f64");
    f(typed(7.1lm_f32), typed(sc::quantity!(7.1f32, lm, f32)), "sc: 7.1lm_f32");
    f(typed(25lm_i32), typed(sc::quantity!(25i32, lm, i32)), "sc: 25lm_i32");
    f(typed(25lm_i64), typed(sc::quantity!(25i64, lm, i64)), "sc: 25lm_i64");
    f(typed(25lm), typed(sc::quantity!(25i32, lm, i32)), "sc: 25lm");
    f(typed(7.1rad), typed(sc::quantity!(7.1, rad)), "sc: 7.1rad");
    f(typed(7.1deg), typed(sc::quantity!(7.1, deg)), "sc: 7.1deg");
    f(typed(7.1grad), typed(sc::quantity!(7.1, grad)), "sc: 7.1grad");
    f(typed(7.1turn), typed(sc::quantity!(7.1, turn)), "sc: 7.1turn");
    f(typed(7.1rot), typed(sc::quantity!(7.1, rot)), "sc: 7.1rot");
    f(typed(7.1rot_f64), typed(sc::quantity!(7.1f64, rot, f64)), "sc: 7.1rot_f64");
    f(typed(7.1rot_f32), typed(sc::quantity!(7.1f32, rot, f32)), "sc: 7.1rot_f32");
    f(typed(25rot_i32), typed(sc::quantity!(25i32, rot, i32)), "sc: 25rot_i32");
    f(typed(25rot_i64), typed(sc::quantity!(25i64, rot, i64)), "sc: 25rot_i64");
    f(typed(25rot), typed(sc::quantity!(25i32, rot, i32)), "sc: 25rot");
    f(typed(7.1arcmin), typed(sc::quantity!(7.1, arcmin)), "sc: 7.1arcmin");
    f(typed(7.1arcsec), typed(sc::quantity!(7.1, arcsec)), "sc: 7.1arcsec");
    f(typed(7.1hect), typed(sc::quantity!(7.1, hect)), "sc: 7.1hect");
    f(typed(7.1acre), typed(sc::quantity!(7.1, acre)), "sc: 7.1acre");
    f(typed(7.1L), typed(sc::quantity!(7.1, L)), "sc: 7.1L");
    f(typed(7.1L_f64), typed(sc::quantity!(7.1f64, L, f64)), "sc: 7.1L_f64");
    f(typed(7.1L_f32), typed(sc::quantity!(7.1f32, L, f32)), "sc: 7.1L_f32");
    f(typed(25L_i32), typed(sc::quantity!(25i32, L, i32)), "sc: 25L_i32");
    f(typed(25L_i64), typed(sc::quantity!(25i64, L, i64)), "sc: 25L_i64");
    f(typed(25L), typed(sc::quantity!(25i32, L, i32)), "sc: 25L");
    f(typed(7.1l), typed(sc::quantity!(7.1, l)), "sc: 7.1l");
    f(typed(7.1gallon), typed(sc::quantity!(7.1, gallon)), "sc: 7.1gallon");
    f(typed(7.1gal), typed(sc::quantity!(7.1, gal)), "sc: 7.1gal");
    f(typed(7.1qrt), typed(sc::quantity!(7.1, qrt)), "sc: 7.1qrt");
    f(typed(7.1pnt), typed(sc::quantity!(7.1, pnt)), "sc: 7.1pnt");
    f(typed(7.1cup), typed(sc::quantity!(7.1, cup)), "sc: 7.1cup");
    f(typed(7.1fl_oz), typed(sc::quantity!(7.1, fl_oz)), "sc: 7.1fl_oz");
    f(typed(7.1tbsp), typed(sc::quantity!(7.1, tbsp)), "sc: 7.1tbsp");
    f(typed(7.1tsp), typed(sc::quantity!(7.1, tsp)), "sc: 7.1tsp");
    f(typed(7.1uk_gal), typed(sc::quantity!(7.1, uk_gal)), "sc: 7.1uk_gal");
    f(typed(7.1uk_qrt), typed(sc::quantity!(7.1, uk_qrt)), "sc: 7.1uk_qrt");
    f(typed(7.1uk_pnt), typed(sc::quantity!(7.1, uk_pnt)), "sc: 7.1uk_pnt");
    f(typed(7.1uk_cup), typed(sc::quantity!(7.1, uk_cup)), "sc: 7.1uk_cup");
    f(typed(7.1uk_fl_oz), typed(sc::quantity!(7.1, uk_fl_oz)), "sc: 7.1uk_fl_oz");
    f(typed(7.1uk_tbsp), typed(sc::quantity!(7.1, uk_tbsp)), "sc: 7.1uk_tbsp");
    f(typed(7.1uk_tsp), typed(sc::quantity!(7.1, uk_tsp)), "sc: 7.1uk_tsp");
    f(typed(7.1bu), typed(sc::quantity!(7.1, bu)), "sc: 7.1bu");
    f(typed(7.1Hz), typed(sc::quantity!(7.1, Hz)), "sc: 7.1Hz");
    f(typed(7.1N), typed(sc::quantity!(7.1, N)), "sc: 7.1N");
    f(typed(7.1J), typed(sc::quantity!(7.1, J)), "sc: 7.1J");
    f(typed(7.1J_f64), typed(sc::quantity!(7.1f64, J, f64)), "sc: 7.1J_f64");
    f(typed(7.1J_f32), typed(sc::quantity!(7.1f32, J, f32)), "sc: 7.1J_f32");
    f(typed(7.1Nm), typed(sc::quantity!(7.1, Nm)), "sc: 7.1Nm");
    f(typed(7.1cal), typed(sc::quantity!(7.1, cal)), "sc: 7.1cal");
    f(typed(7.1ft_lb), typed(sc::quantity!(7.1, ft_lb)), "sc: 7.1ft_lb");
    f(typed(7.1kWh), typed(sc::quantity!(7.1, kWh)), "sc: 7.1kWh");
    f(typed(7.1thm), typed(sc::quantity!(7.1, thm)), "sc: 7.1thm");
    f(typed(7.1W), typed(sc::quantity!(7.1, W)), "sc: 7.1W");
    f(typed(7.1hp), typed(sc::quantity!(7.1, hp)), "sc: 7.1hp");
    f(typed(7.1Pa), typed(sc::quantity!(7.1, Pa)), "sc: 7.1Pa");
    f(typed(7.1Torr), typed(sc::quantity!(7.1, Torr)), "sc: 7.1Torr");
    f(typed(7.1psi), typed(sc::quantity!(7.1, psi)), "sc: 7.1psi");
    f(typed(7.1bar), typed(sc::quantity!(7.1, bar)), "sc: 7.1bar");
    f(typed(7.1atm), typed(sc::quantity!(7.1, atm)), "sc: 7.1atm");
    f(typed(7.1C), typed(sc::quantity!(7.1, C)), "sc: 7.1C");
    f(typed(7.1V), typed(sc::quantity!(7.1, V)), "sc: 7.1V");
    f(typed(7.1F), typed(sc::quantity!(7.1, F)), "sc: 7.1F");
    f(typed(7.1F_f64), typed(sc::quantity!(7.1f64, F, f64)), "sc: 7.1F_f64");
    f(typed(7.1F_f32), typed(sc::quantity!(7.1f32, F, f32)), "sc: 7.1F_f32");
    f(typed(7.1S), typed(sc::quantity!(7.1, S)), "sc: 7.1S");
    f(typed(7.1H), typed(sc::quantity!(7.1, H)), "sc: 7.1H");
    f(typed(7.1T), typed(sc::quantity!(7.1, T)), "sc: 7.1T");
    f(typed(7.1Wb), typed(sc::quantity!(7.1, Wb)), "sc: 7.1Wb");
    f(typed(7.1lx), typed(sc::quantity!(7.1, lx)), "sc: 7.1lx");
    f(typed(7.1lx_f64), typed(sc::quantity!(7.1f64, lx, f64)), "sc: 7.1lx_f64");
    f(typed(7.1lx_f32), typed(sc::quantity!(7.1f32, lx, f32)), "sc: 7.1lx_f32");
    f(typed(7.1G), typed(sc::quantity!(7.1, G)), "sc: 7.1G");
    f(typed(7.1St), typed(sc::quantity!(7.1, St)), "sc: 7.1St");
    f(typed(7.1mg), typed(sc::quantity!(7.1, mg)), "sc: 7.1mg");
    f(typed(7.1kg), typed(sc::quantity!(7.1, kg)), "sc: 7.1kg");
    f(typed(7.1mm), typed(sc::quantity!(7.1, mm)), "sc: 7.1mm");
    f(typed(7.1mm_f64), typed(sc::quantity!(7.1f64, mm, f64)), "sc: 7.1mm_f64");
    f(typed(7.1mm_f32), typed(sc::quantity!(7.1f32, mm, f32)), "sc: 7.1mm_f32");
    f(typed(25mm_i32), typed(sc::quantity!(25i32, mm, i32)), "sc: 25mm_i32");
    f(typed(25mm_i64), typed(sc::quantity!(25i64, mm, i64)), "sc: 25mm_i64");
    f(typed(25mm), typed(sc::quantity!(25i32, mm, i32)), "sc: 25mm");
    f(typed(7.1km), typed(sc::quantity!(7.1, km)), "sc: 7.1km");
    f(typed(7.1ms), typed(sc::quantity!(7.1, ms)), "sc: 7.1ms");
    f(typed(7.1ks), typed(sc::quantity!(7.1, ks)), "sc: 7.1ks");
    f(typed(7.1mA), typed(sc::quantity!(7.1, mA)), "sc: 7.1mA");
    f(typed(7.1kA), typed(sc::quantity!(7.1, kA)), "sc: 7.1kA");
    f(typed(7.1kA_f64), typed(sc::quantity!(7.1f64, kA, f64)), "sc: 7.1kA_f64");
    f(typed(7.1kA_f32), typed(sc::quantity!(7.1f32, kA, f32)), "sc: 7.1kA_f32");
    f(typed(25kA_i32), typed(sc::quantity!(25i32, kA, i32)), "sc: 25kA_i32");
    f(typed(25kA_i64), typed(sc::quantity!(25i64, kA, i64)), "sc: 25kA_i64");
    f(typed(25kA), typed(sc::quantity!(25i32, kA, i32)), "sc: 25kA");
    f(typed(7.1mK), typed(sc::quantity!(7.1, mK)), "sc: 7.1mK");
    f(typed(7.1kK), typed(sc::quantity!(7.1, kK)), "sc: 7.1kK");
    f(typed(7.1mmol), typed(sc::quantity!(7.1, mmol)), "sc: 7.1mmol");
    f(typed(7.1kmol), typed(sc::quantity!(7.1, kmol)), "sc: 7.1kmol");
    f(typed(7.1mcd), typed(sc::quantity!(7.1, mcd)), "sc: 7.1mcd");
    f(typed(7.1mcd_f64), typed(sc::quantity!(7.1f64, mcd, f64)), "sc: 7.1mcd_f64");
    f(typed(7.1mcd_f32), typed(sc::quantity!(7.1f32, mcd, f32)), "sc: 7.1mcd_f32");
    f(typed(25mcd_i32), typed(sc::quantity!(25i32, mcd, i32)), "sc: 25mcd_i32");
    f(typed(25mcd_i64), typed(sc::quantity!(25i64, mcd, i64)), "sc: 25mcd_i64");
    f(typed(25mcd), typed(sc::quantity!(25i32, mcd, i32)), "sc: 25mcd");
    f(typed(7.1kcd), typed(sc::quantity!(7.1, kcd)), "sc: 7.1kcd");
    f(typed(7.1mrad), typed(sc::quantity!(7.1, mrad)), "sc: 7.1mrad");
    f(typed(7.1krad), typed(sc::quantity!(7.1, krad)), "sc: 7.1krad");
    f(typed(7.1mhect), typed(sc::quantity!(7.1, mhect)), "sc: 7.1mhect");
    f(typed(7.1khect), typed(sc::quantity!(7.1, khect)), "sc: 7.1khect");
    f(typed(7.1khect_f64), typed(sc::quantity!(7.1f64, khect, f64)), "sc: 7.1khect_f64");
    f(typed(7.1khect_f32), typed(sc::quantity!(7.1f32, khect, f32)), "sc: 7.1khect_f32");
    f(typed(7.1mL), typed(sc::quantity!(7.1, mL)), "sc: 7.1mL");
    f(typed(7.1ml), typed(sc::quantity!(7.1, ml)), "sc: 7.1ml");
    f(typed(7.1kL), typed(sc::quantity!(7.1, kL)), "sc: 7.1kL");
    f(typed(7.1kl), typed(sc::quantity!(7.1, kl)), "sc: 7.1kl");
    f(typed(7.1mHz), typed(sc::quantity!(7.1, mHz)), "sc: 7.1mHz");
    f(typed(7.1mHz_f64), typed(sc::quantity!(7.1f64, mHz, f64)), "sc: 7.1mHz_f64");
    f(typed(7.1mHz_f32), typed(sc::quantity!(7.1f32, mHz, f32)), "sc: 7.1mHz_f32");
    f(typed(7.1kHz), typed(sc::quantity!(7.1, kHz)), "sc: 7.1kHz");
    f(typed(7.1mN), typed(sc::quantity!(7.1, mN)), "sc: 7.1mN");
    f(typed(7.1kN), typed(sc::quantity!(7.1, kN)), "sc: 7.1kN");
    f(typed(7.1mJ), typed(sc::quantity!(7.1, mJ)), "sc: 7.1mJ");
    f(typed(7.1kJ), typed(sc::quantity!(7.1, kJ)), "sc: 7.1kJ");
    f(typed(7.1kJ_f64), typed(sc::quantity!(7.1f64, kJ, f64)), "sc: 7.1kJ_f64");
    f(typed(7.1kJ_f32), typed(sc::quantity!(7.1f32, kJ, f32)), "sc: 7.1kJ_f32");
    f(typed(7.1mW), typed(sc::quantity!(7.1, mW)), "sc: 7.1mW");
    f(typed(7.1kW), typed(sc::quantity!(7.1, kW)), "sc: 7.1kW");
    f(typed(7.1mPa), typed(sc::quantity!(7.1, mPa)), "sc: 7.1mPa");
    f(typed(7.1kPa), typed(sc::quantity!(7.1, kPa)), "sc: 7.1kPa");
    f(typed(7.1mC), typed(sc::quantity!(7.1, mC)), "sc: 7.1mC");
    f(typed(7.1mC_f64), typed(sc::quantity!(7.1f64, mC, f64)), "sc: 7.1mC_f64");
    f(typed(7.1mC_f32), typed(sc::quantity!(7.1f32, mC, f32)), "sc: 7.1mC_f32");
    f(typed(7.1kC), typed(sc::quantity!(7.1, kC)), "sc: 7.1kC");
    f(typed(7.1mV), typed(sc::quantity!(7.1, mV)), "sc: 7.1mV");
    f(typed(7.1kV), typed(sc::quantity!(7.1, kV)), "sc: 7.1kV");
    f(typed(7.1mF), typed(sc::quantity!(7.1, mF)), "sc: 7.1mF");
    f(typed(7.1kF), typed(sc::quantity!(7.1, kF)), "sc: 7.1kF");
    f(typed(7.1kF_f64), typed(sc::quantity!(7.1f64, kF, f64)), "sc: 7.1kF_f64");
    f(typed(7.1kF_f32), typed(sc::quantity!(7.1f32, kF, f32)), "sc: 7.1kF_f32");
    f(typed(7.1mS), typed(sc::quantity!(7.1, mS)), "sc: 7.1mS");
    f(typed(7.1kS), typed(sc::quantity!(7.1, kS)), "sc: 7.1kS");
    f(typed(7.1mH), typed(sc::quantity!(7.1, mH)), "sc: 7.1mH");
    f(typed(7.1kH), typed(sc::quantity!(7.1, kH)), "sc: 7.1kH");
    f(typed(7.1mT), typed(sc::quantity!(7.1, mT)), "sc: 7.1mT");
    f(typed(7.1mT_f64), typed(sc::quantity!(7.1f64, mT, f64)), "sc: 7.1mT_f64");
    f(typed(7.1mT_f32), typed(sc::quantity!(7.1f32, mT, f32)), "sc: 7.1mT_f32");
    f(typed(7.1kT), typed(sc::quantity!(7.1, kT)), "sc: 7.1kT");
    f(typed(7.1mWb), typed(sc::quantity!(7.1, mWb)), "sc: 7.1mWb");
    f(typed(7.1kWb), typed(sc::quantity!(7.1, kWb)), "sc: 7.1kWb");
    f(typed(7.1mlx), typed(sc::quantity!(7.1, mlx)), "sc: 7.1mlx");
    f(typed(7.1klx), typed(sc::quantity!(7.1, klx)), "sc: 7.1klx");
    f(typed(7.1klx_f64), typed(sc::quantity!(7.1f64, klx, f64)), "sc: 7.1klx_f64");
    f(typed(7.1klx_f32), typed(sc::quantity!(7.1f32, klx, f32)), "sc: 7.1klx_f32");
    f(typed(25klx_i32), typed(sc::quantity!(25i32, klx, i32)), "sc: 25klx_i32");
    f(typed(25klx_i64), typed(sc::quantity!(25i64, klx, i64)), "sc: 25klx_i64");
    f(typed(25klx), typed(sc::quantity!(25i32, klx, i32)), "sc: 25klx");
    f(typed(7.1mSt), typed(sc::quantity!(7.1, mSt)), "sc: 7.1mSt");
    f(typed(7.1kSt), typed(sc::quantity!(7.1, kSt)), "sc: 7.1kSt");
} }
pub static UNIT_SD: &[L] = &[
    L { n: "sd: gram", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gram)), back: |v| value!(sd::quantity!(v, gram), gram, f64, ()) },
    L { n: "sd: g", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, g)), back: |v| value!(sd::quantity!(v, g), g, f64, ()) },
    L { n: "sd: grain", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, grain)), back: |v| value!(sd::quantity!(v, grain), grain, f64, ()) },
    L { n: "sd: gr", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gr)), back: |v| value!(sd::quantity!(v, gr), gr, f64, ()) },
    L { n: "sd: carat", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, carat)), back: |v| value!(sd::quantity!(v, carat), carat, f64, ()) },
    L { n: "sd: ct", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0002f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ct)), back: |v| value!(sd::quantity!(v, ct), ct, f64, ()) },
    L { n: "sd: ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ounce)), back: |v| value!(sd::quantity!(v, ounce), ounce, f64, ()) },
    L { n: "sd: oz", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, oz)), back: |v| value!(sd::quantity!(v, oz), oz, f64, ()) },
    L { n: "sd: troy_ounce", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, troy_ounce)), back: |v| value!(sd::quantity!(v, troy_ounce), troy_ounce, f64, ()) },
    L { n: "sd: ozt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ozt)), back: |v| value!(sd::quantity!(v, ozt), ozt, f64, ()) },
    L { n: "sd: troy_pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, troy_pound)), back: |v| value!(sd::quantity!(v, troy_pound), troy_pound, f64, ()) },
    L { n: "sd: lbt", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lbt)), back: |v| value!(sd::quantity!(v, lbt), lbt, f64, ()) },
    L { n: "sd: pound", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, pound)), back: |v| value!(sd::quantity!(v, pound), pound, f64, ()) },
    L { n: "sd: lb", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lb)), back: |v| value!(sd::quantity!(v, lb), lb, f64, ()) },
    L { n: "sd: stone", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, stone)), back: |v| value!(sd::quantity!(v, stone), stone, f64, ()) },
    L { n: "sd: st", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, st)), back: |v| value!(sd::quantity!(v, st), st, f64, ()) },
    L { n: "sd: ton", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ton)), back: |v| value!(sd::quantity!(v, ton), ton, f64, ()) },
    L { n: "sd: t", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, t)), back: |v| value!(sd::quantity!(v, t), t, f64, ()) },
    L { n: "sd: meter", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, meter)), back: |v| value!(sd::quantity!(v, meter), meter, f64, ()) },
    L { n: "sd: m", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m)), back: |v| value!(sd::quantity!(v, m), m, f64, ()) },
    L { n: "sd: inch", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.0254f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, inch)), back: |v| value!(sd::quantity!(v, inch), inch, f64, ()) },
    L { n: "sd: foot", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, foot)), back: |v| value!(sd::quantity!(v, foot), foot, f64, ()) },
    L { n: "sd: ft", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.3048f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ft)), back: |v| value!(sd::quantity!(v, ft), ft, f64, ()) },
    L { n: "sd: yard", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, yard)), back: |v| value!(sd::quantity!(v, yard), yard, f64, ()) },
    L { n: "sd: yd", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.9144f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, yd)), back: |v| value!(sd::quantity!(v, yd), yd, f64, ()) },
    L { n: "sd: mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mile)), back: |v| value!(sd::quantity!(v, mile), mile, f64, ()) },
    L { n: "sd: mi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1609.344f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mi)), back: |v| value!(sd::quantity!(v, mi), mi, f64, ()) },
    L { n: "sd: nautical_mile", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, nautical_mile)), back: |v| value!(sd::quantity!(v, nautical_mile), nautical_mile, f64, ()) },
    L { n: "sd: nmi", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1852.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, nmi)), back: |v| value!(sd::quantity!(v, nmi), nmi, f64, ()) },
    L { n: "sd: astronomical_unit", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, astronomical_unit)), back: |v| value!(sd::quantity!(v, astronomical_unit), astronomical_unit, f64, ()) },
    L { n: "sd: AU", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, AU)), back: |v| value!(sd::quantity!(v, AU), AU, f64, ()) },
    L { n: "sd: light_year", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, light_year)), back: |v| value!(sd::quantity!(v, light_year), light_year, f64, ()) },
    L { n: "sd: ly", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ly)), back: |v| value!(sd::quantity!(v, ly), ly, f64, ()) },
    L { n: "sd: parsec", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sd::quantity!(v, parsec)), back: |v| value!(sd::quantity!(v, parsec), parsec, f64, ()) },
    L { n: "sd: pc", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, tol: 1e-10, f: |v| out(sd::quantity!(v, pc)), back: |v| value!(sd::quantity!(v, pc), pc, f64, ()) },
    L { n: "sd: second", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, second)), back: |v| value!(sd::quantity!(v, second), second, f64, ()) },
    L { n: "sd: s", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s)), back: |v| value!(sd::quantity!(v, s), s, f64, ()) },
    L { n: "sd: minute", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, minute)), back: |v| value!(sd::quantity!(v, minute), minute, f64, ()) },
    L { n: "sd: min", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, min)), back: |v| value!(sd::quantity!(v, min), min, f64, ()) },
    L { n: "sd: hour", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hour)), back: |v| value!(sd::quantity!(v, hour), hour, f64, ()) },
    L { n: "sd: h", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, h)), back: |v| value!(sd::quantity!(v, h), h, f64, ()) },
    L { n: "sd: day", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, day)), back: |v| value!(sd::quantity!(v, day), day, f64, ()) },
    L { n: "sd: d", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 86400.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, d)), back: |v| value!(sd::quantity!(v, d), d, f64, ()) },
    L { n: "sd: week", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, week)), back: |v| value!(sd::quantity!(v, week), week, f64, ()) },
    L { n: "sd: wk", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 604800.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, wk)), back: |v| value!(sd::quantity!(v, wk), wk, f64, ()) },
    L { n: "sd: month", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, month)), back: |v| value!(sd::quantity!(v, month), month, f64, ()) },
    L { n: "sd: mo", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mo)), back: |v| value!(sd::quantity!(v, mo), mo, f64, ()) },
    L { n: "sd: year", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, year)), back: |v| value!(sd::quantity!(v, year), year, f64, ()) },
    L { n: "sd: yr", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, yr)), back: |v| value!(sd::quantity!(v, yr), yr, f64, ()) },
    L { n: "sd: ampere", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ampere)), back: |v| value!(sd::quantity!(v, ampere), ampere, f64, ()) },
    L { n: "sd: A", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A)), back: |v| value!(sd::quantity!(v, A), A, f64, ()) },
    L { n: "sd: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kelvin)), back: |v| value!(sd::quantity!(v, kelvin), kelvin, f64, ()) },
    L { n: "sd: K", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K)), back: |v| value!(sd::quantity!(v, K), K, f64, ()) },
    L { n: "sd: celsius", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sd::quantity!(v, celsius)), back: |v| value!(sd::quantity!(v, celsius), celsius, f64, ()) },
    L { n: "sd: degC", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 273.15f64, tol: 1e-12, f: |v| out(sd::quantity!(v, degC)), back: |v| value!(sd::quantity!(v, degC), degC, f64, ()) },
    L { n: "sd: rankine", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rankine)), back: |v| value!(sd::quantity!(v, rankine), rankine, f64, ()) },
    L { n: "sd: degR", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, degR)), back: |v| value!(sd::quantity!(v, degR), degR, f64, ()) },
    L { n: "sd: fahrenheit", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sd::quantity!(v, fahrenheit)), back: |v| value!(sd::quantity!(v, fahrenheit), fahrenheit, f64, ()) },
    L { n: "sd: degF", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, tol: 1e-12, f: |v| out(sd::quantity!(v, degF)), back: |v| value!(sd::quantity!(v, degF), degF, f64, ()) },
    L { n: "sd: mole", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mole)), back: |v| value!(sd::quantity!(v, mole), mole, f64, ()) },
    L { n: "sd: mol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol)), back: |v| value!(sd::quantity!(v, mol), mol, f64, ()) },
    L { n: "sd: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, candela)), back: |v| value!(sd::quantity!(v, candela), candela, f64, ()) },
    L { n: "sd: cd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd)), back: |v| value!(sd::quantity!(v, cd), cd, f64, ()) },
    L { n: "sd: lumen", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lumen)), back: |v| value!(sd::quantity!(v, lumen), lumen, f64, ()) },
    L { n: "sd: lm", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lm)), back: |v| value!(sd::quantity!(v, lm), lm, f64, ()) },
    L { n: "sd: radian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, radian)), back: |v| value!(sd::quantity!(v, radian), radian, f64, ()) },
    L { n: "sd: rad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad)), back: |v| value!(sd::quantity!(v, rad), rad, f64, ()) },
    L { n: "sd: degree", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, degree)), back: |v| value!(sd::quantity!(v, degree), degree, f64, ()) },
    L { n: "sd: deg", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, deg)), back: |v| value!(sd::quantity!(v, deg), deg, f64, ()) },
    L { n: "sd: gradian", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gradian)), back: |v| value!(sd::quantity!(v, gradian), gradian, f64, ()) },
    L { n: "sd: grad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.005f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, grad)), back: |v| value!(sd::quantity!(v, grad), grad, f64, ()) },
    L { n: "sd: turn", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, turn)), back: |v| value!(sd::quantity!(v, turn), turn, f64, ()) },
    L { n: "sd: rot", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rot)), back: |v| value!(sd::quantity!(v, rot), rot, f64, ()) },
    L { n: "sd: arcminute", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, arcminute)), back: |v| value!(sd::quantity!(v, arcminute), arcminute, f64, ()) },
    L { n: "sd: arcmin", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, arcmin)), back: |v| value!(sd::quantity!(v, arcmin), arcmin, f64, ()) },
    L { n: "sd: arcsecond", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, arcsecond)), back: |v| value!(sd::quantity!(v, arcsecond), arcsecond, f64, ()) },
    L { n: "sd: arcsec", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, arcsec)), back: |v| value!(sd::quantity!(v, arcsec), arcsec, f64, ()) },
    L { n: "sd: hectare", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hectare)), back: |v| value!(sd::quantity!(v, hectare), hectare, f64, ()) },
    L { n: "sd: hect", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hect)), back: |v| value!(sd::quantity!(v, hect), hect, f64, ()) },
    L { n: "sd: acre", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 4046.8564224f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, acre)), back: |v| value!(sd::quantity!(v, acre), acre, f64, ()) },
    L { n: "sd: liter", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, liter)), back: |v| value!(sd::quantity!(v, liter), liter, f64, ()) },
    L { n: "sd: L", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, L)), back: |v| value!(sd::quantity!(v, L), L, f64, ()) },
    L { n: "sd: gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gallon)), back: |v| value!(sd::quantity!(v, gallon), gallon, f64, ()) },
    L { n: "sd: gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gal)), back: |v| value!(sd::quantity!(v, gal), gal, f64, ()) },
    L { n: "sd: quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, quart)), back: |v| value!(sd::quantity!(v, quart), quart, f64, ()) },
    L { n: "sd: qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, qrt)), back: |v| value!(sd::quantity!(v, qrt), qrt, f64, ()) },
    L { n: "sd: pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, pint)), back: |v| value!(sd::quantity!(v, pint), pint, f64, ()) },
    L { n: "sd: pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, pnt)), back: |v| value!(sd::quantity!(v, pnt), pnt, f64, ()) },
    L { n: "sd: cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.0002365882365f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cup)), back: |v| value!(sd::quantity!(v, cup), cup, f64, ()) },
    L { n: "sd: fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, fluid_ounce)), back: |v| value!(sd::quantity!(v, fluid_ounce), fluid_ounce, f64, ()) },
    L { n: "sd: fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, fl_oz)), back: |v| value!(sd::quantity!(v, fl_oz), fl_oz, f64, ()) },
    L { n: "sd: tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, tablespoon)), back: |v| value!(sd::quantity!(v, tablespoon), tablespoon, f64, ()) },
    L { n: "sd: tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, tbsp)), back: |v| value!(sd::quantity!(v, tbsp), tbsp, f64, ()) },
    L { n: "sd: teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, teaspoon)), back: |v| value!(sd::quantity!(v, teaspoon), teaspoon, f64, ()) },
    L { n: "sd: tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, tsp)), back: |v| value!(sd::quantity!(v, tsp), tsp, f64, ()) },
    L { n: "sd: uk_gallon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_gallon)), back: |v| value!(sd::quantity!(v, uk_gallon), uk_gallon, f64, ()) },
    L { n: "sd: uk_gal", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_gal)), back: |v| value!(sd::quantity!(v, uk_gal), uk_gal, f64, ()) },
    L { n: "sd: uk_quart", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_quart)), back: |v| value!(sd::quantity!(v, uk_quart), uk_quart, f64, ()) },
    L { n: "sd: uk_qrt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_qrt)), back: |v| value!(sd::quantity!(v, uk_qrt), uk_qrt, f64, ()) },
    L { n: "sd: uk_pint", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_pint)), back: |v| value!(sd::quantity!(v, uk_pint), uk_pint, f64, ()) },
    L { n: "sd: uk_pnt", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_pnt)), back: |v| value!(sd::quantity!(v, uk_pnt), uk_pnt, f64, ()) },
    L { n: "sd: uk_cup", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.000284130625f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_cup)), back: |v| value!(sd::quantity!(v, uk_cup), uk_cup, f64, ()) },
    L { n: "sd: uk_fluid_ounce", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_fluid_ounce)), back: |v| value!(sd::quantity!(v, uk_fluid_ounce), uk_fluid_ounce, f64, ()) },
    L { n: "sd: uk_fl_oz", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_fl_oz)), back: |v| value!(sd::quantity!(v, uk_fl_oz), uk_fl_oz, f64, ()) },
    L { n: "sd: uk_tablespoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_tablespoon)), back: |v| value!(sd::quantity!(v, uk_tablespoon), uk_tablespoon, f64, ()) },
    L { n: "sd: uk_tbsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_tbsp)), back: |v| value!(sd::quantity!(v, uk_tbsp), uk_tbsp, f64, ()) },
    L { n: "sd: uk_teaspoon", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_teaspoon)), back: |v| value!(sd::quantity!(v, uk_teaspoon), uk_teaspoon, f64, ()) },
    L { n: "sd: uk_tsp", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uk_tsp)), back: |v| value!(sd::quantity!(v, uk_tsp), uk_tsp, f64, ()) },
    L { n: "sd: bushel", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, bushel)), back: |v| value!(sd::quantity!(v, bushel), bushel, f64, ()) },
    L { n: "sd: bu", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, bu)), back: |v| value!(sd::quantity!(v, bu), bu, f64, ()) },
    L { n: "sd: hertz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hertz)), back: |v| value!(sd::quantity!(v, hertz), hertz, f64, ()) },
    L { n: "sd: Hz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Hz)), back: |v| value!(sd::quantity!(v, Hz), Hz, f64, ()) },
    L { n: "sd: newton", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-14, -4, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, newton)), back: |v| value!(sd::quantity!(v, newton), newton, f64, ()) },
    L { n: "sd: N", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-14, -4, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, N)), back: |v| value!(sd::quantity!(v, N), N, f64, ()) },
    L { n: "sd: joule", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, joule)), back: |v| value!(sd::quantity!(v, joule), joule, f64, ()) },
    L { n: "sd: J", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, J)), back: |v| value!(sd::quantity!(v, J), J, f64, ()) },
    L { n: "sd: electron_volt", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, electron_volt)), back: |v| value!(sd::quantity!(v, electron_volt), electron_volt, f64, ()) },
    L { n: "sd: eV", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, eV)), back: |v| value!(sd::quantity!(v, eV), eV, f64, ()) },
    L { n: "sd: erg", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, erg)), back: |v| value!(sd::quantity!(v, erg), erg, f64, ()) },
    L { n: "sd: newton_meter", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, newton_meter)), back: |v| value!(sd::quantity!(v, newton_meter), newton_meter, f64, ()) },
    L { n: "sd: Nm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Nm)), back: |v| value!(sd::quantity!(v, Nm), Nm, f64, ()) },
    L { n: "sd: calorie", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, calorie)), back: |v| value!(sd::quantity!(v, calorie), calorie, f64, ()) },
    L { n: "sd: cal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 4.184f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cal)), back: |v| value!(sd::quantity!(v, cal), cal, f64, ()) },
    L { n: "sd: foot_pound", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, foot_pound)), back: |v| value!(sd::quantity!(v, foot_pound), foot_pound, f64, ()) },
    L { n: "sd: ft_lb", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ft_lb)), back: |v| value!(sd::quantity!(v, ft_lb), ft_lb, f64, ()) },
    L { n: "sd: kilowatt_hour", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kilowatt_hour)), back: |v| value!(sd::quantity!(v, kilowatt_hour), kilowatt_hour, f64, ()) },
    L { n: "sd: kWh", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kWh)), back: |v| value!(sd::quantity!(v, kWh), kWh, f64, ()) },
    L { n: "sd: therm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, therm)), back: |v| value!(sd::quantity!(v, therm), therm, f64, ()) },
    L { n: "sd: thm", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, thm)), back: |v| value!(sd::quantity!(v, thm), thm, f64, ()) },
    L { n: "sd: watt", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-27, -6, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, watt)), back: |v| value!(sd::quantity!(v, watt), watt, f64, ()) },
    L { n: "sd: W", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-27, -6, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, W)), back: |v| value!(sd::quantity!(v, W), W, f64, ()) },
    L { n: "sd: horsepower", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-27, -6, -21, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, horsepower)), back: |v| value!(sd::quantity!(v, horsepower), horsepower, f64, ()) },
    L { n: "sd: hp", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-27, -6, -21, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hp)), back: |v| value!(sd::quantity!(v, hp), hp, f64, ()) },
    L { n: "sd: pascal", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, pascal)), back: |v| value!(sd::quantity!(v, pascal), pascal, f64, ()) },
    L { n: "sd: Pa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Pa)), back: |v| value!(sd::quantity!(v, Pa), Pa, f64, ()) },
    L { n: "sd: torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, torr)), back: |v| value!(sd::quantity!(v, torr), torr, f64, ()) },
    L { n: "sd: Torr", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Torr)), back: |v| value!(sd::quantity!(v, Torr), Torr, f64, ()) },
    L { n: "sd: psi", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 6894.757293168362f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, psi)), back: |v| value!(sd::quantity!(v, psi), psi, f64, ()) },
    L { n: "sd: bar", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 100000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, bar)), back: |v| value!(sd::quantity!(v, bar), bar, f64, ()) },
    L { n: "sd: atmosphere", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, atmosphere)), back: |v| value!(sd::quantity!(v, atmosphere), atmosphere, f64, ()) },
    L { n: "sd: atm", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [4, -4, 8, 0], val: 101325.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, atm)), back: |v| value!(sd::quantity!(v, atm), atm, f64, ()) },
    L { n: "sd: coulomb", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-2, 2, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, coulomb)), back: |v| value!(sd::quantity!(v, coulomb), coulomb, f64, ()) },
    L { n: "sd: C", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-2, 2, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, C)), back: |v| value!(sd::quantity!(v, C), C, f64, ()) },
    L { n: "sd: volt", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-21, -6, -15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, volt)), back: |v| value!(sd::quantity!(v, volt), volt, f64, ()) },
    L { n: "sd: V", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [-21, -6, -15, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, V)), back: |v| value!(sd::quantity!(v, V), V, f64, ()) },
    L { n: "sd: farad", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [19, 8, 11, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, farad)), back: |v| value!(sd::quantity!(v, farad), farad, f64, ()) },
    L { n: "sd: F", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [19, 8, 11, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, F)), back: |v| value!(sd::quantity!(v, F), F, f64, ()) },
    L { n: "sd: ohm", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-15, -6, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ohm)), back: |v| value!(sd::quantity!(v, ohm), ohm, f64, ()) },
    L { n: "sd: Ω", d: [1, 2, -3, -2, 0, 0, 0, 0], s: [-15, -6, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Ω)), back: |v| value!(sd::quantity!(v, Ω), Ω, f64, ()) },
    L { n: "sd: siemens", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [15, 6, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, siemens)), back: |v| value!(sd::quantity!(v, siemens), siemens, f64, ()) },
    L { n: "sd: S", d: [-1, -2, 3, 2, 0, 0, 0, 0], s: [15, 6, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, S)), back: |v| value!(sd::quantity!(v, S), S, f64, ()) },
    L { n: "sd: henry", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-11, -4, -7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, henry)), back: |v| value!(sd::quantity!(v, henry), henry, f64, ()) },
    L { n: "sd: H", d: [1, 2, -2, -2, 0, 0, 0, 0], s: [-11, -4, -7, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, H)), back: |v| value!(sd::quantity!(v, H), H, f64, ()) },
    L { n: "sd: tesla", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [1, -4, 5, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, tesla)), back: |v| value!(sd::quantity!(v, tesla), tesla, f64, ()) },
    L { n: "sd: T", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [1, -4, 5, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, T)), back: |v| value!(sd::quantity!(v, T), T, f64, ()) },
    L { n: "sd: weber", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-17, -4, -13, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, weber)), back: |v| value!(sd::quantity!(v, weber), weber, f64, ()) },
    L { n: "sd: Wb", d: [1, 2, -2, -1, 0, 0, 0, 0], s: [-17, -4, -13, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Wb)), back: |v| value!(sd::quantity!(v, Wb), Wb, f64, ()) },
    L { n: "sd: lux", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [20, 0, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lux)), back: |v| value!(sd::quantity!(v, lux), lux, f64, ()) },
    L { n: "sd: lx", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [20, 0, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lx)), back: |v| value!(sd::quantity!(v, lx), lx, f64, ()) },
    L { n: "sd: gauss", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [1, -4, 5, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gauss)), back: |v| value!(sd::quantity!(v, gauss), gauss, f64, ()) },
    L { n: "sd: G", d: [1, 0, -2, -1, 0, 0, 0, 0], s: [1, -4, 5, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, G)), back: |v| value!(sd::quantity!(v, G), G, f64, ()) },
    L { n: "sd: stokes", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-22, -2, -20, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, stokes)), back: |v| value!(sd::quantity!(v, stokes), stokes, f64, ()) },
    L { n: "sd: St", d: [0, 2, -1, 0, 0, 0, 0, 0], s: [-22, -2, -20, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, St)), back: |v| value!(sd::quantity!(v, St), St, f64, ()) },
];
pub static COMP_SD: &[L] = &[
    L { n: "sd: kg * m / s^2", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [-14, -4, -10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg * m / s^2)), back: |v| value!(sd::quantity!(v, kg * m / s^2), kg * m / s^2, f64, ()) },
    L { n: "sd: m / s / s", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [-17, -4, -13, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m / s / s)), back: |v| value!(sd::quantity!(v, m / s / s), m / s / s, f64, ()) },
    L { n: "sd: J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-26, -4, -22, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, J / (kg * K))), back: |v| value!(sd::quantity!(v, J / (kg * K)), J / (kg * K), f64, ()) },
    L { n: "sd: V * s^2 / m", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, V * s^2 / m)), back: |v| value!(sd::quantity!(v, V * s^2 / m), V * s^2 / m, f64, ()) },
    L { n: "sd: km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 0.2777777777777778f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, km / h)), back: |v| value!(sd::quantity!(v, km / h), km / h, f64, ()) },
    L { n: "sd: mi / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-13, -2, -11, 0], val: 0.44704f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mi / h)), back: |v| value!(sd::quantity!(v, mi / h), mi / h, f64, ()) },
    L { n: "sd: lb * ft^2 / min", d: [1, 2, -1, 0, 0, 0, 0, 0], s: [-19, -2, -17, 0], val: 0.00070233516823008f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lb * ft^2 / min)), back: |v| value!(sd::quantity!(v, lb * ft^2 / min), lb * ft^2 / min, f64, ()) },
    L { n: "sd: ft^3", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 0.028316846592f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ft^3)), back: |v| value!(sd::quantity!(v, ft^3), ft^3, f64, ()) },
    L { n: "sd: m / ft", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 3.2808398950131235f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m / ft)), back: |v| value!(sd::quantity!(v, m / ft), m / ft, f64, ()) },
    L { n: "sd: gal / min", d: [0, 3, -1, 0, 0, 0, 0, 0], s: [-31, -2, -29, 0], val: 6.30901964e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gal / min)), back: |v| value!(sd::quantity!(v, gal / min), gal / min, f64, ()) },
    L { n: "sd: W / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-9, -6, -3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, W / m^2)), back: |v| value!(sd::quantity!(v, W / m^2), W / m^2, f64, ()) },
    L { n: "sd: mW / cm^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-9, -6, -3, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mW / cm^2)), back: |v| value!(sd::quantity!(v, mW / cm^2), mW / cm^2, f64, ()) },
    L { n: "sd: m^-1", d: [0, -1, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m^-1)), back: |v| value!(sd::quantity!(v, m^-1), m^-1, f64, ()) },
    L { n: "sd: 1 / s", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, 1 / s)), back: |v| value!(sd::quantity!(v, 1 / s), 1 / s, f64, ()) },
    L { n: "sd: ft^-2 * lb", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [21, 0, 21, 0], val: 4.88242763638305f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ft^-2 * lb)), back: |v| value!(sd::quantity!(v, ft^-2 * lb), ft^-2 * lb, f64, ()) },
    L { n: "sd: (km * g) / (ms * A)", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (km * g) / (ms * A))), back: |v| value!(sd::quantity!(v, (km * g) / (ms * A)), (km * g) / (ms * A), f64, ()) },
    L { n: "sd: kWh / yr", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-27, -6, -21, 0], val: 0.11407955261548605f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kWh / yr)), back: |v| value!(sd::quantity!(v, kWh / yr), kWh / yr, f64, ()) },
    L { n: "sd: deg / s", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, deg / s)), back: |v| value!(sd::quantity!(v, deg / s), deg / s, f64, ()) },
    L { n: "sd: rad * m^2", d: [0, 2, 0, 0, 0, 0, 0, 1], s: [-17, 0, -18, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad * m^2)), back: |v| value!(sd::quantity!(v, rad * m^2), rad * m^2, f64, ()) },
    L { n: "sd: psi * gal", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 26.09949550537946f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, psi * gal)), back: |v| value!(sd::quantity!(v, psi * gal), psi * gal, f64, ()) },
    L { n: "sd: mol / L", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [18, 0, 18, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol / L)), back: |v| value!(sd::quantity!(v, mol / L), mol / L, f64, ()) },
    L { n: "sd: hp * h", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 2684519.537696173f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, hp * h)), back: |v| value!(sd::quantity!(v, hp * h), hp * h, f64, ()) },
    L { n: "sd: acre * ft", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-27, 0, -27, 0], val: 1233.48183754752f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, acre * ft)), back: |v| value!(sd::quantity!(v, acre * ft), acre * ft, f64, ()) },
    L { n: "sd: eV / K", d: [1, 2, -2, 0, -1, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, eV / K)), back: |v| value!(sd::quantity!(v, eV / K), eV / K, f64, ()) },
    L { n: "sd: N * m", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, N * m)), back: |v| value!(sd::quantity!(v, N * m), N * m, f64, ()) },
    L { n: "sd: Pa * s", d: [1, -1, -1, 0, 0, 0, 0, 0], s: [8, -2, 10, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, Pa * s)), back: |v| value!(sd::quantity!(v, Pa * s), Pa * s, f64, ()) },
    L { n: "sd: A * s * V", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A * s * V)), back: |v| value!(sd::quantity!(v, A * s * V), A * s * V, f64, ()) },
    L { n: "sd: cd / m^2", d: [0, -2, 0, 0, 0, 0, 1, 0], s: [20, 0, 20, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd / m^2)), back: |v| value!(sd::quantity!(v, cd / m^2), cd / m^2, f64, ()) },
    L { n: "sd: C / mol", d: [0, 0, 1, 1, 0, -1, 0, 0], s: [7, 2, 5, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, C / mol)), back: |v| value!(sd::quantity!(v, C / mol), C / mol, f64, ()) },
    L { n: "sd: oz / ft / ft", d: [1, -2, 0, 0, 0, 0, 0, 0], s: [21, 0, 21, 0], val: 0.30515172727394063f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, oz / ft / ft)), back: |v| value!(sd::quantity!(v, oz / ft / ft), oz / ft / ft, f64, ()) },
    L { n: "sd: (ft / s)^2", d: [0, 2, -2, 0, 0, 0, 0, 0], s: [-26, -4, -22, 0], val: 0.09290304f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (ft / s)^2)), back: |v| value!(sd::quantity!(v, (ft / s)^2), (ft / s)^2, f64, ()) },
    L { n: "sd: (lb / ft^3)^-1", d: [-1, 3, 0, 0, 0, 0, 0, 0], s: [-30, 0, -30, 0], val: 0.06242796057614461f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (lb / ft^3)^-1)), back: |v| value!(sd::quantity!(v, (lb / ft^3)^-1), (lb / ft^3)^-1, f64, ()) },
    L { n: "sd: kg2 * m3", d: [2, 3, 0, 0, 0, 0, 0, 0], s: [-21, 0, -21, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg2 * m3)), back: |v| value!(sd::quantity!(v, kg2 * m3), kg2 * m3, f64, ()) },
    L { n: "sd: yd . stone / wk", d: [1, 1, -1, 0, 0, 0, 0, 0], s: [-10, -2, -8, 0], val: 9.601038498333333e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, yd . stone / wk)), back: |v| value!(sd::quantity!(v, yd . stone / wk), yd . stone / wk, f64, ()) },
    L { n: "sd: (ft)^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [27, 0, 27, 0], val: 35.31466672148859f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (ft)^-3)), back: |v| value!(sd::quantity!(v, (ft)^-3), (ft)^-3, f64, ()) },
    L { n: "sd: J * (lb * s)^-3", d: [-2, 2, -5, 0, 0, 0, 0, 0], s: [-44, -10, -34, 0], val: 10.715261600999527f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, J * (lb * s)^-3)), back: |v| value!(sd::quantity!(v, J * (lb * s)^-3), J * (lb * s)^-3, f64, ()) },
    L { n: "sd: (ft * min)^-4 * kg", d: [1, -4, -4, 0, 0, 0, 0, 0], s: [23, -8, 31, 0], val: 8.939951192820376e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (ft * min)^-4 * kg)), back: |v| value!(sd::quantity!(v, (ft * min)^-4 * kg), (ft * min)^-4 * kg, f64, ()) },
    L { n: "sd: yd^5", d: [0, 5, 0, 0, 0, 0, 0, 0], s: [-45, 0, -45, 0], val: 0.6392652349813368f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, yd^5)), back: |v| value!(sd::quantity!(v, yd^5), yd^5, f64, ()) },
    L { n: "sd: gal^-3", d: [0, -9, 0, 0, 0, 0, 0, 0], s: [81, 0, 81, 0], val: 18435741.533348676f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, gal^-3)), back: |v| value!(sd::quantity!(v, gal^-3), gal^-3, f64, ()) },
    L { n: "sd: (mi / h)^3", d: [0, 3, -3, 0, 0, 0, 0, 0], s: [-39, -6, -33, 0], val: 0.089338602225664f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (mi / h)^3)), back: |v| value!(sd::quantity!(v, (mi / h)^3), (mi / h)^3, f64, ()) },
    L { n: "sd: (lb^2 * ft) / (yd^2 * oz)", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 2.6456247885680955f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (lb^2 * ft) / (yd^2 * oz))), back: |v| value!(sd::quantity!(v, (lb^2 * ft) / (yd^2 * oz)), (lb^2 * ft) / (yd^2 * oz), f64, ()) },
    L { n: "sd: deg^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [-3, 0, 0, -3], val: 5832000.0f64, pi: -3, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, deg^-3)), back: |v| value!(sd::quantity!(v, deg^-3), deg^-3, f64, ()) },
    L { n: "sd: (mi * acre)^-1", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [27, 0, 27, 0], val: 1.5354416549051374e-07f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, (mi * acre)^-1)), back: |v| value!(sd::quantity!(v, (mi * acre)^-1), (mi * acre)^-1, f64, ()) },
    L { n: "sd: lb * (ft / (min * gal))", d: [1, -2, -1, 0, 0, 0, 0, 0], s: [17, -2, 19, 0], val: 0.6087182507698349f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, lb * (ft / (min * gal)))), back: |v| value!(sd::quantity!(v, lb * (ft / (min * gal))), lb * (ft / (min * gal)), f64, ()) },
    L { n: "sd: kg^-4", d: [-4, 0, 0, 0, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^-4)), back: |v| value!(sd::quantity!(v, kg^-4), kg^-4, f64, ()) },
    L { n: "sd: kg^-3", d: [-3, 0, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^-3)), back: |v| value!(sd::quantity!(v, kg^-3), kg^-3, f64, ()) },
    L { n: "sd: kg^-2", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^-2)), back: |v| value!(sd::quantity!(v, kg^-2), kg^-2, f64, ()) },
    L { n: "sd: kg^2", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^2)), back: |v| value!(sd::quantity!(v, kg^2), kg^2, f64, ()) },
    L { n: "sd: kg^3", d: [3, 0, 0, 0, 0, 0, 0, 0], s: [9, 0, 9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^3)), back: |v| value!(sd::quantity!(v, kg^3), kg^3, f64, ()) },
    L { n: "sd: kg^4", d: [4, 0, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg^4)), back: |v| value!(sd::quantity!(v, kg^4), kg^4, f64, ()) },
    L { n: "sd: m^-4", d: [0, -4, 0, 0, 0, 0, 0, 0], s: [36, 0, 36, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m^-4)), back: |v| value!(sd::quantity!(v, m^-4), m^-4, f64, ()) },
    L { n: "sd: m^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], s: [27, 0, 27, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m^-3)), back: |v| value!(sd::quantity!(v, m^-3), m^-3, f64, ()) },
    L { n: "sd: m^-2", d: [0, -2, 0, 0, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m^-2)), back: |v| value!(sd::quantity!(v, m^-2), m^-2, f64, ()) },
    L { n: "sd: m^4", d: [0, 4, 0, 0, 0, 0, 0, 0], s: [-36, 0, -36, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m^4)), back: |v| value!(sd::quantity!(v, m^4), m^4, f64, ()) },
    L { n: "sd: s^-4", d: [0, 0, -4, 0, 0, 0, 0, 0], s: [-16, -8, -8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^-4)), back: |v| value!(sd::quantity!(v, s^-4), s^-4, f64, ()) },
    L { n: "sd: s^-3", d: [0, 0, -3, 0, 0, 0, 0, 0], s: [-12, -6, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^-3)), back: |v| value!(sd::quantity!(v, s^-3), s^-3, f64, ()) },
    L { n: "sd: s^-2", d: [0, 0, -2, 0, 0, 0, 0, 0], s: [-8, -4, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^-2)), back: |v| value!(sd::quantity!(v, s^-2), s^-2, f64, ()) },
    L { n: "sd: s^2", d: [0, 0, 2, 0, 0, 0, 0, 0], s: [8, 4, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^2)), back: |v| value!(sd::quantity!(v, s^2), s^2, f64, ()) },
    L { n: "sd: s^3", d: [0, 0, 3, 0, 0, 0, 0, 0], s: [12, 6, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^3)), back: |v| value!(sd::quantity!(v, s^3), s^3, f64, ()) },
    L { n: "sd: s^4", d: [0, 0, 4, 0, 0, 0, 0, 0], s: [16, 8, 8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, s^4)), back: |v| value!(sd::quantity!(v, s^4), s^4, f64, ()) },
    L { n: "sd: A^-4", d: [0, 0, 0, -4, 0, 0, 0, 0], s: [24, 0, 24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^-4)), back: |v| value!(sd::quantity!(v, A^-4), A^-4, f64, ()) },
    L { n: "sd: A^-3", d: [0, 0, 0, -3, 0, 0, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^-3)), back: |v| value!(sd::quantity!(v, A^-3), A^-3, f64, ()) },
    L { n: "sd: A^-2", d: [0, 0, 0, -2, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^-2)), back: |v| value!(sd::quantity!(v, A^-2), A^-2, f64, ()) },
    L { n: "sd: A^2", d: [0, 0, 0, 2, 0, 0, 0, 0], s: [-12, 0, -12, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^2)), back: |v| value!(sd::quantity!(v, A^2), A^2, f64, ()) },
    L { n: "sd: A^3", d: [0, 0, 0, 3, 0, 0, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^3)), back: |v| value!(sd::quantity!(v, A^3), A^3, f64, ()) },
    L { n: "sd: A^4", d: [0, 0, 0, 4, 0, 0, 0, 0], s: [-24, 0, -24, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^4)), back: |v| value!(sd::quantity!(v, A^4), A^4, f64, ()) },
    L { n: "sd: K^-4", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^-4)), back: |v| value!(sd::quantity!(v, K^-4), K^-4, f64, ()) },
    L { n: "sd: K^-3", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^-3)), back: |v| value!(sd::quantity!(v, K^-3), K^-3, f64, ()) },
    L { n: "sd: K^-2", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^-2)), back: |v| value!(sd::quantity!(v, K^-2), K^-2, f64, ()) },
    L { n: "sd: K^2", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^2)), back: |v| value!(sd::quantity!(v, K^2), K^2, f64, ()) },
    L { n: "sd: K^3", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^3)), back: |v| value!(sd::quantity!(v, K^3), K^3, f64, ()) },
    L { n: "sd: K^4", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K^4)), back: |v| value!(sd::quantity!(v, K^4), K^4, f64, ()) },
    L { n: "sd: mol^-4", d: [0, 0, 0, 0, 0, -4, 0, 0], s: [36, 0, 36, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^-4)), back: |v| value!(sd::quantity!(v, mol^-4), mol^-4, f64, ()) },
    L { n: "sd: mol^-3", d: [0, 0, 0, 0, 0, -3, 0, 0], s: [27, 0, 27, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^-3)), back: |v| value!(sd::quantity!(v, mol^-3), mol^-3, f64, ()) },
    L { n: "sd: mol^-2", d: [0, 0, 0, 0, 0, -2, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^-2)), back: |v| value!(sd::quantity!(v, mol^-2), mol^-2, f64, ()) },
    L { n: "sd: mol^2", d: [0, 0, 0, 0, 0, 2, 0, 0], s: [-18, 0, -18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^2)), back: |v| value!(sd::quantity!(v, mol^2), mol^2, f64, ()) },
    L { n: "sd: mol^3", d: [0, 0, 0, 0, 0, 3, 0, 0], s: [-27, 0, -27, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^3)), back: |v| value!(sd::quantity!(v, mol^3), mol^3, f64, ()) },
    L { n: "sd: mol^4", d: [0, 0, 0, 0, 0, 4, 0, 0], s: [-36, 0, -36, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol^4)), back: |v| value!(sd::quantity!(v, mol^4), mol^4, f64, ()) },
    L { n: "sd: cd^-4", d: [0, 0, 0, 0, 0, 0, -4, 0], s: [-8, 0, -8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^-4)), back: |v| value!(sd::quantity!(v, cd^-4), cd^-4, f64, ()) },
    L { n: "sd: cd^-3", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^-3)), back: |v| value!(sd::quantity!(v, cd^-3), cd^-3, f64, ()) },
    L { n: "sd: cd^-2", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-4, 0, -4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^-2)), back: |v| value!(sd::quantity!(v, cd^-2), cd^-2, f64, ()) },
    L { n: "sd: cd^2", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [4, 0, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^2)), back: |v| value!(sd::quantity!(v, cd^2), cd^2, f64, ()) },
    L { n: "sd: cd^3", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [6, 0, 6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^3)), back: |v| value!(sd::quantity!(v, cd^3), cd^3, f64, ()) },
    L { n: "sd: cd^4", d: [0, 0, 0, 0, 0, 0, 4, 0], s: [8, 0, 8, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd^4)), back: |v| value!(sd::quantity!(v, cd^4), cd^4, f64, ()) },
    L { n: "sd: rad^-4", d: [0, 0, 0, 0, 0, 0, 0, -4], s: [-4, 0, 0, -4], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^-4)), back: |v| value!(sd::quantity!(v, rad^-4), rad^-4, f64, ()) },
    L { n: "sd: rad^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], s: [-3, 0, 0, -3], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^-3)), back: |v| value!(sd::quantity!(v, rad^-3), rad^-3, f64, ()) },
    L { n: "sd: rad^-2", d: [0, 0, 0, 0, 0, 0, 0, -2], s: [-2, 0, 0, -2], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^-2)), back: |v| value!(sd::quantity!(v, rad^-2), rad^-2, f64, ()) },
    L { n: "sd: rad^2", d: [0, 0, 0, 0, 0, 0, 0, 2], s: [2, 0, 0, 2], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^2)), back: |v| value!(sd::quantity!(v, rad^2), rad^2, f64, ()) },
    L { n: "sd: rad^3", d: [0, 0, 0, 0, 0, 0, 0, 3], s: [3, 0, 0, 3], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^3)), back: |v| value!(sd::quantity!(v, rad^3), rad^3, f64, ()) },
    L { n: "sd: rad^4", d: [0, 0, 0, 0, 0, 0, 0, 4], s: [4, 0, 0, 4], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad^4)), back: |v| value!(sd::quantity!(v, rad^4), rad^4, f64, ()) },
    L { n: "sd: kg * m * s * A * K * mol * cd * rad", d: [1, 1, 1, 1, 1, 1, 1, 1], s: [-14, 2, -17, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kg * m * s * A * K * mol * cd * rad)), back: |v| value!(sd::quantity!(v, kg * m * s * A * K * mol * cd * rad), kg * m * s * A * K * mol * cd * rad, f64, ()) },
    L { n: "sd: g / cm^3", d: [1, -3, 0, 0, 0, 0, 0, 0], s: [30, 0, 30, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, g / cm^3)), back: |v| value!(sd::quantity!(v, g / cm^3), g / cm^3, f64, ()) },
    L { n: "sd: mg / mm", d: [1, -1, 0, 0, 0, 0, 0, 0], s: [12, 0, 12, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mg / mm)), back: |v| value!(sd::quantity!(v, mg / mm), mg / mm, f64, ()) },
    L { n: "sd: mol / m^3", d: [0, -3, 0, 0, 0, 1, 0, 0], s: [18, 0, 18, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mol / m^3)), back: |v| value!(sd::quantity!(v, mol / m^3), mol / m^3, f64, ()) },
    L { n: "sd: cd * s", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [6, 2, 4, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, cd * s)), back: |v| value!(sd::quantity!(v, cd * s), cd * s, f64, ()) },
    L { n: "sd: K / mm", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [9, 0, 9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, K / mm)), back: |v| value!(sd::quantity!(v, K / mm), K / mm, f64, ()) },
    L { n: "sd: deg / min", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, deg / min)), back: |v| value!(sd::quantity!(v, deg / min), deg / min, f64, ()) },
    L { n: "sd: kJ / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [-26, -4, -22, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kJ / (kg * K))), back: |v| value!(sd::quantity!(v, kJ / (kg * K)), kJ / (kg * K), f64, ()) },
    L { n: "sd: mW / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-9, -6, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, mW / m^2)), back: |v| value!(sd::quantity!(v, mW / m^2), mW / m^2, f64, ()) },
    L { n: "sd: kPa * L", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-23, -4, -19, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, kPa * L)), back: |v| value!(sd::quantity!(v, kPa * L), kPa * L, f64, ()) },
    L { n: "sd: uF * V", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-2, 2, -4, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, uF * V)), back: |v| value!(sd::quantity!(v, uF * V), uF * V, f64, ()) },
    L { n: "sd: m / mm", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, m / mm)), back: |v| value!(sd::quantity!(v, m / mm), m / mm, f64, ()) },
    L { n: "sd: ft / mi", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.0001893939393939394f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, ft / mi)), back: |v| value!(sd::quantity!(v, ft / mi), ft / mi, f64, ()) },
    L { n: "sd: min / h", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, min / h)), back: |v| value!(sd::quantity!(v, min / h), min / h, f64, ()) },
    L { n: "sd: deg / rad", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, deg / rad)), back: |v| value!(sd::quantity!(v, deg / rad), deg / rad, f64, ()) },
    L { n: "sd: 1 / min", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], val: 0.016666666666666666f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, 1 / min)), back: |v| value!(sd::quantity!(v, 1 / min), 1 / min, f64, ()) },
    L { n: "sd: rad / s^2", d: [0, 0, -2, 0, 0, 0, 0, 1], s: [-7, -4, -4, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, rad / s^2)), back: |v| value!(sd::quantity!(v, rad / s^2), rad / s^2, f64, ()) },
    L { n: "sd: A^2 * s^4 / (kg * m^2)", d: [-1, -2, 4, 2, 0, 0, 0, 0], s: [19, 8, 11, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sd::quantity!(v, A^2 * s^4 / (kg * m^2))), back: |v| value!(sd::quantity!(v, A^2 * s^4 / (kg * m^2)), A^2 * s^4 / (kg * m^2), f64, ()) },
];
pub mod m_sd { use super::*; use super::sd::*;
pub static METHOD: &[L] = &[
    L { n: "sd: grams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.grams()), back: |v| value!(v.grams(), gram, f64, ()) },
    L { n: "sd: attograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attograms()), back: |v| value!(v.attograms(), attogram, f64, ()) },
    L { n: "sd: centigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-05f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centigrams()), back: |v| value!(v.centigrams(), centigram, f64, ()) },
    L { n: "sd: decagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decagrams()), back: |v| value!(v.decagrams(), decagram, f64, ()) },
    L { n: "sd: decigrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.0001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decigrams()), back: |v| value!(v.decigrams(), decigram, f64, ()) },
    L { n: "sd: exagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exagrams()), back: |v| value!(v.exagrams(), exagram, f64, ()) },
    L { n: "sd: femtograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtograms()), back: |v| value!(v.femtograms(), femtogram, f64, ()) },
    L { n: "sd: gigagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigagrams()), back: |v| value!(v.gigagrams(), gigagram, f64, ()) },
    L { n: "sd: hectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectograms()), back: |v| value!(v.hectograms(), hectogram, f64, ()) },
    L { n: "sd: kilograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilograms()), back: |v| value!(v.kilograms(), kilogram, f64, ()) },
    L { n: "sd: megagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megagrams()), back: |v| value!(v.megagrams(), megagram, f64, ()) },
    L { n: "sd: micrograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrograms()), back: |v| value!(v.micrograms(), microgram, f64, ()) },
    L { n: "sd: milligrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milligrams()), back: |v| value!(v.milligrams(), milligram, f64, ()) },
    L { n: "sd: nanograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanograms()), back: |v| value!(v.nanograms(), nanogram, f64, ()) },
    L { n: "sd: petagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petagrams()), back: |v| value!(v.petagrams(), petagram, f64, ()) },
    L { n: "sd: picograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picograms()), back: |v| value!(v.picograms(), picogram, f64, ()) },
    L { n: "sd: quectograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-33f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectograms()), back: |v| value!(v.quectograms(), quectogram, f64, ()) },
    L { n: "sd: quettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettagrams()), back: |v| value!(v.quettagrams(), quettagram, f64, ()) },
    L { n: "sd: ronnagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnagrams()), back: |v| value!(v.ronnagrams(), ronnagram, f64, ()) },
    L { n: "sd: rontograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontograms()), back: |v| value!(v.rontograms(), rontogram, f64, ()) },
    L { n: "sd: teragrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teragrams()), back: |v| value!(v.teragrams(), teragram, f64, ()) },
    L { n: "sd: yoctograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctograms()), back: |v| value!(v.yoctograms(), yoctogram, f64, ()) },
    L { n: "sd: yottagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottagrams()), back: |v| value!(v.yottagrams(), yottagram, f64, ()) },
    L { n: "sd: zeptograms", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptograms()), back: |v| value!(v.zeptograms(), zeptogram, f64, ()) },
    L { n: "sd: zettagrams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettagrams()), back: |v| value!(v.zettagrams(), zettagram, f64, ()) },
    L { n: "sd: meters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.meters()), back: |v| value!(v.meters(), meter, f64, ()) },
    L { n: "sd: attometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attometers()), back: |v| value!(v.attometers(), attometer, f64, ()) },
    L { n: "sd: centimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimeters()), back: |v| value!(v.centimeters(), centimeter, f64, ()) },
    L { n: "sd: decameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decameters()), back: |v| value!(v.decameters(), decameter, f64, ()) },
    L { n: "sd: decimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimeters()), back: |v| value!(v.decimeters(), decimeter, f64, ()) },
    L { n: "sd: exameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exameters()), back: |v| value!(v.exameters(), exameter, f64, ()) },
    L { n: "sd: femtometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtometers()), back: |v| value!(v.femtometers(), femtometer, f64, ()) },
    L { n: "sd: gigameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigameters()), back: |v| value!(v.gigameters(), gigameter, f64, ()) },
    L { n: "sd: hectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectometers()), back: |v| value!(v.hectometers(), hectometer, f64, ()) },
    L { n: "sd: kilometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilometers()), back: |v| value!(v.kilometers(), kilometer, f64, ()) },
    L { n: "sd: megameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megameters()), back: |v| value!(v.megameters(), megameter, f64, ()) },
    L { n: "sd: micrometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micrometers()), back: |v| value!(v.micrometers(), micrometer, f64, ()) },
    L { n: "sd: millimeters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimeters()), back: |v| value!(v.millimeters(), millimeter, f64, ()) },
    L { n: "sd: nanometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanometers()), back: |v| value!(v.nanometers(), nanometer, f64, ()) },
    L { n: "sd: petameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petameters()), back: |v| value!(v.petameters(), petameter, f64, ()) },
    L { n: "sd: picometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picometers()), back: |v| value!(v.picometers(), picometer, f64, ()) },
    L { n: "sd: quectometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectometers()), back: |v| value!(v.quectometers(), quectometer, f64, ()) },
    L { n: "sd: quettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettameters()), back: |v| value!(v.quettameters(), quettameter, f64, ()) },
    L { n: "sd: ronnameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnameters()), back: |v| value!(v.ronnameters(), ronnameter, f64, ()) },
    L { n: "sd: rontometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontometers()), back: |v| value!(v.rontometers(), rontometer, f64, ()) },
    L { n: "sd: terameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terameters()), back: |v| value!(v.terameters(), terameter, f64, ()) },
    L { n: "sd: yoctometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctometers()), back: |v| value!(v.yoctometers(), yoctometer, f64, ()) },
    L { n: "sd: yottameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottameters()), back: |v| value!(v.yottameters(), yottameter, f64, ()) },
    L { n: "sd: zeptometers", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptometers()), back: |v| value!(v.zeptometers(), zeptometer, f64, ()) },
    L { n: "sd: zettameters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettameters()), back: |v| value!(v.zettameters(), zettameter, f64, ()) },
    L { n: "sd: seconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.seconds()), back: |v| value!(v.seconds(), second, f64, ()) },
    L { n: "sd: attoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoseconds()), back: |v| value!(v.attoseconds(), attosecond, f64, ()) },
    L { n: "sd: centiseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiseconds()), back: |v| value!(v.centiseconds(), centisecond, f64, ()) },
    L { n: "sd: decaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaseconds()), back: |v| value!(v.decaseconds(), decasecond, f64, ()) },
    L { n: "sd: deciseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciseconds()), back: |v| value!(v.deciseconds(), decisecond, f64, ()) },
    L { n: "sd: exaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaseconds()), back: |v| value!(v.exaseconds(), exasecond, f64, ()) },
    L { n: "sd: femtoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoseconds()), back: |v| value!(v.femtoseconds(), femtosecond, f64, ()) },
    L { n: "sd: gigaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaseconds()), back: |v| value!(v.gigaseconds(), gigasecond, f64, ()) },
    L { n: "sd: hectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoseconds()), back: |v| value!(v.hectoseconds(), hectosecond, f64, ()) },
    L { n: "sd: kiloseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloseconds()), back: |v| value!(v.kiloseconds(), kilosecond, f64, ()) },
    L { n: "sd: megaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaseconds()), back: |v| value!(v.megaseconds(), megasecond, f64, ()) },
    L { n: "sd: microseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microseconds()), back: |v| value!(v.microseconds(), microsecond, f64, ()) },
    L { n: "sd: milliseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliseconds()), back: |v| value!(v.milliseconds(), millisecond, f64, ()) },
    L { n: "sd: nanoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoseconds()), back: |v| value!(v.nanoseconds(), nanosecond, f64, ()) },
    L { n: "sd: petaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaseconds()), back: |v| value!(v.petaseconds(), petasecond, f64, ()) },
    L { n: "sd: picoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoseconds()), back: |v| value!(v.picoseconds(), picosecond, f64, ()) },
    L { n: "sd: quectoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoseconds()), back: |v| value!(v.quectoseconds(), quectosecond, f64, ()) },
    L { n: "sd: quettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaseconds()), back: |v| value!(v.quettaseconds(), quettasecond, f64, ()) },
    L { n: "sd: ronnaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaseconds()), back: |v| value!(v.ronnaseconds(), ronnasecond, f64, ()) },
    L { n: "sd: rontoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoseconds()), back: |v| value!(v.rontoseconds(), rontosecond, f64, ()) },
    L { n: "sd: teraseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraseconds()), back: |v| value!(v.teraseconds(), terasecond, f64, ()) },
    L { n: "sd: yoctoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoseconds()), back: |v| value!(v.yoctoseconds(), yoctosecond, f64, ()) },
    L { n: "sd: yottaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaseconds()), back: |v| value!(v.yottaseconds(), yottasecond, f64, ()) },
    L { n: "sd: zeptoseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoseconds()), back: |v| value!(v.zeptoseconds(), zeptosecond, f64, ()) },
    L { n: "sd: zettaseconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaseconds()), back: |v| value!(v.zettaseconds(), zettasecond, f64, ()) },
    L { n: "sd: amperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.amperes()), back: |v| value!(v.amperes(), ampere, f64, ()) },
    L { n: "sd: attoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoamperes()), back: |v| value!(v.attoamperes(), attoampere, f64, ()) },
    L { n: "sd: centiamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiamperes()), back: |v| value!(v.centiamperes(), centiampere, f64, ()) },
    L { n: "sd: decaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaamperes()), back: |v| value!(v.decaamperes(), decaampere, f64, ()) },
    L { n: "sd: deciamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciamperes()), back: |v| value!(v.deciamperes(), deciampere, f64, ()) },
    L { n: "sd: exaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaamperes()), back: |v| value!(v.exaamperes(), exaampere, f64, ()) },
    L { n: "sd: femtoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoamperes()), back: |v| value!(v.femtoamperes(), femtoampere, f64, ()) },
    L { n: "sd: gigaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaamperes()), back: |v| value!(v.gigaamperes(), gigaampere, f64, ()) },
    L { n: "sd: hectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoamperes()), back: |v| value!(v.hectoamperes(), hectoampere, f64, ()) },
    L { n: "sd: kiloamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloamperes()), back: |v| value!(v.kiloamperes(), kiloampere, f64, ()) },
    L { n: "sd: megaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaamperes()), back: |v| value!(v.megaamperes(), megaampere, f64, ()) },
    L { n: "sd: microamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microamperes()), back: |v| value!(v.microamperes(), microampere, f64, ()) },
    L { n: "sd: milliamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliamperes()), back: |v| value!(v.milliamperes(), milliampere, f64, ()) },
    L { n: "sd: nanoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoamperes()), back: |v| value!(v.nanoamperes(), nanoampere, f64, ()) },
    L { n: "sd: petaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaamperes()), back: |v| value!(v.petaamperes(), petaampere, f64, ()) },
    L { n: "sd: picoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoamperes()), back: |v| value!(v.picoamperes(), picoampere, f64, ()) },
    L { n: "sd: quectoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoamperes()), back: |v| value!(v.quectoamperes(), quectoampere, f64, ()) },
    L { n: "sd: quettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaamperes()), back: |v| value!(v.quettaamperes(), quettaampere, f64, ()) },
    L { n: "sd: ronnaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaamperes()), back: |v| value!(v.ronnaamperes(), ronnaampere, f64, ()) },
    L { n: "sd: rontoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoamperes()), back: |v| value!(v.rontoamperes(), rontoampere, f64, ()) },
    L { n: "sd: teraamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraamperes()), back: |v| value!(v.teraamperes(), teraampere, f64, ()) },
    L { n: "sd: yoctoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoamperes()), back: |v| value!(v.yoctoamperes(), yoctoampere, f64, ()) },
    L { n: "sd: yottaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaamperes()), back: |v| value!(v.yottaamperes(), yottaampere, f64, ()) },
    L { n: "sd: zeptoamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoamperes()), back: |v| value!(v.zeptoamperes(), zeptoampere, f64, ()) },
    L { n: "sd: zettaamperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaamperes()), back: |v| value!(v.zettaamperes(), zettaampere, f64, ()) },
    L { n: "sd: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kelvin()), back: |v| value!(v.kelvin(), kelvin, f64, ()) },
    L { n: "sd: attokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attokelvin()), back: |v| value!(v.attokelvin(), attokelvin, f64, ()) },
    L { n: "sd: centikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centikelvin()), back: |v| value!(v.centikelvin(), centikelvin, f64, ()) },
    L { n: "sd: decakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decakelvin()), back: |v| value!(v.decakelvin(), decakelvin, f64, ()) },
    L { n: "sd: decikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decikelvin()), back: |v| value!(v.decikelvin(), decikelvin, f64, ()) },
    L { n: "sd: exakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exakelvin()), back: |v| value!(v.exakelvin(), exakelvin, f64, ()) },
    L { n: "sd: femtokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtokelvin()), back: |v| value!(v.femtokelvin(), femtokelvin, f64, ()) },
    L { n: "sd: gigakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigakelvin()), back: |v| value!(v.gigakelvin(), gigakelvin, f64, ()) },
    L { n: "sd: hectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectokelvin()), back: |v| value!(v.hectokelvin(), hectokelvin, f64, ()) },
    L { n: "sd: kilokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilokelvin()), back: |v| value!(v.kilokelvin(), kilokelvin, f64, ()) },
    L { n: "sd: megakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megakelvin()), back: |v| value!(v.megakelvin(), megakelvin, f64, ()) },
    L { n: "sd: microkelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microkelvin()), back: |v| value!(v.microkelvin(), microkelvin, f64, ()) },
    L { n: "sd: millikelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millikelvin()), back: |v| value!(v.millikelvin(), millikelvin, f64, ()) },
    L { n: "sd: nanokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanokelvin()), back: |v| value!(v.nanokelvin(), nanokelvin, f64, ()) },
    L { n: "sd: petakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petakelvin()), back: |v| value!(v.petakelvin(), petakelvin, f64, ()) },
    L { n: "sd: picokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picokelvin()), back: |v| value!(v.picokelvin(), picokelvin, f64, ()) },
    L { n: "sd: quectokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectokelvin()), back: |v| value!(v.quectokelvin(), quectokelvin, f64, ()) },
    L { n: "sd: quettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettakelvin()), back: |v| value!(v.quettakelvin(), quettakelvin, f64, ()) },
    L { n: "sd: ronnakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnakelvin()), back: |v| value!(v.ronnakelvin(), ronnakelvin, f64, ()) },
    L { n: "sd: rontokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontokelvin()), back: |v| value!(v.rontokelvin(), rontokelvin, f64, ()) },
    L { n: "sd: terakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.terakelvin()), back: |v| value!(v.terakelvin(), terakelvin, f64, ()) },
    L { n: "sd: yoctokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctokelvin()), back: |v| value!(v.yoctokelvin(), yoctokelvin, f64, ()) },
    L { n: "sd: yottakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottakelvin()), back: |v| value!(v.yottakelvin(), yottakelvin, f64, ()) },
    L { n: "sd: zeptokelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptokelvin()), back: |v| value!(v.zeptokelvin(), zeptokelvin, f64, ()) },
    L { n: "sd: zettakelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettakelvin()), back: |v| value!(v.zettakelvin(), zettakelvin, f64, ()) },
    L { n: "sd: moles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.moles()), back: |v| value!(v.moles(), mole, f64, ()) },
    L { n: "sd: attomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attomoles()), back: |v| value!(v.attomoles(), attomole, f64, ()) },
    L { n: "sd: centimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centimoles()), back: |v| value!(v.centimoles(), centimole, f64, ()) },
    L { n: "sd: decamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decamoles()), back: |v| value!(v.decamoles(), decamole, f64, ()) },
    L { n: "sd: decimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decimoles()), back: |v| value!(v.decimoles(), decimole, f64, ()) },
    L { n: "sd: examoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.examoles()), back: |v| value!(v.examoles(), examole, f64, ()) },
    L { n: "sd: femtomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtomoles()), back: |v| value!(v.femtomoles(), femtomole, f64, ()) },
    L { n: "sd: gigamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigamoles()), back: |v| value!(v.gigamoles(), gigamole, f64, ()) },
    L { n: "sd: hectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectomoles()), back: |v| value!(v.hectomoles(), hectomole, f64, ()) },
    L { n: "sd: kilomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilomoles()), back: |v| value!(v.kilomoles(), kilomole, f64, ()) },
    L { n: "sd: megamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megamoles()), back: |v| value!(v.megamoles(), megamole, f64, ()) },
    L { n: "sd: micromoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.micromoles()), back: |v| value!(v.micromoles(), micromole, f64, ()) },
    L { n: "sd: millimoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millimoles()), back: |v| value!(v.millimoles(), millimole, f64, ()) },
    L { n: "sd: nanomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanomoles()), back: |v| value!(v.nanomoles(), nanomole, f64, ()) },
    L { n: "sd: petamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petamoles()), back: |v| value!(v.petamoles(), petamole, f64, ()) },
    L { n: "sd: picomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picomoles()), back: |v| value!(v.picomoles(), picomole, f64, ()) },
    L { n: "sd: quectomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectomoles()), back: |v| value!(v.quectomoles(), quectomole, f64, ()) },
    L { n: "sd: quettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettamoles()), back: |v| value!(v.quettamoles(), quettamole, f64, ()) },
    L { n: "sd: ronnamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnamoles()), back: |v| value!(v.ronnamoles(), ronnamole, f64, ()) },
    L { n: "sd: rontomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontomoles()), back: |v| value!(v.rontomoles(), rontomole, f64, ()) },
    L { n: "sd: teramoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teramoles()), back: |v| value!(v.teramoles(), teramole, f64, ()) },
    L { n: "sd: yoctomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctomoles()), back: |v| value!(v.yoctomoles(), yoctomole, f64, ()) },
    L { n: "sd: yottamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottamoles()), back: |v| value!(v.yottamoles(), yottamole, f64, ()) },
    L { n: "sd: zeptomoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptomoles()), back: |v| value!(v.zeptomoles(), zeptomole, f64, ()) },
    L { n: "sd: zettamoles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettamoles()), back: |v| value!(v.zettamoles(), zettamole, f64, ()) },
    L { n: "sd: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.candela()), back: |v| value!(v.candela(), candela, f64, ()) },
    L { n: "sd: attocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attocandela()), back: |v| value!(v.attocandela(), attocandela, f64, ()) },
    L { n: "sd: centicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centicandela()), back: |v| value!(v.centicandela(), centicandela, f64, ()) },
    L { n: "sd: decacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decacandela()), back: |v| value!(v.decacandela(), decacandela, f64, ()) },
    L { n: "sd: decicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decicandela()), back: |v| value!(v.decicandela(), decicandela, f64, ()) },
    L { n: "sd: exacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exacandela()), back: |v| value!(v.exacandela(), exacandela, f64, ()) },
    L { n: "sd: femtocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtocandela()), back: |v| value!(v.femtocandela(), femtocandela, f64, ()) },
    L { n: "sd: gigacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigacandela()), back: |v| value!(v.gigacandela(), gigacandela, f64, ()) },
    L { n: "sd: hectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectocandela()), back: |v| value!(v.hectocandela(), hectocandela, f64, ()) },
    L { n: "sd: kilocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kilocandela()), back: |v| value!(v.kilocandela(), kilocandela, f64, ()) },
    L { n: "sd: megacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megacandela()), back: |v| value!(v.megacandela(), megacandela, f64, ()) },
    L { n: "sd: microcandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microcandela()), back: |v| value!(v.microcandela(), microcandela, f64, ()) },
    L { n: "sd: millicandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.millicandela()), back: |v| value!(v.millicandela(), millicandela, f64, ()) },
    L { n: "sd: nanocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanocandela()), back: |v| value!(v.nanocandela(), nanocandela, f64, ()) },
    L { n: "sd: petacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petacandela()), back: |v| value!(v.petacandela(), petacandela, f64, ()) },
    L { n: "sd: picocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picocandela()), back: |v| value!(v.picocandela(), picocandela, f64, ()) },
    L { n: "sd: quectocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectocandela()), back: |v| value!(v.quectocandela(), quectocandela, f64, ()) },
    L { n: "sd: quettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettacandela()), back: |v| value!(v.quettacandela(), quettacandela, f64, ()) },
    L { n: "sd: ronnacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnacandela()), back: |v| value!(v.ronnacandela(), ronnacandela, f64, ()) },
    L { n: "sd: rontocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontocandela()), back: |v| value!(v.rontocandela(), rontocandela, f64, ()) },
    L { n: "sd: teracandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teracandela()), back: |v| value!(v.teracandela(), teracandela, f64, ()) },
    L { n: "sd: yoctocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctocandela()), back: |v| value!(v.yoctocandela(), yoctocandela, f64, ()) },
    L { n: "sd: yottacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottacandela()), back: |v| value!(v.yottacandela(), yottacandela, f64, ()) },
    L { n: "sd: zeptocandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptocandela()), back: |v| value!(v.zeptocandela(), zeptocandela, f64, ()) },
    L { n: "sd: zettacandela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettacandela()), back: |v| value!(v.zettacandela(), zettacandela, f64, ()) },
    L { n: "sd: radians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.radians()), back: |v| value!(v.radians(), radian, f64, ()) },
    L { n: "sd: attoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.attoradians()), back: |v| value!(v.attoradians(), attoradian, f64, ()) },
    L { n: "sd: centiradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.01f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.centiradians()), back: |v| value!(v.centiradians(), centiradian, f64, ()) },
    L { n: "sd: decaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 10.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.decaradians()), back: |v| value!(v.decaradians(), decaradian, f64, ()) },
    L { n: "sd: deciradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.1f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.deciradians()), back: |v| value!(v.deciradians(), deciradian, f64, ()) },
    L { n: "sd: exaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e+18f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.exaradians()), back: |v| value!(v.exaradians(), exaradian, f64, ()) },
    L { n: "sd: femtoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-15f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.femtoradians()), back: |v| value!(v.femtoradians(), femtoradian, f64, ()) },
    L { n: "sd: gigaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.gigaradians()), back: |v| value!(v.gigaradians(), gigaradian, f64, ()) },
    L { n: "sd: hectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 100.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectoradians()), back: |v| value!(v.hectoradians(), hectoradian, f64, ()) },
    L { n: "sd: kiloradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kiloradians()), back: |v| value!(v.kiloradians(), kiloradian, f64, ()) },
    L { n: "sd: megaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.megaradians()), back: |v| value!(v.megaradians(), megaradian, f64, ()) },
    L { n: "sd: microradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-06f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.microradians()), back: |v| value!(v.microradians(), microradian, f64, ()) },
    L { n: "sd: milliradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.milliradians()), back: |v| value!(v.milliradians(), milliradian, f64, ()) },
    L { n: "sd: nanoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-09f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.nanoradians()), back: |v| value!(v.nanoradians(), nanoradian, f64, ()) },
    L { n: "sd: petaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1000000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.petaradians()), back: |v| value!(v.petaradians(), petaradian, f64, ()) },
    L { n: "sd: picoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-12f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.picoradians()), back: |v| value!(v.picoradians(), picoradian, f64, ()) },
    L { n: "sd: quectoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quectoradians()), back: |v| value!(v.quectoradians(), quectoradian, f64, ()) },
    L { n: "sd: quettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e+30f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.quettaradians()), back: |v| value!(v.quettaradians(), quettaradian, f64, ()) },
    L { n: "sd: ronnaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e+27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.ronnaradians()), back: |v| value!(v.ronnaradians(), ronnaradian, f64, ()) },
    L { n: "sd: rontoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-27f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.rontoradians()), back: |v| value!(v.rontoradians(), rontoradian, f64, ()) },
    L { n: "sd: teraradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1000000000000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.teraradians()), back: |v| value!(v.teraradians(), teraradian, f64, ()) },
    L { n: "sd: yoctoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yoctoradians()), back: |v| value!(v.yoctoradians(), yoctoradian, f64, ()) },
    L { n: "sd: yottaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e+24f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.yottaradians()), back: |v| value!(v.yottaradians(), yottaradian, f64, ()) },
    L { n: "sd: zeptoradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e-21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zeptoradians()), back: |v| value!(v.zeptoradians(), zeptoradian, f64, ()) },
    L { n: "sd: zettaradians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 1e+21f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.zettaradians()), back: |v| value!(v.zettaradians(), zettaradian, f64, ()) },
];
pub static INT: &[LI] = &[
    LI { n: "sd: grams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).grams()) },
    LI { n: "sd: grams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).grams()) },
    LI { n: "sd: decagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decagrams()) },
    LI { n: "sd: decagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decagrams()) },
    LI { n: "sd: gigagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).gigagrams()) },
    LI { n: "sd: gigagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).gigagrams()) },
    LI { n: "sd: hectograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectograms()) },
    LI { n: "sd: hectograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectograms()) },
    LI { n: "sd: kilograms i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilograms()) },
    LI { n: "sd: kilograms i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilograms()) },
    LI { n: "sd: megagrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megagrams()) },
    LI { n: "sd: megagrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megagrams()) },
    LI { n: "sd: teragrams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).teragrams()) },
    LI { n: "sd: teragrams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).teragrams()) },
    LI { n: "sd: femtometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).femtometers()) },
    LI { n: "sd: femtometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).femtometers()) },
    LI { n: "sd: micrometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).micrometers()) },
    LI { n: "sd: micrometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).micrometers()) },
    LI { n: "sd: millimeters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millimeters()) },
    LI { n: "sd: millimeters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millimeters()) },
    LI { n: "sd: nanometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanometers()) },
    LI { n: "sd: nanometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanometers()) },
    LI { n: "sd: picometers i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).picometers()) },
    LI { n: "sd: picometers i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).picometers()) },
    LI { n: "sd: seconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).seconds()) },
    LI { n: "sd: seconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).seconds()) },
    LI { n: "sd: centiseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 360000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centiseconds()) },
    LI { n: "sd: centiseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 360000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centiseconds()) },
    LI { n: "sd: decaseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 360, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decaseconds()) },
    LI { n: "sd: decaseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 360, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decaseconds()) },
    LI { n: "sd: deciseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 36000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).deciseconds()) },
    LI { n: "sd: deciseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 36000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).deciseconds()) },
    LI { n: "sd: hectoseconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 36, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectoseconds()) },
    LI { n: "sd: hectoseconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 36, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectoseconds()) },
    LI { n: "sd: amperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).amperes()) },
    LI { n: "sd: amperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).amperes()) },
    LI { n: "sd: centiamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centiamperes()) },
    LI { n: "sd: centiamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centiamperes()) },
    LI { n: "sd: deciamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).deciamperes()) },
    LI { n: "sd: deciamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 100000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).deciamperes()) },
    LI { n: "sd: microamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microamperes()) },
    LI { n: "sd: microamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microamperes()) },
    LI { n: "sd: milliamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).milliamperes()) },
    LI { n: "sd: milliamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).milliamperes()) },
    LI { n: "sd: nanoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanoamperes()) },
    LI { n: "sd: nanoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanoamperes()) },
    LI { n: "sd: picoamperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).picoamperes()) },
    LI { n: "sd: picoamperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).picoamperes()) },
    LI { n: "sd: kelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kelvin()) },
    LI { n: "sd: kelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kelvin()) },
    LI { n: "sd: centikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centikelvin()) },
    LI { n: "sd: centikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centikelvin()) },
    LI { n: "sd: decakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decakelvin()) },
    LI { n: "sd: decakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decakelvin()) },
    LI { n: "sd: decikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decikelvin()) },
    LI { n: "sd: decikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decikelvin()) },
    LI { n: "sd: hectokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectokelvin()) },
    LI { n: "sd: hectokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 100, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectokelvin()) },
    LI { n: "sd: kilokelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilokelvin()) },
    LI { n: "sd: kilokelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilokelvin()) },
    LI { n: "sd: megakelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megakelvin()) },
    LI { n: "sd: megakelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megakelvin()) },
    LI { n: "sd: microkelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).microkelvin()) },
    LI { n: "sd: microkelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).microkelvin()) },
    LI { n: "sd: millikelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millikelvin()) },
    LI { n: "sd: millikelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millikelvin()) },
    LI { n: "sd: femtomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).femtomoles()) },
    LI { n: "sd: femtomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).femtomoles()) },
    LI { n: "sd: micromoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).micromoles()) },
    LI { n: "sd: micromoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).micromoles()) },
    LI { n: "sd: millimoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millimoles()) },
    LI { n: "sd: millimoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millimoles()) },
    LI { n: "sd: nanomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).nanomoles()) },
    LI { n: "sd: nanomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).nanomoles()) },
    LI { n: "sd: picomoles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).picomoles()) },
    LI { n: "sd: picomoles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [-9, 0, -9, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).picomoles()) },
    LI { n: "sd: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).candela()) },
    LI { n: "sd: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).candela()) },
    LI { n: "sd: centicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).centicandela()) },
    LI { n: "sd: centicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).centicandela()) },
    LI { n: "sd: decacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 10, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decacandela()) },
    LI { n: "sd: decacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 10, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decacandela()) },
    LI { n: "sd: decicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).decicandela()) },
    LI { n: "sd: decicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).decicandela()) },
    LI { n: "sd: hectocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).hectocandela()) },
    LI { n: "sd: hectocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).hectocandela()) },
    LI { n: "sd: kilocandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).kilocandela()) },
    LI { n: "sd: kilocandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).kilocandela()) },
    LI { n: "sd: megacandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).megacandela()) },
    LI { n: "sd: megacandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).megacandela()) },
    LI { n: "sd: millicandela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi((v as i32).millicandela()) },
    LI { n: "sd: millicandela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi((v).millicandela()) },
    LI { n: "sd: V * s^2 / m i32", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, V * s^2 / m, i32)) },
    LI { n: "sd: V * s^2 / m i64", d: [1, 1, -1, -1, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, V * s^2 / m, i64)) },
    LI { n: "sd: 1 / s i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, 1 / s, i32)) },
    LI { n: "sd: 1 / s i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 3600, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, 1 / s, i64)) },
    LI { n: "sd: deg / s i32", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], num: 10, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, deg / s, i32)) },
    LI { n: "sd: deg / s i64", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], num: 10, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, deg / s, i64)) },
    LI { n: "sd: kg^-2 i32", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, kg^-2, i32)) },
    LI { n: "sd: kg^-2 i64", d: [-2, 0, 0, 0, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, kg^-2, i64)) },
    LI { n: "sd: kg^2 i32", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, kg^2, i32)) },
    LI { n: "sd: kg^2 i64", d: [2, 0, 0, 0, 0, 0, 0, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, kg^2, i64)) },
    LI { n: "sd: K^-4 i32", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^-4, i32)) },
    LI { n: "sd: K^-4 i64", d: [0, 0, 0, 0, -4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^-4, i64)) },
    LI { n: "sd: K^-3 i32", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^-3, i32)) },
    LI { n: "sd: K^-3 i64", d: [0, 0, 0, 0, -3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^-3, i64)) },
    LI { n: "sd: K^-2 i32", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^-2, i32)) },
    LI { n: "sd: K^-2 i64", d: [0, 0, 0, 0, -2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^-2, i64)) },
    LI { n: "sd: K^2 i32", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^2, i32)) },
    LI { n: "sd: K^2 i64", d: [0, 0, 0, 0, 2, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^2, i64)) },
    LI { n: "sd: K^3 i32", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^3, i32)) },
    LI { n: "sd: K^3 i64", d: [0, 0, 0, 0, 3, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^3, i64)) },
    LI { n: "sd: K^4 i32", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K^4, i32)) },
    LI { n: "sd: K^4 i64", d: [0, 0, 0, 0, 4, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K^4, i64)) },
    LI { n: "sd: cd^-3 i32", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd^-3, i32)) },
    LI { n: "sd: cd^-3 i64", d: [0, 0, 0, 0, 0, 0, -3, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd^-3, i64)) },
    LI { n: "sd: cd^-2 i32", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-4, 0, -4, 0], num: 10000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd^-2, i32)) },
    LI { n: "sd: cd^-2 i64", d: [0, 0, 0, 0, 0, 0, -2, 0], s: [-4, 0, -4, 0], num: 10000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd^-2, i64)) },
    LI { n: "sd: cd^2 i32", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [4, 0, 4, 0], num: 1, den: 10000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd^2, i32)) },
    LI { n: "sd: cd^2 i64", d: [0, 0, 0, 0, 0, 0, 2, 0], s: [4, 0, 4, 0], num: 1, den: 10000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd^2, i64)) },
    LI { n: "sd: cd^3 i32", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd^3, i32)) },
    LI { n: "sd: cd^3 i64", d: [0, 0, 0, 0, 0, 0, 3, 0], s: [6, 0, 6, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd^3, i64)) },
    LI { n: "sd: cd * s i32", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [6, 2, 4, 0], num: 1, den: 360000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd * s, i32)) },
    LI { n: "sd: cd * s i64", d: [0, 0, 1, 0, 0, 0, 1, 0], s: [6, 2, 4, 0], num: 1, den: 360000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd * s, i64)) },
    LI { n: "sd: K / mm i32", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, K / mm, i32)) },
    LI { n: "sd: K / mm i64", d: [0, -1, 0, 0, 1, 0, 0, 0], s: [9, 0, 9, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, K / mm, i64)) },
    LI { n: "sd: deg / min i32", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], num: 1, den: 6, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, deg / min, i32)) },
    LI { n: "sd: deg / min i64", d: [0, 0, -1, 0, 0, 0, 0, 1], s: [-3, -2, -2, 1], num: 1, den: 6, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, deg / min, i64)) },
    LI { n: "sd: mW / m^2 i32", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-9, -6, -3, 0], num: 46656, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, mW / m^2, i32)) },
    LI { n: "sd: mW / m^2 i64", d: [1, 0, -3, 0, 0, 0, 0, 0], s: [-9, -6, -3, 0], num: 46656, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, mW / m^2, i64)) },
    LI { n: "sd: uF * V i32", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-2, 2, -4, 0], num: 1, den: 3600, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, uF * V, i32)) },
    LI { n: "sd: uF * V i64", d: [0, 0, 1, 1, 0, 0, 0, 0], s: [-2, 2, -4, 0], num: 1, den: 3600, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, uF * V, i64)) },
    LI { n: "sd: m / mm i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, m / mm, i32)) },
    LI { n: "sd: m / mm i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, m / mm, i64)) },
    LI { n: "sd: min / h i32", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, min / h, i32)) },
    LI { n: "sd: min / h i64", d: [0, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, min / h, i64)) },
    LI { n: "sd: 1 / min i32", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 60, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, 1 / min, i32)) },
    LI { n: "sd: 1 / min i64", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [-4, -2, -2, 0], num: 60, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, 1 / min, i64)) },
    LI { n: "sd: kg i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, kg, i32)) },
    LI { n: "sd: kg i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, kg, i64)) },
    LI { n: "sd: g i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, g, i32)) },
    LI { n: "sd: g i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], num: 1, den: 1000000, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, g, i64)) },
    LI { n: "sd: mm i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, mm, i32)) },
    LI { n: "sd: mm i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-9, 0, -9, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, mm, i64)) },
    LI { n: "sd: h i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, h, i32)) },
    LI { n: "sd: h i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, h, i64)) },
    LI { n: "sd: min i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 60, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, min, i32)) },
    LI { n: "sd: min i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 60, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, min, i64)) },
    LI { n: "sd: s i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, s, i32)) },
    LI { n: "sd: s i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 3600, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, s, i64)) },
    LI { n: "sd: A i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, A, i32)) },
    LI { n: "sd: A i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-6, 0, -6, 0], num: 1000000, den: 1, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, A, i64)) },
    LI { n: "sd: cd i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, cd, i32)) },
    LI { n: "sd: cd i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [2, 0, 2, 0], num: 1, den: 100, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, cd, i64)) },
    LI { n: "sd: deg i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 360, ty: 2, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v as i32, deg, i32)) },
    LI { n: "sd: deg i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 360, ty: 3, brand: std::any::type_name::<()>, f: |v| outi(sd::quantity!(v, deg, i64)) },
];
}
pub fn lits_sd(f: &mut dyn FnMut(OutT, OutT, &'static str)) { use sd::quantity as q; go(f); #[culit::culit(sd::literals)]
fn go(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    f(typed(7.1g), typed(sd::quantity!(7.1, g)), "sd: 7.1g");
    f(typed(7.1gr), typed(sd::quantity!(7.1, gr)), "sd: 7.1gr");
    f(typed(7.1ct), typed(sd::quantity!(7.1, ct)), "sd: 7.1ct");
    f(typed(7.1oz), typed(sd::quantity!(7.1, oz)), "sd: 7.1oz");
    f(typed(7.1ozt), typed(sd::quantity!(7.1, ozt)), "sd: 7.1ozt");
    f(typed(7.1lbt), typed(sd::quantity!(7.1, lbt)), "sd: 7.1lbt");
    f(typed(7.1lb), typed(sd::quantity!(7.1, lb)), "sd: 7.1lb");
    f(typed(7.1st), typed(sd::quantity!(7.1, st)), "sd: 7.1st");
    f(typed(7.1t), typed(sd::quantity!(7.1, t)), "sd: 7.1t");
    f(typed(7.1m), typed(sd::quantity!(7.1, m)), "sd: 7.1m");
    f(typed(7.1ft), typed(sd::quantity!(7.1, ft)), "sd: 7.1ft");
    f(typed(7.1yd), typed(sd::quantity!(7.1, yd)), "sd: 7.1yd");
    f(typed(7.1mi), typed(sd::quantity!(7.1, mi)), "sd: 7.1mi");
    f(typed(7.1nmi), typed(sd::quantity!(7.1, nmi)), "sd: 7.1nmi");
    f(typed(7.1AU), typed(sd::quantity!(7.1, AU)), "sd: 7.1AU");
    f(typed(7.1ly), typed(sd::quantity!(7.1, ly)), "sd: 7.1ly");
    f(typed(7.1pc), typed(sd::quantity!(7.1, pc)), "sd: 7.1pc");
    f(typed(7.1s), typed(sd::quantity!(7.1, s)), "sd: 7.1s");
    f(typed(7.1min), typed(sd::quantity!(7.1, min)), "sd: 7.1min");
    f(typed(7.1min_f64), typed(sd::quantity!(7.1f64, min, f64)), "sd: 7.1min_f64");
    f(typed(7.1min_f32), typed(sd::quantity!(7.1f32, min, f32)), "sd: 7.1min_f32");
    f(typed(25min_i32), typed(sd::quantity!(25i32, min, i32)), "sd: 25min_i32");
    f(typed(25min_i64), typed(sd::quantity!(25i64, min, i64)), "sd: 25min_i64");
    f(typed(25min), typed(sd::quantity!(25i32, min, i32)), "sd: 25min");
    f(typed(7.1h), typed(sd::quantity!(7.1, h)), "sd: 7.1h");
    f(typed(7.1hr), typed(sd::quantity!(7.1, hr)), "sd: 7.1hr");
    f(typed(7.1d), typed(sd::quantity!(7.1, d)), "sd: 7.1d");
    f(typed(7.1wk), typed(sd::quantity!(7.1, wk)), "sd: 7.1wk");
    f(typed(7.1mo), typed(sd::quantity!(7.1, mo)), "sd: 7.1mo");
    f(typed(7.1mo_f64), typed(sd::quantity!(7.1f64, mo, f64)), "sd: 7.1mo_f64");
    f(typed(7.1mo_f32), typed(sd::quantity!(7.1f32, mo, f32)), "sd: 7.1mo_f32");
    f(typed(25mo_i32), typed(sd::quantity!(25i32, mo, i32)), "sd: 25mo_i32");
    f(typed(25mo_i64), typed(sd::quantity!(25i64, mo, i64)), "sd: 25mo_i64");
    f(typed(25mo), typed(sd::quantity!(25i32, mo, i32)), "sd: 25mo");
    f(typed(7.1yr), typed(sd::quantity!(7.1, yr)), "sd: 7.1yr");
    f(typed(7.1A), typed(sd::quantity!(7.1, A)), "sd: 7.1A");
    f(typed(7.1K), typed(sd::quantity!(7.1, K)), "sd: 7.1K");
    f(typed(7.1degC), typed(sd::quantity!(7.1, degC)), "sd: 7.1degC");
    f(typed(7.1degR), typed(sd::quantity!(7.1, degR)), "sd: 7.1degR");
    f(typed(7.1degR_f64), typed(sd::quantity!(7.1f64, degR, f64)), "sd: 7.1degR_f64");
    f(typed(7.1degR_f32), typed(sd::quantity!(7.1f32, degR, f32)), "sd: 7.1degR_f32");
    f(typed(7.1degF), typed(sd::quantity!(7.1, degF)), "sd: 7.1degF");
    f(typed(7.1mol), typed(sd::quantity!(7.1, mol)), "sd: 7.1mol");
    f(typed(7.1cd), typed(sd::quantity!(7.1, cd)), "sd: 7.1cd");
    f(typed(7.1lm), typed(sd::quantity!(7.1, lm)), "sd: 7.1lm");
    f(typed(7.1rad), typed(sd::quantity!(7.1, rad)), "sd: 7.1rad");
    f(typed(7.1rad_f64), typed(sd::quantity!(7.1f64, rad, f64)), "sd: 7.1rad_f64");
    f(typed(7.1rad_f32), typed(sd::quantity!(7.1f32, rad, f32)), "sd: 7.1rad_f32");
    f(typed(7.1deg), typed(sd::quantity!(7.1, deg)), "sd: 7.1deg");
    f(typed(7.1grad), typed(sd::quantity!(7.1, grad)), "sd: 7.1grad");
    f(typed(7.1turn), typed(sd::quantity!(7.1, turn)), "sd: 7.1turn");
    f(typed(7.1rot), typed(sd::quantity!(7.1, rot)), "sd: 7.1rot");
    f(typed(7.1arcmin), typed(sd::quantity!(7.1, arcmin)), "sd: 7.1arcmin");
    f(typed(7.1arcmin_f64), typed(sd::quantity!(7.1f64, arcmin, f64)), "sd: 7.1arcmin_f64");
    f(typed(7.1arcmin_f32), typed(sd::quantity!(7.1f32, arcmin, f32)), "sd: 7.1arcmin_f32");
    f(typed(25arcmin_i32), typed(sd::quantity!(25i32, arcmin, i32)), "sd: 25arcmin_i32");
    f(typed(25arcmin_i64), typed(sd::quantity!(25i64, arcmin, i64)), "sd: 25arcmin_i64");
    f(typed(25arcmin), typed(sd::quantity!(25i32, arcmin, i32)), "sd: 25arcmin");
    f(typed(7.1arcsec), typed(sd::quantity!(7.1, arcsec)), "sd: 7.1arcsec");
    f(typed(7.1hect), typed(sd::quantity!(7.1, hect)), "sd: 7.1hect");
    f(typed(7.1acre), typed(sd::quantity!(7.1, acre)), "sd: 7.1acre");
    f(typed(7.1L), typed(sd::quantity!(7.1, L)), "sd: 7.1L");
    f(typed(7.1l), typed(sd::quantity!(7.1, l)), "sd: 7.1l");
    f(typed(7.1l_f64), typed(sd::quantity!(7.1f64, l, f64)), "sd: 7.1l_f64");
    f(typed(7.1l_f32), typed(sd::quantity!(7.1f32, l, f32)), "sd: 7.1l_f32");
    f(typed(7.1gallon), typed(sd::quantity!(7.1, gallon)), "sd: 7.1gallon");
    f(typed(7.1gal), typed(sd::quantity!(7.1, gal)), "sd: 7.1gal");
    f(typed(7.1qrt), typed(sd::quantity!(7.1, qrt)), "sd: 7.1qrt");
    f(typed(7.1pnt), typed(sd::quantity!(7.1, pnt)), "sd: 7.1pnt");
    f(typed(7.1cup), typed(sd::quantity!(7.1, cup)), "sd: 7.1cup");
    f(typed(7.1fl_oz), typed(sd::quantity!(7.1, fl_oz)), "sd: 7.1fl_oz");
    f(typed(7.1tbsp), typed(sd::quantity!(7.1, tbsp)), "sd: 7.1tbsp");
    f(typed(7.1tsp), typed(sd::quantity!(7.1, tsp)), "sd: 7.1tsp");
    f(typed(7.1uk_gal), typed(sd::quantity!(7.1, uk_gal)), "sd: 7.1uk_gal");
    f(typed(7.1uk_qrt), typed(sd::quantity!(7.1, uk_qrt)), "sd: 7.1uk_qrt");
    f(typed(7.1uk_pnt), typed(sd::quantity!(7.1, uk_pnt)), "sd: 7.1uk_pnt");
    f(typed(7.1uk_cup), typed(sd::quantity!(7.1, uk_cup)), "sd: 7.1uk_cup");
    f(typed(7.1uk_fl_oz), typed(sd::quantity!(7.1, uk_fl_oz)), "sd: 7.1uk_fl_oz");
    f(typed(7.1uk_tbsp), typed(sd::quantity!(7.1, uk_tbsp)), "sd: 7.1uk_tbsp");
    f(typed(7.1uk_tsp), typed(sd::quantity!(7.1, uk_tsp)), "sd: 7.1uk_tsp");
    f(typed(7.1bu), typed(sd::quantity!(7.1, bu)), "sd: 7.1bu");
    f(typed(7.1Hz), typed(sd::quantity!(7.1, Hz)), "sd: 7.1Hz");
    f(typed(7.1N), typed(sd::quantity!(7.1, N)), "sd: 7.1N");
    f(typed(7.1J), typed(sd::quantity!(7.1, J)), "sd: 7.1J");
    f(typed(7.1Nm), typed(sd::quantity!(7.1, Nm)), "sd: 7.1Nm");
    f(typed(7.1Nm_f64), typed(sd::quantity!(7.1f64, Nm, f64)), "sd: 7.1Nm_f64");
    f(typed(7.1Nm_f32), typed(sd::quantity!(7.1f32, Nm, f32)), "sd: 7.1Nm_f32");
    f(typed(7.1cal), typed(sd::quantity!(7.1, cal)), "sd: 7.1cal");
    f(typed(7.1ft_lb), typed(sd::quantity!(7.1, ft_lb)), "sd: 7.1ft_lb");
    f(typed(7.1kWh), typed(sd::quantity!(7.1, kWh)), "sd: 7.1kWh");
    f(typed(7.1thm), typed(sd::quantity!(7.1, thm)), "sd: 7.1thm");
    f(typed(7.1W), typed(sd::quantity!(7.1, W)), "sd: 7.1W");
    f(typed(7.1W_f64), typed(sd::quantity!(7.1f64, W, f64)), "sd: 7.1W_f64");
    f(typed(7.1W_f32), typed(sd::quantity!(7.1f32, W, f32)), "sd: 7.1W_f32");
    f(typed(7.1hp), typed(sd::quantity!(7.1, hp)), "sd: 7.1hp");
    f(typed(7.1Pa), typed(sd::quantity!(7.1, Pa)), "sd: 7.1Pa");
    f(typed(7.1Torr), typed(sd::quantity!(7.1, Torr)), "sd: 7.1Torr");
    f(typed(7.1psi), typed(sd::quantity!(7.1, psi)), "sd: 7.1psi");
    f(typed(7.1bar), typed(sd::quantity!(7.1, bar)), "sd: 7.1bar");
    f(typed(7.1bar_f64), typed(sd::quantity!(7.1f64, bar, f64)), "sd: 7.1bar_f64");
    f(typed(7.1bar_f32), typed(sd::quantity!(7.1f32, bar, f32)), "sd: 7.1bar_f32");
    f(typed(7.1atm), typed(sd::quantity!(7.1, atm)), "sd: 7.1atm");
    f(typed(7.1C), typed(sd::quantity!(7.1, C)), "sd: 7.1C");
    f(typed(7.1V), typed(sd::quantity!(7.1, V)), "sd: 7.1V");
    f(typed(7.1F), typed(sd::quantity!(7.1, F)), "sd: 7.1F");
    f(typed(7.1S), typed(sd::quantity!(7.1, S)), "sd: 7.1S");
    f(typed(7.1S_f64), typed(sd::quantity!(7.1f64, S, f64)), "sd: 7.1S_f64");
    f(typed(7.1S_f32), typed(sd::quantity!(7.1f32, S, f32)), "sd: 7.1S_f32");
    f(typed(7.1H), typed(sd::quantity!(7.1, H)), "sd: 7.1H");
    f(typed(7.1T), typed(sd::quantity!(7.1, T)), "sd: 7.1T");
    f(typed(7.1Wb), typed(sd::quantity!(7.1, Wb)), "sd: 7.1Wb");
    f(typed(7.1lx), typed(sd::quantity!(7.1, lx)), "sd: 7.1lx");
    f(typed(7.1G), typed(sd::quantity!(7.1, G)), "sd: 7.1G");
    f(typed(7.1G_f64), typed(sd::quantity!(7.1f64, G, f64)), "sd: 7.1G_f64");
    f(typed(7.1G_f32), typed(sd::quantity!(7.1f32, G, f32)), "sd: 7.1G_f32");
    f(typed(7.1St), typed(sd::quantity!(7.1, St)), "sd: 7.1St");
    f(typed(7.1mg), typed(sd::quantity!(7.1, mg)), "sd: 7.1mg");
    f(typed(7.1kg), typed(sd::quantity!(7.1, kg)), "sd: 7.1kg");
    f(typed(7.1mm), typed(sd::quantity!(7.1, mm)), "sd: 7.1mm");
    f(typed(7.1km), typed(sd::quantity!(7.1, km)), "sd: 7.1km");
    f(typed(7.1km_f64), typed(sd::quantity!(7.1f64, km, f64)), "sd: 7.1km_f64");
    f(typed(7.1km_f32), typed(sd::quantity!(7.1f32, km, f32)), "sd: 7.1km_f32");
    f(typed(7.1ms), typed(sd::quantity!(7.1, ms)), "sd: 7.1ms");
    f(typed(7.1ks), typed(sd::quantity!(7.1, ks)), "sd: 7.1ks");
    f(typed(7.1mA), typed(sd::quantity!(7.1, mA)), "sd: 7.1mA");
    f(typed(7.1kA), typed(sd::quantity!(7.1, kA)), "sd: 7.1kA");
    f(typed(7.1mK), typed(sd::quantity!(7.1, mK)), "sd: 7.1mK");
    f(typed(7.1mK_f64), typed(sd::quantity!(7.1f64, mK, f64)), "sd: 7.1mK_f64");
    f(typed(7.1mK_f32), typed(sd::quantity!(7.1f32, mK, f32)), "sd: 7.1mK_f32");
    f(typed(25mK_i32), typed(sd::quantity!(25i32, mK, i32)), "sd: 25mK_i32");
    f(typed(25mK_i64), typed(sd::quantity!(25i64, mK, i64)), "sd: 25mK_i64");
    f(typed(25mK), typed(sd::quantity!(25i32, mK, i32)), "sd: 25mK");
    f(typed(7.1kK), typed(sd::quantity!(7.1, kK)), "sd: 7.1kK");
    f(typed(7.1mmol), typed(sd::quantity!(7.1, mmol)), "sd: 7.1mmol");
    f(typed(7.1kmol), typed(sd::quantity!(7.1, kmol)), "sd: 7.1kmol");
    f(typed(7.1mcd), typed(sd::quantity!(7.1, mcd)), "sd: 7.1mcd");
    f(typed(7.1kcd), typed(sd::quantity!(7.1, kcd)), "sd: 7.1kcd");
    f(typed(7.1kcd_f64), typed(sd::quantity!(7.1f64, kcd, f64)), "sd: 7.1kcd_f64");
    f(typed(7.1kcd_f32), typed(sd::quantity!(7.1f32, kcd, f32)), "sd: 7.1kcd_f32");
    f(typed(25kcd_i32), typed(sd::quantity!(25i32, kcd, i32)), "sd: 25kcd_i32");
    f(typed(25kcd_i64), typed(sd::quantity!(25i64, kcd, i64)), "sd: 25kcd_i64");
    f(typed(25kcd), typed(sd::quantity!(25i32, kcd, i32)), "sd: 25kcd");
    f(typed(7.1mrad), typed(sd::quantity!(7.1, mrad)), "sd: 7.1mrad");
    f(typed(7.1krad), typed(sd::quantity!(7.1, krad)), "sd: 7.1krad");
    f(typed(7.1mhect), typed(sd::quantity!(7.1, mhect)), "sd: 7.1mhect");
    f(typed(7.1khect), typed(sd::quantity!(7.1, khect)), "sd: 7.1khect");
    f(typed(7.1mL), typed(sd::quantity!(7.1, mL)), "sd: 7.1mL");
    f(typed(7.1mL_f64), typed(sd::quantity!(7.1f64, mL, f64)), "sd: 7.1mL_f64");
    f(typed(7.1mL_f32), typed(sd::quantity!(7.1f32, mL, f32)), "sd: 7.1mL_f32");
    f(typed(7.1ml), typed(sd::quantity!(7.1, ml)), "sd: 7.1ml");
    f(typed(7.1kL), typed(sd::quantity!(7.1, kL)), "sd: 7.1kL");
    f(typed(7.1kl), typed(sd::quantity!(7.1, kl)), "sd: 7.1kl");
    f(typed(7.1mHz), typed(sd::quantity!(7.1, mHz)), "sd: 7.1mHz");
    f(typed(7.1kHz), typed(sd::quantity!(7.1, kHz)), "sd: 7.1kHz");
    f(typed(7.1kHz_f64), typed(sd::quantity!(7.1f64, kHz, f64)), "sd: 7.1kHz_f64");
    f(typed(7.1kHz_f32), typed(sd::quantity!(7.1f32, kHz, f32)), "sd: 7.1kHz_f32");
    f(typed(7.1mN), typed(sd::quantity!(7.1, mN)), "sd: 7.1mN");
    f(typed(7.1kN), typed(sd::quantity!(7.1, kN)), "sd: 7.1kN");
    f(typed(7.1mJ), typed(sd::quantity!(7.1, mJ)), "sd: 7.1mJ");
    f(typed(7.1kJ), typed(sd::quantity!(7.1, kJ)), "sd: 7.1kJ");
    f(typed(7.1mW), typed(sd::quantity!(7.1, mW)), "sd: 7.1mW");
    f(typed(7.1mW_f64), typed(sd::quantity!(7.1f64, mW, f64)), "sd: 7.1mW_f64");
    f(typed(7.1mW_f32), typed(sd::quantity!(7.1f32, mW, f32)), "sd: 7.1mW_f32");
    f(typed(7.1kW), typed(sd::quantity!(7.1, kW)), "sd: 7.1kW");
    f(typed(7.1mPa), typed(sd::quantity!(7.1, mPa)), "sd: 7.1mPa");
    f(typed(7.1kPa), typed(sd::quantity!(7.1, kPa)), "sd: 7.1kPa");
    f(typed(7.1mC), typed(sd::quantity!(7.1, mC)), "sd: 7.1mC");
    f(typed(7.1kC), typed(sd::quantity!(7.1, kC)), "sd: 7.1kC");
    f(typed(7.1kC_f64), typed(sd::quantity!(7.1f64, kC, f64)), "sd: 7.1kC_f64");
    f(typed(7.1kC_f32), typed(sd::quantity!(7.1f32, kC, f32)), "sd: 7.1kC_f32");
    f(typed(7.1mV), typed(sd::quantity!(7.1, mV)), "sd: 7.1mV");
    f(typed(7.1kV), typed(sd::quantity!(7.1, kV)), "sd: 7.1kV");
    f(typed(7.1mF), typed(sd::quantity!(7.1, mF)), "sd: 7.1mF");
    f(typed(7.1kF), typed(sd::quantity!(7.1, kF)), "sd: 7.1kF");
    f(typed(7.1mS), typed(sd::quantity!(7.1, mS)), "sd: 7.1mS");
    f(typed(7.1mS_f64), typed(sd::quantity!(7.1f64, mS, f64)), "sd: 7.1mS_f64");
    f(typed(7.1mS_f32), typed(sd::quantity!(7.1f32, mS, f32)), "sd: 7.1mS_f32");
    f(typed(7.1kS), typed(sd::quantity!(7.1, kS)), "sd: 7.1kS");
    f(typed(7.1mH), typed(sd::quantity!(7.1, mH)), "sd: 7.1mH");
    f(typed(7.1kH), typed(sd::quantity!(7.1, kH)), "sd: 7.1kH");
    f(typed(7.1mT), typed(sd::quantity!(7.1, mT)), "sd: 7.1mT");
    f(typed(7.1kT), typed(sd::quantity!(7.1, kT)), "sd: 7.1kT");
    f(typed(7.1kT_f64), typed(sd::quantity!(7.1f64, kT, f64)), "sd: 7.1kT_f64");
    f(typed(7.1kT_f32), typed(sd::quantity!(7.1f32, kT, f32)), "sd: 7.1kT_f32");
    f(typed(7.1mWb), typed(sd::quantity!(7.1, mWb)), "sd: 7.1mWb");
    f(typed(7.1kWb), typed(sd::quantity!(7.1, kWb)), "sd: 7.1kWb");
    f(typed(7.1mlx), typed(sd::quantity!(7.1, mlx)), "sd: 7.1mlx");
    f(typed(7.1klx), typed(sd::quantity!(7.1, klx)), "sd: 7.1klx");
    f(typed(7.1mSt), typed(sd::quantity!(7.1, mSt)), "sd: 7.1mSt");
    f(typed(7.1mSt_f64), typed(sd::quantity!(7.1f64, mSt, f64)), "sd: 7.1mSt_f64");
    f(typed(7.1mSt_f32), typed(sd::quantity!(7.1f32, mSt, f32)), "sd: 7.1mSt_f32");
    f(typed(7.1kSt), typed(sd::quantity!(7.1, kSt)), "sd: 7.1kSt");
} }
pub static BRAND: &[L] = &[
    L { n: "sx: g", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, g)), back: |v| value!(sx::quantity!(v, g), g, f64, sx::Xx) },
    L { n: "sx: kg", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, kg)), back: |v| value!(sx::quantity!(v, kg), kg, f64, sx::Xx) },
    L { n: "sx: m", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, m)), back: |v| value!(sx::quantity!(v, m), m, f64, sx::Xx) },
    L { n: "sx: km", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, km)), back: |v| value!(sx::quantity!(v, km), km, f64, sx::Xx) },
    L { n: "sx: mm", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, mm)), back: |v| value!(sx::quantity!(v, mm), mm, f64, sx::Xx) },
    L { n: "sx: s", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, s)), back: |v| value!(sx::quantity!(v, s), s, f64, sx::Xx) },
    L { n: "sx: min", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, min)), back: |v| value!(sx::quantity!(v, min), min, f64, sx::Xx) },
    L { n: "sx: h", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, h)), back: |v| value!(sx::quantity!(v, h), h, f64, sx::Xx) },
    L { n: "sx: A", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, A)), back: |v| value!(sx::quantity!(v, A), A, f64, sx::Xx) },
    L { n: "sx: mA", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, mA)), back: |v| value!(sx::quantity!(v, mA), mA, f64, sx::Xx) },
    L { n: "sx: K", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, K)), back: |v| value!(sx::quantity!(v, K), K, f64, sx::Xx) },
    L { n: "sx: mol", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, mol)), back: |v| value!(sx::quantity!(v, mol), mol, f64, sx::Xx) },
    L { n: "sx: cd", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, cd)), back: |v| value!(sx::quantity!(v, cd), cd, f64, sx::Xx) },
    L { n: "sx: rad", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, rad)), back: |v| value!(sx::quantity!(v, rad), rad, f64, sx::Xx) },
    L { n: "sx: deg", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, deg)), back: |v| value!(sx::quantity!(v, deg), deg, f64, sx::Xx) },
    L { n: "sx: N", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, N)), back: |v| value!(sx::quantity!(v, N), N, f64, sx::Xx) },
    L { n: "sx: kN", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, kN)), back: |v| value!(sx::quantity!(v, kN), kN, f64, sx::Xx) },
    L { n: "sx: J", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, J)), back: |v| value!(sx::quantity!(v, J), J, f64, sx::Xx) },
    L { n: "sx: mJ", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, mJ)), back: |v| value!(sx::quantity!(v, mJ), mJ, f64, sx::Xx) },
    L { n: "sx: W", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, W)), back: |v| value!(sx::quantity!(v, W), W, f64, sx::Xx) },
    L { n: "sx: mW", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, mW)), back: |v| value!(sx::quantity!(v, mW), mW, f64, sx::Xx) },
    L { n: "sx: V", d: [1, 2, -3, -1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, V)), back: |v| value!(sx::quantity!(v, V), V, f64, sx::Xx) },
    L { n: "sx: Pa", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, Pa)), back: |v| value!(sx::quantity!(v, Pa), Pa, f64, sx::Xx) },
    L { n: "sx: kHz", d: [0, 0, -1, 0, 0, 0, 0, 0], s: [3, 0, 3, 0], val: 1000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, kHz)), back: |v| value!(sx::quantity!(v, kHz), kHz, f64, sx::Xx) },
    L { n: "sx: L", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, L)), back: |v| value!(sx::quantity!(v, L), L, f64, sx::Xx) },
    L { n: "sx: m / s^2", d: [0, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, m / s^2)), back: |v| value!(sx::quantity!(v, m / s^2), m / s^2, f64, sx::Xx) },
    L { n: "sx: kg * m^2 / s^3", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, kg * m^2 / s^3)), back: |v| value!(sx::quantity!(v, kg * m^2 / s^3), kg * m^2 / s^3, f64, sx::Xx) },
    L { n: "sx: km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], s: [-1, -2, 1, 0], val: 0.2777777777777778f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, km / h)), back: |v| value!(sx::quantity!(v, km / h), km / h, f64, sx::Xx) },
    L { n: "sx: J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(sx::quantity!(v, J / (kg * K))), back: |v| value!(sx::quantity!(v, J / (kg * K)), J / (kg * K), f64, sx::Xx) },
];
pub mod m_sx { use super::*; use super::sx::*;
pub static METHOD: &[L] = &[
    L { n: "sx: grams", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.grams()), back: |v| value!(v.grams(), g, f64, sx::Xx) },
    L { n: "sx: meters", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.meters()), back: |v| value!(v.meters(), m, f64, sx::Xx) },
    L { n: "sx: seconds", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.seconds()), back: |v| value!(v.seconds(), s, f64, sx::Xx) },
    L { n: "sx: amperes", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.amperes()), back: |v| value!(v.amperes(), A, f64, sx::Xx) },
    L { n: "sx: kelvin", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.kelvin()), back: |v| value!(v.kelvin(), K, f64, sx::Xx) },
    L { n: "sx: moles", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.moles()), back: |v| value!(v.moles(), mol, f64, sx::Xx) },
    L { n: "sx: candela", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.candela()), back: |v| value!(v.candela(), cd, f64, sx::Xx) },
    L { n: "sx: radians", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.radians()), back: |v| value!(v.radians(), rad, f64, sx::Xx) },
    L { n: "sx: newtons", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.newtons()), back: |v| value!(v.newtons(), N, f64, sx::Xx) },
    L { n: "sx: joules", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.joules()), back: |v| value!(v.joules(), J, f64, sx::Xx) },
    L { n: "sx: watts", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.watts()), back: |v| value!(v.watts(), W, f64, sx::Xx) },
    L { n: "sx: pascals", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.pascals()), back: |v| value!(v.pascals(), Pa, f64, sx::Xx) },
    L { n: "sx: minutes", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], val: 60.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.minutes()), back: |v| value!(v.minutes(), min, f64, sx::Xx) },
    L { n: "sx: hours", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], val: 3600.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hours()), back: |v| value!(v.hours(), h, f64, sx::Xx) },
    L { n: "sx: degrees", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(v.degrees()), back: |v| value!(v.degrees(), deg, f64, sx::Xx) },
    L { n: "sx: turns", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], val: 2.0f64, pi: 1, off: 0.0f64, tol: 1e-12, f: |v| out(v.turns()), back: |v| value!(v.turns(), rot, f64, sx::Xx) },
    L { n: "sx: hectares", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], val: 10000.0f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.hectares()), back: |v| value!(v.hectares(), hect, f64, sx::Xx) },
    L { n: "sx: liters", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], val: 0.001f64, pi: 0, off: 0.0f64, tol: 1e-12, f: |v| out(v.liters()), back: |v| value!(v.liters(), L, f64, sx::Xx) },
];
pub static INT: &[LI] = &[
    LI { n: "sx: grams i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).grams()) },
    LI { n: "sx: gram i32", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, g, i32)) },
    LI { n: "sx: grams i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).grams()) },
    LI { n: "sx: gram i64", d: [1, 0, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, g, i64)) },
    LI { n: "sx: meters i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).meters()) },
    LI { n: "sx: meter i32", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, m, i32)) },
    LI { n: "sx: meters i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).meters()) },
    LI { n: "sx: meter i64", d: [0, 1, 0, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, m, i64)) },
    LI { n: "sx: seconds i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).seconds()) },
    LI { n: "sx: second i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, s, i32)) },
    LI { n: "sx: seconds i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).seconds()) },
    LI { n: "sx: second i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, s, i64)) },
    LI { n: "sx: amperes i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).amperes()) },
    LI { n: "sx: ampere i32", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, A, i32)) },
    LI { n: "sx: amperes i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).amperes()) },
    LI { n: "sx: ampere i64", d: [0, 0, 0, 1, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, A, i64)) },
    LI { n: "sx: kelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).kelvin()) },
    LI { n: "sx: kelvin i32", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, K, i32)) },
    LI { n: "sx: kelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).kelvin()) },
    LI { n: "sx: kelvin i64", d: [0, 0, 0, 0, 1, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, K, i64)) },
    LI { n: "sx: moles i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).moles()) },
    LI { n: "sx: mole i32", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, mol, i32)) },
    LI { n: "sx: moles i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).moles()) },
    LI { n: "sx: mole i64", d: [0, 0, 0, 0, 0, 1, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, mol, i64)) },
    LI { n: "sx: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).candela()) },
    LI { n: "sx: candela i32", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, cd, i32)) },
    LI { n: "sx: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).candela()) },
    LI { n: "sx: candela i64", d: [0, 0, 0, 0, 0, 0, 1, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, cd, i64)) },
    LI { n: "sx: radians i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).radians()) },
    LI { n: "sx: radian i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, rad, i32)) },
    LI { n: "sx: radians i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).radians()) },
    LI { n: "sx: radian i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, rad, i64)) },
    LI { n: "sx: newtons i32", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).newtons()) },
    LI { n: "sx: newton i32", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, N, i32)) },
    LI { n: "sx: newtons i64", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).newtons()) },
    LI { n: "sx: newton i64", d: [1, 1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, N, i64)) },
    LI { n: "sx: joules i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).joules()) },
    LI { n: "sx: joule i32", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, J, i32)) },
    LI { n: "sx: joules i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).joules()) },
    LI { n: "sx: joule i64", d: [1, 2, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, J, i64)) },
    LI { n: "sx: watts i32", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).watts()) },
    LI { n: "sx: watt i32", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, W, i32)) },
    LI { n: "sx: watts i64", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).watts()) },
    LI { n: "sx: watt i64", d: [1, 2, -3, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, W, i64)) },
    LI { n: "sx: pascals i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).pascals()) },
    LI { n: "sx: pascal i32", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, Pa, i32)) },
    LI { n: "sx: pascals i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).pascals()) },
    LI { n: "sx: pascal i64", d: [1, -1, -2, 0, 0, 0, 0, 0], s: [0, 0, 0, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, Pa, i64)) },
    LI { n: "sx: minutes i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).minutes()) },
    LI { n: "sx: minute i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, min, i32)) },
    LI { n: "sx: minutes i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).minutes()) },
    LI { n: "sx: minute i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [2, 1, 1, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, min, i64)) },
    LI { n: "sx: hours i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).hours()) },
    LI { n: "sx: hour i32", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, h, i32)) },
    LI { n: "sx: hours i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).hours()) },
    LI { n: "sx: hour i64", d: [0, 0, 1, 0, 0, 0, 0, 0], s: [4, 2, 2, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, h, i64)) },
    LI { n: "sx: degrees i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).degrees()) },
    LI { n: "sx: degree i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, deg, i32)) },
    LI { n: "sx: degrees i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).degrees()) },
    LI { n: "sx: degree i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [-2, -2, -1, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, deg, i64)) },
    LI { n: "sx: turns i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).turns()) },
    LI { n: "sx: turn i32", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, rot, i32)) },
    LI { n: "sx: turns i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).turns()) },
    LI { n: "sx: turn i64", d: [0, 0, 0, 0, 0, 0, 0, 1], s: [1, 0, 0, 1], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, rot, i64)) },
    LI { n: "sx: hectares i32", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).hectares()) },
    LI { n: "sx: hectare i32", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, hect, i32)) },
    LI { n: "sx: hectares i64", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).hectares()) },
    LI { n: "sx: hectare i64", d: [0, 2, 0, 0, 0, 0, 0, 0], s: [4, 0, 4, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, hect, i64)) },
    LI { n: "sx: liters i32", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v as i32).liters()) },
    LI { n: "sx: liter i32", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 2, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v as i32, L, i32)) },
    LI { n: "sx: liters i64", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi((v).liters()) },
    LI { n: "sx: liter i64", d: [0, 3, 0, 0, 0, 0, 0, 0], s: [-3, 0, -3, 0], num: 1, den: 1, ty: 3, brand: std::any::type_name::<sx::Xx>, f: |v| outi(sx::quantity!(v, L, i64)) },
];
}
