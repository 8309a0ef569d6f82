// generated by lib/gen_units.py from lib/units_oracle.py
use super::*;

pub static MAKE_QUICK: &[C] = &[
    C { n: "gram", u: 0, e: 0, f: |v| out(quantity!(v, gram)) },
    C { n: "g", u: 0, e: 0, f: |v| out(quantity!(v, g)) },
    C { n: "grain", u: 1, e: 0, f: |v| out(quantity!(v, grain)) },
    C { n: "gr", u: 1, e: 0, f: |v| out(quantity!(v, gr)) },
    C { n: "carat", u: 2, e: 0, f: |v| out(quantity!(v, carat)) },
    C { n: "ct", u: 2, e: 0, f: |v| out(quantity!(v, ct)) },
    C { n: "ounce", u: 3, e: 0, f: |v| out(quantity!(v, ounce)) },
    C { n: "oz", u: 3, e: 0, f: |v| out(quantity!(v, oz)) },
    C { n: "troy_ounce", u: 4, e: 0, f: |v| out(quantity!(v, troy_ounce)) },
    C { n: "ozt", u: 4, e: 0, f: |v| out(quantity!(v, ozt)) },
    C { n: "troy_pound", u: 5, e: 0, f: |v| out(quantity!(v, troy_pound)) },
    C { n: "lbt", u: 5, e: 0, f: |v| out(quantity!(v, lbt)) },
    C { n: "pound", u: 6, e: 0, f: |v| out(quantity!(v, pound)) },
    C { n: "lb", u: 6, e: 0, f: |v| out(quantity!(v, lb)) },
    C { n: "stone", u: 7, e: 0, f: |v| out(quantity!(v, stone)) },
    C { n: "st", u: 7, e: 0, f: |v| out(quantity!(v, st)) },
    C { n: "ton", u: 8, e: 0, f: |v| out(quantity!(v, ton)) },
    C { n: "t", u: 8, e: 0, f: |v| out(quantity!(v, t)) },
    C { n: "meter", u: 9, e: 0, f: |v| out(quantity!(v, meter)) },
    C { n: "m", u: 9, e: 0, f: |v| out(quantity!(v, m)) },
    C { n: "inch", u: 10, e: 0, f: |v| out(quantity!(v, inch)) },
    C { n: "foot", u: 11, e: 0, f: |v| out(quantity!(v, foot)) },
    C { n: "ft", u: 11, e: 0, f: |v| out(quantity!(v, ft)) },
    C { n: "yard", u: 12, e: 0, f: |v| out(quantity!(v, yard)) },
    C { n: "yd", u: 12, e: 0, f: |v| out(quantity!(v, yd)) },
    C { n: "mile", u: 13, e: 0, f: |v| out(quantity!(v, mile)) },
    C { n: "mi", u: 13, e: 0, f: |v| out(quantity!(v, mi)) },
    C { n: "nautical_mile", u: 14, e: 0, f: |v| out(quantity!(v, nautical_mile)) },
    C { n: "nmi", u: 14, e: 0, f: |v| out(quantity!(v, nmi)) },
    C { n: "astronomical_unit", u: 15, e: 0, f: |v| out(quantity!(v, astronomical_unit)) },
    C { n: "AU", u: 15, e: 0, f: |v| out(quantity!(v, AU)) },
    C { n: "light_year", u: 16, e: 0, f: |v| out(quantity!(v, light_year)) },
    C { n: "ly", u: 16, e: 0, f: |v| out(quantity!(v, ly)) },
    C { n: "parsec", u: 17, e: 0, f: |v| out(quantity!(v, parsec)) },
    C { n: "pc", u: 17, e: 0, f: |v| out(quantity!(v, pc)) },
    C { n: "second", u: 18, e: 0, f: |v| out(quantity!(v, second)) },
    C { n: "s", u: 18, e: 0, f: |v| out(quantity!(v, s)) },
    C { n: "minute", u: 19, e: 0, f: |v| out(quantity!(v, minute)) },
    C { n: "min", u: 19, e: 0, f: |v| out(quantity!(v, min)) },
    C { n: "hour", u: 20, e: 0, f: |v| out(quantity!(v, hour)) },
    C { n: "h", u: 20, e: 0, f: |v| out(quantity!(v, h)) },
    C { n: "hr", u: 20, e: 0, f: |v| out(quantity!(v, hr)) },
    C { n: "day", u: 21, e: 0, f: |v| out(quantity!(v, day)) },
    C { n: "d", u: 21, e: 0, f: |v| out(quantity!(v, d)) },
    C { n: "week", u: 22, e: 0, f: |v| out(quantity!(v, week)) },
    C { n: "wk", u: 22, e: 0, f: |v| out(quantity!(v, wk)) },
    C { n: "month", u: 23, e: 0, f: |v| out(quantity!(v, month)) },
    C { n: "mo", u: 23, e: 0, f: |v| out(quantity!(v, mo)) },
    C { n: "year", u: 24, e: 0, f: |v| out(quantity!(v, year)) },
    C { n: "yr", u: 24, e: 0, f: |v| out(quantity!(v, yr)) },
    C { n: "ampere", u: 25, e: 0, f: |v| out(quantity!(v, ampere)) },
    C { n: "A", u: 25, e: 0, f: |v| out(quantity!(v, A)) },
    C { n: "kelvin", u: 26, e: 0, f: |v| out(quantity!(v, kelvin)) },
    C { n: "K", u: 26, e: 0, f: |v| out(quantity!(v, K)) },
    C { n: "celsius", u: 27, e: 0, f: |v| out(quantity!(v, celsius)) },
    C { n: "degC", u: 27, e: 0, f: |v| out(quantity!(v, degC)) },
    C { n: "rankine", u: 28, e: 0, f: |v| out(quantity!(v, rankine)) },
    C { n: "degR", u: 28, e: 0, f: |v| out(quantity!(v, degR)) },
    C { n: "fahrenheit", u: 29, e: 0, f: |v| out(quantity!(v, fahrenheit)) },
    C { n: "degF", u: 29, e: 0, f: |v| out(quantity!(v, degF)) },
    C { n: "mole", u: 30, e: 0, f: |v| out(quantity!(v, mole)) },
    C { n: "mol", u: 30, e: 0, f: |v| out(quantity!(v, mol)) },
    C { n: "candela", u: 31, e: 0, f: |v| out(quantity!(v, candela)) },
    C { n: "cd", u: 31, e: 0, f: |v| out(quantity!(v, cd)) },
    C { n: "lumen", u: 32, e: 0, f: |v| out(quantity!(v, lumen)) },
    C { n: "lm", u: 32, e: 0, f: |v| out(quantity!(v, lm)) },
    C { n: "radian", u: 33, e: 0, f: |v| out(quantity!(v, radian)) },
    C { n: "rad", u: 33, e: 0, f: |v| out(quantity!(v, rad)) },
    C { n: "degree", u: 34, e: 0, f: |v| out(quantity!(v, degree)) },
    C { n: "deg", u: 34, e: 0, f: |v| out(quantity!(v, deg)) },
    C { n: "gradian", u: 35, e: 0, f: |v| out(quantity!(v, gradian)) },
    C { n: "grad", u: 35, e: 0, f: |v| out(quantity!(v, grad)) },
    C { n: "turn", u: 36, e: 0, f: |v| out(quantity!(v, turn)) },
    C { n: "rot", u: 36, e: 0, f: |v| out(quantity!(v, rot)) },
    C { n: "arcminute", u: 37, e: 0, f: |v| out(quantity!(v, arcminute)) },
    C { n: "arcmin", u: 37, e: 0, f: |v| out(quantity!(v, arcmin)) },
    C { n: "arcsecond", u: 38, e: 0, f: |v| out(quantity!(v, arcsecond)) },
    C { n: "arcsec", u: 38, e: 0, f: |v| out(quantity!(v, arcsec)) },
    C { n: "hectare", u: 39, e: 0, f: |v| out(quantity!(v, hectare)) },
    C { n: "hect", u: 39, e: 0, f: |v| out(quantity!(v, hect)) },
    C { n: "acre", u: 40, e: 0, f: |v| out(quantity!(v, acre)) },
    C { n: "liter", u: 41, e: 0, f: |v| out(quantity!(v, liter)) },
    C { n: "L", u: 41, e: 0, f: |v| out(quantity!(v, L)) },
    C { n: "l", u: 41, e: 0, f: |v| out(quantity!(v, l)) },
    C { n: "gallon", u: 42, e: 0, f: |v| out(quantity!(v, gallon)) },
    C { n: "gal", u: 42, e: 0, f: |v| out(quantity!(v, gal)) },
    C { n: "quart", u: 43, e: 0, f: |v| out(quantity!(v, quart)) },
    C { n: "qrt", u: 43, e: 0, f: |v| out(quantity!(v, qrt)) },
    C { n: "pint", u: 44, e: 0, f: |v| out(quantity!(v, pint)) },
    C { n: "pnt", u: 44, e: 0, f: |v| out(quantity!(v, pnt)) },
    C { n: "cup", u: 45, e: 0, f: |v| out(quantity!(v, cup)) },
    C { n: "fluid_ounce", u: 46, e: 0, f: |v| out(quantity!(v, fluid_ounce)) },
    C { n: "fl_oz", u: 46, e: 0, f: |v| out(quantity!(v, fl_oz)) },
    C { n: "tablespoon", u: 47, e: 0, f: |v| out(quantity!(v, tablespoon)) },
    C { n: "tbsp", u: 47, e: 0, f: |v| out(quantity!(v, tbsp)) },
    C { n: "teaspoon", u: 48, e: 0, f: |v| out(quantity!(v, teaspoon)) },
    C { n: "tsp", u: 48, e: 0, f: |v| out(quantity!(v, tsp)) },
    C { n: "uk_gallon", u: 49, e: 0, f: |v| out(quantity!(v, uk_gallon)) },
    C { n: "uk_gal", u: 49, e: 0, f: |v| out(quantity!(v, uk_gal)) },
    C { n: "uk_quart", u: 50, e: 0, f: |v| out(quantity!(v, uk_quart)) },
    C { n: "uk_qrt", u: 50, e: 0, f: |v| out(quantity!(v, uk_qrt)) },
    C { n: "uk_pint", u: 51, e: 0, f: |v| out(quantity!(v, uk_pint)) },
    C { n: "uk_pnt", u: 51, e: 0, f: |v| out(quantity!(v, uk_pnt)) },
    C { n: "uk_cup", u: 52, e: 0, f: |v| out(quantity!(v, uk_cup)) },
    C { n: "uk_fluid_ounce", u: 53, e: 0, f: |v| out(quantity!(v, uk_fluid_ounce)) },
    C { n: "uk_fl_oz", u: 53, e: 0, f: |v| out(quantity!(v, uk_fl_oz)) },
    C { n: "uk_tablespoon", u: 54, e: 0, f: |v| out(quantity!(v, uk_tablespoon)) },
    C { n: "uk_tbsp", u: 54, e: 0, f: |v| out(quantity!(v, uk_tbsp)) },
    C { n: "uk_teaspoon", u: 55, e: 0, f: |v| out(quantity!(v, uk_teaspoon)) },
    C { n: "uk_tsp", u: 55, e: 0, f: |v| out(quantity!(v, uk_tsp)) },
    C { n: "bushel", u: 56, e: 0, f: |v| out(quantity!(v, bushel)) },
    C { n: "bu", u: 56, e: 0, f: |v| out(quantity!(v, bu)) },
    C { n: "hertz", u: 57, e: 0, f: |v| out(quantity!(v, hertz)) },
    C { n: "Hz", u: 57, e: 0, f: |v| out(quantity!(v, Hz)) },
    C { n: "newton", u: 58, e: 0, f: |v| out(quantity!(v, newton)) },
    C { n: "N", u: 58, e: 0, f: |v| out(quantity!(v, N)) },
    C { n: "joule", u: 59, e: 0, f: |v| out(quantity!(v, joule)) },
    C { n: "J", u: 59, e: 0, f: |v| out(quantity!(v, J)) },
    C { n: "electron_volt", u: 60, e: 0, f: |v| out(quantity!(v, electron_volt)) },
    C { n: "eV", u: 60, e: 0, f: |v| out(quantity!(v, eV)) },
    C { n: "erg", u: 61, e: 0, f: |v| out(quantity!(v, erg)) },
    C { n: "newton_meter", u: 62, e: 0, f: |v| out(quantity!(v, newton_meter)) },
    C { n: "Nm", u: 62, e: 0, f: |v| out(quantity!(v, Nm)) },
    C { n: "calorie", u: 63, e: 0, f: |v| out(quantity!(v, calorie)) },
    C { n: "cal", u: 63, e: 0, f: |v| out(quantity!(v, cal)) },
    C { n: "foot_pound", u: 64, e: 0, f: |v| out(quantity!(v, foot_pound)) },
    C { n: "ft_lb", u: 64, e: 0, f: |v| out(quantity!(v, ft_lb)) },
    C { n: "kilowatt_hour", u: 65, e: 0, f: |v| out(quantity!(v, kilowatt_hour)) },
    C { n: "kWh", u: 65, e: 0, f: |v| out(quantity!(v, kWh)) },
    C { n: "therm", u: 66, e: 0, f: |v| out(quantity!(v, therm)) },
    C { n: "thm", u: 66, e: 0, f: |v| out(quantity!(v, thm)) },
    C { n: "watt", u: 67, e: 0, f: |v| out(quantity!(v, watt)) },
    C { n: "W", u: 67, e: 0, f: |v| out(quantity!(v, W)) },
    C { n: "horsepower", u: 68, e: 0, f: |v| out(quantity!(v, horsepower)) },
    C { n: "hp", u: 68, e: 0, f: |v| out(quantity!(v, hp)) },
    C { n: "pascal", u: 69, e: 0, f: |v| out(quantity!(v, pascal)) },
    C { n: "Pa", u: 69, e: 0, f: |v| out(quantity!(v, Pa)) },
    C { n: "torr", u: 70, e: 0, f: |v| out(quantity!(v, torr)) },
    C { n: "Torr", u: 70, e: 0, f: |v| out(quantity!(v, Torr)) },
    C { n: "psi", u: 71, e: 0, f: |v| out(quantity!(v, psi)) },
    C { n: "bar", u: 72, e: 0, f: |v| out(quantity!(v, bar)) },
    C { n: "atmosphere", u: 73, e: 0, f: |v| out(quantity!(v, atmosphere)) },
    C { n: "atm", u: 73, e: 0, f: |v| out(quantity!(v, atm)) },
    C { n: "coulomb", u: 74, e: 0, f: |v| out(quantity!(v, coulomb)) },
    C { n: "C", u: 74, e: 0, f: |v| out(quantity!(v, C)) },
    C { n: "volt", u: 75, e: 0, f: |v| out(quantity!(v, volt)) },
    C { n: "V", u: 75, e: 0, f: |v| out(quantity!(v, V)) },
    C { n: "farad", u: 76, e: 0, f: |v| out(quantity!(v, farad)) },
    C { n: "F", u: 76, e: 0, f: |v| out(quantity!(v, F)) },
    C { n: "ohm", u: 77, e: 0, f: |v| out(quantity!(v, ohm)) },
    C { n: "Ω", u: 77, e: 0, f: |v| out(quantity!(v, Ω)) },
    C { n: "siemens", u: 78, e: 0, f: |v| out(quantity!(v, siemens)) },
    C { n: "S", u: 78, e: 0, f: |v| out(quantity!(v, S)) },
    C { n: "henry", u: 79, e: 0, f: |v| out(quantity!(v, henry)) },
    C { n: "H", u: 79, e: 0, f: |v| out(quantity!(v, H)) },
    C { n: "tesla", u: 80, e: 0, f: |v| out(quantity!(v, tesla)) },
    C { n: "T", u: 80, e: 0, f: |v| out(quantity!(v, T)) },
    C { n: "weber", u: 81, e: 0, f: |v| out(quantity!(v, weber)) },
    C { n: "Wb", u: 81, e: 0, f: |v| out(quantity!(v, Wb)) },
    C { n: "lux", u: 82, e: 0, f: |v| out(quantity!(v, lux)) },
    C { n: "lx", u: 82, e: 0, f: |v| out(quantity!(v, lx)) },
    C { n: "gauss", u: 83, e: 0, f: |v| out(quantity!(v, gauss)) },
    C { n: "G", u: 83, e: 0, f: |v| out(quantity!(v, G)) },
    C { n: "stokes", u: 84, e: 0, f: |v| out(quantity!(v, stokes)) },
    C { n: "St", u: 84, e: 0, f: |v| out(quantity!(v, St)) },
    C { n: "nanogram", u: 0, e: -9, f: |v| out(quantity!(v, nanogram)) },
    C { n: "ug", u: 0, e: -6, f: |v| out(quantity!(v, ug)) },
    C { n: "mg", u: 0, e: -3, f: |v| out(quantity!(v, mg)) },
    C { n: "kg", u: 0, e: 3, f: |v| out(quantity!(v, kg)) },
    C { n: "kilogram", u: 0, e: 3, f: |v| out(quantity!(v, kilogram)) },
    C { n: "Mg", u: 0, e: 6, f: |v| out(quantity!(v, Mg)) },
    C { n: "qm", u: 9, e: -30, f: |v| out(quantity!(v, qm)) },
    C { n: "quectometer", u: 9, e: -30, f: |v| out(quantity!(v, quectometer)) },
    C { n: "rm", u: 9, e: -27, f: |v| out(quantity!(v, rm)) },
    C { n: "rontometer", u: 9, e: -27, f: |v| out(quantity!(v, rontometer)) },
    C { n: "ym", u: 9, e: -24, f: |v| out(quantity!(v, ym)) },
    C { n: "yoctometer", u: 9, e: -24, f: |v| out(quantity!(v, yoctometer)) },
    C { n: "zm", u: 9, e: -21, f: |v| out(quantity!(v, zm)) },
    C { n: "zeptometer", u: 9, e: -21, f: |v| out(quantity!(v, zeptometer)) },
    C { n: "am", u: 9, e: -18, f: |v| out(quantity!(v, am)) },
    C { n: "attometer", u: 9, e: -18, f: |v| out(quantity!(v, attometer)) },
    C { n: "fm", u: 9, e: -15, f: |v| out(quantity!(v, fm)) },
    C { n: "femtometer", u: 9, e: -15, f: |v| out(quantity!(v, femtometer)) },
    C { n: "pm", u: 9, e: -12, f: |v| out(quantity!(v, pm)) },
    C { n: "picometer", u: 9, e: -12, f: |v| out(quantity!(v, picometer)) },
    C { n: "nm", u: 9, e: -9, f: |v| out(quantity!(v, nm)) },
    C { n: "nanometer", u: 9, e: -9, f: |v| out(quantity!(v, nanometer)) },
    C { n: "µm", u: 9, e: -6, f: |v| out(quantity!(v, µm)) },
    C { n: "um", u: 9, e: -6, f: |v| out(quantity!(v, um)) },
    C { n: "micrometer", u: 9, e: -6, f: |v| out(quantity!(v, micrometer)) },
    C { n: "mm", u: 9, e: -3, f: |v| out(quantity!(v, mm)) },
    C { n: "millimeter", u: 9, e: -3, f: |v| out(quantity!(v, millimeter)) },
    C { n: "cm", u: 9, e: -2, f: |v| out(quantity!(v, cm)) },
    C { n: "centimeter", u: 9, e: -2, f: |v| out(quantity!(v, centimeter)) },
    C { n: "dm", u: 9, e: -1, f: |v| out(quantity!(v, dm)) },
    C { n: "decimeter", u: 9, e: -1, f: |v| out(quantity!(v, decimeter)) },
    C { n: "dam", u: 9, e: 1, f: |v| out(quantity!(v, dam)) },
    C { n: "decameter", u: 9, e: 1, f: |v| out(quantity!(v, decameter)) },
    C { n: "hm", u: 9, e: 2, f: |v| out(quantity!(v, hm)) },
    C { n: "hectometer", u: 9, e: 2, f: |v| out(quantity!(v, hectometer)) },
    C { n: "km", u: 9, e: 3, f: |v| out(quantity!(v, km)) },
    C { n: "kilometer", u: 9, e: 3, f: |v| out(quantity!(v, kilometer)) },
    C { n: "Mm", u: 9, e: 6, f: |v| out(quantity!(v, Mm)) },
    C { n: "megameter", u: 9, e: 6, f: |v| out(quantity!(v, megameter)) },
    C { n: "Gm", u: 9, e: 9, f: |v| out(quantity!(v, Gm)) },
    C { n: "gigameter", u: 9, e: 9, f: |v| out(quantity!(v, gigameter)) },
    C { n: "Tm", u: 9, e: 12, f: |v| out(quantity!(v, Tm)) },
    C { n: "terameter", u: 9, e: 12, f: |v| out(quantity!(v, terameter)) },
    C { n: "Pm", u: 9, e: 15, f: |v| out(quantity!(v, Pm)) },
    C { n: "petameter", u: 9, e: 15, f: |v| out(quantity!(v, petameter)) },
    C { n: "Em", u: 9, e: 18, f: |v| out(quantity!(v, Em)) },
    C { n: "exameter", u: 9, e: 18, f: |v| out(quantity!(v, exameter)) },
    C { n: "Zm", u: 9, e: 21, f: |v| out(quantity!(v, Zm)) },
    C { n: "zettameter", u: 9, e: 21, f: |v| out(quantity!(v, zettameter)) },
    C { n: "Ym", u: 9, e: 24, f: |v| out(quantity!(v, Ym)) },
    C { n: "yottameter", u: 9, e: 24, f: |v| out(quantity!(v, yottameter)) },
    C { n: "Rm", u: 9, e: 27, f: |v| out(quantity!(v, Rm)) },
    C { n: "ronnameter", u: 9, e: 27, f: |v| out(quantity!(v, ronnameter)) },
    C { n: "Qm", u: 9, e: 30, f: |v| out(quantity!(v, Qm)) },
    C { n: "quettameter", u: 9, e: 30, f: |v| out(quantity!(v, quettameter)) },
    C { n: "nanosecond", u: 18, e: -9, f: |v| out(quantity!(v, nanosecond)) },
    C { n: "us", u: 18, e: -6, f: |v| out(quantity!(v, us)) },
    C { n: "ms", u: 18, e: -3, f: |v| out(quantity!(v, ms)) },
    C { n: "ks", u: 18, e: 3, f: |v| out(quantity!(v, ks)) },
    C { n: "kilosecond", u: 18, e: 3, f: |v| out(quantity!(v, kilosecond)) },
    C { n: "Ms", u: 18, e: 6, f: |v| out(quantity!(v, Ms)) },
    C { n: "nanoampere", u: 25, e: -9, f: |v| out(quantity!(v, nanoampere)) },
    C { n: "uA", u: 25, e: -6, f: |v| out(quantity!(v, uA)) },
    C { n: "mA", u: 25, e: -3, f: |v| out(quantity!(v, mA)) },
    C { n: "kA", u: 25, e: 3, f: |v| out(quantity!(v, kA)) },
    C { n: "kiloampere", u: 25, e: 3, f: |v| out(quantity!(v, kiloampere)) },
    C { n: "MA", u: 25, e: 6, f: |v| out(quantity!(v, MA)) },
    C { n: "nanokelvin", u: 26, e: -9, f: |v| out(quantity!(v, nanokelvin)) },
    C { n: "uK", u: 26, e: -6, f: |v| out(quantity!(v, uK)) },
    C { n: "mK", u: 26, e: -3, f: |v| out(quantity!(v, mK)) },
    C { n: "kK", u: 26, e: 3, f: |v| out(quantity!(v, kK)) },
    C { n: "kilokelvin", u: 26, e: 3, f: |v| out(quantity!(v, kilokelvin)) },
    C { n: "MK", u: 26, e: 6, f: |v| out(quantity!(v, MK)) },
    C { n: "nanomole", u: 30, e: -9, f: |v| out(quantity!(v, nanomole)) },
    C { n: "umol", u: 30, e: -6, f: |v| out(quantity!(v, umol)) },
    C { n: "mmol", u: 30, e: -3, f: |v| out(quantity!(v, mmol)) },
    C { n: "kmol", u: 30, e: 3, f: |v| out(quantity!(v, kmol)) },
    C { n: "kilomole", u: 30, e: 3, f: |v| out(quantity!(v, kilomole)) },
    C { n: "Mmol", u: 30, e: 6, f: |v| out(quantity!(v, Mmol)) },
    C { n: "nanocandela", u: 31, e: -9, f: |v| out(quantity!(v, nanocandela)) },
    C { n: "ucd", u: 31, e: -6, f: |v| out(quantity!(v, ucd)) },
    C { n: "mcd", u: 31, e: -3, f: |v| out(quantity!(v, mcd)) },
    C { n: "kcd", u: 31, e: 3, f: |v| out(quantity!(v, kcd)) },
    C { n: "kilocandela", u: 31, e: 3, f: |v| out(quantity!(v, kilocandela)) },
    C { n: "Mcd", u: 31, e: 6, f: |v| out(quantity!(v, Mcd)) },
    C { n: "nanoradian", u: 33, e: -9, f: |v| out(quantity!(v, nanoradian)) },
    C { n: "urad", u: 33, e: -6, f: |v| out(quantity!(v, urad)) },
    C { n: "mrad", u: 33, e: -3, f: |v| out(quantity!(v, mrad)) },
    C { n: "krad", u: 33, e: 3, f: |v| out(quantity!(v, krad)) },
    C { n: "kiloradian", u: 33, e: 3, f: |v| out(quantity!(v, kiloradian)) },
    C { n: "Mrad", u: 33, e: 6, f: |v| out(quantity!(v, Mrad)) },
    C { n: "nanohectare", u: 39, e: -9, f: |v| out(quantity!(v, nanohectare)) },
    C { n: "uhect", u: 39, e: -6, f: |v| out(quantity!(v, uhect)) },
    C { n: "mhect", u: 39, e: -3, f: |v| out(quantity!(v, mhect)) },
    C { n: "khect", u: 39, e: 3, f: |v| out(quantity!(v, khect)) },
    C { n: "kilohectare", u: 39, e: 3, f: |v| out(quantity!(v, kilohectare)) },
    C { n: "Mhect", u: 39, e: 6, f: |v| out(quantity!(v, Mhect)) },
    C { n: "nanoliter", u: 41, e: -9, f: |v| out(quantity!(v, nanoliter)) },
    C { n: "uL", u: 41, e: -6, f: |v| out(quantity!(v, uL)) },
    C { n: "ul", u: 41, e: -6, f: |v| out(quantity!(v, ul)) },
    C { n: "mL", u: 41, e: -3, f: |v| out(quantity!(v, mL)) },
    C { n: "ml", u: 41, e: -3, f: |v| out(quantity!(v, ml)) },
    C { n: "kL", u: 41, e: 3, f: |v| out(quantity!(v, kL)) },
    C { n: "kl", u: 41, e: 3, f: |v| out(quantity!(v, kl)) },
    C { n: "kiloliter", u: 41, e: 3, f: |v| out(quantity!(v, kiloliter)) },
    C { n: "ML", u: 41, e: 6, f: |v| out(quantity!(v, ML)) },
    C { n: "Ml", u: 41, e: 6, f: |v| out(quantity!(v, Ml)) },
    C { n: "nanohertz", u: 57, e: -9, f: |v| out(quantity!(v, nanohertz)) },
    C { n: "uHz", u: 57, e: -6, f: |v| out(quantity!(v, uHz)) },
    C { n: "mHz", u: 57, e: -3, f: |v| out(quantity!(v, mHz)) },
    C { n: "kHz", u: 57, e: 3, f: |v| out(quantity!(v, kHz)) },
    C { n: "kilohertz", u: 57, e: 3, f: |v| out(quantity!(v, kilohertz)) },
    C { n: "MHz", u: 57, e: 6, f: |v| out(quantity!(v, MHz)) },
    C { n: "nanonewton", u: 58, e: -9, f: |v| out(quantity!(v, nanonewton)) },
    C { n: "uN", u: 58, e: -6, f: |v| out(quantity!(v, uN)) },
    C { n: "mN", u: 58, e: -3, f: |v| out(quantity!(v, mN)) },
    C { n: "kN", u: 58, e: 3, f: |v| out(quantity!(v, kN)) },
    C { n: "kilonewton", u: 58, e: 3, f: |v| out(quantity!(v, kilonewton)) },
    C { n: "MN", u: 58, e: 6, f: |v| out(quantity!(v, MN)) },
    C { n: "nanojoule", u: 59, e: -9, f: |v| out(quantity!(v, nanojoule)) },
    C { n: "uJ", u: 59, e: -6, f: |v| out(quantity!(v, uJ)) },
    C { n: "mJ", u: 59, e: -3, f: |v| out(quantity!(v, mJ)) },
    C { n: "kJ", u: 59, e: 3, f: |v| out(quantity!(v, kJ)) },
    C { n: "kilojoule", u: 59, e: 3, f: |v| out(quantity!(v, kilojoule)) },
    C { n: "MJ", u: 59, e: 6, f: |v| out(quantity!(v, MJ)) },
    C { n: "nanowatt", u: 67, e: -9, f: |v| out(quantity!(v, nanowatt)) },
    C { n: "uW", u: 67, e: -6, f: |v| out(quantity!(v, uW)) },
    C { n: "mW", u: 67, e: -3, f: |v| out(quantity!(v, mW)) },
    C { n: "kW", u: 67, e: 3, f: |v| out(quantity!(v, kW)) },
    C { n: "kilowatt", u: 67, e: 3, f: |v| out(quantity!(v, kilowatt)) },
    C { n: "MW", u: 67, e: 6, f: |v| out(quantity!(v, MW)) },
    C { n: "nanopascal", u: 69, e: -9, f: |v| out(quantity!(v, nanopascal)) },
    C { n: "uPa", u: 69, e: -6, f: |v| out(quantity!(v, uPa)) },
    C { n: "mPa", u: 69, e: -3, f: |v| out(quantity!(v, mPa)) },
    C { n: "kPa", u: 69, e: 3, f: |v| out(quantity!(v, kPa)) },
    C { n: "kilopascal", u: 69, e: 3, f: |v| out(quantity!(v, kilopascal)) },
    C { n: "MPa", u: 69, e: 6, f: |v| out(quantity!(v, MPa)) },
    C { n: "nanocoulomb", u: 74, e: -9, f: |v| out(quantity!(v, nanocoulomb)) },
    C { n: "uC", u: 74, e: -6, f: |v| out(quantity!(v, uC)) },
    C { n: "mC", u: 74, e: -3, f: |v| out(quantity!(v, mC)) },
    C { n: "kC", u: 74, e: 3, f: |v| out(quantity!(v, kC)) },
    C { n: "kilocoulomb", u: 74, e: 3, f: |v| out(quantity!(v, kilocoulomb)) },
    C { n: "MC", u: 74, e: 6, f: |v| out(quantity!(v, MC)) },
    C { n: "nanovolt", u: 75, e: -9, f: |v| out(quantity!(v, nanovolt)) },
    C { n: "uV", u: 75, e: -6, f: |v| out(quantity!(v, uV)) },
    C { n: "mV", u: 75, e: -3, f: |v| out(quantity!(v, mV)) },
    C { n: "kV", u: 75, e: 3, f: |v| out(quantity!(v, kV)) },
    C { n: "kilovolt", u: 75, e: 3, f: |v| out(quantity!(v, kilovolt)) },
    C { n: "MV", u: 75, e: 6, f: |v| out(quantity!(v, MV)) },
    C { n: "nanofarad", u: 76, e: -9, f: |v| out(quantity!(v, nanofarad)) },
    C { n: "uF", u: 76, e: -6, f: |v| out(quantity!(v, uF)) },
    C { n: "mF", u: 76, e: -3, f: |v| out(quantity!(v, mF)) },
    C { n: "kF", u: 76, e: 3, f: |v| out(quantity!(v, kF)) },
    C { n: "kilofarad", u: 76, e: 3, f: |v| out(quantity!(v, kilofarad)) },
    C { n: "MF", u: 76, e: 6, f: |v| out(quantity!(v, MF)) },
    C { n: "nanoohm", u: 77, e: -9, f: |v| out(quantity!(v, nanoohm)) },
    C { n: "uΩ", u: 77, e: -6, f: |v| out(quantity!(v, uΩ)) },
    C { n: "mΩ", u: 77, e: -3, f: |v| out(quantity!(v, mΩ)) },
    C { n: "kΩ", u: 77, e: 3, f: |v| out(quantity!(v, kΩ)) },
    C { n: "kiloohm", u: 77, e: 3, f: |v| out(quantity!(v, kiloohm)) },
    C { n: "MΩ", u: 77, e: 6, f: |v| out(quantity!(v, MΩ)) },
    C { n: "nanosiemens", u: 78, e: -9, f: |v| out(quantity!(v, nanosiemens)) },
    C { n: "uS", u: 78, e: -6, f: |v| out(quantity!(v, uS)) },
    C { n: "mS", u: 78, e: -3, f: |v| out(quantity!(v, mS)) },
    C { n: "kS", u: 78, e: 3, f: |v| out(quantity!(v, kS)) },
    C { n: "kilosiemens", u: 78, e: 3, f: |v| out(quantity!(v, kilosiemens)) },
    C { n: "MS", u: 78, e: 6, f: |v| out(quantity!(v, MS)) },
    C { n: "nanohenry", u: 79, e: -9, f: |v| out(quantity!(v, nanohenry)) },
    C { n: "uH", u: 79, e: -6, f: |v| out(quantity!(v, uH)) },
    C { n: "mH", u: 79, e: -3, f: |v| out(quantity!(v, mH)) },
    C { n: "kH", u: 79, e: 3, f: |v| out(quantity!(v, kH)) },
    C { n: "kilohenry", u: 79, e: 3, f: |v| out(quantity!(v, kilohenry)) },
    C { n: "MH", u: 79, e: 6, f: |v| out(quantity!(v, MH)) },
    C { n: "nanotesla", u: 80, e: -9, f: |v| out(quantity!(v, nanotesla)) },
    C { n: "uT", u: 80, e: -6, f: |v| out(quantity!(v, uT)) },
    C { n: "mT", u: 80, e: -3, f: |v| out(quantity!(v, mT)) },
    C { n: "kT", u: 80, e: 3, f: |v| out(quantity!(v, kT)) },
    C { n: "kilotesla", u: 80, e: 3, f: |v| out(quantity!(v, kilotesla)) },
    C { n: "MT", u: 80, e: 6, f: |v| out(quantity!(v, MT)) },
    C { n: "nanoweber", u: 81, e: -9, f: |v| out(quantity!(v, nanoweber)) },
    C { n: "uWb", u: 81, e: -6, f: |v| out(quantity!(v, uWb)) },
    C { n: "mWb", u: 81, e: -3, f: |v| out(quantity!(v, mWb)) },
    C { n: "kWb", u: 81, e: 3, f: |v| out(quantity!(v, kWb)) },
    C { n: "kiloweber", u: 81, e: 3, f: |v| out(quantity!(v, kiloweber)) },
    C { n: "MWb", u: 81, e: 6, f: |v| out(quantity!(v, MWb)) },
    C { n: "nanolux", u: 82, e: -9, f: |v| out(quantity!(v, nanolux)) },
    C { n: "ulx", u: 82, e: -6, f: |v| out(quantity!(v, ulx)) },
    C { n: "mlx", u: 82, e: -3, f: |v| out(quantity!(v, mlx)) },
    C { n: "klx", u: 82, e: 3, f: |v| out(quantity!(v, klx)) },
    C { n: "kilolux", u: 82, e: 3, f: |v| out(quantity!(v, kilolux)) },
    C { n: "Mlx", u: 82, e: 6, f: |v| out(quantity!(v, Mlx)) },
    C { n: "nanostokes", u: 84, e: -9, f: |v| out(quantity!(v, nanostokes)) },
    C { n: "uSt", u: 84, e: -6, f: |v| out(quantity!(v, uSt)) },
    C { n: "mSt", u: 84, e: -3, f: |v| out(quantity!(v, mSt)) },
    C { n: "kSt", u: 84, e: 3, f: |v| out(quantity!(v, kSt)) },
    C { n: "kilostokes", u: 84, e: 3, f: |v| out(quantity!(v, kilostokes)) },
    C { n: "MSt", u: 84, e: 6, f: |v| out(quantity!(v, MSt)) },
];
pub static READ_QUICK: &[R] = &[
    R { n: "gram", u: 0, e: 0, own: |v| value!(quantity!(v, gram), gram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gram) },
    R { n: "g", u: 0, e: 0, own: |v| value!(quantity!(v, g), g), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), g), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), g) },
    R { n: "grain", u: 1, e: 0, own: |v| value!(quantity!(v, grain), grain), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), grain), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), grain) },
    R { n: "gr", u: 1, e: 0, own: |v| value!(quantity!(v, gr), gr), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gr), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gr) },
    R { n: "carat", u: 2, e: 0, own: |v| value!(quantity!(v, carat), carat), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), carat), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), carat) },
    R { n: "ct", u: 2, e: 0, own: |v| value!(quantity!(v, ct), ct), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ct), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ct) },
    R { n: "ounce", u: 3, e: 0, own: |v| value!(quantity!(v, ounce), ounce), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ounce), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ounce) },
    R { n: "oz", u: 3, e: 0, own: |v| value!(quantity!(v, oz), oz), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), oz), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), oz) },
    R { n: "troy_ounce", u: 4, e: 0, own: |v| value!(quantity!(v, troy_ounce), troy_ounce), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), troy_ounce), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), troy_ounce) },
    R { n: "ozt", u: 4, e: 0, own: |v| value!(quantity!(v, ozt), ozt), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ozt), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ozt) },
    R { n: "troy_pound", u: 5, e: 0, own: |v| value!(quantity!(v, troy_pound), troy_pound), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), troy_pound), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), troy_pound) },
    R { n: "lbt", u: 5, e: 0, own: |v| value!(quantity!(v, lbt), lbt), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), lbt), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), lbt) },
    R { n: "pound", u: 6, e: 0, own: |v| value!(quantity!(v, pound), pound), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pound), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pound) },
    R { n: "lb", u: 6, e: 0, own: |v| value!(quantity!(v, lb), lb), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), lb), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), lb) },
    R { n: "stone", u: 7, e: 0, own: |v| value!(quantity!(v, stone), stone), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), stone), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), stone) },
    R { n: "st", u: 7, e: 0, own: |v| value!(quantity!(v, st), st), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), st), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), st) },
    R { n: "ton", u: 8, e: 0, own: |v| value!(quantity!(v, ton), ton), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ton), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ton) },
    R { n: "t", u: 8, e: 0, own: |v| value!(quantity!(v, t), t), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), t), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), t) },
    R { n: "meter", u: 9, e: 0, own: |v| value!(quantity!(v, meter), meter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), meter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), meter) },
    R { n: "m", u: 9, e: 0, own: |v| value!(quantity!(v, m), m), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), m), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), m) },
    R { n: "inch", u: 10, e: 0, own: |v| value!(quantity!(v, inch), inch), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), inch), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), inch) },
    R { n: "foot", u: 11, e: 0, own: |v| value!(quantity!(v, foot), foot), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), foot), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), foot) },
    R { n: "ft", u: 11, e: 0, own: |v| value!(quantity!(v, ft), ft), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ft), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ft) },
    R { n: "yard", u: 12, e: 0, own: |v| value!(quantity!(v, yard), yard), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yard), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yard) },
    R { n: "yd", u: 12, e: 0, own: |v| value!(quantity!(v, yd), yd), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yd), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yd) },
    R { n: "mile", u: 13, e: 0, own: |v| value!(quantity!(v, mile), mile), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mile), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mile) },
    R { n: "mi", u: 13, e: 0, own: |v| value!(quantity!(v, mi), mi), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mi), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mi) },
    R { n: "nautical_mile", u: 14, e: 0, own: |v| value!(quantity!(v, nautical_mile), nautical_mile), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nautical_mile), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nautical_mile) },
    R { n: "nmi", u: 14, e: 0, own: |v| value!(quantity!(v, nmi), nmi), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nmi), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nmi) },
    R { n: "astronomical_unit", u: 15, e: 0, own: |v| value!(quantity!(v, astronomical_unit), astronomical_unit), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), astronomical_unit), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), astronomical_unit) },
    R { n: "AU", u: 15, e: 0, own: |v| value!(quantity!(v, AU), AU), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), AU), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), AU) },
    R { n: "light_year", u: 16, e: 0, own: |v| value!(quantity!(v, light_year), light_year), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), light_year), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), light_year) },
    R { n: "ly", u: 16, e: 0, own: |v| value!(quantity!(v, ly), ly), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ly), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ly) },
    R { n: "parsec", u: 17, e: 0, own: |v| value!(quantity!(v, parsec), parsec), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), parsec), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), parsec) },
    R { n: "pc", u: 17, e: 0, own: |v| value!(quantity!(v, pc), pc), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pc), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pc) },
    R { n: "second", u: 18, e: 0, own: |v| value!(quantity!(v, second), second), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), second), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), second) },
    R { n: "s", u: 18, e: 0, own: |v| value!(quantity!(v, s), s), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), s), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), s) },
    R { n: "minute", u: 19, e: 0, own: |v| value!(quantity!(v, minute), minute), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), minute), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), minute) },
    R { n: "min", u: 19, e: 0, own: |v| value!(quantity!(v, min), min), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), min), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), min) },
    R { n: "hour", u: 20, e: 0, own: |v| value!(quantity!(v, hour), hour), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hour), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hour) },
    R { n: "h", u: 20, e: 0, own: |v| value!(quantity!(v, h), h), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), h), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), h) },
    R { n: "hr", u: 20, e: 0, own: |v| value!(quantity!(v, hr), hr), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hr), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hr) },
    R { n: "day", u: 21, e: 0, own: |v| value!(quantity!(v, day), day), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), day), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), day) },
    R { n: "d", u: 21, e: 0, own: |v| value!(quantity!(v, d), d), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), d), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), d) },
    R { n: "week", u: 22, e: 0, own: |v| value!(quantity!(v, week), week), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), week), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), week) },
    R { n: "wk", u: 22, e: 0, own: |v| value!(quantity!(v, wk), wk), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), wk), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), wk) },
    R { n: "month", u: 23, e: 0, own: |v| value!(quantity!(v, month), month), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), month), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), month) },
    R { n: "mo", u: 23, e: 0, own: |v| value!(quantity!(v, mo), mo), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), mo), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), mo) },
    R { n: "year", u: 24, e: 0, own: |v| value!(quantity!(v, year), year), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), year), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), year) },
    R { n: "yr", u: 24, e: 0, own: |v| value!(quantity!(v, yr), yr), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yr), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yr) },
    R { n: "ampere", u: 25, e: 0, own: |v| value!(quantity!(v, ampere), ampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ampere) },
    R { n: "A", u: 25, e: 0, own: |v| value!(quantity!(v, A), A), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), A), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), A) },
    R { n: "kelvin", u: 26, e: 0, own: |v| value!(quantity!(v, kelvin), kelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kelvin) },
    R { n: "K", u: 26, e: 0, own: |v| value!(quantity!(v, K), K), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), K), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), K) },
    R { n: "celsius", u: 27, e: 0, own: |v| value!(quantity!(v, celsius), celsius), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), celsius), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), celsius) },
    R { n: "degC", u: 27, e: 0, own: |v| value!(quantity!(v, degC), degC), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degC), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degC) },
    R { n: "rankine", u: 28, e: 0, own: |v| value!(quantity!(v, rankine), rankine), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rankine), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rankine) },
    R { n: "degR", u: 28, e: 0, own: |v| value!(quantity!(v, degR), degR), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degR), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degR) },
    R { n: "fahrenheit", u: 29, e: 0, own: |v| value!(quantity!(v, fahrenheit), fahrenheit), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), fahrenheit), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), fahrenheit) },
    R { n: "degF", u: 29, e: 0, own: |v| value!(quantity!(v, degF), degF), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degF), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), degF) },
    R { n: "mole", u: 30, e: 0, own: |v| value!(quantity!(v, mole), mole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mole) },
    R { n: "mol", u: 30, e: 0, own: |v| value!(quantity!(v, mol), mol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mol) },
    R { n: "candela", u: 31, e: 0, own: |v| value!(quantity!(v, candela), candela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), candela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), candela) },
    R { n: "cd", u: 31, e: 0, own: |v| value!(quantity!(v, cd), cd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), cd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), cd) },
    R { n: "lumen", u: 32, e: 0, own: |v| value!(quantity!(v, lumen), lumen), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lumen), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lumen) },
    R { n: "lm", u: 32, e: 0, own: |v| value!(quantity!(v, lm), lm), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lm), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lm) },
    R { n: "radian", u: 33, e: 0, own: |v| value!(quantity!(v, radian), radian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), radian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), radian) },
    R { n: "rad", u: 33, e: 0, own: |v| value!(quantity!(v, rad), rad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rad) },
    R { n: "degree", u: 34, e: 0, own: |v| value!(quantity!(v, degree), degree), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), degree), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), degree) },
    R { n: "deg", u: 34, e: 0, own: |v| value!(quantity!(v, deg), deg), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), deg), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), deg) },
    R { n: "gradian", u: 35, e: 0, own: |v| value!(quantity!(v, gradian), gradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), gradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), gradian) },
    R { n: "grad", u: 35, e: 0, own: |v| value!(quantity!(v, grad), grad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), grad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), grad) },
    R { n: "turn", u: 36, e: 0, own: |v| value!(quantity!(v, turn), turn), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), turn), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), turn) },
    R { n: "rot", u: 36, e: 0, own: |v| value!(quantity!(v, rot), rot), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rot), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rot) },
    R { n: "arcminute", u: 37, e: 0, own: |v| value!(quantity!(v, arcminute), arcminute), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcminute), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcminute) },
    R { n: "arcmin", u: 37, e: 0, own: |v| value!(quantity!(v, arcmin), arcmin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcmin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcmin) },
    R { n: "arcsecond", u: 38, e: 0, own: |v| value!(quantity!(v, arcsecond), arcsecond), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcsecond), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcsecond) },
    R { n: "arcsec", u: 38, e: 0, own: |v| value!(quantity!(v, arcsec), arcsec), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcsec), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arcsec) },
    R { n: "hectare", u: 39, e: 0, own: |v| value!(quantity!(v, hectare), hectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectare) },
    R { n: "hect", u: 39, e: 0, own: |v| value!(quantity!(v, hect), hect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hect) },
    R { n: "acre", u: 40, e: 0, own: |v| value!(quantity!(v, acre), acre), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), acre), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), acre) },
    R { n: "liter", u: 41, e: 0, own: |v| value!(quantity!(v, liter), liter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), liter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), liter) },
    R { n: "L", u: 41, e: 0, own: |v| value!(quantity!(v, L), L), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), L), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), L) },
    R { n: "l", u: 41, e: 0, own: |v| value!(quantity!(v, l), l), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), l), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), l) },
    R { n: "gallon", u: 42, e: 0, own: |v| value!(quantity!(v, gallon), gallon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gallon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gallon) },
    R { n: "gal", u: 42, e: 0, own: |v| value!(quantity!(v, gal), gal), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gal), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gal) },
    R { n: "quart", u: 43, e: 0, own: |v| value!(quantity!(v, quart), quart), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quart), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quart) },
    R { n: "qrt", u: 43, e: 0, own: |v| value!(quantity!(v, qrt), qrt), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qrt), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qrt) },
    R { n: "pint", u: 44, e: 0, own: |v| value!(quantity!(v, pint), pint), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pint), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pint) },
    R { n: "pnt", u: 44, e: 0, own: |v| value!(quantity!(v, pnt), pnt), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pnt), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pnt) },
    R { n: "cup", u: 45, e: 0, own: |v| value!(quantity!(v, cup), cup), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cup), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cup) },
    R { n: "fluid_ounce", u: 46, e: 0, own: |v| value!(quantity!(v, fluid_ounce), fluid_ounce), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fluid_ounce), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fluid_ounce) },
    R { n: "fl_oz", u: 46, e: 0, own: |v| value!(quantity!(v, fl_oz), fl_oz), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fl_oz), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fl_oz) },
    R { n: "tablespoon", u: 47, e: 0, own: |v| value!(quantity!(v, tablespoon), tablespoon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tablespoon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tablespoon) },
    R { n: "tbsp", u: 47, e: 0, own: |v| value!(quantity!(v, tbsp), tbsp), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tbsp), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tbsp) },
    R { n: "teaspoon", u: 48, e: 0, own: |v| value!(quantity!(v, teaspoon), teaspoon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teaspoon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teaspoon) },
    R { n: "tsp", u: 48, e: 0, own: |v| value!(quantity!(v, tsp), tsp), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tsp), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), tsp) },
    R { n: "uk_gallon", u: 49, e: 0, own: |v| value!(quantity!(v, uk_gallon), uk_gallon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_gallon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_gallon) },
    R { n: "uk_gal", u: 49, e: 0, own: |v| value!(quantity!(v, uk_gal), uk_gal), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_gal), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_gal) },
    R { n: "uk_quart", u: 50, e: 0, own: |v| value!(quantity!(v, uk_quart), uk_quart), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_quart), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_quart) },
    R { n: "uk_qrt", u: 50, e: 0, own: |v| value!(quantity!(v, uk_qrt), uk_qrt), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_qrt), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_qrt) },
    R { n: "uk_pint", u: 51, e: 0, own: |v| value!(quantity!(v, uk_pint), uk_pint), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_pint), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_pint) },
    R { n: "uk_pnt", u: 51, e: 0, own: |v| value!(quantity!(v, uk_pnt), uk_pnt), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_pnt), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_pnt) },
    R { n: "uk_cup", u: 52, e: 0, own: |v| value!(quantity!(v, uk_cup), uk_cup), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_cup), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_cup) },
    R { n: "uk_fluid_ounce", u: 53, e: 0, own: |v| value!(quantity!(v, uk_fluid_ounce), uk_fluid_ounce), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_fluid_ounce), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_fluid_ounce) },
    R { n: "uk_fl_oz", u: 53, e: 0, own: |v| value!(quantity!(v, uk_fl_oz), uk_fl_oz), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_fl_oz), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_fl_oz) },
    R { n: "uk_tablespoon", u: 54, e: 0, own: |v| value!(quantity!(v, uk_tablespoon), uk_tablespoon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tablespoon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tablespoon) },
    R { n: "uk_tbsp", u: 54, e: 0, own: |v| value!(quantity!(v, uk_tbsp), uk_tbsp), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tbsp), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tbsp) },
    R { n: "uk_teaspoon", u: 55, e: 0, own: |v| value!(quantity!(v, uk_teaspoon), uk_teaspoon), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_teaspoon), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_teaspoon) },
    R { n: "uk_tsp", u: 55, e: 0, own: |v| value!(quantity!(v, uk_tsp), uk_tsp), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tsp), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uk_tsp) },
    R { n: "bushel", u: 56, e: 0, own: |v| value!(quantity!(v, bushel), bushel), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), bushel), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), bushel) },
    R { n: "bu", u: 56, e: 0, own: |v| value!(quantity!(v, bu), bu), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), bu), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), bu) },
    R { n: "hertz", u: 57, e: 0, own: |v| value!(quantity!(v, hertz), hertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hertz) },
    R { n: "Hz", u: 57, e: 0, own: |v| value!(quantity!(v, Hz), Hz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), Hz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), Hz) },
    R { n: "newton", u: 58, e: 0, own: |v| value!(quantity!(v, newton), newton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), newton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), newton) },
    R { n: "N", u: 58, e: 0, own: |v| value!(quantity!(v, N), N), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), N), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), N) },
    R { n: "joule", u: 59, e: 0, own: |v| value!(quantity!(v, joule), joule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), joule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), joule) },
    R { n: "J", u: 59, e: 0, own: |v| value!(quantity!(v, J), J), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), J), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), J) },
    R { n: "electron_volt", u: 60, e: 0, own: |v| value!(quantity!(v, electron_volt), electron_volt), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), electron_volt), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), electron_volt) },
    R { n: "eV", u: 60, e: 0, own: |v| value!(quantity!(v, eV), eV), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), eV), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), eV) },
    R { n: "erg", u: 61, e: 0, own: |v| value!(quantity!(v, erg), erg), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), erg), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), erg) },
    R { n: "newton_meter", u: 62, e: 0, own: |v| value!(quantity!(v, newton_meter), newton_meter), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), newton_meter), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), newton_meter) },
    R { n: "Nm", u: 62, e: 0, own: |v| value!(quantity!(v, Nm), Nm), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Nm), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Nm) },
    R { n: "calorie", u: 63, e: 0, own: |v| value!(quantity!(v, calorie), calorie), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), calorie), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), calorie) },
    R { n: "cal", u: 63, e: 0, own: |v| value!(quantity!(v, cal), cal), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cal), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cal) },
    R { n: "foot_pound", u: 64, e: 0, own: |v| value!(quantity!(v, foot_pound), foot_pound), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), foot_pound), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), foot_pound) },
    R { n: "ft_lb", u: 64, e: 0, own: |v| value!(quantity!(v, ft_lb), ft_lb), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ft_lb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ft_lb) },
    R { n: "kilowatt_hour", u: 65, e: 0, own: |v| value!(quantity!(v, kilowatt_hour), kilowatt_hour), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilowatt_hour), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilowatt_hour) },
    R { n: "kWh", u: 65, e: 0, own: |v| value!(quantity!(v, kWh), kWh), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kWh), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kWh) },
    R { n: "therm", u: 66, e: 0, own: |v| value!(quantity!(v, therm), therm), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), therm), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), therm) },
    R { n: "thm", u: 66, e: 0, own: |v| value!(quantity!(v, thm), thm), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), thm), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), thm) },
    R { n: "watt", u: 67, e: 0, own: |v| value!(quantity!(v, watt), watt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), watt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), watt) },
    R { n: "W", u: 67, e: 0, own: |v| value!(quantity!(v, W), W), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), W), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), W) },
    R { n: "horsepower", u: 68, e: 0, own: |v| value!(quantity!(v, horsepower), horsepower), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), horsepower), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), horsepower) },
    R { n: "hp", u: 68, e: 0, own: |v| value!(quantity!(v, hp), hp), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hp), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hp) },
    R { n: "pascal", u: 69, e: 0, own: |v| value!(quantity!(v, pascal), pascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pascal) },
    R { n: "Pa", u: 69, e: 0, own: |v| value!(quantity!(v, Pa), Pa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Pa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Pa) },
    R { n: "torr", u: 70, e: 0, own: |v| value!(quantity!(v, torr), torr), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), torr), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), torr) },
    R { n: "Torr", u: 70, e: 0, own: |v| value!(quantity!(v, Torr), Torr), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Torr), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), Torr) },
    R { n: "psi", u: 71, e: 0, own: |v| value!(quantity!(v, psi), psi), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), psi), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), psi) },
    R { n: "bar", u: 72, e: 0, own: |v| value!(quantity!(v, bar), bar), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), bar), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), bar) },
    R { n: "atmosphere", u: 73, e: 0, own: |v| value!(quantity!(v, atmosphere), atmosphere), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), atmosphere), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), atmosphere) },
    R { n: "atm", u: 73, e: 0, own: |v| value!(quantity!(v, atm), atm), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), atm), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), atm) },
    R { n: "coulomb", u: 74, e: 0, own: |v| value!(quantity!(v, coulomb), coulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), coulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), coulomb) },
    R { n: "C", u: 74, e: 0, own: |v| value!(quantity!(v, C), C), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), C), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), C) },
    R { n: "volt", u: 75, e: 0, own: |v| value!(quantity!(v, volt), volt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), volt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), volt) },
    R { n: "V", u: 75, e: 0, own: |v| value!(quantity!(v, V), V), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), V), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), V) },
    R { n: "farad", u: 76, e: 0, own: |v| value!(quantity!(v, farad), farad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), farad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), farad) },
    R { n: "F", u: 76, e: 0, own: |v| value!(quantity!(v, F), F), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), F), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), F) },
    R { n: "ohm", u: 77, e: 0, own: |v| value!(quantity!(v, ohm), ohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ohm) },
    R { n: "Ω", u: 77, e: 0, own: |v| value!(quantity!(v, Ω), Ω), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), Ω), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), Ω) },
    R { n: "siemens", u: 78, e: 0, own: |v| value!(quantity!(v, siemens), siemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), siemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), siemens) },
    R { n: "S", u: 78, e: 0, own: |v| value!(quantity!(v, S), S), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), S), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), S) },
    R { n: "henry", u: 79, e: 0, own: |v| value!(quantity!(v, henry), henry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), henry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), henry) },
    R { n: "H", u: 79, e: 0, own: |v| value!(quantity!(v, H), H), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), H), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), H) },
    R { n: "tesla", u: 80, e: 0, own: |v| value!(quantity!(v, tesla), tesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), tesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), tesla) },
    R { n: "T", u: 80, e: 0, own: |v| value!(quantity!(v, T), T), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), T), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), T) },
    R { n: "weber", u: 81, e: 0, own: |v| value!(quantity!(v, weber), weber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), weber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), weber) },
    R { n: "Wb", u: 81, e: 0, own: |v| value!(quantity!(v, Wb), Wb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), Wb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), Wb) },
    R { n: "lux", u: 82, e: 0, own: |v| value!(quantity!(v, lux), lux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lux) },
    R { n: "lx", u: 82, e: 0, own: |v| value!(quantity!(v, lx), lx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), lx) },
    R { n: "gauss", u: 83, e: 0, own: |v| value!(quantity!(v, gauss), gauss), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gauss), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gauss) },
    R { n: "G", u: 83, e: 0, own: |v| value!(quantity!(v, G), G), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), G), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), G) },
    R { n: "stokes", u: 84, e: 0, own: |v| value!(quantity!(v, stokes), stokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), stokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), stokes) },
    R { n: "St", u: 84, e: 0, own: |v| value!(quantity!(v, St), St), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), St), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), St) },
    R { n: "nanogram", u: 0, e: -9, own: |v| value!(quantity!(v, nanogram), nanogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanogram) },
    R { n: "ug", u: 0, e: -6, own: |v| value!(quantity!(v, ug), ug), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ug), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ug) },
    R { n: "mg", u: 0, e: -3, own: |v| value!(quantity!(v, mg), mg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mg) },
    R { n: "kg", u: 0, e: 3, own: |v| value!(quantity!(v, kg), kg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kg) },
    R { n: "kilogram", u: 0, e: 3, own: |v| value!(quantity!(v, kilogram), kilogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilogram) },
    R { n: "Mg", u: 0, e: 6, own: |v| value!(quantity!(v, Mg), Mg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mg) },
    R { n: "qm", u: 9, e: -30, own: |v| value!(quantity!(v, qm), qm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qm) },
    R { n: "quectometer", u: 9, e: -30, own: |v| value!(quantity!(v, quectometer), quectometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectometer) },
    R { n: "rm", u: 9, e: -27, own: |v| value!(quantity!(v, rm), rm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rm) },
    R { n: "rontometer", u: 9, e: -27, own: |v| value!(quantity!(v, rontometer), rontometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontometer) },
    R { n: "ym", u: 9, e: -24, own: |v| value!(quantity!(v, ym), ym), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ym), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ym) },
    R { n: "yoctometer", u: 9, e: -24, own: |v| value!(quantity!(v, yoctometer), yoctometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctometer) },
    R { n: "zm", u: 9, e: -21, own: |v| value!(quantity!(v, zm), zm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zm) },
    R { n: "zeptometer", u: 9, e: -21, own: |v| value!(quantity!(v, zeptometer), zeptometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptometer) },
    R { n: "am", u: 9, e: -18, own: |v| value!(quantity!(v, am), am), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), am), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), am) },
    R { n: "attometer", u: 9, e: -18, own: |v| value!(quantity!(v, attometer), attometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attometer) },
    R { n: "fm", u: 9, e: -15, own: |v| value!(quantity!(v, fm), fm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fm) },
    R { n: "femtometer", u: 9, e: -15, own: |v| value!(quantity!(v, femtometer), femtometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtometer) },
    R { n: "pm", u: 9, e: -12, own: |v| value!(quantity!(v, pm), pm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pm) },
    R { n: "picometer", u: 9, e: -12, own: |v| value!(quantity!(v, picometer), picometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picometer) },
    R { n: "nm", u: 9, e: -9, own: |v| value!(quantity!(v, nm), nm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nm) },
    R { n: "nanometer", u: 9, e: -9, own: |v| value!(quantity!(v, nanometer), nanometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanometer) },
    R { n: "µm", u: 9, e: -6, own: |v| value!(quantity!(v, µm), µm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µm) },
    R { n: "um", u: 9, e: -6, own: |v| value!(quantity!(v, um), um), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), um), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), um) },
    R { n: "micrometer", u: 9, e: -6, own: |v| value!(quantity!(v, micrometer), micrometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), micrometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), micrometer) },
    R { n: "mm", u: 9, e: -3, own: |v| value!(quantity!(v, mm), mm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mm) },
    R { n: "millimeter", u: 9, e: -3, own: |v| value!(quantity!(v, millimeter), millimeter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), millimeter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), millimeter) },
    R { n: "cm", u: 9, e: -2, own: |v| value!(quantity!(v, cm), cm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cm) },
    R { n: "centimeter", u: 9, e: -2, own: |v| value!(quantity!(v, centimeter), centimeter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centimeter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centimeter) },
    R { n: "dm", u: 9, e: -1, own: |v| value!(quantity!(v, dm), dm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dm) },
    R { n: "decimeter", u: 9, e: -1, own: |v| value!(quantity!(v, decimeter), decimeter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decimeter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decimeter) },
    R { n: "dam", u: 9, e: 1, own: |v| value!(quantity!(v, dam), dam), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dam), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dam) },
    R { n: "decameter", u: 9, e: 1, own: |v| value!(quantity!(v, decameter), decameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decameter) },
    R { n: "hm", u: 9, e: 2, own: |v| value!(quantity!(v, hm), hm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hm) },
    R { n: "hectometer", u: 9, e: 2, own: |v| value!(quantity!(v, hectometer), hectometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectometer) },
    R { n: "km", u: 9, e: 3, own: |v| value!(quantity!(v, km), km), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), km), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), km) },
    R { n: "kilometer", u: 9, e: 3, own: |v| value!(quantity!(v, kilometer), kilometer), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilometer), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilometer) },
    R { n: "Mm", u: 9, e: 6, own: |v| value!(quantity!(v, Mm), Mm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mm) },
    R { n: "megameter", u: 9, e: 6, own: |v| value!(quantity!(v, megameter), megameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megameter) },
    R { n: "Gm", u: 9, e: 9, own: |v| value!(quantity!(v, Gm), Gm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gm) },
    R { n: "gigameter", u: 9, e: 9, own: |v| value!(quantity!(v, gigameter), gigameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigameter) },
    R { n: "Tm", u: 9, e: 12, own: |v| value!(quantity!(v, Tm), Tm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tm) },
    R { n: "terameter", u: 9, e: 12, own: |v| value!(quantity!(v, terameter), terameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), terameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), terameter) },
    R { n: "Pm", u: 9, e: 15, own: |v| value!(quantity!(v, Pm), Pm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pm) },
    R { n: "petameter", u: 9, e: 15, own: |v| value!(quantity!(v, petameter), petameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petameter) },
    R { n: "Em", u: 9, e: 18, own: |v| value!(quantity!(v, Em), Em), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Em), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Em) },
    R { n: "exameter", u: 9, e: 18, own: |v| value!(quantity!(v, exameter), exameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exameter) },
    R { n: "Zm", u: 9, e: 21, own: |v| value!(quantity!(v, Zm), Zm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zm) },
    R { n: "zettameter", u: 9, e: 21, own: |v| value!(quantity!(v, zettameter), zettameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettameter) },
    R { n: "Ym", u: 9, e: 24, own: |v| value!(quantity!(v, Ym), Ym), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ym), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ym) },
    R { n: "yottameter", u: 9, e: 24, own: |v| value!(quantity!(v, yottameter), yottameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottameter) },
    R { n: "Rm", u: 9, e: 27, own: |v| value!(quantity!(v, Rm), Rm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rm) },
    R { n: "ronnameter", u: 9, e: 27, own: |v| value!(quantity!(v, ronnameter), ronnameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnameter) },
    R { n: "Qm", u: 9, e: 30, own: |v| value!(quantity!(v, Qm), Qm), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qm), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qm) },
    R { n: "quettameter", u: 9, e: 30, own: |v| value!(quantity!(v, quettameter), quettameter), base: |v| value!(Q0::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettameter), kilo: |v| value!(Q1::<{0}, {1}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettameter) },
    R { n: "nanosecond", u: 18, e: -9, own: |v| value!(quantity!(v, nanosecond), nanosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanosecond) },
    R { n: "us", u: 18, e: -6, own: |v| value!(quantity!(v, us), us), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), us), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), us) },
    R { n: "ms", u: 18, e: -3, own: |v| value!(quantity!(v, ms), ms), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ms), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ms) },
    R { n: "ks", u: 18, e: 3, own: |v| value!(quantity!(v, ks), ks), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ks), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ks) },
    R { n: "kilosecond", u: 18, e: 3, own: |v| value!(quantity!(v, kilosecond), kilosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilosecond) },
    R { n: "Ms", u: 18, e: 6, own: |v| value!(quantity!(v, Ms), Ms), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ms), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ms) },
    R { n: "nanoampere", u: 25, e: -9, own: |v| value!(quantity!(v, nanoampere), nanoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), nanoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), nanoampere) },
    R { n: "uA", u: 25, e: -6, own: |v| value!(quantity!(v, uA), uA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), uA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), uA) },
    R { n: "mA", u: 25, e: -3, own: |v| value!(quantity!(v, mA), mA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), mA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), mA) },
    R { n: "kA", u: 25, e: 3, own: |v| value!(quantity!(v, kA), kA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), kA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), kA) },
    R { n: "kiloampere", u: 25, e: 3, own: |v| value!(quantity!(v, kiloampere), kiloampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), kiloampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), kiloampere) },
    R { n: "MA", u: 25, e: 6, own: |v| value!(quantity!(v, MA), MA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), MA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), MA) },
    R { n: "nanokelvin", u: 26, e: -9, own: |v| value!(quantity!(v, nanokelvin), nanokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), nanokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), nanokelvin) },
    R { n: "uK", u: 26, e: -6, own: |v| value!(quantity!(v, uK), uK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), uK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), uK) },
    R { n: "mK", u: 26, e: -3, own: |v| value!(quantity!(v, mK), mK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), mK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), mK) },
    R { n: "kK", u: 26, e: 3, own: |v| value!(quantity!(v, kK), kK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kK) },
    R { n: "kilokelvin", u: 26, e: 3, own: |v| value!(quantity!(v, kilokelvin), kilokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kilokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), kilokelvin) },
    R { n: "MK", u: 26, e: 6, own: |v| value!(quantity!(v, MK), MK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), MK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), MK) },
    R { n: "nanomole", u: 30, e: -9, own: |v| value!(quantity!(v, nanomole), nanomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), nanomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), nanomole) },
    R { n: "umol", u: 30, e: -6, own: |v| value!(quantity!(v, umol), umol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), umol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), umol) },
    R { n: "mmol", u: 30, e: -3, own: |v| value!(quantity!(v, mmol), mmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), mmol) },
    R { n: "kmol", u: 30, e: 3, own: |v| value!(quantity!(v, kmol), kmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), kmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), kmol) },
    R { n: "kilomole", u: 30, e: 3, own: |v| value!(quantity!(v, kilomole), kilomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), kilomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), kilomole) },
    R { n: "Mmol", u: 30, e: 6, own: |v| value!(quantity!(v, Mmol), Mmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Mmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Mmol) },
    R { n: "nanocandela", u: 31, e: -9, own: |v| value!(quantity!(v, nanocandela), nanocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nanocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nanocandela) },
    R { n: "ucd", u: 31, e: -6, own: |v| value!(quantity!(v, ucd), ucd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ucd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ucd) },
    R { n: "mcd", u: 31, e: -3, own: |v| value!(quantity!(v, mcd), mcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), mcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), mcd) },
    R { n: "kcd", u: 31, e: 3, own: |v| value!(quantity!(v, kcd), kcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kcd) },
    R { n: "kilocandela", u: 31, e: 3, own: |v| value!(quantity!(v, kilocandela), kilocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kilocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kilocandela) },
    R { n: "Mcd", u: 31, e: 6, own: |v| value!(quantity!(v, Mcd), Mcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Mcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Mcd) },
    R { n: "nanoradian", u: 33, e: -9, own: |v| value!(quantity!(v, nanoradian), nanoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), nanoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), nanoradian) },
    R { n: "urad", u: 33, e: -6, own: |v| value!(quantity!(v, urad), urad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), urad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), urad) },
    R { n: "mrad", u: 33, e: -3, own: |v| value!(quantity!(v, mrad), mrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), mrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), mrad) },
    R { n: "krad", u: 33, e: 3, own: |v| value!(quantity!(v, krad), krad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), krad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), krad) },
    R { n: "kiloradian", u: 33, e: 3, own: |v| value!(quantity!(v, kiloradian), kiloradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), kiloradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), kiloradian) },
    R { n: "Mrad", u: 33, e: 6, own: |v| value!(quantity!(v, Mrad), Mrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Mrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Mrad) },
    R { n: "nanohectare", u: 39, e: -9, own: |v| value!(quantity!(v, nanohectare), nanohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanohectare) },
    R { n: "uhect", u: 39, e: -6, own: |v| value!(quantity!(v, uhect), uhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uhect) },
    R { n: "mhect", u: 39, e: -3, own: |v| value!(quantity!(v, mhect), mhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mhect) },
    R { n: "khect", u: 39, e: 3, own: |v| value!(quantity!(v, khect), khect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), khect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), khect) },
    R { n: "kilohectare", u: 39, e: 3, own: |v| value!(quantity!(v, kilohectare), kilohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kilohectare) },
    R { n: "Mhect", u: 39, e: 6, own: |v| value!(quantity!(v, Mhect), Mhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Mhect) },
    R { n: "nanoliter", u: 41, e: -9, own: |v| value!(quantity!(v, nanoliter), nanoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nanoliter) },
    R { n: "uL", u: 41, e: -6, own: |v| value!(quantity!(v, uL), uL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), uL) },
    R { n: "ul", u: 41, e: -6, own: |v| value!(quantity!(v, ul), ul), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ul), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ul) },
    R { n: "mL", u: 41, e: -3, own: |v| value!(quantity!(v, mL), mL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), mL) },
    R { n: "ml", u: 41, e: -3, own: |v| value!(quantity!(v, ml), ml), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ml), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ml) },
    R { n: "kL", u: 41, e: 3, own: |v| value!(quantity!(v, kL), kL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kL) },
    R { n: "kl", u: 41, e: 3, own: |v| value!(quantity!(v, kl), kl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kl) },
    R { n: "kiloliter", u: 41, e: 3, own: |v| value!(quantity!(v, kiloliter), kiloliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kiloliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), kiloliter) },
    R { n: "ML", u: 41, e: 6, own: |v| value!(quantity!(v, ML), ML), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ML), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ML) },
    R { n: "Ml", u: 41, e: 6, own: |v| value!(quantity!(v, Ml), Ml), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ml), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ml) },
    R { n: "nanohertz", u: 57, e: -9, own: |v| value!(quantity!(v, nanohertz), nanohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanohertz) },
    R { n: "uHz", u: 57, e: -6, own: |v| value!(quantity!(v, uHz), uHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), uHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), uHz) },
    R { n: "mHz", u: 57, e: -3, own: |v| value!(quantity!(v, mHz), mHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), mHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), mHz) },
    R { n: "kHz", u: 57, e: 3, own: |v| value!(quantity!(v, kHz), kHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kHz) },
    R { n: "kilohertz", u: 57, e: 3, own: |v| value!(quantity!(v, kilohertz), kilohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilohertz) },
    R { n: "MHz", u: 57, e: 6, own: |v| value!(quantity!(v, MHz), MHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), MHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), MHz) },
    R { n: "nanonewton", u: 58, e: -9, own: |v| value!(quantity!(v, nanonewton), nanonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanonewton) },
    R { n: "uN", u: 58, e: -6, own: |v| value!(quantity!(v, uN), uN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uN) },
    R { n: "mN", u: 58, e: -3, own: |v| value!(quantity!(v, mN), mN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mN) },
    R { n: "kN", u: 58, e: 3, own: |v| value!(quantity!(v, kN), kN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kN) },
    R { n: "kilonewton", u: 58, e: 3, own: |v| value!(quantity!(v, kilonewton), kilonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilonewton) },
    R { n: "MN", u: 58, e: 6, own: |v| value!(quantity!(v, MN), MN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MN) },
    R { n: "nanojoule", u: 59, e: -9, own: |v| value!(quantity!(v, nanojoule), nanojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanojoule) },
    R { n: "uJ", u: 59, e: -6, own: |v| value!(quantity!(v, uJ), uJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uJ) },
    R { n: "mJ", u: 59, e: -3, own: |v| value!(quantity!(v, mJ), mJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mJ) },
    R { n: "kJ", u: 59, e: 3, own: |v| value!(quantity!(v, kJ), kJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kJ) },
    R { n: "kilojoule", u: 59, e: 3, own: |v| value!(quantity!(v, kilojoule), kilojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilojoule) },
    R { n: "MJ", u: 59, e: 6, own: |v| value!(quantity!(v, MJ), MJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MJ) },
    R { n: "nanowatt", u: 67, e: -9, own: |v| value!(quantity!(v, nanowatt), nanowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), nanowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), nanowatt) },
    R { n: "uW", u: 67, e: -6, own: |v| value!(quantity!(v, uW), uW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), uW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), uW) },
    R { n: "mW", u: 67, e: -3, own: |v| value!(quantity!(v, mW), mW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), mW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), mW) },
    R { n: "kW", u: 67, e: 3, own: |v| value!(quantity!(v, kW), kW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), kW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), kW) },
    R { n: "kilowatt", u: 67, e: 3, own: |v| value!(quantity!(v, kilowatt), kilowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), kilowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), kilowatt) },
    R { n: "MW", u: 67, e: 6, own: |v| value!(quantity!(v, MW), MW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), MW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), MW) },
    R { n: "nanopascal", u: 69, e: -9, own: |v| value!(quantity!(v, nanopascal), nanopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nanopascal) },
    R { n: "uPa", u: 69, e: -6, own: |v| value!(quantity!(v, uPa), uPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), uPa) },
    R { n: "mPa", u: 69, e: -3, own: |v| value!(quantity!(v, mPa), mPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), mPa) },
    R { n: "kPa", u: 69, e: 3, own: |v| value!(quantity!(v, kPa), kPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kPa) },
    R { n: "kilopascal", u: 69, e: 3, own: |v| value!(quantity!(v, kilopascal), kilopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), kilopascal) },
    R { n: "MPa", u: 69, e: 6, own: |v| value!(quantity!(v, MPa), MPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), MPa) },
    R { n: "nanocoulomb", u: 74, e: -9, own: |v| value!(quantity!(v, nanocoulomb), nanocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), nanocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), nanocoulomb) },
    R { n: "uC", u: 74, e: -6, own: |v| value!(quantity!(v, uC), uC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), uC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), uC) },
    R { n: "mC", u: 74, e: -3, own: |v| value!(quantity!(v, mC), mC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), mC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), mC) },
    R { n: "kC", u: 74, e: 3, own: |v| value!(quantity!(v, kC), kC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), kC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), kC) },
    R { n: "kilocoulomb", u: 74, e: 3, own: |v| value!(quantity!(v, kilocoulomb), kilocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), kilocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), kilocoulomb) },
    R { n: "MC", u: 74, e: 6, own: |v| value!(quantity!(v, MC), MC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), MC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), MC) },
    R { n: "nanovolt", u: 75, e: -9, own: |v| value!(quantity!(v, nanovolt), nanovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanovolt) },
    R { n: "uV", u: 75, e: -6, own: |v| value!(quantity!(v, uV), uV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), uV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), uV) },
    R { n: "mV", u: 75, e: -3, own: |v| value!(quantity!(v, mV), mV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), mV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), mV) },
    R { n: "kV", u: 75, e: 3, own: |v| value!(quantity!(v, kV), kV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), kV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), kV) },
    R { n: "kilovolt", u: 75, e: 3, own: |v| value!(quantity!(v, kilovolt), kilovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), kilovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), kilovolt) },
    R { n: "MV", u: 75, e: 6, own: |v| value!(quantity!(v, MV), MV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), MV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), MV) },
    R { n: "nanofarad", u: 76, e: -9, own: |v| value!(quantity!(v, nanofarad), nanofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), nanofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), nanofarad) },
    R { n: "uF", u: 76, e: -6, own: |v| value!(quantity!(v, uF), uF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), uF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), uF) },
    R { n: "mF", u: 76, e: -3, own: |v| value!(quantity!(v, mF), mF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), mF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), mF) },
    R { n: "kF", u: 76, e: 3, own: |v| value!(quantity!(v, kF), kF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), kF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), kF) },
    R { n: "kilofarad", u: 76, e: 3, own: |v| value!(quantity!(v, kilofarad), kilofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), kilofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), kilofarad) },
    R { n: "MF", u: 76, e: 6, own: |v| value!(quantity!(v, MF), MF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), MF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), MF) },
    R { n: "nanoohm", u: 77, e: -9, own: |v| value!(quantity!(v, nanoohm), nanoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), nanoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), nanoohm) },
    R { n: "uΩ", u: 77, e: -6, own: |v| value!(quantity!(v, uΩ), uΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), uΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), uΩ) },
    R { n: "mΩ", u: 77, e: -3, own: |v| value!(quantity!(v, mΩ), mΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), mΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), mΩ) },
    R { n: "kΩ", u: 77, e: 3, own: |v| value!(quantity!(v, kΩ), kΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), kΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), kΩ) },
    R { n: "kiloohm", u: 77, e: 3, own: |v| value!(quantity!(v, kiloohm), kiloohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), kiloohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), kiloohm) },
    R { n: "MΩ", u: 77, e: 6, own: |v| value!(quantity!(v, MΩ), MΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), MΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), MΩ) },
    R { n: "nanosiemens", u: 78, e: -9, own: |v| value!(quantity!(v, nanosiemens), nanosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), nanosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), nanosiemens) },
    R { n: "uS", u: 78, e: -6, own: |v| value!(quantity!(v, uS), uS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), uS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), uS) },
    R { n: "mS", u: 78, e: -3, own: |v| value!(quantity!(v, mS), mS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), mS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), mS) },
    R { n: "kS", u: 78, e: 3, own: |v| value!(quantity!(v, kS), kS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), kS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), kS) },
    R { n: "kilosiemens", u: 78, e: 3, own: |v| value!(quantity!(v, kilosiemens), kilosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), kilosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), kilosiemens) },
    R { n: "MS", u: 78, e: 6, own: |v| value!(quantity!(v, MS), MS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), MS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), MS) },
    R { n: "nanohenry", u: 79, e: -9, own: |v| value!(quantity!(v, nanohenry), nanohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), nanohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), nanohenry) },
    R { n: "uH", u: 79, e: -6, own: |v| value!(quantity!(v, uH), uH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), uH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), uH) },
    R { n: "mH", u: 79, e: -3, own: |v| value!(quantity!(v, mH), mH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), mH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), mH) },
    R { n: "kH", u: 79, e: 3, own: |v| value!(quantity!(v, kH), kH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), kH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), kH) },
    R { n: "kilohenry", u: 79, e: 3, own: |v| value!(quantity!(v, kilohenry), kilohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), kilohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), kilohenry) },
    R { n: "MH", u: 79, e: 6, own: |v| value!(quantity!(v, MH), MH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), MH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), MH) },
    R { n: "nanotesla", u: 80, e: -9, own: |v| value!(quantity!(v, nanotesla), nanotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanotesla) },
    R { n: "uT", u: 80, e: -6, own: |v| value!(quantity!(v, uT), uT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), uT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), uT) },
    R { n: "mT", u: 80, e: -3, own: |v| value!(quantity!(v, mT), mT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), mT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), mT) },
    R { n: "kT", u: 80, e: 3, own: |v| value!(quantity!(v, kT), kT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kT) },
    R { n: "kilotesla", u: 80, e: 3, own: |v| value!(quantity!(v, kilotesla), kilotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kilotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kilotesla) },
    R { n: "MT", u: 80, e: 6, own: |v| value!(quantity!(v, MT), MT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), MT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), MT) },
    R { n: "nanoweber", u: 81, e: -9, own: |v| value!(quantity!(v, nanoweber), nanoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nanoweber) },
    R { n: "uWb", u: 81, e: -6, own: |v| value!(quantity!(v, uWb), uWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), uWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), uWb) },
    R { n: "mWb", u: 81, e: -3, own: |v| value!(quantity!(v, mWb), mWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), mWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), mWb) },
    R { n: "kWb", u: 81, e: 3, own: |v| value!(quantity!(v, kWb), kWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kWb) },
    R { n: "kiloweber", u: 81, e: 3, own: |v| value!(quantity!(v, kiloweber), kiloweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kiloweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), kiloweber) },
    R { n: "MWb", u: 81, e: 6, own: |v| value!(quantity!(v, MWb), MWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), MWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), MWb) },
    R { n: "nanolux", u: 82, e: -9, own: |v| value!(quantity!(v, nanolux), nanolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nanolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nanolux) },
    R { n: "ulx", u: 82, e: -6, own: |v| value!(quantity!(v, ulx), ulx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ulx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ulx) },
    R { n: "mlx", u: 82, e: -3, own: |v| value!(quantity!(v, mlx), mlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), mlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), mlx) },
    R { n: "klx", u: 82, e: 3, own: |v| value!(quantity!(v, klx), klx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), klx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), klx) },
    R { n: "kilolux", u: 82, e: 3, own: |v| value!(quantity!(v, kilolux), kilolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kilolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), kilolux) },
    R { n: "Mlx", u: 82, e: 6, own: |v| value!(quantity!(v, Mlx), Mlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Mlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Mlx) },
    R { n: "nanostokes", u: 84, e: -9, own: |v| value!(quantity!(v, nanostokes), nanostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nanostokes) },
    R { n: "uSt", u: 84, e: -6, own: |v| value!(quantity!(v, uSt), uSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), uSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), uSt) },
    R { n: "mSt", u: 84, e: -3, own: |v| value!(quantity!(v, mSt), mSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), mSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), mSt) },
    R { n: "kSt", u: 84, e: 3, own: |v| value!(quantity!(v, kSt), kSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kSt) },
    R { n: "kilostokes", u: 84, e: 3, own: |v| value!(quantity!(v, kilostokes), kilostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), kilostokes) },
    R { n: "MSt", u: 84, e: 6, own: |v| value!(quantity!(v, MSt), MSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), MSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), MSt) },
];
#[cfg(feature = "rest")]
pub static MAKE_REST: &[C] = &[
    C { n: "qg", u: 0, e: -30, f: |v| out(quantity!(v, qg)) },
    C { n: "quectogram", u: 0, e: -30, f: |v| out(quantity!(v, quectogram)) },
    C { n: "rg", u: 0, e: -27, f: |v| out(quantity!(v, rg)) },
    C { n: "rontogram", u: 0, e: -27, f: |v| out(quantity!(v, rontogram)) },
    C { n: "yg", u: 0, e: -24, f: |v| out(quantity!(v, yg)) },
    C { n: "yoctogram", u: 0, e: -24, f: |v| out(quantity!(v, yoctogram)) },
    C { n: "zg", u: 0, e: -21, f: |v| out(quantity!(v, zg)) },
    C { n: "zeptogram", u: 0, e: -21, f: |v| out(quantity!(v, zeptogram)) },
    C { n: "ag", u: 0, e: -18, f: |v| out(quantity!(v, ag)) },
    C { n: "attogram", u: 0, e: -18, f: |v| out(quantity!(v, attogram)) },
    C { n: "fg", u: 0, e: -15, f: |v| out(quantity!(v, fg)) },
    C { n: "femtogram", u: 0, e: -15, f: |v| out(quantity!(v, femtogram)) },
    C { n: "pg", u: 0, e: -12, f: |v| out(quantity!(v, pg)) },
    C { n: "picogram", u: 0, e: -12, f: |v| out(quantity!(v, picogram)) },
    C { n: "ng", u: 0, e: -9, f: |v| out(quantity!(v, ng)) },
    C { n: "µg", u: 0, e: -6, f: |v| out(quantity!(v, µg)) },
    C { n: "microgram", u: 0, e: -6, f: |v| out(quantity!(v, microgram)) },
    C { n: "milligram", u: 0, e: -3, f: |v| out(quantity!(v, milligram)) },
    C { n: "cg", u: 0, e: -2, f: |v| out(quantity!(v, cg)) },
    C { n: "centigram", u: 0, e: -2, f: |v| out(quantity!(v, centigram)) },
    C { n: "dg", u: 0, e: -1, f: |v| out(quantity!(v, dg)) },
    C { n: "decigram", u: 0, e: -1, f: |v| out(quantity!(v, decigram)) },
    C { n: "dag", u: 0, e: 1, f: |v| out(quantity!(v, dag)) },
    C { n: "decagram", u: 0, e: 1, f: |v| out(quantity!(v, decagram)) },
    C { n: "hg", u: 0, e: 2, f: |v| out(quantity!(v, hg)) },
    C { n: "hectogram", u: 0, e: 2, f: |v| out(quantity!(v, hectogram)) },
    C { n: "megagram", u: 0, e: 6, f: |v| out(quantity!(v, megagram)) },
    C { n: "Gg", u: 0, e: 9, f: |v| out(quantity!(v, Gg)) },
    C { n: "gigagram", u: 0, e: 9, f: |v| out(quantity!(v, gigagram)) },
    C { n: "Tg", u: 0, e: 12, f: |v| out(quantity!(v, Tg)) },
    C { n: "teragram", u: 0, e: 12, f: |v| out(quantity!(v, teragram)) },
    C { n: "Pg", u: 0, e: 15, f: |v| out(quantity!(v, Pg)) },
    C { n: "petagram", u: 0, e: 15, f: |v| out(quantity!(v, petagram)) },
    C { n: "Eg", u: 0, e: 18, f: |v| out(quantity!(v, Eg)) },
    C { n: "exagram", u: 0, e: 18, f: |v| out(quantity!(v, exagram)) },
    C { n: "Zg", u: 0, e: 21, f: |v| out(quantity!(v, Zg)) },
    C { n: "zettagram", u: 0, e: 21, f: |v| out(quantity!(v, zettagram)) },
    C { n: "Yg", u: 0, e: 24, f: |v| out(quantity!(v, Yg)) },
    C { n: "yottagram", u: 0, e: 24, f: |v| out(quantity!(v, yottagram)) },
    C { n: "Rg", u: 0, e: 27, f: |v| out(quantity!(v, Rg)) },
    C { n: "ronnagram", u: 0, e: 27, f: |v| out(quantity!(v, ronnagram)) },
    C { n: "Qg", u: 0, e: 30, f: |v| out(quantity!(v, Qg)) },
    C { n: "quettagram", u: 0, e: 30, f: |v| out(quantity!(v, quettagram)) },
    C { n: "qs", u: 18, e: -30, f: |v| out(quantity!(v, qs)) },
    C { n: "quectosecond", u: 18, e: -30, f: |v| out(quantity!(v, quectosecond)) },
    C { n: "rs", u: 18, e: -27, f: |v| out(quantity!(v, rs)) },
    C { n: "rontosecond", u: 18, e: -27, f: |v| out(quantity!(v, rontosecond)) },
    C { n: "ys", u: 18, e: -24, f: |v| out(quantity!(v, ys)) },
    C { n: "yoctosecond", u: 18, e: -24, f: |v| out(quantity!(v, yoctosecond)) },
    C { n: "zs", u: 18, e: -21, f: |v| out(quantity!(v, zs)) },
    C { n: "zeptosecond", u: 18, e: -21, f: |v| out(quantity!(v, zeptosecond)) },
    C { n: "attosecond", u: 18, e: -18, f: |v| out(quantity!(v, attosecond)) },
    C { n: "fs", u: 18, e: -15, f: |v| out(quantity!(v, fs)) },
    C { n: "femtosecond", u: 18, e: -15, f: |v| out(quantity!(v, femtosecond)) },
    C { n: "ps", u: 18, e: -12, f: |v| out(quantity!(v, ps)) },
    C { n: "picosecond", u: 18, e: -12, f: |v| out(quantity!(v, picosecond)) },
    C { n: "ns", u: 18, e: -9, f: |v| out(quantity!(v, ns)) },
    C { n: "µs", u: 18, e: -6, f: |v| out(quantity!(v, µs)) },
    C { n: "microsecond", u: 18, e: -6, f: |v| out(quantity!(v, microsecond)) },
    C { n: "millisecond", u: 18, e: -3, f: |v| out(quantity!(v, millisecond)) },
    C { n: "cs", u: 18, e: -2, f: |v| out(quantity!(v, cs)) },
    C { n: "centisecond", u: 18, e: -2, f: |v| out(quantity!(v, centisecond)) },
    C { n: "ds", u: 18, e: -1, f: |v| out(quantity!(v, ds)) },
    C { n: "decisecond", u: 18, e: -1, f: |v| out(quantity!(v, decisecond)) },
    C { n: "das", u: 18, e: 1, f: |v| out(quantity!(v, das)) },
    C { n: "decasecond", u: 18, e: 1, f: |v| out(quantity!(v, decasecond)) },
    C { n: "hs", u: 18, e: 2, f: |v| out(quantity!(v, hs)) },
    C { n: "hectosecond", u: 18, e: 2, f: |v| out(quantity!(v, hectosecond)) },
    C { n: "megasecond", u: 18, e: 6, f: |v| out(quantity!(v, megasecond)) },
    C { n: "Gs", u: 18, e: 9, f: |v| out(quantity!(v, Gs)) },
    C { n: "gigasecond", u: 18, e: 9, f: |v| out(quantity!(v, gigasecond)) },
    C { n: "Ts", u: 18, e: 12, f: |v| out(quantity!(v, Ts)) },
    C { n: "terasecond", u: 18, e: 12, f: |v| out(quantity!(v, terasecond)) },
    C { n: "Ps", u: 18, e: 15, f: |v| out(quantity!(v, Ps)) },
    C { n: "petasecond", u: 18, e: 15, f: |v| out(quantity!(v, petasecond)) },
    C { n: "Es", u: 18, e: 18, f: |v| out(quantity!(v, Es)) },
    C { n: "exasecond", u: 18, e: 18, f: |v| out(quantity!(v, exasecond)) },
    C { n: "Zs", u: 18, e: 21, f: |v| out(quantity!(v, Zs)) },
    C { n: "zettasecond", u: 18, e: 21, f: |v| out(quantity!(v, zettasecond)) },
    C { n: "Ys", u: 18, e: 24, f: |v| out(quantity!(v, Ys)) },
    C { n: "yottasecond", u: 18, e: 24, f: |v| out(quantity!(v, yottasecond)) },
    C { n: "Rs", u: 18, e: 27, f: |v| out(quantity!(v, Rs)) },
    C { n: "ronnasecond", u: 18, e: 27, f: |v| out(quantity!(v, ronnasecond)) },
    C { n: "Qs", u: 18, e: 30, f: |v| out(quantity!(v, Qs)) },
    C { n: "quettasecond", u: 18, e: 30, f: |v| out(quantity!(v, quettasecond)) },
    C { n: "qA", u: 25, e: -30, f: |v| out(quantity!(v, qA)) },
    C { n: "quectoampere", u: 25, e: -30, f: |v| out(quantity!(v, quectoampere)) },
    C { n: "rA", u: 25, e: -27, f: |v| out(quantity!(v, rA)) },
    C { n: "rontoampere", u: 25, e: -27, f: |v| out(quantity!(v, rontoampere)) },
    C { n: "yA", u: 25, e: -24, f: |v| out(quantity!(v, yA)) },
    C { n: "yoctoampere", u: 25, e: -24, f: |v| out(quantity!(v, yoctoampere)) },
    C { n: "zA", u: 25, e: -21, f: |v| out(quantity!(v, zA)) },
    C { n: "zeptoampere", u: 25, e: -21, f: |v| out(quantity!(v, zeptoampere)) },
    C { n: "aA", u: 25, e: -18, f: |v| out(quantity!(v, aA)) },
    C { n: "attoampere", u: 25, e: -18, f: |v| out(quantity!(v, attoampere)) },
    C { n: "fA", u: 25, e: -15, f: |v| out(quantity!(v, fA)) },
    C { n: "femtoampere", u: 25, e: -15, f: |v| out(quantity!(v, femtoampere)) },
    C { n: "pA", u: 25, e: -12, f: |v| out(quantity!(v, pA)) },
    C { n: "picoampere", u: 25, e: -12, f: |v| out(quantity!(v, picoampere)) },
    C { n: "nA", u: 25, e: -9, f: |v| out(quantity!(v, nA)) },
    C { n: "µA", u: 25, e: -6, f: |v| out(quantity!(v, µA)) },
    C { n: "microampere", u: 25, e: -6, f: |v| out(quantity!(v, microampere)) },
    C { n: "milliampere", u: 25, e: -3, f: |v| out(quantity!(v, milliampere)) },
    C { n: "cA", u: 25, e: -2, f: |v| out(quantity!(v, cA)) },
    C { n: "centiampere", u: 25, e: -2, f: |v| out(quantity!(v, centiampere)) },
    C { n: "dA", u: 25, e: -1, f: |v| out(quantity!(v, dA)) },
    C { n: "deciampere", u: 25, e: -1, f: |v| out(quantity!(v, deciampere)) },
    C { n: "daA", u: 25, e: 1, f: |v| out(quantity!(v, daA)) },
    C { n: "decaampere", u: 25, e: 1, f: |v| out(quantity!(v, decaampere)) },
    C { n: "hA", u: 25, e: 2, f: |v| out(quantity!(v, hA)) },
    C { n: "hectoampere", u: 25, e: 2, f: |v| out(quantity!(v, hectoampere)) },
    C { n: "megaampere", u: 25, e: 6, f: |v| out(quantity!(v, megaampere)) },
    C { n: "GA", u: 25, e: 9, f: |v| out(quantity!(v, GA)) },
    C { n: "gigaampere", u: 25, e: 9, f: |v| out(quantity!(v, gigaampere)) },
    C { n: "TA", u: 25, e: 12, f: |v| out(quantity!(v, TA)) },
    C { n: "teraampere", u: 25, e: 12, f: |v| out(quantity!(v, teraampere)) },
    C { n: "PA", u: 25, e: 15, f: |v| out(quantity!(v, PA)) },
    C { n: "petaampere", u: 25, e: 15, f: |v| out(quantity!(v, petaampere)) },
    C { n: "EA", u: 25, e: 18, f: |v| out(quantity!(v, EA)) },
    C { n: "exaampere", u: 25, e: 18, f: |v| out(quantity!(v, exaampere)) },
    C { n: "ZA", u: 25, e: 21, f: |v| out(quantity!(v, ZA)) },
    C { n: "zettaampere", u: 25, e: 21, f: |v| out(quantity!(v, zettaampere)) },
    C { n: "YA", u: 25, e: 24, f: |v| out(quantity!(v, YA)) },
    C { n: "yottaampere", u: 25, e: 24, f: |v| out(quantity!(v, yottaampere)) },
    C { n: "RA", u: 25, e: 27, f: |v| out(quantity!(v, RA)) },
    C { n: "ronnaampere", u: 25, e: 27, f: |v| out(quantity!(v, ronnaampere)) },
    C { n: "QA", u: 25, e: 30, f: |v| out(quantity!(v, QA)) },
    C { n: "quettaampere", u: 25, e: 30, f: |v| out(quantity!(v, quettaampere)) },
    C { n: "qK", u: 26, e: -30, f: |v| out(quantity!(v, qK)) },
    C { n: "quectokelvin", u: 26, e: -30, f: |v| out(quantity!(v, quectokelvin)) },
    C { n: "rK", u: 26, e: -27, f: |v| out(quantity!(v, rK)) },
    C { n: "rontokelvin", u: 26, e: -27, f: |v| out(quantity!(v, rontokelvin)) },
    C { n: "yK", u: 26, e: -24, f: |v| out(quantity!(v, yK)) },
    C { n: "yoctokelvin", u: 26, e: -24, f: |v| out(quantity!(v, yoctokelvin)) },
    C { n: "zK", u: 26, e: -21, f: |v| out(quantity!(v, zK)) },
    C { n: "zeptokelvin", u: 26, e: -21, f: |v| out(quantity!(v, zeptokelvin)) },
    C { n: "aK", u: 26, e: -18, f: |v| out(quantity!(v, aK)) },
    C { n: "attokelvin", u: 26, e: -18, f: |v| out(quantity!(v, attokelvin)) },
    C { n: "fK", u: 26, e: -15, f: |v| out(quantity!(v, fK)) },
    C { n: "femtokelvin", u: 26, e: -15, f: |v| out(quantity!(v, femtokelvin)) },
    C { n: "pK", u: 26, e: -12, f: |v| out(quantity!(v, pK)) },
    C { n: "picokelvin", u: 26, e: -12, f: |v| out(quantity!(v, picokelvin)) },
    C { n: "nK", u: 26, e: -9, f: |v| out(quantity!(v, nK)) },
    C { n: "µK", u: 26, e: -6, f: |v| out(quantity!(v, µK)) },
    C { n: "microkelvin", u: 26, e: -6, f: |v| out(quantity!(v, microkelvin)) },
    C { n: "millikelvin", u: 26, e: -3, f: |v| out(quantity!(v, millikelvin)) },
    C { n: "cK", u: 26, e: -2, f: |v| out(quantity!(v, cK)) },
    C { n: "centikelvin", u: 26, e: -2, f: |v| out(quantity!(v, centikelvin)) },
    C { n: "dK", u: 26, e: -1, f: |v| out(quantity!(v, dK)) },
    C { n: "decikelvin", u: 26, e: -1, f: |v| out(quantity!(v, decikelvin)) },
    C { n: "daK", u: 26, e: 1, f: |v| out(quantity!(v, daK)) },
    C { n: "decakelvin", u: 26, e: 1, f: |v| out(quantity!(v, decakelvin)) },
    C { n: "hK", u: 26, e: 2, f: |v| out(quantity!(v, hK)) },
    C { n: "hectokelvin", u: 26, e: 2, f: |v| out(quantity!(v, hectokelvin)) },
    C { n: "megakelvin", u: 26, e: 6, f: |v| out(quantity!(v, megakelvin)) },
    C { n: "GK", u: 26, e: 9, f: |v| out(quantity!(v, GK)) },
    C { n: "gigakelvin", u: 26, e: 9, f: |v| out(quantity!(v, gigakelvin)) },
    C { n: "TK", u: 26, e: 12, f: |v| out(quantity!(v, TK)) },
    C { n: "terakelvin", u: 26, e: 12, f: |v| out(quantity!(v, terakelvin)) },
    C { n: "PK", u: 26, e: 15, f: |v| out(quantity!(v, PK)) },
    C { n: "petakelvin", u: 26, e: 15, f: |v| out(quantity!(v, petakelvin)) },
    C { n: "EK", u: 26, e: 18, f: |v| out(quantity!(v, EK)) },
    C { n: "exakelvin", u: 26, e: 18, f: |v| out(quantity!(v, exakelvin)) },
    C { n: "ZK", u: 26, e: 21, f: |v| out(quantity!(v, ZK)) },
    C { n: "zettakelvin", u: 26, e: 21, f: |v| out(quantity!(v, zettakelvin)) },
    C { n: "YK", u: 26, e: 24, f: |v| out(quantity!(v, YK)) },
    C { n: "yottakelvin", u: 26, e: 24, f: |v| out(quantity!(v, yottakelvin)) },
    C { n: "RK", u: 26, e: 27, f: |v| out(quantity!(v, RK)) },
    C { n: "ronnakelvin", u: 26, e: 27, f: |v| out(quantity!(v, ronnakelvin)) },
    C { n: "QK", u: 26, e: 30, f: |v| out(quantity!(v, QK)) },
    C { n: "quettakelvin", u: 26, e: 30, f: |v| out(quantity!(v, quettakelvin)) },
    C { n: "qmol", u: 30, e: -30, f: |v| out(quantity!(v, qmol)) },
    C { n: "quectomole", u: 30, e: -30, f: |v| out(quantity!(v, quectomole)) },
    C { n: "rmol", u: 30, e: -27, f: |v| out(quantity!(v, rmol)) },
    C { n: "rontomole", u: 30, e: -27, f: |v| out(quantity!(v, rontomole)) },
    C { n: "ymol", u: 30, e: -24, f: |v| out(quantity!(v, ymol)) },
    C { n: "yoctomole", u: 30, e: -24, f: |v| out(quantity!(v, yoctomole)) },
    C { n: "zmol", u: 30, e: -21, f: |v| out(quantity!(v, zmol)) },
    C { n: "zeptomole", u: 30, e: -21, f: |v| out(quantity!(v, zeptomole)) },
    C { n: "amol", u: 30, e: -18, f: |v| out(quantity!(v, amol)) },
    C { n: "attomole", u: 30, e: -18, f: |v| out(quantity!(v, attomole)) },
    C { n: "fmol", u: 30, e: -15, f: |v| out(quantity!(v, fmol)) },
    C { n: "femtomole", u: 30, e: -15, f: |v| out(quantity!(v, femtomole)) },
    C { n: "pmol", u: 30, e: -12, f: |v| out(quantity!(v, pmol)) },
    C { n: "picomole", u: 30, e: -12, f: |v| out(quantity!(v, picomole)) },
    C { n: "nmol", u: 30, e: -9, f: |v| out(quantity!(v, nmol)) },
    C { n: "µmol", u: 30, e: -6, f: |v| out(quantity!(v, µmol)) },
    C { n: "micromole", u: 30, e: -6, f: |v| out(quantity!(v, micromole)) },
    C { n: "millimole", u: 30, e: -3, f: |v| out(quantity!(v, millimole)) },
    C { n: "cmol", u: 30, e: -2, f: |v| out(quantity!(v, cmol)) },
    C { n: "centimole", u: 30, e: -2, f: |v| out(quantity!(v, centimole)) },
    C { n: "dmol", u: 30, e: -1, f: |v| out(quantity!(v, dmol)) },
    C { n: "decimole", u: 30, e: -1, f: |v| out(quantity!(v, decimole)) },
    C { n: "damol", u: 30, e: 1, f: |v| out(quantity!(v, damol)) },
    C { n: "decamole", u: 30, e: 1, f: |v| out(quantity!(v, decamole)) },
    C { n: "hmol", u: 30, e: 2, f: |v| out(quantity!(v, hmol)) },
    C { n: "hectomole", u: 30, e: 2, f: |v| out(quantity!(v, hectomole)) },
    C { n: "megamole", u: 30, e: 6, f: |v| out(quantity!(v, megamole)) },
    C { n: "Gmol", u: 30, e: 9, f: |v| out(quantity!(v, Gmol)) },
    C { n: "gigamole", u: 30, e: 9, f: |v| out(quantity!(v, gigamole)) },
    C { n: "Tmol", u: 30, e: 12, f: |v| out(quantity!(v, Tmol)) },
    C { n: "teramole", u: 30, e: 12, f: |v| out(quantity!(v, teramole)) },
    C { n: "Pmol", u: 30, e: 15, f: |v| out(quantity!(v, Pmol)) },
    C { n: "petamole", u: 30, e: 15, f: |v| out(quantity!(v, petamole)) },
    C { n: "Emol", u: 30, e: 18, f: |v| out(quantity!(v, Emol)) },
    C { n: "examole", u: 30, e: 18, f: |v| out(quantity!(v, examole)) },
    C { n: "Zmol", u: 30, e: 21, f: |v| out(quantity!(v, Zmol)) },
    C { n: "zettamole", u: 30, e: 21, f: |v| out(quantity!(v, zettamole)) },
    C { n: "Ymol", u: 30, e: 24, f: |v| out(quantity!(v, Ymol)) },
    C { n: "yottamole", u: 30, e: 24, f: |v| out(quantity!(v, yottamole)) },
    C { n: "Rmol", u: 30, e: 27, f: |v| out(quantity!(v, Rmol)) },
    C { n: "ronnamole", u: 30, e: 27, f: |v| out(quantity!(v, ronnamole)) },
    C { n: "Qmol", u: 30, e: 30, f: |v| out(quantity!(v, Qmol)) },
    C { n: "quettamole", u: 30, e: 30, f: |v| out(quantity!(v, quettamole)) },
    C { n: "qcd", u: 31, e: -30, f: |v| out(quantity!(v, qcd)) },
    C { n: "quectocandela", u: 31, e: -30, f: |v| out(quantity!(v, quectocandela)) },
    C { n: "rcd", u: 31, e: -27, f: |v| out(quantity!(v, rcd)) },
    C { n: "rontocandela", u: 31, e: -27, f: |v| out(quantity!(v, rontocandela)) },
    C { n: "ycd", u: 31, e: -24, f: |v| out(quantity!(v, ycd)) },
    C { n: "yoctocandela", u: 31, e: -24, f: |v| out(quantity!(v, yoctocandela)) },
    C { n: "zcd", u: 31, e: -21, f: |v| out(quantity!(v, zcd)) },
    C { n: "zeptocandela", u: 31, e: -21, f: |v| out(quantity!(v, zeptocandela)) },
    C { n: "acd", u: 31, e: -18, f: |v| out(quantity!(v, acd)) },
    C { n: "attocandela", u: 31, e: -18, f: |v| out(quantity!(v, attocandela)) },
    C { n: "fcd", u: 31, e: -15, f: |v| out(quantity!(v, fcd)) },
    C { n: "femtocandela", u: 31, e: -15, f: |v| out(quantity!(v, femtocandela)) },
    C { n: "pcd", u: 31, e: -12, f: |v| out(quantity!(v, pcd)) },
    C { n: "picocandela", u: 31, e: -12, f: |v| out(quantity!(v, picocandela)) },
    C { n: "ncd", u: 31, e: -9, f: |v| out(quantity!(v, ncd)) },
    C { n: "µcd", u: 31, e: -6, f: |v| out(quantity!(v, µcd)) },
    C { n: "microcandela", u: 31, e: -6, f: |v| out(quantity!(v, microcandela)) },
    C { n: "millicandela", u: 31, e: -3, f: |v| out(quantity!(v, millicandela)) },
    C { n: "ccd", u: 31, e: -2, f: |v| out(quantity!(v, ccd)) },
    C { n: "centicandela", u: 31, e: -2, f: |v| out(quantity!(v, centicandela)) },
    C { n: "dcd", u: 31, e: -1, f: |v| out(quantity!(v, dcd)) },
    C { n: "decicandela", u: 31, e: -1, f: |v| out(quantity!(v, decicandela)) },
    C { n: "dacd", u: 31, e: 1, f: |v| out(quantity!(v, dacd)) },
    C { n: "decacandela", u: 31, e: 1, f: |v| out(quantity!(v, decacandela)) },
    C { n: "hcd", u: 31, e: 2, f: |v| out(quantity!(v, hcd)) },
    C { n: "hectocandela", u: 31, e: 2, f: |v| out(quantity!(v, hectocandela)) },
    C { n: "megacandela", u: 31, e: 6, f: |v| out(quantity!(v, megacandela)) },
    C { n: "Gcd", u: 31, e: 9, f: |v| out(quantity!(v, Gcd)) },
    C { n: "gigacandela", u: 31, e: 9, f: |v| out(quantity!(v, gigacandela)) },
    C { n: "Tcd", u: 31, e: 12, f: |v| out(quantity!(v, Tcd)) },
    C { n: "teracandela", u: 31, e: 12, f: |v| out(quantity!(v, teracandela)) },
    C { n: "Pcd", u: 31, e: 15, f: |v| out(quantity!(v, Pcd)) },
    C { n: "petacandela", u: 31, e: 15, f: |v| out(quantity!(v, petacandela)) },
    C { n: "Ecd", u: 31, e: 18, f: |v| out(quantity!(v, Ecd)) },
    C { n: "exacandela", u: 31, e: 18, f: |v| out(quantity!(v, exacandela)) },
    C { n: "Zcd", u: 31, e: 21, f: |v| out(quantity!(v, Zcd)) },
    C { n: "zettacandela", u: 31, e: 21, f: |v| out(quantity!(v, zettacandela)) },
    C { n: "Ycd", u: 31, e: 24, f: |v| out(quantity!(v, Ycd)) },
    C { n: "yottacandela", u: 31, e: 24, f: |v| out(quantity!(v, yottacandela)) },
    C { n: "Rcd", u: 31, e: 27, f: |v| out(quantity!(v, Rcd)) },
    C { n: "ronnacandela", u: 31, e: 27, f: |v| out(quantity!(v, ronnacandela)) },
    C { n: "Qcd", u: 31, e: 30, f: |v| out(quantity!(v, Qcd)) },
    C { n: "quettacandela", u: 31, e: 30, f: |v| out(quantity!(v, quettacandela)) },
    C { n: "qrad", u: 33, e: -30, f: |v| out(quantity!(v, qrad)) },
    C { n: "quectoradian", u: 33, e: -30, f: |v| out(quantity!(v, quectoradian)) },
    C { n: "rrad", u: 33, e: -27, f: |v| out(quantity!(v, rrad)) },
    C { n: "rontoradian", u: 33, e: -27, f: |v| out(quantity!(v, rontoradian)) },
    C { n: "yrad", u: 33, e: -24, f: |v| out(quantity!(v, yrad)) },
    C { n: "yoctoradian", u: 33, e: -24, f: |v| out(quantity!(v, yoctoradian)) },
    C { n: "zrad", u: 33, e: -21, f: |v| out(quantity!(v, zrad)) },
    C { n: "zeptoradian", u: 33, e: -21, f: |v| out(quantity!(v, zeptoradian)) },
    C { n: "arad", u: 33, e: -18, f: |v| out(quantity!(v, arad)) },
    C { n: "attoradian", u: 33, e: -18, f: |v| out(quantity!(v, attoradian)) },
    C { n: "frad", u: 33, e: -15, f: |v| out(quantity!(v, frad)) },
    C { n: "femtoradian", u: 33, e: -15, f: |v| out(quantity!(v, femtoradian)) },
    C { n: "prad", u: 33, e: -12, f: |v| out(quantity!(v, prad)) },
    C { n: "picoradian", u: 33, e: -12, f: |v| out(quantity!(v, picoradian)) },
    C { n: "nrad", u: 33, e: -9, f: |v| out(quantity!(v, nrad)) },
    C { n: "µrad", u: 33, e: -6, f: |v| out(quantity!(v, µrad)) },
    C { n: "microradian", u: 33, e: -6, f: |v| out(quantity!(v, microradian)) },
    C { n: "milliradian", u: 33, e: -3, f: |v| out(quantity!(v, milliradian)) },
    C { n: "crad", u: 33, e: -2, f: |v| out(quantity!(v, crad)) },
    C { n: "centiradian", u: 33, e: -2, f: |v| out(quantity!(v, centiradian)) },
    C { n: "drad", u: 33, e: -1, f: |v| out(quantity!(v, drad)) },
    C { n: "deciradian", u: 33, e: -1, f: |v| out(quantity!(v, deciradian)) },
    C { n: "darad", u: 33, e: 1, f: |v| out(quantity!(v, darad)) },
    C { n: "decaradian", u: 33, e: 1, f: |v| out(quantity!(v, decaradian)) },
    C { n: "hrad", u: 33, e: 2, f: |v| out(quantity!(v, hrad)) },
    C { n: "hectoradian", u: 33, e: 2, f: |v| out(quantity!(v, hectoradian)) },
    C { n: "megaradian", u: 33, e: 6, f: |v| out(quantity!(v, megaradian)) },
    C { n: "Grad", u: 33, e: 9, f: |v| out(quantity!(v, Grad)) },
    C { n: "gigaradian", u: 33, e: 9, f: |v| out(quantity!(v, gigaradian)) },
    C { n: "Trad", u: 33, e: 12, f: |v| out(quantity!(v, Trad)) },
    C { n: "teraradian", u: 33, e: 12, f: |v| out(quantity!(v, teraradian)) },
    C { n: "Prad", u: 33, e: 15, f: |v| out(quantity!(v, Prad)) },
    C { n: "petaradian", u: 33, e: 15, f: |v| out(quantity!(v, petaradian)) },
    C { n: "Erad", u: 33, e: 18, f: |v| out(quantity!(v, Erad)) },
    C { n: "exaradian", u: 33, e: 18, f: |v| out(quantity!(v, exaradian)) },
    C { n: "Zrad", u: 33, e: 21, f: |v| out(quantity!(v, Zrad)) },
    C { n: "zettaradian", u: 33, e: 21, f: |v| out(quantity!(v, zettaradian)) },
    C { n: "Yrad", u: 33, e: 24, f: |v| out(quantity!(v, Yrad)) },
    C { n: "yottaradian", u: 33, e: 24, f: |v| out(quantity!(v, yottaradian)) },
    C { n: "Rrad", u: 33, e: 27, f: |v| out(quantity!(v, Rrad)) },
    C { n: "ronnaradian", u: 33, e: 27, f: |v| out(quantity!(v, ronnaradian)) },
    C { n: "Qrad", u: 33, e: 30, f: |v| out(quantity!(v, Qrad)) },
    C { n: "quettaradian", u: 33, e: 30, f: |v| out(quantity!(v, quettaradian)) },
    C { n: "qhect", u: 39, e: -30, f: |v| out(quantity!(v, qhect)) },
    C { n: "quectohectare", u: 39, e: -30, f: |v| out(quantity!(v, quectohectare)) },
    C { n: "rhect", u: 39, e: -27, f: |v| out(quantity!(v, rhect)) },
    C { n: "rontohectare", u: 39, e: -27, f: |v| out(quantity!(v, rontohectare)) },
    C { n: "yhect", u: 39, e: -24, f: |v| out(quantity!(v, yhect)) },
    C { n: "yoctohectare", u: 39, e: -24, f: |v| out(quantity!(v, yoctohectare)) },
    C { n: "zhect", u: 39, e: -21, f: |v| out(quantity!(v, zhect)) },
    C { n: "zeptohectare", u: 39, e: -21, f: |v| out(quantity!(v, zeptohectare)) },
    C { n: "ahect", u: 39, e: -18, f: |v| out(quantity!(v, ahect)) },
    C { n: "attohectare", u: 39, e: -18, f: |v| out(quantity!(v, attohectare)) },
    C { n: "fhect", u: 39, e: -15, f: |v| out(quantity!(v, fhect)) },
    C { n: "femtohectare", u: 39, e: -15, f: |v| out(quantity!(v, femtohectare)) },
    C { n: "phect", u: 39, e: -12, f: |v| out(quantity!(v, phect)) },
    C { n: "picohectare", u: 39, e: -12, f: |v| out(quantity!(v, picohectare)) },
    C { n: "nhect", u: 39, e: -9, f: |v| out(quantity!(v, nhect)) },
    C { n: "µhect", u: 39, e: -6, f: |v| out(quantity!(v, µhect)) },
    C { n: "microhectare", u: 39, e: -6, f: |v| out(quantity!(v, microhectare)) },
    C { n: "millihectare", u: 39, e: -3, f: |v| out(quantity!(v, millihectare)) },
    C { n: "chect", u: 39, e: -2, f: |v| out(quantity!(v, chect)) },
    C { n: "centihectare", u: 39, e: -2, f: |v| out(quantity!(v, centihectare)) },
    C { n: "dhect", u: 39, e: -1, f: |v| out(quantity!(v, dhect)) },
    C { n: "decihectare", u: 39, e: -1, f: |v| out(quantity!(v, decihectare)) },
    C { n: "dahect", u: 39, e: 1, f: |v| out(quantity!(v, dahect)) },
    C { n: "decahectare", u: 39, e: 1, f: |v| out(quantity!(v, decahectare)) },
    C { n: "hhect", u: 39, e: 2, f: |v| out(quantity!(v, hhect)) },
    C { n: "hectohectare", u: 39, e: 2, f: |v| out(quantity!(v, hectohectare)) },
    C { n: "megahectare", u: 39, e: 6, f: |v| out(quantity!(v, megahectare)) },
    C { n: "Ghect", u: 39, e: 9, f: |v| out(quantity!(v, Ghect)) },
    C { n: "gigahectare", u: 39, e: 9, f: |v| out(quantity!(v, gigahectare)) },
    C { n: "Thect", u: 39, e: 12, f: |v| out(quantity!(v, Thect)) },
    C { n: "terahectare", u: 39, e: 12, f: |v| out(quantity!(v, terahectare)) },
    C { n: "Phect", u: 39, e: 15, f: |v| out(quantity!(v, Phect)) },
    C { n: "petahectare", u: 39, e: 15, f: |v| out(quantity!(v, petahectare)) },
    C { n: "Ehect", u: 39, e: 18, f: |v| out(quantity!(v, Ehect)) },
    C { n: "exahectare", u: 39, e: 18, f: |v| out(quantity!(v, exahectare)) },
    C { n: "Zhect", u: 39, e: 21, f: |v| out(quantity!(v, Zhect)) },
    C { n: "zettahectare", u: 39, e: 21, f: |v| out(quantity!(v, zettahectare)) },
    C { n: "Yhect", u: 39, e: 24, f: |v| out(quantity!(v, Yhect)) },
    C { n: "yottahectare", u: 39, e: 24, f: |v| out(quantity!(v, yottahectare)) },
    C { n: "Rhect", u: 39, e: 27, f: |v| out(quantity!(v, Rhect)) },
    C { n: "ronnahectare", u: 39, e: 27, f: |v| out(quantity!(v, ronnahectare)) },
    C { n: "Qhect", u: 39, e: 30, f: |v| out(quantity!(v, Qhect)) },
    C { n: "quettahectare", u: 39, e: 30, f: |v| out(quantity!(v, quettahectare)) },
    C { n: "qL", u: 41, e: -30, f: |v| out(quantity!(v, qL)) },
    C { n: "ql", u: 41, e: -30, f: |v| out(quantity!(v, ql)) },
    C { n: "quectoliter", u: 41, e: -30, f: |v| out(quantity!(v, quectoliter)) },
    C { n: "rL", u: 41, e: -27, f: |v| out(quantity!(v, rL)) },
    C { n: "rl", u: 41, e: -27, f: |v| out(quantity!(v, rl)) },
    C { n: "rontoliter", u: 41, e: -27, f: |v| out(quantity!(v, rontoliter)) },
    C { n: "yL", u: 41, e: -24, f: |v| out(quantity!(v, yL)) },
    C { n: "yl", u: 41, e: -24, f: |v| out(quantity!(v, yl)) },
    C { n: "yoctoliter", u: 41, e: -24, f: |v| out(quantity!(v, yoctoliter)) },
    C { n: "zL", u: 41, e: -21, f: |v| out(quantity!(v, zL)) },
    C { n: "zl", u: 41, e: -21, f: |v| out(quantity!(v, zl)) },
    C { n: "zeptoliter", u: 41, e: -21, f: |v| out(quantity!(v, zeptoliter)) },
    C { n: "aL", u: 41, e: -18, f: |v| out(quantity!(v, aL)) },
    C { n: "al", u: 41, e: -18, f: |v| out(quantity!(v, al)) },
    C { n: "attoliter", u: 41, e: -18, f: |v| out(quantity!(v, attoliter)) },
    C { n: "fL", u: 41, e: -15, f: |v| out(quantity!(v, fL)) },
    C { n: "fl", u: 41, e: -15, f: |v| out(quantity!(v, fl)) },
    C { n: "femtoliter", u: 41, e: -15, f: |v| out(quantity!(v, femtoliter)) },
    C { n: "pL", u: 41, e: -12, f: |v| out(quantity!(v, pL)) },
    C { n: "pl", u: 41, e: -12, f: |v| out(quantity!(v, pl)) },
    C { n: "picoliter", u: 41, e: -12, f: |v| out(quantity!(v, picoliter)) },
    C { n: "nL", u: 41, e: -9, f: |v| out(quantity!(v, nL)) },
    C { n: "nl", u: 41, e: -9, f: |v| out(quantity!(v, nl)) },
    C { n: "µL", u: 41, e: -6, f: |v| out(quantity!(v, µL)) },
    C { n: "µl", u: 41, e: -6, f: |v| out(quantity!(v, µl)) },
    C { n: "microliter", u: 41, e: -6, f: |v| out(quantity!(v, microliter)) },
    C { n: "milliliter", u: 41, e: -3, f: |v| out(quantity!(v, milliliter)) },
    C { n: "cL", u: 41, e: -2, f: |v| out(quantity!(v, cL)) },
    C { n: "cl", u: 41, e: -2, f: |v| out(quantity!(v, cl)) },
    C { n: "centiliter", u: 41, e: -2, f: |v| out(quantity!(v, centiliter)) },
    C { n: "dL", u: 41, e: -1, f: |v| out(quantity!(v, dL)) },
    C { n: "dl", u: 41, e: -1, f: |v| out(quantity!(v, dl)) },
    C { n: "deciliter", u: 41, e: -1, f: |v| out(quantity!(v, deciliter)) },
    C { n: "daL", u: 41, e: 1, f: |v| out(quantity!(v, daL)) },
    C { n: "dal", u: 41, e: 1, f: |v| out(quantity!(v, dal)) },
    C { n: "decaliter", u: 41, e: 1, f: |v| out(quantity!(v, decaliter)) },
    C { n: "hL", u: 41, e: 2, f: |v| out(quantity!(v, hL)) },
    C { n: "hl", u: 41, e: 2, f: |v| out(quantity!(v, hl)) },
    C { n: "hectoliter", u: 41, e: 2, f: |v| out(quantity!(v, hectoliter)) },
    C { n: "megaliter", u: 41, e: 6, f: |v| out(quantity!(v, megaliter)) },
    C { n: "GL", u: 41, e: 9, f: |v| out(quantity!(v, GL)) },
    C { n: "Gl", u: 41, e: 9, f: |v| out(quantity!(v, Gl)) },
    C { n: "gigaliter", u: 41, e: 9, f: |v| out(quantity!(v, gigaliter)) },
    C { n: "TL", u: 41, e: 12, f: |v| out(quantity!(v, TL)) },
    C { n: "Tl", u: 41, e: 12, f: |v| out(quantity!(v, Tl)) },
    C { n: "teraliter", u: 41, e: 12, f: |v| out(quantity!(v, teraliter)) },
    C { n: "PL", u: 41, e: 15, f: |v| out(quantity!(v, PL)) },
    C { n: "Pl", u: 41, e: 15, f: |v| out(quantity!(v, Pl)) },
    C { n: "petaliter", u: 41, e: 15, f: |v| out(quantity!(v, petaliter)) },
    C { n: "EL", u: 41, e: 18, f: |v| out(quantity!(v, EL)) },
    C { n: "El", u: 41, e: 18, f: |v| out(quantity!(v, El)) },
    C { n: "exaliter", u: 41, e: 18, f: |v| out(quantity!(v, exaliter)) },
    C { n: "ZL", u: 41, e: 21, f: |v| out(quantity!(v, ZL)) },
    C { n: "Zl", u: 41, e: 21, f: |v| out(quantity!(v, Zl)) },
    C { n: "zettaliter", u: 41, e: 21, f: |v| out(quantity!(v, zettaliter)) },
    C { n: "YL", u: 41, e: 24, f: |v| out(quantity!(v, YL)) },
    C { n: "Yl", u: 41, e: 24, f: |v| out(quantity!(v, Yl)) },
    C { n: "yottaliter", u: 41, e: 24, f: |v| out(quantity!(v, yottaliter)) },
    C { n: "RL", u: 41, e: 27, f: |v| out(quantity!(v, RL)) },
    C { n: "Rl", u: 41, e: 27, f: |v| out(quantity!(v, Rl)) },
    C { n: "ronnaliter", u: 41, e: 27, f: |v| out(quantity!(v, ronnaliter)) },
    C { n: "QL", u: 41, e: 30, f: |v| out(quantity!(v, QL)) },
    C { n: "Ql", u: 41, e: 30, f: |v| out(quantity!(v, Ql)) },
    C { n: "quettaliter", u: 41, e: 30, f: |v| out(quantity!(v, quettaliter)) },
    C { n: "qHz", u: 57, e: -30, f: |v| out(quantity!(v, qHz)) },
    C { n: "quectohertz", u: 57, e: -30, f: |v| out(quantity!(v, quectohertz)) },
    C { n: "rHz", u: 57, e: -27, f: |v| out(quantity!(v, rHz)) },
    C { n: "rontohertz", u: 57, e: -27, f: |v| out(quantity!(v, rontohertz)) },
    C { n: "yHz", u: 57, e: -24, f: |v| out(quantity!(v, yHz)) },
    C { n: "yoctohertz", u: 57, e: -24, f: |v| out(quantity!(v, yoctohertz)) },
    C { n: "zHz", u: 57, e: -21, f: |v| out(quantity!(v, zHz)) },
    C { n: "zeptohertz", u: 57, e: -21, f: |v| out(quantity!(v, zeptohertz)) },
    C { n: "aHz", u: 57, e: -18, f: |v| out(quantity!(v, aHz)) },
    C { n: "attohertz", u: 57, e: -18, f: |v| out(quantity!(v, attohertz)) },
    C { n: "fHz", u: 57, e: -15, f: |v| out(quantity!(v, fHz)) },
    C { n: "femtohertz", u: 57, e: -15, f: |v| out(quantity!(v, femtohertz)) },
    C { n: "pHz", u: 57, e: -12, f: |v| out(quantity!(v, pHz)) },
    C { n: "picohertz", u: 57, e: -12, f: |v| out(quantity!(v, picohertz)) },
    C { n: "nHz", u: 57, e: -9, f: |v| out(quantity!(v, nHz)) },
    C { n: "µHz", u: 57, e: -6, f: |v| out(quantity!(v, µHz)) },
    C { n: "microhertz", u: 57, e: -6, f: |v| out(quantity!(v, microhertz)) },
    C { n: "millihertz", u: 57, e: -3, f: |v| out(quantity!(v, millihertz)) },
    C { n: "cHz", u: 57, e: -2, f: |v| out(quantity!(v, cHz)) },
    C { n: "centihertz", u: 57, e: -2, f: |v| out(quantity!(v, centihertz)) },
    C { n: "dHz", u: 57, e: -1, f: |v| out(quantity!(v, dHz)) },
    C { n: "decihertz", u: 57, e: -1, f: |v| out(quantity!(v, decihertz)) },
    C { n: "daHz", u: 57, e: 1, f: |v| out(quantity!(v, daHz)) },
    C { n: "decahertz", u: 57, e: 1, f: |v| out(quantity!(v, decahertz)) },
    C { n: "hHz", u: 57, e: 2, f: |v| out(quantity!(v, hHz)) },
    C { n: "hectohertz", u: 57, e: 2, f: |v| out(quantity!(v, hectohertz)) },
    C { n: "megahertz", u: 57, e: 6, f: |v| out(quantity!(v, megahertz)) },
    C { n: "GHz", u: 57, e: 9, f: |v| out(quantity!(v, GHz)) },
    C { n: "gigahertz", u: 57, e: 9, f: |v| out(quantity!(v, gigahertz)) },
    C { n: "THz", u: 57, e: 12, f: |v| out(quantity!(v, THz)) },
    C { n: "terahertz", u: 57, e: 12, f: |v| out(quantity!(v, terahertz)) },
    C { n: "PHz", u: 57, e: 15, f: |v| out(quantity!(v, PHz)) },
    C { n: "petahertz", u: 57, e: 15, f: |v| out(quantity!(v, petahertz)) },
    C { n: "EHz", u: 57, e: 18, f: |v| out(quantity!(v, EHz)) },
    C { n: "exahertz", u: 57, e: 18, f: |v| out(quantity!(v, exahertz)) },
    C { n: "ZHz", u: 57, e: 21, f: |v| out(quantity!(v, ZHz)) },
    C { n: "zettahertz", u: 57, e: 21, f: |v| out(quantity!(v, zettahertz)) },
    C { n: "YHz", u: 57, e: 24, f: |v| out(quantity!(v, YHz)) },
    C { n: "yottahertz", u: 57, e: 24, f: |v| out(quantity!(v, yottahertz)) },
    C { n: "RHz", u: 57, e: 27, f: |v| out(quantity!(v, RHz)) },
    C { n: "ronnahertz", u: 57, e: 27, f: |v| out(quantity!(v, ronnahertz)) },
    C { n: "QHz", u: 57, e: 30, f: |v| out(quantity!(v, QHz)) },
    C { n: "quettahertz", u: 57, e: 30, f: |v| out(quantity!(v, quettahertz)) },
    C { n: "qN", u: 58, e: -30, f: |v| out(quantity!(v, qN)) },
    C { n: "quectonewton", u: 58, e: -30, f: |v| out(quantity!(v, quectonewton)) },
    C { n: "rN", u: 58, e: -27, f: |v| out(quantity!(v, rN)) },
    C { n: "rontonewton", u: 58, e: -27, f: |v| out(quantity!(v, rontonewton)) },
    C { n: "yN", u: 58, e: -24, f: |v| out(quantity!(v, yN)) },
    C { n: "yoctonewton", u: 58, e: -24, f: |v| out(quantity!(v, yoctonewton)) },
    C { n: "zN", u: 58, e: -21, f: |v| out(quantity!(v, zN)) },
    C { n: "zeptonewton", u: 58, e: -21, f: |v| out(quantity!(v, zeptonewton)) },
    C { n: "aN", u: 58, e: -18, f: |v| out(quantity!(v, aN)) },
    C { n: "attonewton", u: 58, e: -18, f: |v| out(quantity!(v, attonewton)) },
    C { n: "fN", u: 58, e: -15, f: |v| out(quantity!(v, fN)) },
    C { n: "femtonewton", u: 58, e: -15, f: |v| out(quantity!(v, femtonewton)) },
    C { n: "pN", u: 58, e: -12, f: |v| out(quantity!(v, pN)) },
    C { n: "piconewton", u: 58, e: -12, f: |v| out(quantity!(v, piconewton)) },
    C { n: "nN", u: 58, e: -9, f: |v| out(quantity!(v, nN)) },
    C { n: "µN", u: 58, e: -6, f: |v| out(quantity!(v, µN)) },
    C { n: "micronewton", u: 58, e: -6, f: |v| out(quantity!(v, micronewton)) },
    C { n: "millinewton", u: 58, e: -3, f: |v| out(quantity!(v, millinewton)) },
    C { n: "cN", u: 58, e: -2, f: |v| out(quantity!(v, cN)) },
    C { n: "centinewton", u: 58, e: -2, f: |v| out(quantity!(v, centinewton)) },
    C { n: "dN", u: 58, e: -1, f: |v| out(quantity!(v, dN)) },
    C { n: "decinewton", u: 58, e: -1, f: |v| out(quantity!(v, decinewton)) },
    C { n: "daN", u: 58, e: 1, f: |v| out(quantity!(v, daN)) },
    C { n: "decanewton", u: 58, e: 1, f: |v| out(quantity!(v, decanewton)) },
    C { n: "hN", u: 58, e: 2, f: |v| out(quantity!(v, hN)) },
    C { n: "hectonewton", u: 58, e: 2, f: |v| out(quantity!(v, hectonewton)) },
    C { n: "meganewton", u: 58, e: 6, f: |v| out(quantity!(v, meganewton)) },
    C { n: "GN", u: 58, e: 9, f: |v| out(quantity!(v, GN)) },
    C { n: "giganewton", u: 58, e: 9, f: |v| out(quantity!(v, giganewton)) },
    C { n: "TN", u: 58, e: 12, f: |v| out(quantity!(v, TN)) },
    C { n: "teranewton", u: 58, e: 12, f: |v| out(quantity!(v, teranewton)) },
    C { n: "PN", u: 58, e: 15, f: |v| out(quantity!(v, PN)) },
    C { n: "petanewton", u: 58, e: 15, f: |v| out(quantity!(v, petanewton)) },
    C { n: "EN", u: 58, e: 18, f: |v| out(quantity!(v, EN)) },
    C { n: "exanewton", u: 58, e: 18, f: |v| out(quantity!(v, exanewton)) },
    C { n: "ZN", u: 58, e: 21, f: |v| out(quantity!(v, ZN)) },
    C { n: "zettanewton", u: 58, e: 21, f: |v| out(quantity!(v, zettanewton)) },
    C { n: "YN", u: 58, e: 24, f: |v| out(quantity!(v, YN)) },
    C { n: "yottanewton", u: 58, e: 24, f: |v| out(quantity!(v, yottanewton)) },
    C { n: "RN", u: 58, e: 27, f: |v| out(quantity!(v, RN)) },
    C { n: "ronnanewton", u: 58, e: 27, f: |v| out(quantity!(v, ronnanewton)) },
    C { n: "QN", u: 58, e: 30, f: |v| out(quantity!(v, QN)) },
    C { n: "quettanewton", u: 58, e: 30, f: |v| out(quantity!(v, quettanewton)) },
    C { n: "qJ", u: 59, e: -30, f: |v| out(quantity!(v, qJ)) },
    C { n: "quectojoule", u: 59, e: -30, f: |v| out(quantity!(v, quectojoule)) },
    C { n: "rJ", u: 59, e: -27, f: |v| out(quantity!(v, rJ)) },
    C { n: "rontojoule", u: 59, e: -27, f: |v| out(quantity!(v, rontojoule)) },
    C { n: "yJ", u: 59, e: -24, f: |v| out(quantity!(v, yJ)) },
    C { n: "yoctojoule", u: 59, e: -24, f: |v| out(quantity!(v, yoctojoule)) },
    C { n: "zJ", u: 59, e: -21, f: |v| out(quantity!(v, zJ)) },
    C { n: "zeptojoule", u: 59, e: -21, f: |v| out(quantity!(v, zeptojoule)) },
    C { n: "aJ", u: 59, e: -18, f: |v| out(quantity!(v, aJ)) },
    C { n: "attojoule", u: 59, e: -18, f: |v| out(quantity!(v, attojoule)) },
    C { n: "fJ", u: 59, e: -15, f: |v| out(quantity!(v, fJ)) },
    C { n: "femtojoule", u: 59, e: -15, f: |v| out(quantity!(v, femtojoule)) },
    C { n: "pJ", u: 59, e: -12, f: |v| out(quantity!(v, pJ)) },
    C { n: "picojoule", u: 59, e: -12, f: |v| out(quantity!(v, picojoule)) },
    C { n: "nJ", u: 59, e: -9, f: |v| out(quantity!(v, nJ)) },
    C { n: "µJ", u: 59, e: -6, f: |v| out(quantity!(v, µJ)) },
    C { n: "microjoule", u: 59, e: -6, f: |v| out(quantity!(v, microjoule)) },
    C { n: "millijoule", u: 59, e: -3, f: |v| out(quantity!(v, millijoule)) },
    C { n: "cJ", u: 59, e: -2, f: |v| out(quantity!(v, cJ)) },
    C { n: "centijoule", u: 59, e: -2, f: |v| out(quantity!(v, centijoule)) },
    C { n: "dJ", u: 59, e: -1, f: |v| out(quantity!(v, dJ)) },
    C { n: "decijoule", u: 59, e: -1, f: |v| out(quantity!(v, decijoule)) },
    C { n: "daJ", u: 59, e: 1, f: |v| out(quantity!(v, daJ)) },
    C { n: "decajoule", u: 59, e: 1, f: |v| out(quantity!(v, decajoule)) },
    C { n: "hJ", u: 59, e: 2, f: |v| out(quantity!(v, hJ)) },
    C { n: "hectojoule", u: 59, e: 2, f: |v| out(quantity!(v, hectojoule)) },
    C { n: "megajoule", u: 59, e: 6, f: |v| out(quantity!(v, megajoule)) },
    C { n: "GJ", u: 59, e: 9, f: |v| out(quantity!(v, GJ)) },
    C { n: "gigajoule", u: 59, e: 9, f: |v| out(quantity!(v, gigajoule)) },
    C { n: "TJ", u: 59, e: 12, f: |v| out(quantity!(v, TJ)) },
    C { n: "terajoule", u: 59, e: 12, f: |v| out(quantity!(v, terajoule)) },
    C { n: "PJ", u: 59, e: 15, f: |v| out(quantity!(v, PJ)) },
    C { n: "petajoule", u: 59, e: 15, f: |v| out(quantity!(v, petajoule)) },
    C { n: "EJ", u: 59, e: 18, f: |v| out(quantity!(v, EJ)) },
    C { n: "exajoule", u: 59, e: 18, f: |v| out(quantity!(v, exajoule)) },
    C { n: "ZJ", u: 59, e: 21, f: |v| out(quantity!(v, ZJ)) },
    C { n: "zettajoule", u: 59, e: 21, f: |v| out(quantity!(v, zettajoule)) },
    C { n: "YJ", u: 59, e: 24, f: |v| out(quantity!(v, YJ)) },
    C { n: "yottajoule", u: 59, e: 24, f: |v| out(quantity!(v, yottajoule)) },
    C { n: "RJ", u: 59, e: 27, f: |v| out(quantity!(v, RJ)) },
    C { n: "ronnajoule", u: 59, e: 27, f: |v| out(quantity!(v, ronnajoule)) },
    C { n: "QJ", u: 59, e: 30, f: |v| out(quantity!(v, QJ)) },
    C { n: "quettajoule", u: 59, e: 30, f: |v| out(quantity!(v, quettajoule)) },
    C { n: "qW", u: 67, e: -30, f: |v| out(quantity!(v, qW)) },
    C { n: "quectowatt", u: 67, e: -30, f: |v| out(quantity!(v, quectowatt)) },
    C { n: "rW", u: 67, e: -27, f: |v| out(quantity!(v, rW)) },
    C { n: "rontowatt", u: 67, e: -27, f: |v| out(quantity!(v, rontowatt)) },
    C { n: "yW", u: 67, e: -24, f: |v| out(quantity!(v, yW)) },
    C { n: "yoctowatt", u: 67, e: -24, f: |v| out(quantity!(v, yoctowatt)) },
    C { n: "zW", u: 67, e: -21, f: |v| out(quantity!(v, zW)) },
    C { n: "zeptowatt", u: 67, e: -21, f: |v| out(quantity!(v, zeptowatt)) },
    C { n: "aW", u: 67, e: -18, f: |v| out(quantity!(v, aW)) },
    C { n: "attowatt", u: 67, e: -18, f: |v| out(quantity!(v, attowatt)) },
    C { n: "fW", u: 67, e: -15, f: |v| out(quantity!(v, fW)) },
    C { n: "femtowatt", u: 67, e: -15, f: |v| out(quantity!(v, femtowatt)) },
    C { n: "pW", u: 67, e: -12, f: |v| out(quantity!(v, pW)) },
    C { n: "picowatt", u: 67, e: -12, f: |v| out(quantity!(v, picowatt)) },
    C { n: "nW", u: 67, e: -9, f: |v| out(quantity!(v, nW)) },
    C { n: "µW", u: 67, e: -6, f: |v| out(quantity!(v, µW)) },
    C { n: "microwatt", u: 67, e: -6, f: |v| out(quantity!(v, microwatt)) },
    C { n: "milliwatt", u: 67, e: -3, f: |v| out(quantity!(v, milliwatt)) },
    C { n: "cW", u: 67, e: -2, f: |v| out(quantity!(v, cW)) },
    C { n: "centiwatt", u: 67, e: -2, f: |v| out(quantity!(v, centiwatt)) },
    C { n: "dW", u: 67, e: -1, f: |v| out(quantity!(v, dW)) },
    C { n: "deciwatt", u: 67, e: -1, f: |v| out(quantity!(v, deciwatt)) },
    C { n: "daW", u: 67, e: 1, f: |v| out(quantity!(v, daW)) },
    C { n: "decawatt", u: 67, e: 1, f: |v| out(quantity!(v, decawatt)) },
    C { n: "hW", u: 67, e: 2, f: |v| out(quantity!(v, hW)) },
    C { n: "hectowatt", u: 67, e: 2, f: |v| out(quantity!(v, hectowatt)) },
    C { n: "megawatt", u: 67, e: 6, f: |v| out(quantity!(v, megawatt)) },
    C { n: "GW", u: 67, e: 9, f: |v| out(quantity!(v, GW)) },
    C { n: "gigawatt", u: 67, e: 9, f: |v| out(quantity!(v, gigawatt)) },
    C { n: "TW", u: 67, e: 12, f: |v| out(quantity!(v, TW)) },
    C { n: "terawatt", u: 67, e: 12, f: |v| out(quantity!(v, terawatt)) },
    C { n: "PW", u: 67, e: 15, f: |v| out(quantity!(v, PW)) },
    C { n: "petawatt", u: 67, e: 15, f: |v| out(quantity!(v, petawatt)) },
    C { n: "EW", u: 67, e: 18, f: |v| out(quantity!(v, EW)) },
    C { n: "exawatt", u: 67, e: 18, f: |v| out(quantity!(v, exawatt)) },
    C { n: "ZW", u: 67, e: 21, f: |v| out(quantity!(v, ZW)) },
    C { n: "zettawatt", u: 67, e: 21, f: |v| out(quantity!(v, zettawatt)) },
    C { n: "YW", u: 67, e: 24, f: |v| out(quantity!(v, YW)) },
    C { n: "yottawatt", u: 67, e: 24, f: |v| out(quantity!(v, yottawatt)) },
    C { n: "RW", u: 67, e: 27, f: |v| out(quantity!(v, RW)) },
    C { n: "ronnawatt", u: 67, e: 27, f: |v| out(quantity!(v, ronnawatt)) },
    C { n: "QW", u: 67, e: 30, f: |v| out(quantity!(v, QW)) },
    C { n: "quettawatt", u: 67, e: 30, f: |v| out(quantity!(v, quettawatt)) },
    C { n: "qPa", u: 69, e: -30, f: |v| out(quantity!(v, qPa)) },
    C { n: "quectopascal", u: 69, e: -30, f: |v| out(quantity!(v, quectopascal)) },
    C { n: "rPa", u: 69, e: -27, f: |v| out(quantity!(v, rPa)) },
    C { n: "rontopascal", u: 69, e: -27, f: |v| out(quantity!(v, rontopascal)) },
    C { n: "yPa", u: 69, e: -24, f: |v| out(quantity!(v, yPa)) },
    C { n: "yoctopascal", u: 69, e: -24, f: |v| out(quantity!(v, yoctopascal)) },
    C { n: "zPa", u: 69, e: -21, f: |v| out(quantity!(v, zPa)) },
    C { n: "zeptopascal", u: 69, e: -21, f: |v| out(quantity!(v, zeptopascal)) },
    C { n: "aPa", u: 69, e: -18, f: |v| out(quantity!(v, aPa)) },
    C { n: "attopascal", u: 69, e: -18, f: |v| out(quantity!(v, attopascal)) },
    C { n: "fPa", u: 69, e: -15, f: |v| out(quantity!(v, fPa)) },
    C { n: "femtopascal", u: 69, e: -15, f: |v| out(quantity!(v, femtopascal)) },
    C { n: "pPa", u: 69, e: -12, f: |v| out(quantity!(v, pPa)) },
    C { n: "picopascal", u: 69, e: -12, f: |v| out(quantity!(v, picopascal)) },
    C { n: "nPa", u: 69, e: -9, f: |v| out(quantity!(v, nPa)) },
    C { n: "µPa", u: 69, e: -6, f: |v| out(quantity!(v, µPa)) },
    C { n: "micropascal", u: 69, e: -6, f: |v| out(quantity!(v, micropascal)) },
    C { n: "millipascal", u: 69, e: -3, f: |v| out(quantity!(v, millipascal)) },
    C { n: "cPa", u: 69, e: -2, f: |v| out(quantity!(v, cPa)) },
    C { n: "centipascal", u: 69, e: -2, f: |v| out(quantity!(v, centipascal)) },
    C { n: "dPa", u: 69, e: -1, f: |v| out(quantity!(v, dPa)) },
    C { n: "decipascal", u: 69, e: -1, f: |v| out(quantity!(v, decipascal)) },
    C { n: "daPa", u: 69, e: 1, f: |v| out(quantity!(v, daPa)) },
    C { n: "decapascal", u: 69, e: 1, f: |v| out(quantity!(v, decapascal)) },
    C { n: "hPa", u: 69, e: 2, f: |v| out(quantity!(v, hPa)) },
    C { n: "hectopascal", u: 69, e: 2, f: |v| out(quantity!(v, hectopascal)) },
    C { n: "megapascal", u: 69, e: 6, f: |v| out(quantity!(v, megapascal)) },
    C { n: "GPa", u: 69, e: 9, f: |v| out(quantity!(v, GPa)) },
    C { n: "gigapascal", u: 69, e: 9, f: |v| out(quantity!(v, gigapascal)) },
    C { n: "TPa", u: 69, e: 12, f: |v| out(quantity!(v, TPa)) },
    C { n: "terapascal", u: 69, e: 12, f: |v| out(quantity!(v, terapascal)) },
    C { n: "PPa", u: 69, e: 15, f: |v| out(quantity!(v, PPa)) },
    C { n: "petapascal", u: 69, e: 15, f: |v| out(quantity!(v, petapascal)) },
    C { n: "EPa", u: 69, e: 18, f: |v| out(quantity!(v, EPa)) },
    C { n: "exapascal", u: 69, e: 18, f: |v| out(quantity!(v, exapascal)) },
    C { n: "ZPa", u: 69, e: 21, f: |v| out(quantity!(v, ZPa)) },
    C { n: "zettapascal", u: 69, e: 21, f: |v| out(quantity!(v, zettapascal)) },
    C { n: "YPa", u: 69, e: 24, f: |v| out(quantity!(v, YPa)) },
    C { n: "yottapascal", u: 69, e: 24, f: |v| out(quantity!(v, yottapascal)) },
    C { n: "RPa", u: 69, e: 27, f: |v| out(quantity!(v, RPa)) },
    C { n: "ronnapascal", u: 69, e: 27, f: |v| out(quantity!(v, ronnapascal)) },
    C { n: "QPa", u: 69, e: 30, f: |v| out(quantity!(v, QPa)) },
    C { n: "quettapascal", u: 69, e: 30, f: |v| out(quantity!(v, quettapascal)) },
    C { n: "qC", u: 74, e: -30, f: |v| out(quantity!(v, qC)) },
    C { n: "quectocoulomb", u: 74, e: -30, f: |v| out(quantity!(v, quectocoulomb)) },
    C { n: "rC", u: 74, e: -27, f: |v| out(quantity!(v, rC)) },
    C { n: "rontocoulomb", u: 74, e: -27, f: |v| out(quantity!(v, rontocoulomb)) },
    C { n: "yC", u: 74, e: -24, f: |v| out(quantity!(v, yC)) },
    C { n: "yoctocoulomb", u: 74, e: -24, f: |v| out(quantity!(v, yoctocoulomb)) },
    C { n: "zC", u: 74, e: -21, f: |v| out(quantity!(v, zC)) },
    C { n: "zeptocoulomb", u: 74, e: -21, f: |v| out(quantity!(v, zeptocoulomb)) },
    C { n: "aC", u: 74, e: -18, f: |v| out(quantity!(v, aC)) },
    C { n: "attocoulomb", u: 74, e: -18, f: |v| out(quantity!(v, attocoulomb)) },
    C { n: "fC", u: 74, e: -15, f: |v| out(quantity!(v, fC)) },
    C { n: "femtocoulomb", u: 74, e: -15, f: |v| out(quantity!(v, femtocoulomb)) },
    C { n: "pC", u: 74, e: -12, f: |v| out(quantity!(v, pC)) },
    C { n: "picocoulomb", u: 74, e: -12, f: |v| out(quantity!(v, picocoulomb)) },
    C { n: "nC", u: 74, e: -9, f: |v| out(quantity!(v, nC)) },
    C { n: "µC", u: 74, e: -6, f: |v| out(quantity!(v, µC)) },
    C { n: "microcoulomb", u: 74, e: -6, f: |v| out(quantity!(v, microcoulomb)) },
    C { n: "millicoulomb", u: 74, e: -3, f: |v| out(quantity!(v, millicoulomb)) },
    C { n: "cC", u: 74, e: -2, f: |v| out(quantity!(v, cC)) },
    C { n: "centicoulomb", u: 74, e: -2, f: |v| out(quantity!(v, centicoulomb)) },
    C { n: "dC", u: 74, e: -1, f: |v| out(quantity!(v, dC)) },
    C { n: "decicoulomb", u: 74, e: -1, f: |v| out(quantity!(v, decicoulomb)) },
    C { n: "daC", u: 74, e: 1, f: |v| out(quantity!(v, daC)) },
    C { n: "decacoulomb", u: 74, e: 1, f: |v| out(quantity!(v, decacoulomb)) },
    C { n: "hC", u: 74, e: 2, f: |v| out(quantity!(v, hC)) },
    C { n: "hectocoulomb", u: 74, e: 2, f: |v| out(quantity!(v, hectocoulomb)) },
    C { n: "megacoulomb", u: 74, e: 6, f: |v| out(quantity!(v, megacoulomb)) },
    C { n: "GC", u: 74, e: 9, f: |v| out(quantity!(v, GC)) },
    C { n: "gigacoulomb", u: 74, e: 9, f: |v| out(quantity!(v, gigacoulomb)) },
    C { n: "TC", u: 74, e: 12, f: |v| out(quantity!(v, TC)) },
    C { n: "teracoulomb", u: 74, e: 12, f: |v| out(quantity!(v, teracoulomb)) },
    C { n: "PC", u: 74, e: 15, f: |v| out(quantity!(v, PC)) },
    C { n: "petacoulomb", u: 74, e: 15, f: |v| out(quantity!(v, petacoulomb)) },
    C { n: "EC", u: 74, e: 18, f: |v| out(quantity!(v, EC)) },
    C { n: "exacoulomb", u: 74, e: 18, f: |v| out(quantity!(v, exacoulomb)) },
    C { n: "ZC", u: 74, e: 21, f: |v| out(quantity!(v, ZC)) },
    C { n: "zettacoulomb", u: 74, e: 21, f: |v| out(quantity!(v, zettacoulomb)) },
    C { n: "YC", u: 74, e: 24, f: |v| out(quantity!(v, YC)) },
    C { n: "yottacoulomb", u: 74, e: 24, f: |v| out(quantity!(v, yottacoulomb)) },
    C { n: "RC", u: 74, e: 27, f: |v| out(quantity!(v, RC)) },
    C { n: "ronnacoulomb", u: 74, e: 27, f: |v| out(quantity!(v, ronnacoulomb)) },
    C { n: "QC", u: 74, e: 30, f: |v| out(quantity!(v, QC)) },
    C { n: "quettacoulomb", u: 74, e: 30, f: |v| out(quantity!(v, quettacoulomb)) },
    C { n: "qV", u: 75, e: -30, f: |v| out(quantity!(v, qV)) },
    C { n: "quectovolt", u: 75, e: -30, f: |v| out(quantity!(v, quectovolt)) },
    C { n: "rV", u: 75, e: -27, f: |v| out(quantity!(v, rV)) },
    C { n: "rontovolt", u: 75, e: -27, f: |v| out(quantity!(v, rontovolt)) },
    C { n: "yV", u: 75, e: -24, f: |v| out(quantity!(v, yV)) },
    C { n: "yoctovolt", u: 75, e: -24, f: |v| out(quantity!(v, yoctovolt)) },
    C { n: "zV", u: 75, e: -21, f: |v| out(quantity!(v, zV)) },
    C { n: "zeptovolt", u: 75, e: -21, f: |v| out(quantity!(v, zeptovolt)) },
    C { n: "aV", u: 75, e: -18, f: |v| out(quantity!(v, aV)) },
    C { n: "attovolt", u: 75, e: -18, f: |v| out(quantity!(v, attovolt)) },
    C { n: "fV", u: 75, e: -15, f: |v| out(quantity!(v, fV)) },
    C { n: "femtovolt", u: 75, e: -15, f: |v| out(quantity!(v, femtovolt)) },
    C { n: "pV", u: 75, e: -12, f: |v| out(quantity!(v, pV)) },
    C { n: "picovolt", u: 75, e: -12, f: |v| out(quantity!(v, picovolt)) },
    C { n: "nV", u: 75, e: -9, f: |v| out(quantity!(v, nV)) },
    C { n: "µV", u: 75, e: -6, f: |v| out(quantity!(v, µV)) },
    C { n: "microvolt", u: 75, e: -6, f: |v| out(quantity!(v, microvolt)) },
    C { n: "millivolt", u: 75, e: -3, f: |v| out(quantity!(v, millivolt)) },
    C { n: "cV", u: 75, e: -2, f: |v| out(quantity!(v, cV)) },
    C { n: "centivolt", u: 75, e: -2, f: |v| out(quantity!(v, centivolt)) },
    C { n: "dV", u: 75, e: -1, f: |v| out(quantity!(v, dV)) },
    C { n: "decivolt", u: 75, e: -1, f: |v| out(quantity!(v, decivolt)) },
    C { n: "daV", u: 75, e: 1, f: |v| out(quantity!(v, daV)) },
    C { n: "decavolt", u: 75, e: 1, f: |v| out(quantity!(v, decavolt)) },
    C { n: "hV", u: 75, e: 2, f: |v| out(quantity!(v, hV)) },
    C { n: "hectovolt", u: 75, e: 2, f: |v| out(quantity!(v, hectovolt)) },
    C { n: "megavolt", u: 75, e: 6, f: |v| out(quantity!(v, megavolt)) },
    C { n: "GV", u: 75, e: 9, f: |v| out(quantity!(v, GV)) },
    C { n: "gigavolt", u: 75, e: 9, f: |v| out(quantity!(v, gigavolt)) },
    C { n: "TV", u: 75, e: 12, f: |v| out(quantity!(v, TV)) },
    C { n: "teravolt", u: 75, e: 12, f: |v| out(quantity!(v, teravolt)) },
    C { n: "PV", u: 75, e: 15, f: |v| out(quantity!(v, PV)) },
    C { n: "petavolt", u: 75, e: 15, f: |v| out(quantity!(v, petavolt)) },
    C { n: "EV", u: 75, e: 18, f: |v| out(quantity!(v, EV)) },
    C { n: "exavolt", u: 75, e: 18, f: |v| out(quantity!(v, exavolt)) },
    C { n: "ZV", u: 75, e: 21, f: |v| out(quantity!(v, ZV)) },
    C { n: "zettavolt", u: 75, e: 21, f: |v| out(quantity!(v, zettavolt)) },
    C { n: "YV", u: 75, e: 24, f: |v| out(quantity!(v, YV)) },
    C { n: "yottavolt", u: 75, e: 24, f: |v| out(quantity!(v, yottavolt)) },
    C { n: "RV", u: 75, e: 27, f: |v| out(quantity!(v, RV)) },
    C { n: "ronnavolt", u: 75, e: 27, f: |v| out(quantity!(v, ronnavolt)) },
    C { n: "QV", u: 75, e: 30, f: |v| out(quantity!(v, QV)) },
    C { n: "quettavolt", u: 75, e: 30, f: |v| out(quantity!(v, quettavolt)) },
    C { n: "qF", u: 76, e: -30, f: |v| out(quantity!(v, qF)) },
    C { n: "quectofarad", u: 76, e: -30, f: |v| out(quantity!(v, quectofarad)) },
    C { n: "rF", u: 76, e: -27, f: |v| out(quantity!(v, rF)) },
    C { n: "rontofarad", u: 76, e: -27, f: |v| out(quantity!(v, rontofarad)) },
    C { n: "yF", u: 76, e: -24, f: |v| out(quantity!(v, yF)) },
    C { n: "yoctofarad", u: 76, e: -24, f: |v| out(quantity!(v, yoctofarad)) },
    C { n: "zF", u: 76, e: -21, f: |v| out(quantity!(v, zF)) },
    C { n: "zeptofarad", u: 76, e: -21, f: |v| out(quantity!(v, zeptofarad)) },
    C { n: "aF", u: 76, e: -18, f: |v| out(quantity!(v, aF)) },
    C { n: "attofarad", u: 76, e: -18, f: |v| out(quantity!(v, attofarad)) },
    C { n: "fF", u: 76, e: -15, f: |v| out(quantity!(v, fF)) },
    C { n: "femtofarad", u: 76, e: -15, f: |v| out(quantity!(v, femtofarad)) },
    C { n: "pF", u: 76, e: -12, f: |v| out(quantity!(v, pF)) },
    C { n: "picofarad", u: 76, e: -12, f: |v| out(quantity!(v, picofarad)) },
    C { n: "nF", u: 76, e: -9, f: |v| out(quantity!(v, nF)) },
    C { n: "µF", u: 76, e: -6, f: |v| out(quantity!(v, µF)) },
    C { n: "microfarad", u: 76, e: -6, f: |v| out(quantity!(v, microfarad)) },
    C { n: "millifarad", u: 76, e: -3, f: |v| out(quantity!(v, millifarad)) },
    C { n: "cF", u: 76, e: -2, f: |v| out(quantity!(v, cF)) },
    C { n: "centifarad", u: 76, e: -2, f: |v| out(quantity!(v, centifarad)) },
    C { n: "dF", u: 76, e: -1, f: |v| out(quantity!(v, dF)) },
    C { n: "decifarad", u: 76, e: -1, f: |v| out(quantity!(v, decifarad)) },
    C { n: "daF", u: 76, e: 1, f: |v| out(quantity!(v, daF)) },
    C { n: "decafarad", u: 76, e: 1, f: |v| out(quantity!(v, decafarad)) },
    C { n: "hF", u: 76, e: 2, f: |v| out(quantity!(v, hF)) },
    C { n: "hectofarad", u: 76, e: 2, f: |v| out(quantity!(v, hectofarad)) },
    C { n: "megafarad", u: 76, e: 6, f: |v| out(quantity!(v, megafarad)) },
    C { n: "GF", u: 76, e: 9, f: |v| out(quantity!(v, GF)) },
    C { n: "gigafarad", u: 76, e: 9, f: |v| out(quantity!(v, gigafarad)) },
    C { n: "TF", u: 76, e: 12, f: |v| out(quantity!(v, TF)) },
    C { n: "terafarad", u: 76, e: 12, f: |v| out(quantity!(v, terafarad)) },
    C { n: "PF", u: 76, e: 15, f: |v| out(quantity!(v, PF)) },
    C { n: "petafarad", u: 76, e: 15, f: |v| out(quantity!(v, petafarad)) },
    C { n: "EF", u: 76, e: 18, f: |v| out(quantity!(v, EF)) },
    C { n: "exafarad", u: 76, e: 18, f: |v| out(quantity!(v, exafarad)) },
    C { n: "ZF", u: 76, e: 21, f: |v| out(quantity!(v, ZF)) },
    C { n: "zettafarad", u: 76, e: 21, f: |v| out(quantity!(v, zettafarad)) },
    C { n: "YF", u: 76, e: 24, f: |v| out(quantity!(v, YF)) },
    C { n: "yottafarad", u: 76, e: 24, f: |v| out(quantity!(v, yottafarad)) },
    C { n: "RF", u: 76, e: 27, f: |v| out(quantity!(v, RF)) },
    C { n: "ronnafarad", u: 76, e: 27, f: |v| out(quantity!(v, ronnafarad)) },
    C { n: "QF", u: 76, e: 30, f: |v| out(quantity!(v, QF)) },
    C { n: "quettafarad", u: 76, e: 30, f: |v| out(quantity!(v, quettafarad)) },
    C { n: "qΩ", u: 77, e: -30, f: |v| out(quantity!(v, qΩ)) },
    C { n: "quectoohm", u: 77, e: -30, f: |v| out(quantity!(v, quectoohm)) },
    C { n: "rΩ", u: 77, e: -27, f: |v| out(quantity!(v, rΩ)) },
    C { n: "rontoohm", u: 77, e: -27, f: |v| out(quantity!(v, rontoohm)) },
    C { n: "yΩ", u: 77, e: -24, f: |v| out(quantity!(v, yΩ)) },
    C { n: "yoctoohm", u: 77, e: -24, f: |v| out(quantity!(v, yoctoohm)) },
    C { n: "zΩ", u: 77, e: -21, f: |v| out(quantity!(v, zΩ)) },
    C { n: "zeptoohm", u: 77, e: -21, f: |v| out(quantity!(v, zeptoohm)) },
    C { n: "aΩ", u: 77, e: -18, f: |v| out(quantity!(v, aΩ)) },
    C { n: "attoohm", u: 77, e: -18, f: |v| out(quantity!(v, attoohm)) },
    C { n: "fΩ", u: 77, e: -15, f: |v| out(quantity!(v, fΩ)) },
    C { n: "femtoohm", u: 77, e: -15, f: |v| out(quantity!(v, femtoohm)) },
    C { n: "pΩ", u: 77, e: -12, f: |v| out(quantity!(v, pΩ)) },
    C { n: "picoohm", u: 77, e: -12, f: |v| out(quantity!(v, picoohm)) },
    C { n: "nΩ", u: 77, e: -9, f: |v| out(quantity!(v, nΩ)) },
    C { n: "µΩ", u: 77, e: -6, f: |v| out(quantity!(v, µΩ)) },
    C { n: "microohm", u: 77, e: -6, f: |v| out(quantity!(v, microohm)) },
    C { n: "milliohm", u: 77, e: -3, f: |v| out(quantity!(v, milliohm)) },
    C { n: "cΩ", u: 77, e: -2, f: |v| out(quantity!(v, cΩ)) },
    C { n: "centiohm", u: 77, e: -2, f: |v| out(quantity!(v, centiohm)) },
    C { n: "dΩ", u: 77, e: -1, f: |v| out(quantity!(v, dΩ)) },
    C { n: "deciohm", u: 77, e: -1, f: |v| out(quantity!(v, deciohm)) },
    C { n: "daΩ", u: 77, e: 1, f: |v| out(quantity!(v, daΩ)) },
    C { n: "decaohm", u: 77, e: 1, f: |v| out(quantity!(v, decaohm)) },
    C { n: "hΩ", u: 77, e: 2, f: |v| out(quantity!(v, hΩ)) },
    C { n: "hectoohm", u: 77, e: 2, f: |v| out(quantity!(v, hectoohm)) },
    C { n: "megaohm", u: 77, e: 6, f: |v| out(quantity!(v, megaohm)) },
    C { n: "GΩ", u: 77, e: 9, f: |v| out(quantity!(v, GΩ)) },
    C { n: "gigaohm", u: 77, e: 9, f: |v| out(quantity!(v, gigaohm)) },
    C { n: "TΩ", u: 77, e: 12, f: |v| out(quantity!(v, TΩ)) },
    C { n: "teraohm", u: 77, e: 12, f: |v| out(quantity!(v, teraohm)) },
    C { n: "PΩ", u: 77, e: 15, f: |v| out(quantity!(v, PΩ)) },
    C { n: "petaohm", u: 77, e: 15, f: |v| out(quantity!(v, petaohm)) },
    C { n: "EΩ", u: 77, e: 18, f: |v| out(quantity!(v, EΩ)) },
    C { n: "exaohm", u: 77, e: 18, f: |v| out(quantity!(v, exaohm)) },
    C { n: "ZΩ", u: 77, e: 21, f: |v| out(quantity!(v, ZΩ)) },
    C { n: "zettaohm", u: 77, e: 21, f: |v| out(quantity!(v, zettaohm)) },
    C { n: "YΩ", u: 77, e: 24, f: |v| out(quantity!(v, YΩ)) },
    C { n: "yottaohm", u: 77, e: 24, f: |v| out(quantity!(v, yottaohm)) },
    C { n: "RΩ", u: 77, e: 27, f: |v| out(quantity!(v, RΩ)) },
    C { n: "ronnaohm", u: 77, e: 27, f: |v| out(quantity!(v, ronnaohm)) },
    C { n: "QΩ", u: 77, e: 30, f: |v| out(quantity!(v, QΩ)) },
    C { n: "quettaohm", u: 77, e: 30, f: |v| out(quantity!(v, quettaohm)) },
    C { n: "qS", u: 78, e: -30, f: |v| out(quantity!(v, qS)) },
    C { n: "quectosiemens", u: 78, e: -30, f: |v| out(quantity!(v, quectosiemens)) },
    C { n: "rS", u: 78, e: -27, f: |v| out(quantity!(v, rS)) },
    C { n: "rontosiemens", u: 78, e: -27, f: |v| out(quantity!(v, rontosiemens)) },
    C { n: "yS", u: 78, e: -24, f: |v| out(quantity!(v, yS)) },
    C { n: "yoctosiemens", u: 78, e: -24, f: |v| out(quantity!(v, yoctosiemens)) },
    C { n: "zS", u: 78, e: -21, f: |v| out(quantity!(v, zS)) },
    C { n: "zeptosiemens", u: 78, e: -21, f: |v| out(quantity!(v, zeptosiemens)) },
    C { n: "aS", u: 78, e: -18, f: |v| out(quantity!(v, aS)) },
    C { n: "attosiemens", u: 78, e: -18, f: |v| out(quantity!(v, attosiemens)) },
    C { n: "fS", u: 78, e: -15, f: |v| out(quantity!(v, fS)) },
    C { n: "femtosiemens", u: 78, e: -15, f: |v| out(quantity!(v, femtosiemens)) },
    C { n: "pS", u: 78, e: -12, f: |v| out(quantity!(v, pS)) },
    C { n: "picosiemens", u: 78, e: -12, f: |v| out(quantity!(v, picosiemens)) },
    C { n: "nS", u: 78, e: -9, f: |v| out(quantity!(v, nS)) },
    C { n: "µS", u: 78, e: -6, f: |v| out(quantity!(v, µS)) },
    C { n: "microsiemens", u: 78, e: -6, f: |v| out(quantity!(v, microsiemens)) },
    C { n: "millisiemens", u: 78, e: -3, f: |v| out(quantity!(v, millisiemens)) },
    C { n: "cS", u: 78, e: -2, f: |v| out(quantity!(v, cS)) },
    C { n: "centisiemens", u: 78, e: -2, f: |v| out(quantity!(v, centisiemens)) },
    C { n: "dS", u: 78, e: -1, f: |v| out(quantity!(v, dS)) },
    C { n: "decisiemens", u: 78, e: -1, f: |v| out(quantity!(v, decisiemens)) },
    C { n: "daS", u: 78, e: 1, f: |v| out(quantity!(v, daS)) },
    C { n: "decasiemens", u: 78, e: 1, f: |v| out(quantity!(v, decasiemens)) },
    C { n: "hS", u: 78, e: 2, f: |v| out(quantity!(v, hS)) },
    C { n: "hectosiemens", u: 78, e: 2, f: |v| out(quantity!(v, hectosiemens)) },
    C { n: "megasiemens", u: 78, e: 6, f: |v| out(quantity!(v, megasiemens)) },
    C { n: "GS", u: 78, e: 9, f: |v| out(quantity!(v, GS)) },
    C { n: "gigasiemens", u: 78, e: 9, f: |v| out(quantity!(v, gigasiemens)) },
    C { n: "TS", u: 78, e: 12, f: |v| out(quantity!(v, TS)) },
    C { n: "terasiemens", u: 78, e: 12, f: |v| out(quantity!(v, terasiemens)) },
    C { n: "PS", u: 78, e: 15, f: |v| out(quantity!(v, PS)) },
    C { n: "petasiemens", u: 78, e: 15, f: |v| out(quantity!(v, petasiemens)) },
    C { n: "ES", u: 78, e: 18, f: |v| out(quantity!(v, ES)) },
    C { n: "exasiemens", u: 78, e: 18, f: |v| out(quantity!(v, exasiemens)) },
    C { n: "ZS", u: 78, e: 21, f: |v| out(quantity!(v, ZS)) },
    C { n: "zettasiemens", u: 78, e: 21, f: |v| out(quantity!(v, zettasiemens)) },
    C { n: "YS", u: 78, e: 24, f: |v| out(quantity!(v, YS)) },
    C { n: "yottasiemens", u: 78, e: 24, f: |v| out(quantity!(v, yottasiemens)) },
    C { n: "RS", u: 78, e: 27, f: |v| out(quantity!(v, RS)) },
    C { n: "ronnasiemens", u: 78, e: 27, f: |v| out(quantity!(v, ronnasiemens)) },
    C { n: "QS", u: 78, e: 30, f: |v| out(quantity!(v, QS)) },
    C { n: "quettasiemens", u: 78, e: 30, f: |v| out(quantity!(v, quettasiemens)) },
    C { n: "qH", u: 79, e: -30, f: |v| out(quantity!(v, qH)) },
    C { n: "quectohenry", u: 79, e: -30, f: |v| out(quantity!(v, quectohenry)) },
    C { n: "rH", u: 79, e: -27, f: |v| out(quantity!(v, rH)) },
    C { n: "rontohenry", u: 79, e: -27, f: |v| out(quantity!(v, rontohenry)) },
    C { n: "yH", u: 79, e: -24, f: |v| out(quantity!(v, yH)) },
    C { n: "yoctohenry", u: 79, e: -24, f: |v| out(quantity!(v, yoctohenry)) },
    C { n: "zH", u: 79, e: -21, f: |v| out(quantity!(v, zH)) },
    C { n: "zeptohenry", u: 79, e: -21, f: |v| out(quantity!(v, zeptohenry)) },
    C { n: "aH", u: 79, e: -18, f: |v| out(quantity!(v, aH)) },
    C { n: "attohenry", u: 79, e: -18, f: |v| out(quantity!(v, attohenry)) },
    C { n: "fH", u: 79, e: -15, f: |v| out(quantity!(v, fH)) },
    C { n: "femtohenry", u: 79, e: -15, f: |v| out(quantity!(v, femtohenry)) },
    C { n: "pH", u: 79, e: -12, f: |v| out(quantity!(v, pH)) },
    C { n: "picohenry", u: 79, e: -12, f: |v| out(quantity!(v, picohenry)) },
    C { n: "nH", u: 79, e: -9, f: |v| out(quantity!(v, nH)) },
    C { n: "µH", u: 79, e: -6, f: |v| out(quantity!(v, µH)) },
    C { n: "microhenry", u: 79, e: -6, f: |v| out(quantity!(v, microhenry)) },
    C { n: "millihenry", u: 79, e: -3, f: |v| out(quantity!(v, millihenry)) },
    C { n: "cH", u: 79, e: -2, f: |v| out(quantity!(v, cH)) },
    C { n: "centihenry", u: 79, e: -2, f: |v| out(quantity!(v, centihenry)) },
    C { n: "dH", u: 79, e: -1, f: |v| out(quantity!(v, dH)) },
    C { n: "decihenry", u: 79, e: -1, f: |v| out(quantity!(v, decihenry)) },
    C { n: "daH", u: 79, e: 1, f: |v| out(quantity!(v, daH)) },
    C { n: "decahenry", u: 79, e: 1, f: |v| out(quantity!(v, decahenry)) },
    C { n: "hH", u: 79, e: 2, f: |v| out(quantity!(v, hH)) },
    C { n: "hectohenry", u: 79, e: 2, f: |v| out(quantity!(v, hectohenry)) },
    C { n: "megahenry", u: 79, e: 6, f: |v| out(quantity!(v, megahenry)) },
    C { n: "GH", u: 79, e: 9, f: |v| out(quantity!(v, GH)) },
    C { n: "gigahenry", u: 79, e: 9, f: |v| out(quantity!(v, gigahenry)) },
    C { n: "TH", u: 79, e: 12, f: |v| out(quantity!(v, TH)) },
    C { n: "terahenry", u: 79, e: 12, f: |v| out(quantity!(v, terahenry)) },
    C { n: "PH", u: 79, e: 15, f: |v| out(quantity!(v, PH)) },
    C { n: "petahenry", u: 79, e: 15, f: |v| out(quantity!(v, petahenry)) },
    C { n: "EH", u: 79, e: 18, f: |v| out(quantity!(v, EH)) },
    C { n: "exahenry", u: 79, e: 18, f: |v| out(quantity!(v, exahenry)) },
    C { n: "ZH", u: 79, e: 21, f: |v| out(quantity!(v, ZH)) },
    C { n: "zettahenry", u: 79, e: 21, f: |v| out(quantity!(v, zettahenry)) },
    C { n: "YH", u: 79, e: 24, f: |v| out(quantity!(v, YH)) },
    C { n: "yottahenry", u: 79, e: 24, f: |v| out(quantity!(v, yottahenry)) },
    C { n: "RH", u: 79, e: 27, f: |v| out(quantity!(v, RH)) },
    C { n: "ronnahenry", u: 79, e: 27, f: |v| out(quantity!(v, ronnahenry)) },
    C { n: "QH", u: 79, e: 30, f: |v| out(quantity!(v, QH)) },
    C { n: "quettahenry", u: 79, e: 30, f: |v| out(quantity!(v, quettahenry)) },
    C { n: "qT", u: 80, e: -30, f: |v| out(quantity!(v, qT)) },
    C { n: "quectotesla", u: 80, e: -30, f: |v| out(quantity!(v, quectotesla)) },
    C { n: "rT", u: 80, e: -27, f: |v| out(quantity!(v, rT)) },
    C { n: "rontotesla", u: 80, e: -27, f: |v| out(quantity!(v, rontotesla)) },
    C { n: "yT", u: 80, e: -24, f: |v| out(quantity!(v, yT)) },
    C { n: "yoctotesla", u: 80, e: -24, f: |v| out(quantity!(v, yoctotesla)) },
    C { n: "zT", u: 80, e: -21, f: |v| out(quantity!(v, zT)) },
    C { n: "zeptotesla", u: 80, e: -21, f: |v| out(quantity!(v, zeptotesla)) },
    C { n: "aT", u: 80, e: -18, f: |v| out(quantity!(v, aT)) },
    C { n: "attotesla", u: 80, e: -18, f: |v| out(quantity!(v, attotesla)) },
    C { n: "fT", u: 80, e: -15, f: |v| out(quantity!(v, fT)) },
    C { n: "femtotesla", u: 80, e: -15, f: |v| out(quantity!(v, femtotesla)) },
    C { n: "pT", u: 80, e: -12, f: |v| out(quantity!(v, pT)) },
    C { n: "picotesla", u: 80, e: -12, f: |v| out(quantity!(v, picotesla)) },
    C { n: "nT", u: 80, e: -9, f: |v| out(quantity!(v, nT)) },
    C { n: "µT", u: 80, e: -6, f: |v| out(quantity!(v, µT)) },
    C { n: "microtesla", u: 80, e: -6, f: |v| out(quantity!(v, microtesla)) },
    C { n: "millitesla", u: 80, e: -3, f: |v| out(quantity!(v, millitesla)) },
    C { n: "cT", u: 80, e: -2, f: |v| out(quantity!(v, cT)) },
    C { n: "centitesla", u: 80, e: -2, f: |v| out(quantity!(v, centitesla)) },
    C { n: "dT", u: 80, e: -1, f: |v| out(quantity!(v, dT)) },
    C { n: "decitesla", u: 80, e: -1, f: |v| out(quantity!(v, decitesla)) },
    C { n: "daT", u: 80, e: 1, f: |v| out(quantity!(v, daT)) },
    C { n: "decatesla", u: 80, e: 1, f: |v| out(quantity!(v, decatesla)) },
    C { n: "hT", u: 80, e: 2, f: |v| out(quantity!(v, hT)) },
    C { n: "hectotesla", u: 80, e: 2, f: |v| out(quantity!(v, hectotesla)) },
    C { n: "megatesla", u: 80, e: 6, f: |v| out(quantity!(v, megatesla)) },
    C { n: "GT", u: 80, e: 9, f: |v| out(quantity!(v, GT)) },
    C { n: "gigatesla", u: 80, e: 9, f: |v| out(quantity!(v, gigatesla)) },
    C { n: "TT", u: 80, e: 12, f: |v| out(quantity!(v, TT)) },
    C { n: "teratesla", u: 80, e: 12, f: |v| out(quantity!(v, teratesla)) },
    C { n: "PT", u: 80, e: 15, f: |v| out(quantity!(v, PT)) },
    C { n: "petatesla", u: 80, e: 15, f: |v| out(quantity!(v, petatesla)) },
    C { n: "ET", u: 80, e: 18, f: |v| out(quantity!(v, ET)) },
    C { n: "exatesla", u: 80, e: 18, f: |v| out(quantity!(v, exatesla)) },
    C { n: "ZT", u: 80, e: 21, f: |v| out(quantity!(v, ZT)) },
    C { n: "zettatesla", u: 80, e: 21, f: |v| out(quantity!(v, zettatesla)) },
    C { n: "YT", u: 80, e: 24, f: |v| out(quantity!(v, YT)) },
    C { n: "yottatesla", u: 80, e: 24, f: |v| out(quantity!(v, yottatesla)) },
    C { n: "RT", u: 80, e: 27, f: |v| out(quantity!(v, RT)) },
    C { n: "ronnatesla", u: 80, e: 27, f: |v| out(quantity!(v, ronnatesla)) },
    C { n: "QT", u: 80, e: 30, f: |v| out(quantity!(v, QT)) },
    C { n: "quettatesla", u: 80, e: 30, f: |v| out(quantity!(v, quettatesla)) },
    C { n: "qWb", u: 81, e: -30, f: |v| out(quantity!(v, qWb)) },
    C { n: "quectoweber", u: 81, e: -30, f: |v| out(quantity!(v, quectoweber)) },
    C { n: "rWb", u: 81, e: -27, f: |v| out(quantity!(v, rWb)) },
    C { n: "rontoweber", u: 81, e: -27, f: |v| out(quantity!(v, rontoweber)) },
    C { n: "yWb", u: 81, e: -24, f: |v| out(quantity!(v, yWb)) },
    C { n: "yoctoweber", u: 81, e: -24, f: |v| out(quantity!(v, yoctoweber)) },
    C { n: "zWb", u: 81, e: -21, f: |v| out(quantity!(v, zWb)) },
    C { n: "zeptoweber", u: 81, e: -21, f: |v| out(quantity!(v, zeptoweber)) },
    C { n: "aWb", u: 81, e: -18, f: |v| out(quantity!(v, aWb)) },
    C { n: "attoweber", u: 81, e: -18, f: |v| out(quantity!(v, attoweber)) },
    C { n: "fWb", u: 81, e: -15, f: |v| out(quantity!(v, fWb)) },
    C { n: "femtoweber", u: 81, e: -15, f: |v| out(quantity!(v, femtoweber)) },
    C { n: "pWb", u: 81, e: -12, f: |v| out(quantity!(v, pWb)) },
    C { n: "picoweber", u: 81, e: -12, f: |v| out(quantity!(v, picoweber)) },
    C { n: "nWb", u: 81, e: -9, f: |v| out(quantity!(v, nWb)) },
    C { n: "µWb", u: 81, e: -6, f: |v| out(quantity!(v, µWb)) },
    C { n: "microweber", u: 81, e: -6, f: |v| out(quantity!(v, microweber)) },
    C { n: "milliweber", u: 81, e: -3, f: |v| out(quantity!(v, milliweber)) },
    C { n: "cWb", u: 81, e: -2, f: |v| out(quantity!(v, cWb)) },
    C { n: "centiweber", u: 81, e: -2, f: |v| out(quantity!(v, centiweber)) },
    C { n: "dWb", u: 81, e: -1, f: |v| out(quantity!(v, dWb)) },
    C { n: "deciweber", u: 81, e: -1, f: |v| out(quantity!(v, deciweber)) },
    C { n: "daWb", u: 81, e: 1, f: |v| out(quantity!(v, daWb)) },
    C { n: "decaweber", u: 81, e: 1, f: |v| out(quantity!(v, decaweber)) },
    C { n: "hWb", u: 81, e: 2, f: |v| out(quantity!(v, hWb)) },
    C { n: "hectoweber", u: 81, e: 2, f: |v| out(quantity!(v, hectoweber)) },
    C { n: "megaweber", u: 81, e: 6, f: |v| out(quantity!(v, megaweber)) },
    C { n: "GWb", u: 81, e: 9, f: |v| out(quantity!(v, GWb)) },
    C { n: "gigaweber", u: 81, e: 9, f: |v| out(quantity!(v, gigaweber)) },
    C { n: "TWb", u: 81, e: 12, f: |v| out(quantity!(v, TWb)) },
    C { n: "teraweber", u: 81, e: 12, f: |v| out(quantity!(v, teraweber)) },
    C { n: "PWb", u: 81, e: 15, f: |v| out(quantity!(v, PWb)) },
    C { n: "petaweber", u: 81, e: 15, f: |v| out(quantity!(v, petaweber)) },
    C { n: "EWb", u: 81, e: 18, f: |v| out(quantity!(v, EWb)) },
    C { n: "exaweber", u: 81, e: 18, f: |v| out(quantity!(v, exaweber)) },
    C { n: "ZWb", u: 81, e: 21, f: |v| out(quantity!(v, ZWb)) },
    C { n: "zettaweber", u: 81, e: 21, f: |v| out(quantity!(v, zettaweber)) },
    C { n: "YWb", u: 81, e: 24, f: |v| out(quantity!(v, YWb)) },
    C { n: "yottaweber", u: 81, e: 24, f: |v| out(quantity!(v, yottaweber)) },
    C { n: "RWb", u: 81, e: 27, f: |v| out(quantity!(v, RWb)) },
    C { n: "ronnaweber", u: 81, e: 27, f: |v| out(quantity!(v, ronnaweber)) },
    C { n: "QWb", u: 81, e: 30, f: |v| out(quantity!(v, QWb)) },
    C { n: "quettaweber", u: 81, e: 30, f: |v| out(quantity!(v, quettaweber)) },
    C { n: "qlx", u: 82, e: -30, f: |v| out(quantity!(v, qlx)) },
    C { n: "quectolux", u: 82, e: -30, f: |v| out(quantity!(v, quectolux)) },
    C { n: "rlx", u: 82, e: -27, f: |v| out(quantity!(v, rlx)) },
    C { n: "rontolux", u: 82, e: -27, f: |v| out(quantity!(v, rontolux)) },
    C { n: "ylx", u: 82, e: -24, f: |v| out(quantity!(v, ylx)) },
    C { n: "yoctolux", u: 82, e: -24, f: |v| out(quantity!(v, yoctolux)) },
    C { n: "zlx", u: 82, e: -21, f: |v| out(quantity!(v, zlx)) },
    C { n: "zeptolux", u: 82, e: -21, f: |v| out(quantity!(v, zeptolux)) },
    C { n: "alx", u: 82, e: -18, f: |v| out(quantity!(v, alx)) },
    C { n: "attolux", u: 82, e: -18, f: |v| out(quantity!(v, attolux)) },
    C { n: "flx", u: 82, e: -15, f: |v| out(quantity!(v, flx)) },
    C { n: "femtolux", u: 82, e: -15, f: |v| out(quantity!(v, femtolux)) },
    C { n: "plx", u: 82, e: -12, f: |v| out(quantity!(v, plx)) },
    C { n: "picolux", u: 82, e: -12, f: |v| out(quantity!(v, picolux)) },
    C { n: "nlx", u: 82, e: -9, f: |v| out(quantity!(v, nlx)) },
    C { n: "µlx", u: 82, e: -6, f: |v| out(quantity!(v, µlx)) },
    C { n: "microlux", u: 82, e: -6, f: |v| out(quantity!(v, microlux)) },
    C { n: "millilux", u: 82, e: -3, f: |v| out(quantity!(v, millilux)) },
    C { n: "clx", u: 82, e: -2, f: |v| out(quantity!(v, clx)) },
    C { n: "centilux", u: 82, e: -2, f: |v| out(quantity!(v, centilux)) },
    C { n: "dlx", u: 82, e: -1, f: |v| out(quantity!(v, dlx)) },
    C { n: "decilux", u: 82, e: -1, f: |v| out(quantity!(v, decilux)) },
    C { n: "dalx", u: 82, e: 1, f: |v| out(quantity!(v, dalx)) },
    C { n: "decalux", u: 82, e: 1, f: |v| out(quantity!(v, decalux)) },
    C { n: "hlx", u: 82, e: 2, f: |v| out(quantity!(v, hlx)) },
    C { n: "hectolux", u: 82, e: 2, f: |v| out(quantity!(v, hectolux)) },
    C { n: "megalux", u: 82, e: 6, f: |v| out(quantity!(v, megalux)) },
    C { n: "Glx", u: 82, e: 9, f: |v| out(quantity!(v, Glx)) },
    C { n: "gigalux", u: 82, e: 9, f: |v| out(quantity!(v, gigalux)) },
    C { n: "Tlx", u: 82, e: 12, f: |v| out(quantity!(v, Tlx)) },
    C { n: "teralux", u: 82, e: 12, f: |v| out(quantity!(v, teralux)) },
    C { n: "Plx", u: 82, e: 15, f: |v| out(quantity!(v, Plx)) },
    C { n: "petalux", u: 82, e: 15, f: |v| out(quantity!(v, petalux)) },
    C { n: "Elx", u: 82, e: 18, f: |v| out(quantity!(v, Elx)) },
    C { n: "exalux", u: 82, e: 18, f: |v| out(quantity!(v, exalux)) },
    C { n: "Zlx", u: 82, e: 21, f: |v| out(quantity!(v, Zlx)) },
    C { n: "zettalux", u: 82, e: 21, f: |v| out(quantity!(v, zettalux)) },
    C { n: "Ylx", u: 82, e: 24, f: |v| out(quantity!(v, Ylx)) },
    C { n: "yottalux", u: 82, e: 24, f: |v| out(quantity!(v, yottalux)) },
    C { n: "Rlx", u: 82, e: 27, f: |v| out(quantity!(v, Rlx)) },
    C { n: "ronnalux", u: 82, e: 27, f: |v| out(quantity!(v, ronnalux)) },
    C { n: "Qlx", u: 82, e: 30, f: |v| out(quantity!(v, Qlx)) },
    C { n: "quettalux", u: 82, e: 30, f: |v| out(quantity!(v, quettalux)) },
    C { n: "qSt", u: 84, e: -30, f: |v| out(quantity!(v, qSt)) },
    C { n: "quectostokes", u: 84, e: -30, f: |v| out(quantity!(v, quectostokes)) },
    C { n: "rSt", u: 84, e: -27, f: |v| out(quantity!(v, rSt)) },
    C { n: "rontostokes", u: 84, e: -27, f: |v| out(quantity!(v, rontostokes)) },
    C { n: "ySt", u: 84, e: -24, f: |v| out(quantity!(v, ySt)) },
    C { n: "yoctostokes", u: 84, e: -24, f: |v| out(quantity!(v, yoctostokes)) },
    C { n: "zSt", u: 84, e: -21, f: |v| out(quantity!(v, zSt)) },
    C { n: "zeptostokes", u: 84, e: -21, f: |v| out(quantity!(v, zeptostokes)) },
    C { n: "aSt", u: 84, e: -18, f: |v| out(quantity!(v, aSt)) },
    C { n: "attostokes", u: 84, e: -18, f: |v| out(quantity!(v, attostokes)) },
    C { n: "fSt", u: 84, e: -15, f: |v| out(quantity!(v, fSt)) },
    C { n: "femtostokes", u: 84, e: -15, f: |v| out(quantity!(v, femtostokes)) },
    C { n: "pSt", u: 84, e: -12, f: |v| out(quantity!(v, pSt)) },
    C { n: "picostokes", u: 84, e: -12, f: |v| out(quantity!(v, picostokes)) },
    C { n: "nSt", u: 84, e: -9, f: |v| out(quantity!(v, nSt)) },
    C { n: "µSt", u: 84, e: -6, f: |v| out(quantity!(v, µSt)) },
    C { n: "microstokes", u: 84, e: -6, f: |v| out(quantity!(v, microstokes)) },
    C { n: "millistokes", u: 84, e: -3, f: |v| out(quantity!(v, millistokes)) },
    C { n: "cSt", u: 84, e: -2, f: |v| out(quantity!(v, cSt)) },
    C { n: "centistokes", u: 84, e: -2, f: |v| out(quantity!(v, centistokes)) },
    C { n: "dSt", u: 84, e: -1, f: |v| out(quantity!(v, dSt)) },
    C { n: "decistokes", u: 84, e: -1, f: |v| out(quantity!(v, decistokes)) },
    C { n: "daSt", u: 84, e: 1, f: |v| out(quantity!(v, daSt)) },
    C { n: "decastokes", u: 84, e: 1, f: |v| out(quantity!(v, decastokes)) },
    C { n: "hSt", u: 84, e: 2, f: |v| out(quantity!(v, hSt)) },
    C { n: "hectostokes", u: 84, e: 2, f: |v| out(quantity!(v, hectostokes)) },
    C { n: "megastokes", u: 84, e: 6, f: |v| out(quantity!(v, megastokes)) },
    C { n: "GSt", u: 84, e: 9, f: |v| out(quantity!(v, GSt)) },
    C { n: "gigastokes", u: 84, e: 9, f: |v| out(quantity!(v, gigastokes)) },
    C { n: "TSt", u: 84, e: 12, f: |v| out(quantity!(v, TSt)) },
    C { n: "terastokes", u: 84, e: 12, f: |v| out(quantity!(v, terastokes)) },
    C { n: "PSt", u: 84, e: 15, f: |v| out(quantity!(v, PSt)) },
    C { n: "petastokes", u: 84, e: 15, f: |v| out(quantity!(v, petastokes)) },
    C { n: "ESt", u: 84, e: 18, f: |v| out(quantity!(v, ESt)) },
    C { n: "exastokes", u: 84, e: 18, f: |v| out(quantity!(v, exastokes)) },
    C { n: "ZSt", u: 84, e: 21, f: |v| out(quantity!(v, ZSt)) },
    C { n: "zettastokes", u: 84, e: 21, f: |v| out(quantity!(v, zettastokes)) },
    C { n: "YSt", u: 84, e: 24, f: |v| out(quantity!(v, YSt)) },
    C { n: "yottastokes", u: 84, e: 24, f: |v| out(quantity!(v, yottastokes)) },
    C { n: "RSt", u: 84, e: 27, f: |v| out(quantity!(v, RSt)) },
    C { n: "ronnastokes", u: 84, e: 27, f: |v| out(quantity!(v, ronnastokes)) },
    C { n: "QSt", u: 84, e: 30, f: |v| out(quantity!(v, QSt)) },
    C { n: "quettastokes", u: 84, e: 30, f: |v| out(quantity!(v, quettastokes)) },
];
#[cfg(feature = "rest")]
pub static READ_REST: &[R] = &[
    R { n: "qg", u: 0, e: -30, own: |v| value!(quantity!(v, qg), qg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qg) },
    R { n: "quectogram", u: 0, e: -30, own: |v| value!(quantity!(v, quectogram), quectogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectogram) },
    R { n: "rg", u: 0, e: -27, own: |v| value!(quantity!(v, rg), rg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rg) },
    R { n: "rontogram", u: 0, e: -27, own: |v| value!(quantity!(v, rontogram), rontogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontogram) },
    R { n: "yg", u: 0, e: -24, own: |v| value!(quantity!(v, yg), yg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yg) },
    R { n: "yoctogram", u: 0, e: -24, own: |v| value!(quantity!(v, yoctogram), yoctogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctogram) },
    R { n: "zg", u: 0, e: -21, own: |v| value!(quantity!(v, zg), zg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zg) },
    R { n: "zeptogram", u: 0, e: -21, own: |v| value!(quantity!(v, zeptogram), zeptogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptogram) },
    R { n: "ag", u: 0, e: -18, own: |v| value!(quantity!(v, ag), ag), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ag), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ag) },
    R { n: "attogram", u: 0, e: -18, own: |v| value!(quantity!(v, attogram), attogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attogram) },
    R { n: "fg", u: 0, e: -15, own: |v| value!(quantity!(v, fg), fg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fg) },
    R { n: "femtogram", u: 0, e: -15, own: |v| value!(quantity!(v, femtogram), femtogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtogram) },
    R { n: "pg", u: 0, e: -12, own: |v| value!(quantity!(v, pg), pg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pg) },
    R { n: "picogram", u: 0, e: -12, own: |v| value!(quantity!(v, picogram), picogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picogram) },
    R { n: "ng", u: 0, e: -9, own: |v| value!(quantity!(v, ng), ng), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ng), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ng) },
    R { n: "µg", u: 0, e: -6, own: |v| value!(quantity!(v, µg), µg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µg) },
    R { n: "microgram", u: 0, e: -6, own: |v| value!(quantity!(v, microgram), microgram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microgram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microgram) },
    R { n: "milligram", u: 0, e: -3, own: |v| value!(quantity!(v, milligram), milligram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), milligram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), milligram) },
    R { n: "cg", u: 0, e: -2, own: |v| value!(quantity!(v, cg), cg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cg) },
    R { n: "centigram", u: 0, e: -2, own: |v| value!(quantity!(v, centigram), centigram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centigram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centigram) },
    R { n: "dg", u: 0, e: -1, own: |v| value!(quantity!(v, dg), dg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dg) },
    R { n: "decigram", u: 0, e: -1, own: |v| value!(quantity!(v, decigram), decigram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decigram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decigram) },
    R { n: "dag", u: 0, e: 1, own: |v| value!(quantity!(v, dag), dag), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dag), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dag) },
    R { n: "decagram", u: 0, e: 1, own: |v| value!(quantity!(v, decagram), decagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decagram) },
    R { n: "hg", u: 0, e: 2, own: |v| value!(quantity!(v, hg), hg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hg) },
    R { n: "hectogram", u: 0, e: 2, own: |v| value!(quantity!(v, hectogram), hectogram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectogram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectogram) },
    R { n: "megagram", u: 0, e: 6, own: |v| value!(quantity!(v, megagram), megagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megagram) },
    R { n: "Gg", u: 0, e: 9, own: |v| value!(quantity!(v, Gg), Gg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gg) },
    R { n: "gigagram", u: 0, e: 9, own: |v| value!(quantity!(v, gigagram), gigagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigagram) },
    R { n: "Tg", u: 0, e: 12, own: |v| value!(quantity!(v, Tg), Tg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tg) },
    R { n: "teragram", u: 0, e: 12, own: |v| value!(quantity!(v, teragram), teragram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teragram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teragram) },
    R { n: "Pg", u: 0, e: 15, own: |v| value!(quantity!(v, Pg), Pg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pg) },
    R { n: "petagram", u: 0, e: 15, own: |v| value!(quantity!(v, petagram), petagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petagram) },
    R { n: "Eg", u: 0, e: 18, own: |v| value!(quantity!(v, Eg), Eg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Eg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Eg) },
    R { n: "exagram", u: 0, e: 18, own: |v| value!(quantity!(v, exagram), exagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exagram) },
    R { n: "Zg", u: 0, e: 21, own: |v| value!(quantity!(v, Zg), Zg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zg) },
    R { n: "zettagram", u: 0, e: 21, own: |v| value!(quantity!(v, zettagram), zettagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettagram) },
    R { n: "Yg", u: 0, e: 24, own: |v| value!(quantity!(v, Yg), Yg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yg) },
    R { n: "yottagram", u: 0, e: 24, own: |v| value!(quantity!(v, yottagram), yottagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottagram) },
    R { n: "Rg", u: 0, e: 27, own: |v| value!(quantity!(v, Rg), Rg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rg) },
    R { n: "ronnagram", u: 0, e: 27, own: |v| value!(quantity!(v, ronnagram), ronnagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnagram) },
    R { n: "Qg", u: 0, e: 30, own: |v| value!(quantity!(v, Qg), Qg), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qg), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qg) },
    R { n: "quettagram", u: 0, e: 30, own: |v| value!(quantity!(v, quettagram), quettagram), base: |v| value!(Q0::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettagram), kilo: |v| value!(Q1::<{1}, {0}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettagram) },
    R { n: "qs", u: 18, e: -30, own: |v| value!(quantity!(v, qs), qs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), qs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), qs) },
    R { n: "quectosecond", u: 18, e: -30, own: |v| value!(quantity!(v, quectosecond), quectosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectosecond) },
    R { n: "rs", u: 18, e: -27, own: |v| value!(quantity!(v, rs), rs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), rs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), rs) },
    R { n: "rontosecond", u: 18, e: -27, own: |v| value!(quantity!(v, rontosecond), rontosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontosecond) },
    R { n: "ys", u: 18, e: -24, own: |v| value!(quantity!(v, ys), ys), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ys), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ys) },
    R { n: "yoctosecond", u: 18, e: -24, own: |v| value!(quantity!(v, yoctosecond), yoctosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctosecond) },
    R { n: "zs", u: 18, e: -21, own: |v| value!(quantity!(v, zs), zs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zs) },
    R { n: "zeptosecond", u: 18, e: -21, own: |v| value!(quantity!(v, zeptosecond), zeptosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptosecond) },
    R { n: "attosecond", u: 18, e: -18, own: |v| value!(quantity!(v, attosecond), attosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), attosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), attosecond) },
    R { n: "fs", u: 18, e: -15, own: |v| value!(quantity!(v, fs), fs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), fs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), fs) },
    R { n: "femtosecond", u: 18, e: -15, own: |v| value!(quantity!(v, femtosecond), femtosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtosecond) },
    R { n: "ps", u: 18, e: -12, own: |v| value!(quantity!(v, ps), ps), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ps), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ps) },
    R { n: "picosecond", u: 18, e: -12, own: |v| value!(quantity!(v, picosecond), picosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), picosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), picosecond) },
    R { n: "ns", u: 18, e: -9, own: |v| value!(quantity!(v, ns), ns), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ns), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ns) },
    R { n: "µs", u: 18, e: -6, own: |v| value!(quantity!(v, µs), µs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), µs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), µs) },
    R { n: "microsecond", u: 18, e: -6, own: |v| value!(quantity!(v, microsecond), microsecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), microsecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), microsecond) },
    R { n: "millisecond", u: 18, e: -3, own: |v| value!(quantity!(v, millisecond), millisecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), millisecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), millisecond) },
    R { n: "cs", u: 18, e: -2, own: |v| value!(quantity!(v, cs), cs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), cs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), cs) },
    R { n: "centisecond", u: 18, e: -2, own: |v| value!(quantity!(v, centisecond), centisecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), centisecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), centisecond) },
    R { n: "ds", u: 18, e: -1, own: |v| value!(quantity!(v, ds), ds), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ds), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ds) },
    R { n: "decisecond", u: 18, e: -1, own: |v| value!(quantity!(v, decisecond), decisecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), decisecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), decisecond) },
    R { n: "das", u: 18, e: 1, own: |v| value!(quantity!(v, das), das), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), das), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), das) },
    R { n: "decasecond", u: 18, e: 1, own: |v| value!(quantity!(v, decasecond), decasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), decasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), decasecond) },
    R { n: "hs", u: 18, e: 2, own: |v| value!(quantity!(v, hs), hs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hs) },
    R { n: "hectosecond", u: 18, e: 2, own: |v| value!(quantity!(v, hectosecond), hectosecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectosecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectosecond) },
    R { n: "megasecond", u: 18, e: 6, own: |v| value!(quantity!(v, megasecond), megasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), megasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), megasecond) },
    R { n: "Gs", u: 18, e: 9, own: |v| value!(quantity!(v, Gs), Gs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Gs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Gs) },
    R { n: "gigasecond", u: 18, e: 9, own: |v| value!(quantity!(v, gigasecond), gigasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigasecond) },
    R { n: "Ts", u: 18, e: 12, own: |v| value!(quantity!(v, Ts), Ts), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ts), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ts) },
    R { n: "terasecond", u: 18, e: 12, own: |v| value!(quantity!(v, terasecond), terasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), terasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), terasecond) },
    R { n: "Ps", u: 18, e: 15, own: |v| value!(quantity!(v, Ps), Ps), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ps), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ps) },
    R { n: "petasecond", u: 18, e: 15, own: |v| value!(quantity!(v, petasecond), petasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), petasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), petasecond) },
    R { n: "Es", u: 18, e: 18, own: |v| value!(quantity!(v, Es), Es), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Es), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Es) },
    R { n: "exasecond", u: 18, e: 18, own: |v| value!(quantity!(v, exasecond), exasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), exasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), exasecond) },
    R { n: "Zs", u: 18, e: 21, own: |v| value!(quantity!(v, Zs), Zs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Zs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Zs) },
    R { n: "zettasecond", u: 18, e: 21, own: |v| value!(quantity!(v, zettasecond), zettasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettasecond) },
    R { n: "Ys", u: 18, e: 24, own: |v| value!(quantity!(v, Ys), Ys), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ys), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Ys) },
    R { n: "yottasecond", u: 18, e: 24, own: |v| value!(quantity!(v, yottasecond), yottasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottasecond) },
    R { n: "Rs", u: 18, e: 27, own: |v| value!(quantity!(v, Rs), Rs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Rs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Rs) },
    R { n: "ronnasecond", u: 18, e: 27, own: |v| value!(quantity!(v, ronnasecond), ronnasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnasecond) },
    R { n: "Qs", u: 18, e: 30, own: |v| value!(quantity!(v, Qs), Qs), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Qs), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), Qs) },
    R { n: "quettasecond", u: 18, e: 30, own: |v| value!(quantity!(v, quettasecond), quettasecond), base: |v| value!(Q0::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettasecond), kilo: |v| value!(Q1::<{0}, {0}, {1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettasecond) },
    R { n: "qA", u: 25, e: -30, own: |v| value!(quantity!(v, qA), qA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), qA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), qA) },
    R { n: "quectoampere", u: 25, e: -30, own: |v| value!(quantity!(v, quectoampere), quectoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), quectoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), quectoampere) },
    R { n: "rA", u: 25, e: -27, own: |v| value!(quantity!(v, rA), rA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), rA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), rA) },
    R { n: "rontoampere", u: 25, e: -27, own: |v| value!(quantity!(v, rontoampere), rontoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), rontoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), rontoampere) },
    R { n: "yA", u: 25, e: -24, own: |v| value!(quantity!(v, yA), yA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yA) },
    R { n: "yoctoampere", u: 25, e: -24, own: |v| value!(quantity!(v, yoctoampere), yoctoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yoctoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yoctoampere) },
    R { n: "zA", u: 25, e: -21, own: |v| value!(quantity!(v, zA), zA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zA) },
    R { n: "zeptoampere", u: 25, e: -21, own: |v| value!(quantity!(v, zeptoampere), zeptoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zeptoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zeptoampere) },
    R { n: "aA", u: 25, e: -18, own: |v| value!(quantity!(v, aA), aA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), aA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), aA) },
    R { n: "attoampere", u: 25, e: -18, own: |v| value!(quantity!(v, attoampere), attoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), attoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), attoampere) },
    R { n: "fA", u: 25, e: -15, own: |v| value!(quantity!(v, fA), fA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), fA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), fA) },
    R { n: "femtoampere", u: 25, e: -15, own: |v| value!(quantity!(v, femtoampere), femtoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), femtoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), femtoampere) },
    R { n: "pA", u: 25, e: -12, own: |v| value!(quantity!(v, pA), pA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), pA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), pA) },
    R { n: "picoampere", u: 25, e: -12, own: |v| value!(quantity!(v, picoampere), picoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), picoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), picoampere) },
    R { n: "nA", u: 25, e: -9, own: |v| value!(quantity!(v, nA), nA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), nA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), nA) },
    R { n: "µA", u: 25, e: -6, own: |v| value!(quantity!(v, µA), µA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), µA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), µA) },
    R { n: "microampere", u: 25, e: -6, own: |v| value!(quantity!(v, microampere), microampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), microampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), microampere) },
    R { n: "milliampere", u: 25, e: -3, own: |v| value!(quantity!(v, milliampere), milliampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), milliampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), milliampere) },
    R { n: "cA", u: 25, e: -2, own: |v| value!(quantity!(v, cA), cA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), cA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), cA) },
    R { n: "centiampere", u: 25, e: -2, own: |v| value!(quantity!(v, centiampere), centiampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), centiampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), centiampere) },
    R { n: "dA", u: 25, e: -1, own: |v| value!(quantity!(v, dA), dA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), dA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), dA) },
    R { n: "deciampere", u: 25, e: -1, own: |v| value!(quantity!(v, deciampere), deciampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), deciampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), deciampere) },
    R { n: "daA", u: 25, e: 1, own: |v| value!(quantity!(v, daA), daA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), daA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), daA) },
    R { n: "decaampere", u: 25, e: 1, own: |v| value!(quantity!(v, decaampere), decaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), decaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), decaampere) },
    R { n: "hA", u: 25, e: 2, own: |v| value!(quantity!(v, hA), hA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), hA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), hA) },
    R { n: "hectoampere", u: 25, e: 2, own: |v| value!(quantity!(v, hectoampere), hectoampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), hectoampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), hectoampere) },
    R { n: "megaampere", u: 25, e: 6, own: |v| value!(quantity!(v, megaampere), megaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), megaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), megaampere) },
    R { n: "GA", u: 25, e: 9, own: |v| value!(quantity!(v, GA), GA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), GA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), GA) },
    R { n: "gigaampere", u: 25, e: 9, own: |v| value!(quantity!(v, gigaampere), gigaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), gigaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), gigaampere) },
    R { n: "TA", u: 25, e: 12, own: |v| value!(quantity!(v, TA), TA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), TA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), TA) },
    R { n: "teraampere", u: 25, e: 12, own: |v| value!(quantity!(v, teraampere), teraampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), teraampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), teraampere) },
    R { n: "PA", u: 25, e: 15, own: |v| value!(quantity!(v, PA), PA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), PA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), PA) },
    R { n: "petaampere", u: 25, e: 15, own: |v| value!(quantity!(v, petaampere), petaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), petaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), petaampere) },
    R { n: "EA", u: 25, e: 18, own: |v| value!(quantity!(v, EA), EA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), EA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), EA) },
    R { n: "exaampere", u: 25, e: 18, own: |v| value!(quantity!(v, exaampere), exaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), exaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), exaampere) },
    R { n: "ZA", u: 25, e: 21, own: |v| value!(quantity!(v, ZA), ZA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ZA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ZA) },
    R { n: "zettaampere", u: 25, e: 21, own: |v| value!(quantity!(v, zettaampere), zettaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zettaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), zettaampere) },
    R { n: "YA", u: 25, e: 24, own: |v| value!(quantity!(v, YA), YA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), YA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), YA) },
    R { n: "yottaampere", u: 25, e: 24, own: |v| value!(quantity!(v, yottaampere), yottaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yottaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), yottaampere) },
    R { n: "RA", u: 25, e: 27, own: |v| value!(quantity!(v, RA), RA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), RA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), RA) },
    R { n: "ronnaampere", u: 25, e: 27, own: |v| value!(quantity!(v, ronnaampere), ronnaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ronnaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), ronnaampere) },
    R { n: "QA", u: 25, e: 30, own: |v| value!(quantity!(v, QA), QA), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), QA), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), QA) },
    R { n: "quettaampere", u: 25, e: 30, own: |v| value!(quantity!(v, quettaampere), quettaampere), base: |v| value!(Q0::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), quettaampere), kilo: |v| value!(Q1::<{0}, {0}, {0}, {1}, {0}, {0}, {0}, {0}>::new(v), quettaampere) },
    R { n: "qK", u: 26, e: -30, own: |v| value!(quantity!(v, qK), qK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), qK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), qK) },
    R { n: "quectokelvin", u: 26, e: -30, own: |v| value!(quantity!(v, quectokelvin), quectokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), quectokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), quectokelvin) },
    R { n: "rK", u: 26, e: -27, own: |v| value!(quantity!(v, rK), rK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rK) },
    R { n: "rontokelvin", u: 26, e: -27, own: |v| value!(quantity!(v, rontokelvin), rontokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rontokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), rontokelvin) },
    R { n: "yK", u: 26, e: -24, own: |v| value!(quantity!(v, yK), yK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yK) },
    R { n: "yoctokelvin", u: 26, e: -24, own: |v| value!(quantity!(v, yoctokelvin), yoctokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yoctokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yoctokelvin) },
    R { n: "zK", u: 26, e: -21, own: |v| value!(quantity!(v, zK), zK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zK) },
    R { n: "zeptokelvin", u: 26, e: -21, own: |v| value!(quantity!(v, zeptokelvin), zeptokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zeptokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zeptokelvin) },
    R { n: "aK", u: 26, e: -18, own: |v| value!(quantity!(v, aK), aK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), aK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), aK) },
    R { n: "attokelvin", u: 26, e: -18, own: |v| value!(quantity!(v, attokelvin), attokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), attokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), attokelvin) },
    R { n: "fK", u: 26, e: -15, own: |v| value!(quantity!(v, fK), fK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), fK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), fK) },
    R { n: "femtokelvin", u: 26, e: -15, own: |v| value!(quantity!(v, femtokelvin), femtokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), femtokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), femtokelvin) },
    R { n: "pK", u: 26, e: -12, own: |v| value!(quantity!(v, pK), pK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), pK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), pK) },
    R { n: "picokelvin", u: 26, e: -12, own: |v| value!(quantity!(v, picokelvin), picokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), picokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), picokelvin) },
    R { n: "nK", u: 26, e: -9, own: |v| value!(quantity!(v, nK), nK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), nK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), nK) },
    R { n: "µK", u: 26, e: -6, own: |v| value!(quantity!(v, µK), µK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), µK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), µK) },
    R { n: "microkelvin", u: 26, e: -6, own: |v| value!(quantity!(v, microkelvin), microkelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), microkelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), microkelvin) },
    R { n: "millikelvin", u: 26, e: -3, own: |v| value!(quantity!(v, millikelvin), millikelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), millikelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), millikelvin) },
    R { n: "cK", u: 26, e: -2, own: |v| value!(quantity!(v, cK), cK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), cK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), cK) },
    R { n: "centikelvin", u: 26, e: -2, own: |v| value!(quantity!(v, centikelvin), centikelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), centikelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), centikelvin) },
    R { n: "dK", u: 26, e: -1, own: |v| value!(quantity!(v, dK), dK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), dK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), dK) },
    R { n: "decikelvin", u: 26, e: -1, own: |v| value!(quantity!(v, decikelvin), decikelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), decikelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), decikelvin) },
    R { n: "daK", u: 26, e: 1, own: |v| value!(quantity!(v, daK), daK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), daK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), daK) },
    R { n: "decakelvin", u: 26, e: 1, own: |v| value!(quantity!(v, decakelvin), decakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), decakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), decakelvin) },
    R { n: "hK", u: 26, e: 2, own: |v| value!(quantity!(v, hK), hK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), hK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), hK) },
    R { n: "hectokelvin", u: 26, e: 2, own: |v| value!(quantity!(v, hectokelvin), hectokelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), hectokelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), hectokelvin) },
    R { n: "megakelvin", u: 26, e: 6, own: |v| value!(quantity!(v, megakelvin), megakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), megakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), megakelvin) },
    R { n: "GK", u: 26, e: 9, own: |v| value!(quantity!(v, GK), GK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), GK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), GK) },
    R { n: "gigakelvin", u: 26, e: 9, own: |v| value!(quantity!(v, gigakelvin), gigakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), gigakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), gigakelvin) },
    R { n: "TK", u: 26, e: 12, own: |v| value!(quantity!(v, TK), TK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), TK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), TK) },
    R { n: "terakelvin", u: 26, e: 12, own: |v| value!(quantity!(v, terakelvin), terakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), terakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), terakelvin) },
    R { n: "PK", u: 26, e: 15, own: |v| value!(quantity!(v, PK), PK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), PK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), PK) },
    R { n: "petakelvin", u: 26, e: 15, own: |v| value!(quantity!(v, petakelvin), petakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), petakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), petakelvin) },
    R { n: "EK", u: 26, e: 18, own: |v| value!(quantity!(v, EK), EK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), EK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), EK) },
    R { n: "exakelvin", u: 26, e: 18, own: |v| value!(quantity!(v, exakelvin), exakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), exakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), exakelvin) },
    R { n: "ZK", u: 26, e: 21, own: |v| value!(quantity!(v, ZK), ZK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), ZK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), ZK) },
    R { n: "zettakelvin", u: 26, e: 21, own: |v| value!(quantity!(v, zettakelvin), zettakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zettakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), zettakelvin) },
    R { n: "YK", u: 26, e: 24, own: |v| value!(quantity!(v, YK), YK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), YK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), YK) },
    R { n: "yottakelvin", u: 26, e: 24, own: |v| value!(quantity!(v, yottakelvin), yottakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yottakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), yottakelvin) },
    R { n: "RK", u: 26, e: 27, own: |v| value!(quantity!(v, RK), RK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), RK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), RK) },
    R { n: "ronnakelvin", u: 26, e: 27, own: |v| value!(quantity!(v, ronnakelvin), ronnakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), ronnakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), ronnakelvin) },
    R { n: "QK", u: 26, e: 30, own: |v| value!(quantity!(v, QK), QK), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), QK), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), QK) },
    R { n: "quettakelvin", u: 26, e: 30, own: |v| value!(quantity!(v, quettakelvin), quettakelvin), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), quettakelvin), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {1}, {0}, {0}, {0}>::new(v), quettakelvin) },
    R { n: "qmol", u: 30, e: -30, own: |v| value!(quantity!(v, qmol), qmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), qmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), qmol) },
    R { n: "quectomole", u: 30, e: -30, own: |v| value!(quantity!(v, quectomole), quectomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), quectomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), quectomole) },
    R { n: "rmol", u: 30, e: -27, own: |v| value!(quantity!(v, rmol), rmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), rmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), rmol) },
    R { n: "rontomole", u: 30, e: -27, own: |v| value!(quantity!(v, rontomole), rontomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), rontomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), rontomole) },
    R { n: "ymol", u: 30, e: -24, own: |v| value!(quantity!(v, ymol), ymol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), ymol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), ymol) },
    R { n: "yoctomole", u: 30, e: -24, own: |v| value!(quantity!(v, yoctomole), yoctomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), yoctomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), yoctomole) },
    R { n: "zmol", u: 30, e: -21, own: |v| value!(quantity!(v, zmol), zmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zmol) },
    R { n: "zeptomole", u: 30, e: -21, own: |v| value!(quantity!(v, zeptomole), zeptomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zeptomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zeptomole) },
    R { n: "amol", u: 30, e: -18, own: |v| value!(quantity!(v, amol), amol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), amol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), amol) },
    R { n: "attomole", u: 30, e: -18, own: |v| value!(quantity!(v, attomole), attomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), attomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), attomole) },
    R { n: "fmol", u: 30, e: -15, own: |v| value!(quantity!(v, fmol), fmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), fmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), fmol) },
    R { n: "femtomole", u: 30, e: -15, own: |v| value!(quantity!(v, femtomole), femtomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), femtomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), femtomole) },
    R { n: "pmol", u: 30, e: -12, own: |v| value!(quantity!(v, pmol), pmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), pmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), pmol) },
    R { n: "picomole", u: 30, e: -12, own: |v| value!(quantity!(v, picomole), picomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), picomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), picomole) },
    R { n: "nmol", u: 30, e: -9, own: |v| value!(quantity!(v, nmol), nmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), nmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), nmol) },
    R { n: "µmol", u: 30, e: -6, own: |v| value!(quantity!(v, µmol), µmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), µmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), µmol) },
    R { n: "micromole", u: 30, e: -6, own: |v| value!(quantity!(v, micromole), micromole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), micromole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), micromole) },
    R { n: "millimole", u: 30, e: -3, own: |v| value!(quantity!(v, millimole), millimole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), millimole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), millimole) },
    R { n: "cmol", u: 30, e: -2, own: |v| value!(quantity!(v, cmol), cmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), cmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), cmol) },
    R { n: "centimole", u: 30, e: -2, own: |v| value!(quantity!(v, centimole), centimole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), centimole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), centimole) },
    R { n: "dmol", u: 30, e: -1, own: |v| value!(quantity!(v, dmol), dmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), dmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), dmol) },
    R { n: "decimole", u: 30, e: -1, own: |v| value!(quantity!(v, decimole), decimole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), decimole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), decimole) },
    R { n: "damol", u: 30, e: 1, own: |v| value!(quantity!(v, damol), damol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), damol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), damol) },
    R { n: "decamole", u: 30, e: 1, own: |v| value!(quantity!(v, decamole), decamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), decamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), decamole) },
    R { n: "hmol", u: 30, e: 2, own: |v| value!(quantity!(v, hmol), hmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), hmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), hmol) },
    R { n: "hectomole", u: 30, e: 2, own: |v| value!(quantity!(v, hectomole), hectomole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), hectomole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), hectomole) },
    R { n: "megamole", u: 30, e: 6, own: |v| value!(quantity!(v, megamole), megamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), megamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), megamole) },
    R { n: "Gmol", u: 30, e: 9, own: |v| value!(quantity!(v, Gmol), Gmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Gmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Gmol) },
    R { n: "gigamole", u: 30, e: 9, own: |v| value!(quantity!(v, gigamole), gigamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), gigamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), gigamole) },
    R { n: "Tmol", u: 30, e: 12, own: |v| value!(quantity!(v, Tmol), Tmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Tmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Tmol) },
    R { n: "teramole", u: 30, e: 12, own: |v| value!(quantity!(v, teramole), teramole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), teramole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), teramole) },
    R { n: "Pmol", u: 30, e: 15, own: |v| value!(quantity!(v, Pmol), Pmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Pmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Pmol) },
    R { n: "petamole", u: 30, e: 15, own: |v| value!(quantity!(v, petamole), petamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), petamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), petamole) },
    R { n: "Emol", u: 30, e: 18, own: |v| value!(quantity!(v, Emol), Emol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Emol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Emol) },
    R { n: "examole", u: 30, e: 18, own: |v| value!(quantity!(v, examole), examole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), examole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), examole) },
    R { n: "Zmol", u: 30, e: 21, own: |v| value!(quantity!(v, Zmol), Zmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Zmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Zmol) },
    R { n: "zettamole", u: 30, e: 21, own: |v| value!(quantity!(v, zettamole), zettamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zettamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), zettamole) },
    R { n: "Ymol", u: 30, e: 24, own: |v| value!(quantity!(v, Ymol), Ymol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Ymol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Ymol) },
    R { n: "yottamole", u: 30, e: 24, own: |v| value!(quantity!(v, yottamole), yottamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), yottamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), yottamole) },
    R { n: "Rmol", u: 30, e: 27, own: |v| value!(quantity!(v, Rmol), Rmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Rmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Rmol) },
    R { n: "ronnamole", u: 30, e: 27, own: |v| value!(quantity!(v, ronnamole), ronnamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), ronnamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), ronnamole) },
    R { n: "Qmol", u: 30, e: 30, own: |v| value!(quantity!(v, Qmol), Qmol), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Qmol), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), Qmol) },
    R { n: "quettamole", u: 30, e: 30, own: |v| value!(quantity!(v, quettamole), quettamole), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), quettamole), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {1}, {0}, {0}>::new(v), quettamole) },
    R { n: "qcd", u: 31, e: -30, own: |v| value!(quantity!(v, qcd), qcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), qcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), qcd) },
    R { n: "quectocandela", u: 31, e: -30, own: |v| value!(quantity!(v, quectocandela), quectocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quectocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quectocandela) },
    R { n: "rcd", u: 31, e: -27, own: |v| value!(quantity!(v, rcd), rcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rcd) },
    R { n: "rontocandela", u: 31, e: -27, own: |v| value!(quantity!(v, rontocandela), rontocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rontocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rontocandela) },
    R { n: "ycd", u: 31, e: -24, own: |v| value!(quantity!(v, ycd), ycd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ycd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ycd) },
    R { n: "yoctocandela", u: 31, e: -24, own: |v| value!(quantity!(v, yoctocandela), yoctocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yoctocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yoctocandela) },
    R { n: "zcd", u: 31, e: -21, own: |v| value!(quantity!(v, zcd), zcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zcd) },
    R { n: "zeptocandela", u: 31, e: -21, own: |v| value!(quantity!(v, zeptocandela), zeptocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zeptocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zeptocandela) },
    R { n: "acd", u: 31, e: -18, own: |v| value!(quantity!(v, acd), acd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), acd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), acd) },
    R { n: "attocandela", u: 31, e: -18, own: |v| value!(quantity!(v, attocandela), attocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), attocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), attocandela) },
    R { n: "fcd", u: 31, e: -15, own: |v| value!(quantity!(v, fcd), fcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), fcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), fcd) },
    R { n: "femtocandela", u: 31, e: -15, own: |v| value!(quantity!(v, femtocandela), femtocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), femtocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), femtocandela) },
    R { n: "pcd", u: 31, e: -12, own: |v| value!(quantity!(v, pcd), pcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), pcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), pcd) },
    R { n: "picocandela", u: 31, e: -12, own: |v| value!(quantity!(v, picocandela), picocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), picocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), picocandela) },
    R { n: "ncd", u: 31, e: -9, own: |v| value!(quantity!(v, ncd), ncd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ncd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ncd) },
    R { n: "µcd", u: 31, e: -6, own: |v| value!(quantity!(v, µcd), µcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), µcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), µcd) },
    R { n: "microcandela", u: 31, e: -6, own: |v| value!(quantity!(v, microcandela), microcandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), microcandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), microcandela) },
    R { n: "millicandela", u: 31, e: -3, own: |v| value!(quantity!(v, millicandela), millicandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), millicandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), millicandela) },
    R { n: "ccd", u: 31, e: -2, own: |v| value!(quantity!(v, ccd), ccd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ccd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ccd) },
    R { n: "centicandela", u: 31, e: -2, own: |v| value!(quantity!(v, centicandela), centicandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), centicandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), centicandela) },
    R { n: "dcd", u: 31, e: -1, own: |v| value!(quantity!(v, dcd), dcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dcd) },
    R { n: "decicandela", u: 31, e: -1, own: |v| value!(quantity!(v, decicandela), decicandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decicandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decicandela) },
    R { n: "dacd", u: 31, e: 1, own: |v| value!(quantity!(v, dacd), dacd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dacd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dacd) },
    R { n: "decacandela", u: 31, e: 1, own: |v| value!(quantity!(v, decacandela), decacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decacandela) },
    R { n: "hcd", u: 31, e: 2, own: |v| value!(quantity!(v, hcd), hcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hcd) },
    R { n: "hectocandela", u: 31, e: 2, own: |v| value!(quantity!(v, hectocandela), hectocandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hectocandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hectocandela) },
    R { n: "megacandela", u: 31, e: 6, own: |v| value!(quantity!(v, megacandela), megacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), megacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), megacandela) },
    R { n: "Gcd", u: 31, e: 9, own: |v| value!(quantity!(v, Gcd), Gcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Gcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Gcd) },
    R { n: "gigacandela", u: 31, e: 9, own: |v| value!(quantity!(v, gigacandela), gigacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), gigacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), gigacandela) },
    R { n: "Tcd", u: 31, e: 12, own: |v| value!(quantity!(v, Tcd), Tcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Tcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Tcd) },
    R { n: "teracandela", u: 31, e: 12, own: |v| value!(quantity!(v, teracandela), teracandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), teracandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), teracandela) },
    R { n: "Pcd", u: 31, e: 15, own: |v| value!(quantity!(v, Pcd), Pcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Pcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Pcd) },
    R { n: "petacandela", u: 31, e: 15, own: |v| value!(quantity!(v, petacandela), petacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), petacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), petacandela) },
    R { n: "Ecd", u: 31, e: 18, own: |v| value!(quantity!(v, Ecd), Ecd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ecd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ecd) },
    R { n: "exacandela", u: 31, e: 18, own: |v| value!(quantity!(v, exacandela), exacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), exacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), exacandela) },
    R { n: "Zcd", u: 31, e: 21, own: |v| value!(quantity!(v, Zcd), Zcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Zcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Zcd) },
    R { n: "zettacandela", u: 31, e: 21, own: |v| value!(quantity!(v, zettacandela), zettacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zettacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zettacandela) },
    R { n: "Ycd", u: 31, e: 24, own: |v| value!(quantity!(v, Ycd), Ycd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ycd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ycd) },
    R { n: "yottacandela", u: 31, e: 24, own: |v| value!(quantity!(v, yottacandela), yottacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yottacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yottacandela) },
    R { n: "Rcd", u: 31, e: 27, own: |v| value!(quantity!(v, Rcd), Rcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Rcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Rcd) },
    R { n: "ronnacandela", u: 31, e: 27, own: |v| value!(quantity!(v, ronnacandela), ronnacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ronnacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ronnacandela) },
    R { n: "Qcd", u: 31, e: 30, own: |v| value!(quantity!(v, Qcd), Qcd), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Qcd), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Qcd) },
    R { n: "quettacandela", u: 31, e: 30, own: |v| value!(quantity!(v, quettacandela), quettacandela), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quettacandela), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quettacandela) },
    R { n: "qrad", u: 33, e: -30, own: |v| value!(quantity!(v, qrad), qrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), qrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), qrad) },
    R { n: "quectoradian", u: 33, e: -30, own: |v| value!(quantity!(v, quectoradian), quectoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), quectoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), quectoradian) },
    R { n: "rrad", u: 33, e: -27, own: |v| value!(quantity!(v, rrad), rrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rrad) },
    R { n: "rontoradian", u: 33, e: -27, own: |v| value!(quantity!(v, rontoradian), rontoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rontoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), rontoradian) },
    R { n: "yrad", u: 33, e: -24, own: |v| value!(quantity!(v, yrad), yrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yrad) },
    R { n: "yoctoradian", u: 33, e: -24, own: |v| value!(quantity!(v, yoctoradian), yoctoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yoctoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yoctoradian) },
    R { n: "zrad", u: 33, e: -21, own: |v| value!(quantity!(v, zrad), zrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zrad) },
    R { n: "zeptoradian", u: 33, e: -21, own: |v| value!(quantity!(v, zeptoradian), zeptoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zeptoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zeptoradian) },
    R { n: "arad", u: 33, e: -18, own: |v| value!(quantity!(v, arad), arad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), arad) },
    R { n: "attoradian", u: 33, e: -18, own: |v| value!(quantity!(v, attoradian), attoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), attoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), attoradian) },
    R { n: "frad", u: 33, e: -15, own: |v| value!(quantity!(v, frad), frad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), frad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), frad) },
    R { n: "femtoradian", u: 33, e: -15, own: |v| value!(quantity!(v, femtoradian), femtoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), femtoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), femtoradian) },
    R { n: "prad", u: 33, e: -12, own: |v| value!(quantity!(v, prad), prad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), prad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), prad) },
    R { n: "picoradian", u: 33, e: -12, own: |v| value!(quantity!(v, picoradian), picoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), picoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), picoradian) },
    R { n: "nrad", u: 33, e: -9, own: |v| value!(quantity!(v, nrad), nrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), nrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), nrad) },
    R { n: "µrad", u: 33, e: -6, own: |v| value!(quantity!(v, µrad), µrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), µrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), µrad) },
    R { n: "microradian", u: 33, e: -6, own: |v| value!(quantity!(v, microradian), microradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), microradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), microradian) },
    R { n: "milliradian", u: 33, e: -3, own: |v| value!(quantity!(v, milliradian), milliradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), milliradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), milliradian) },
    R { n: "crad", u: 33, e: -2, own: |v| value!(quantity!(v, crad), crad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), crad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), crad) },
    R { n: "centiradian", u: 33, e: -2, own: |v| value!(quantity!(v, centiradian), centiradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), centiradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), centiradian) },
    R { n: "drad", u: 33, e: -1, own: |v| value!(quantity!(v, drad), drad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), drad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), drad) },
    R { n: "deciradian", u: 33, e: -1, own: |v| value!(quantity!(v, deciradian), deciradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), deciradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), deciradian) },
    R { n: "darad", u: 33, e: 1, own: |v| value!(quantity!(v, darad), darad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), darad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), darad) },
    R { n: "decaradian", u: 33, e: 1, own: |v| value!(quantity!(v, decaradian), decaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), decaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), decaradian) },
    R { n: "hrad", u: 33, e: 2, own: |v| value!(quantity!(v, hrad), hrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), hrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), hrad) },
    R { n: "hectoradian", u: 33, e: 2, own: |v| value!(quantity!(v, hectoradian), hectoradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), hectoradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), hectoradian) },
    R { n: "megaradian", u: 33, e: 6, own: |v| value!(quantity!(v, megaradian), megaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), megaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), megaradian) },
    R { n: "Grad", u: 33, e: 9, own: |v| value!(quantity!(v, Grad), Grad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Grad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Grad) },
    R { n: "gigaradian", u: 33, e: 9, own: |v| value!(quantity!(v, gigaradian), gigaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), gigaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), gigaradian) },
    R { n: "Trad", u: 33, e: 12, own: |v| value!(quantity!(v, Trad), Trad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Trad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Trad) },
    R { n: "teraradian", u: 33, e: 12, own: |v| value!(quantity!(v, teraradian), teraradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), teraradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), teraradian) },
    R { n: "Prad", u: 33, e: 15, own: |v| value!(quantity!(v, Prad), Prad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Prad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Prad) },
    R { n: "petaradian", u: 33, e: 15, own: |v| value!(quantity!(v, petaradian), petaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), petaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), petaradian) },
    R { n: "Erad", u: 33, e: 18, own: |v| value!(quantity!(v, Erad), Erad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Erad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Erad) },
    R { n: "exaradian", u: 33, e: 18, own: |v| value!(quantity!(v, exaradian), exaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), exaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), exaradian) },
    R { n: "Zrad", u: 33, e: 21, own: |v| value!(quantity!(v, Zrad), Zrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Zrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Zrad) },
    R { n: "zettaradian", u: 33, e: 21, own: |v| value!(quantity!(v, zettaradian), zettaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zettaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), zettaradian) },
    R { n: "Yrad", u: 33, e: 24, own: |v| value!(quantity!(v, Yrad), Yrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Yrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Yrad) },
    R { n: "yottaradian", u: 33, e: 24, own: |v| value!(quantity!(v, yottaradian), yottaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yottaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), yottaradian) },
    R { n: "Rrad", u: 33, e: 27, own: |v| value!(quantity!(v, Rrad), Rrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Rrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Rrad) },
    R { n: "ronnaradian", u: 33, e: 27, own: |v| value!(quantity!(v, ronnaradian), ronnaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), ronnaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), ronnaradian) },
    R { n: "Qrad", u: 33, e: 30, own: |v| value!(quantity!(v, Qrad), Qrad), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Qrad), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), Qrad) },
    R { n: "quettaradian", u: 33, e: 30, own: |v| value!(quantity!(v, quettaradian), quettaradian), base: |v| value!(Q0::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), quettaradian), kilo: |v| value!(Q1::<{0}, {0}, {0}, {0}, {0}, {0}, {0}, {1}>::new(v), quettaradian) },
    R { n: "qhect", u: 39, e: -30, own: |v| value!(quantity!(v, qhect), qhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qhect) },
    R { n: "quectohectare", u: 39, e: -30, own: |v| value!(quantity!(v, quectohectare), quectohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectohectare) },
    R { n: "rhect", u: 39, e: -27, own: |v| value!(quantity!(v, rhect), rhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rhect) },
    R { n: "rontohectare", u: 39, e: -27, own: |v| value!(quantity!(v, rontohectare), rontohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontohectare) },
    R { n: "yhect", u: 39, e: -24, own: |v| value!(quantity!(v, yhect), yhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yhect) },
    R { n: "yoctohectare", u: 39, e: -24, own: |v| value!(quantity!(v, yoctohectare), yoctohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctohectare) },
    R { n: "zhect", u: 39, e: -21, own: |v| value!(quantity!(v, zhect), zhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zhect) },
    R { n: "zeptohectare", u: 39, e: -21, own: |v| value!(quantity!(v, zeptohectare), zeptohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptohectare) },
    R { n: "ahect", u: 39, e: -18, own: |v| value!(quantity!(v, ahect), ahect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ahect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ahect) },
    R { n: "attohectare", u: 39, e: -18, own: |v| value!(quantity!(v, attohectare), attohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attohectare) },
    R { n: "fhect", u: 39, e: -15, own: |v| value!(quantity!(v, fhect), fhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fhect) },
    R { n: "femtohectare", u: 39, e: -15, own: |v| value!(quantity!(v, femtohectare), femtohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtohectare) },
    R { n: "phect", u: 39, e: -12, own: |v| value!(quantity!(v, phect), phect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), phect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), phect) },
    R { n: "picohectare", u: 39, e: -12, own: |v| value!(quantity!(v, picohectare), picohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picohectare) },
    R { n: "nhect", u: 39, e: -9, own: |v| value!(quantity!(v, nhect), nhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nhect) },
    R { n: "µhect", u: 39, e: -6, own: |v| value!(quantity!(v, µhect), µhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µhect) },
    R { n: "microhectare", u: 39, e: -6, own: |v| value!(quantity!(v, microhectare), microhectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microhectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microhectare) },
    R { n: "millihectare", u: 39, e: -3, own: |v| value!(quantity!(v, millihectare), millihectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), millihectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), millihectare) },
    R { n: "chect", u: 39, e: -2, own: |v| value!(quantity!(v, chect), chect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), chect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), chect) },
    R { n: "centihectare", u: 39, e: -2, own: |v| value!(quantity!(v, centihectare), centihectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centihectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centihectare) },
    R { n: "dhect", u: 39, e: -1, own: |v| value!(quantity!(v, dhect), dhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dhect) },
    R { n: "decihectare", u: 39, e: -1, own: |v| value!(quantity!(v, decihectare), decihectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decihectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decihectare) },
    R { n: "dahect", u: 39, e: 1, own: |v| value!(quantity!(v, dahect), dahect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dahect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dahect) },
    R { n: "decahectare", u: 39, e: 1, own: |v| value!(quantity!(v, decahectare), decahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decahectare) },
    R { n: "hhect", u: 39, e: 2, own: |v| value!(quantity!(v, hhect), hhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hhect) },
    R { n: "hectohectare", u: 39, e: 2, own: |v| value!(quantity!(v, hectohectare), hectohectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectohectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectohectare) },
    R { n: "megahectare", u: 39, e: 6, own: |v| value!(quantity!(v, megahectare), megahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megahectare) },
    R { n: "Ghect", u: 39, e: 9, own: |v| value!(quantity!(v, Ghect), Ghect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ghect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ghect) },
    R { n: "gigahectare", u: 39, e: 9, own: |v| value!(quantity!(v, gigahectare), gigahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigahectare) },
    R { n: "Thect", u: 39, e: 12, own: |v| value!(quantity!(v, Thect), Thect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Thect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Thect) },
    R { n: "terahectare", u: 39, e: 12, own: |v| value!(quantity!(v, terahectare), terahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), terahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), terahectare) },
    R { n: "Phect", u: 39, e: 15, own: |v| value!(quantity!(v, Phect), Phect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Phect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Phect) },
    R { n: "petahectare", u: 39, e: 15, own: |v| value!(quantity!(v, petahectare), petahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petahectare) },
    R { n: "Ehect", u: 39, e: 18, own: |v| value!(quantity!(v, Ehect), Ehect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ehect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ehect) },
    R { n: "exahectare", u: 39, e: 18, own: |v| value!(quantity!(v, exahectare), exahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exahectare) },
    R { n: "Zhect", u: 39, e: 21, own: |v| value!(quantity!(v, Zhect), Zhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zhect) },
    R { n: "zettahectare", u: 39, e: 21, own: |v| value!(quantity!(v, zettahectare), zettahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettahectare) },
    R { n: "Yhect", u: 39, e: 24, own: |v| value!(quantity!(v, Yhect), Yhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yhect) },
    R { n: "yottahectare", u: 39, e: 24, own: |v| value!(quantity!(v, yottahectare), yottahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottahectare) },
    R { n: "Rhect", u: 39, e: 27, own: |v| value!(quantity!(v, Rhect), Rhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rhect) },
    R { n: "ronnahectare", u: 39, e: 27, own: |v| value!(quantity!(v, ronnahectare), ronnahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnahectare) },
    R { n: "Qhect", u: 39, e: 30, own: |v| value!(quantity!(v, Qhect), Qhect), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qhect), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Qhect) },
    R { n: "quettahectare", u: 39, e: 30, own: |v| value!(quantity!(v, quettahectare), quettahectare), base: |v| value!(Q0::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettahectare), kilo: |v| value!(Q1::<{0}, {2}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettahectare) },
    R { n: "qL", u: 41, e: -30, own: |v| value!(quantity!(v, qL), qL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), qL) },
    R { n: "ql", u: 41, e: -30, own: |v| value!(quantity!(v, ql), ql), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ql), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ql) },
    R { n: "quectoliter", u: 41, e: -30, own: |v| value!(quantity!(v, quectoliter), quectoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quectoliter) },
    R { n: "rL", u: 41, e: -27, own: |v| value!(quantity!(v, rL), rL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rL) },
    R { n: "rl", u: 41, e: -27, own: |v| value!(quantity!(v, rl), rl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rl) },
    R { n: "rontoliter", u: 41, e: -27, own: |v| value!(quantity!(v, rontoliter), rontoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), rontoliter) },
    R { n: "yL", u: 41, e: -24, own: |v| value!(quantity!(v, yL), yL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yL) },
    R { n: "yl", u: 41, e: -24, own: |v| value!(quantity!(v, yl), yl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yl) },
    R { n: "yoctoliter", u: 41, e: -24, own: |v| value!(quantity!(v, yoctoliter), yoctoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctoliter) },
    R { n: "zL", u: 41, e: -21, own: |v| value!(quantity!(v, zL), zL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zL) },
    R { n: "zl", u: 41, e: -21, own: |v| value!(quantity!(v, zl), zl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zl) },
    R { n: "zeptoliter", u: 41, e: -21, own: |v| value!(quantity!(v, zeptoliter), zeptoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptoliter) },
    R { n: "aL", u: 41, e: -18, own: |v| value!(quantity!(v, aL), aL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), aL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), aL) },
    R { n: "al", u: 41, e: -18, own: |v| value!(quantity!(v, al), al), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), al), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), al) },
    R { n: "attoliter", u: 41, e: -18, own: |v| value!(quantity!(v, attoliter), attoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), attoliter) },
    R { n: "fL", u: 41, e: -15, own: |v| value!(quantity!(v, fL), fL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fL) },
    R { n: "fl", u: 41, e: -15, own: |v| value!(quantity!(v, fl), fl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), fl) },
    R { n: "femtoliter", u: 41, e: -15, own: |v| value!(quantity!(v, femtoliter), femtoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), femtoliter) },
    R { n: "pL", u: 41, e: -12, own: |v| value!(quantity!(v, pL), pL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pL) },
    R { n: "pl", u: 41, e: -12, own: |v| value!(quantity!(v, pl), pl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), pl) },
    R { n: "picoliter", u: 41, e: -12, own: |v| value!(quantity!(v, picoliter), picoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), picoliter) },
    R { n: "nL", u: 41, e: -9, own: |v| value!(quantity!(v, nL), nL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nL) },
    R { n: "nl", u: 41, e: -9, own: |v| value!(quantity!(v, nl), nl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), nl) },
    R { n: "µL", u: 41, e: -6, own: |v| value!(quantity!(v, µL), µL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µL) },
    R { n: "µl", u: 41, e: -6, own: |v| value!(quantity!(v, µl), µl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), µl) },
    R { n: "microliter", u: 41, e: -6, own: |v| value!(quantity!(v, microliter), microliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), microliter) },
    R { n: "milliliter", u: 41, e: -3, own: |v| value!(quantity!(v, milliliter), milliliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), milliliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), milliliter) },
    R { n: "cL", u: 41, e: -2, own: |v| value!(quantity!(v, cL), cL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cL) },
    R { n: "cl", u: 41, e: -2, own: |v| value!(quantity!(v, cl), cl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), cl) },
    R { n: "centiliter", u: 41, e: -2, own: |v| value!(quantity!(v, centiliter), centiliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centiliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), centiliter) },
    R { n: "dL", u: 41, e: -1, own: |v| value!(quantity!(v, dL), dL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dL) },
    R { n: "dl", u: 41, e: -1, own: |v| value!(quantity!(v, dl), dl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dl) },
    R { n: "deciliter", u: 41, e: -1, own: |v| value!(quantity!(v, deciliter), deciliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), deciliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), deciliter) },
    R { n: "daL", u: 41, e: 1, own: |v| value!(quantity!(v, daL), daL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), daL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), daL) },
    R { n: "dal", u: 41, e: 1, own: |v| value!(quantity!(v, dal), dal), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dal), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), dal) },
    R { n: "decaliter", u: 41, e: 1, own: |v| value!(quantity!(v, decaliter), decaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), decaliter) },
    R { n: "hL", u: 41, e: 2, own: |v| value!(quantity!(v, hL), hL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hL) },
    R { n: "hl", u: 41, e: 2, own: |v| value!(quantity!(v, hl), hl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hl) },
    R { n: "hectoliter", u: 41, e: 2, own: |v| value!(quantity!(v, hectoliter), hectoliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectoliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), hectoliter) },
    R { n: "megaliter", u: 41, e: 6, own: |v| value!(quantity!(v, megaliter), megaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), megaliter) },
    R { n: "GL", u: 41, e: 9, own: |v| value!(quantity!(v, GL), GL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), GL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), GL) },
    R { n: "Gl", u: 41, e: 9, own: |v| value!(quantity!(v, Gl), Gl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Gl) },
    R { n: "gigaliter", u: 41, e: 9, own: |v| value!(quantity!(v, gigaliter), gigaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), gigaliter) },
    R { n: "TL", u: 41, e: 12, own: |v| value!(quantity!(v, TL), TL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), TL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), TL) },
    R { n: "Tl", u: 41, e: 12, own: |v| value!(quantity!(v, Tl), Tl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Tl) },
    R { n: "teraliter", u: 41, e: 12, own: |v| value!(quantity!(v, teraliter), teraliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teraliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), teraliter) },
    R { n: "PL", u: 41, e: 15, own: |v| value!(quantity!(v, PL), PL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), PL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), PL) },
    R { n: "Pl", u: 41, e: 15, own: |v| value!(quantity!(v, Pl), Pl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Pl) },
    R { n: "petaliter", u: 41, e: 15, own: |v| value!(quantity!(v, petaliter), petaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), petaliter) },
    R { n: "EL", u: 41, e: 18, own: |v| value!(quantity!(v, EL), EL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), EL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), EL) },
    R { n: "El", u: 41, e: 18, own: |v| value!(quantity!(v, El), El), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), El), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), El) },
    R { n: "exaliter", u: 41, e: 18, own: |v| value!(quantity!(v, exaliter), exaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), exaliter) },
    R { n: "ZL", u: 41, e: 21, own: |v| value!(quantity!(v, ZL), ZL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ZL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ZL) },
    R { n: "Zl", u: 41, e: 21, own: |v| value!(quantity!(v, Zl), Zl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Zl) },
    R { n: "zettaliter", u: 41, e: 21, own: |v| value!(quantity!(v, zettaliter), zettaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), zettaliter) },
    R { n: "YL", u: 41, e: 24, own: |v| value!(quantity!(v, YL), YL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), YL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), YL) },
    R { n: "Yl", u: 41, e: 24, own: |v| value!(quantity!(v, Yl), Yl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Yl) },
    R { n: "yottaliter", u: 41, e: 24, own: |v| value!(quantity!(v, yottaliter), yottaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), yottaliter) },
    R { n: "RL", u: 41, e: 27, own: |v| value!(quantity!(v, RL), RL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), RL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), RL) },
    R { n: "Rl", u: 41, e: 27, own: |v| value!(quantity!(v, Rl), Rl), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rl), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Rl) },
    R { n: "ronnaliter", u: 41, e: 27, own: |v| value!(quantity!(v, ronnaliter), ronnaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnaliter) },
    R { n: "QL", u: 41, e: 30, own: |v| value!(quantity!(v, QL), QL), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), QL), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), QL) },
    R { n: "Ql", u: 41, e: 30, own: |v| value!(quantity!(v, Ql), Ql), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ql), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), Ql) },
    R { n: "quettaliter", u: 41, e: 30, own: |v| value!(quantity!(v, quettaliter), quettaliter), base: |v| value!(Q0::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettaliter), kilo: |v| value!(Q1::<{0}, {3}, {0}, {0}, {0}, {0}, {0}, {0}>::new(v), quettaliter) },
    R { n: "qHz", u: 57, e: -30, own: |v| value!(quantity!(v, qHz), qHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), qHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), qHz) },
    R { n: "quectohertz", u: 57, e: -30, own: |v| value!(quantity!(v, quectohertz), quectohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectohertz) },
    R { n: "rHz", u: 57, e: -27, own: |v| value!(quantity!(v, rHz), rHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rHz) },
    R { n: "rontohertz", u: 57, e: -27, own: |v| value!(quantity!(v, rontohertz), rontohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontohertz) },
    R { n: "yHz", u: 57, e: -24, own: |v| value!(quantity!(v, yHz), yHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yHz) },
    R { n: "yoctohertz", u: 57, e: -24, own: |v| value!(quantity!(v, yoctohertz), yoctohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctohertz) },
    R { n: "zHz", u: 57, e: -21, own: |v| value!(quantity!(v, zHz), zHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zHz) },
    R { n: "zeptohertz", u: 57, e: -21, own: |v| value!(quantity!(v, zeptohertz), zeptohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptohertz) },
    R { n: "aHz", u: 57, e: -18, own: |v| value!(quantity!(v, aHz), aHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), aHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), aHz) },
    R { n: "attohertz", u: 57, e: -18, own: |v| value!(quantity!(v, attohertz), attohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), attohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), attohertz) },
    R { n: "fHz", u: 57, e: -15, own: |v| value!(quantity!(v, fHz), fHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), fHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), fHz) },
    R { n: "femtohertz", u: 57, e: -15, own: |v| value!(quantity!(v, femtohertz), femtohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtohertz) },
    R { n: "pHz", u: 57, e: -12, own: |v| value!(quantity!(v, pHz), pHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), pHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), pHz) },
    R { n: "picohertz", u: 57, e: -12, own: |v| value!(quantity!(v, picohertz), picohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), picohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), picohertz) },
    R { n: "nHz", u: 57, e: -9, own: |v| value!(quantity!(v, nHz), nHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nHz) },
    R { n: "µHz", u: 57, e: -6, own: |v| value!(quantity!(v, µHz), µHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), µHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), µHz) },
    R { n: "microhertz", u: 57, e: -6, own: |v| value!(quantity!(v, microhertz), microhertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), microhertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), microhertz) },
    R { n: "millihertz", u: 57, e: -3, own: |v| value!(quantity!(v, millihertz), millihertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), millihertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), millihertz) },
    R { n: "cHz", u: 57, e: -2, own: |v| value!(quantity!(v, cHz), cHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), cHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), cHz) },
    R { n: "centihertz", u: 57, e: -2, own: |v| value!(quantity!(v, centihertz), centihertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), centihertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), centihertz) },
    R { n: "dHz", u: 57, e: -1, own: |v| value!(quantity!(v, dHz), dHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), dHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), dHz) },
    R { n: "decihertz", u: 57, e: -1, own: |v| value!(quantity!(v, decihertz), decihertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decihertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decihertz) },
    R { n: "daHz", u: 57, e: 1, own: |v| value!(quantity!(v, daHz), daHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), daHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), daHz) },
    R { n: "decahertz", u: 57, e: 1, own: |v| value!(quantity!(v, decahertz), decahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decahertz) },
    R { n: "hHz", u: 57, e: 2, own: |v| value!(quantity!(v, hHz), hHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hHz) },
    R { n: "hectohertz", u: 57, e: 2, own: |v| value!(quantity!(v, hectohertz), hectohertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectohertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectohertz) },
    R { n: "megahertz", u: 57, e: 6, own: |v| value!(quantity!(v, megahertz), megahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), megahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), megahertz) },
    R { n: "GHz", u: 57, e: 9, own: |v| value!(quantity!(v, GHz), GHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), GHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), GHz) },
    R { n: "gigahertz", u: 57, e: 9, own: |v| value!(quantity!(v, gigahertz), gigahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigahertz) },
    R { n: "THz", u: 57, e: 12, own: |v| value!(quantity!(v, THz), THz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), THz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), THz) },
    R { n: "terahertz", u: 57, e: 12, own: |v| value!(quantity!(v, terahertz), terahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), terahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), terahertz) },
    R { n: "PHz", u: 57, e: 15, own: |v| value!(quantity!(v, PHz), PHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), PHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), PHz) },
    R { n: "petahertz", u: 57, e: 15, own: |v| value!(quantity!(v, petahertz), petahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), petahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), petahertz) },
    R { n: "EHz", u: 57, e: 18, own: |v| value!(quantity!(v, EHz), EHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), EHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), EHz) },
    R { n: "exahertz", u: 57, e: 18, own: |v| value!(quantity!(v, exahertz), exahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), exahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), exahertz) },
    R { n: "ZHz", u: 57, e: 21, own: |v| value!(quantity!(v, ZHz), ZHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ZHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ZHz) },
    R { n: "zettahertz", u: 57, e: 21, own: |v| value!(quantity!(v, zettahertz), zettahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettahertz) },
    R { n: "YHz", u: 57, e: 24, own: |v| value!(quantity!(v, YHz), YHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), YHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), YHz) },
    R { n: "yottahertz", u: 57, e: 24, own: |v| value!(quantity!(v, yottahertz), yottahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottahertz) },
    R { n: "RHz", u: 57, e: 27, own: |v| value!(quantity!(v, RHz), RHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), RHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), RHz) },
    R { n: "ronnahertz", u: 57, e: 27, own: |v| value!(quantity!(v, ronnahertz), ronnahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnahertz) },
    R { n: "QHz", u: 57, e: 30, own: |v| value!(quantity!(v, QHz), QHz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), QHz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), QHz) },
    R { n: "quettahertz", u: 57, e: 30, own: |v| value!(quantity!(v, quettahertz), quettahertz), base: |v| value!(Q0::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettahertz), kilo: |v| value!(Q1::<{0}, {0}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettahertz) },
    R { n: "qN", u: 58, e: -30, own: |v| value!(quantity!(v, qN), qN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qN) },
    R { n: "quectonewton", u: 58, e: -30, own: |v| value!(quantity!(v, quectonewton), quectonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectonewton) },
    R { n: "rN", u: 58, e: -27, own: |v| value!(quantity!(v, rN), rN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rN) },
    R { n: "rontonewton", u: 58, e: -27, own: |v| value!(quantity!(v, rontonewton), rontonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontonewton) },
    R { n: "yN", u: 58, e: -24, own: |v| value!(quantity!(v, yN), yN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yN) },
    R { n: "yoctonewton", u: 58, e: -24, own: |v| value!(quantity!(v, yoctonewton), yoctonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctonewton) },
    R { n: "zN", u: 58, e: -21, own: |v| value!(quantity!(v, zN), zN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zN) },
    R { n: "zeptonewton", u: 58, e: -21, own: |v| value!(quantity!(v, zeptonewton), zeptonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptonewton) },
    R { n: "aN", u: 58, e: -18, own: |v| value!(quantity!(v, aN), aN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aN) },
    R { n: "attonewton", u: 58, e: -18, own: |v| value!(quantity!(v, attonewton), attonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attonewton) },
    R { n: "fN", u: 58, e: -15, own: |v| value!(quantity!(v, fN), fN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fN) },
    R { n: "femtonewton", u: 58, e: -15, own: |v| value!(quantity!(v, femtonewton), femtonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtonewton) },
    R { n: "pN", u: 58, e: -12, own: |v| value!(quantity!(v, pN), pN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pN) },
    R { n: "piconewton", u: 58, e: -12, own: |v| value!(quantity!(v, piconewton), piconewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), piconewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), piconewton) },
    R { n: "nN", u: 58, e: -9, own: |v| value!(quantity!(v, nN), nN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nN) },
    R { n: "µN", u: 58, e: -6, own: |v| value!(quantity!(v, µN), µN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µN) },
    R { n: "micronewton", u: 58, e: -6, own: |v| value!(quantity!(v, micronewton), micronewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), micronewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), micronewton) },
    R { n: "millinewton", u: 58, e: -3, own: |v| value!(quantity!(v, millinewton), millinewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millinewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millinewton) },
    R { n: "cN", u: 58, e: -2, own: |v| value!(quantity!(v, cN), cN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cN) },
    R { n: "centinewton", u: 58, e: -2, own: |v| value!(quantity!(v, centinewton), centinewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centinewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centinewton) },
    R { n: "dN", u: 58, e: -1, own: |v| value!(quantity!(v, dN), dN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dN) },
    R { n: "decinewton", u: 58, e: -1, own: |v| value!(quantity!(v, decinewton), decinewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decinewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decinewton) },
    R { n: "daN", u: 58, e: 1, own: |v| value!(quantity!(v, daN), daN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daN) },
    R { n: "decanewton", u: 58, e: 1, own: |v| value!(quantity!(v, decanewton), decanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decanewton) },
    R { n: "hN", u: 58, e: 2, own: |v| value!(quantity!(v, hN), hN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hN) },
    R { n: "hectonewton", u: 58, e: 2, own: |v| value!(quantity!(v, hectonewton), hectonewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectonewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectonewton) },
    R { n: "meganewton", u: 58, e: 6, own: |v| value!(quantity!(v, meganewton), meganewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), meganewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), meganewton) },
    R { n: "GN", u: 58, e: 9, own: |v| value!(quantity!(v, GN), GN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GN) },
    R { n: "giganewton", u: 58, e: 9, own: |v| value!(quantity!(v, giganewton), giganewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), giganewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), giganewton) },
    R { n: "TN", u: 58, e: 12, own: |v| value!(quantity!(v, TN), TN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TN) },
    R { n: "teranewton", u: 58, e: 12, own: |v| value!(quantity!(v, teranewton), teranewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), teranewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), teranewton) },
    R { n: "PN", u: 58, e: 15, own: |v| value!(quantity!(v, PN), PN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PN) },
    R { n: "petanewton", u: 58, e: 15, own: |v| value!(quantity!(v, petanewton), petanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petanewton) },
    R { n: "EN", u: 58, e: 18, own: |v| value!(quantity!(v, EN), EN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EN) },
    R { n: "exanewton", u: 58, e: 18, own: |v| value!(quantity!(v, exanewton), exanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exanewton) },
    R { n: "ZN", u: 58, e: 21, own: |v| value!(quantity!(v, ZN), ZN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZN) },
    R { n: "zettanewton", u: 58, e: 21, own: |v| value!(quantity!(v, zettanewton), zettanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettanewton) },
    R { n: "YN", u: 58, e: 24, own: |v| value!(quantity!(v, YN), YN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YN) },
    R { n: "yottanewton", u: 58, e: 24, own: |v| value!(quantity!(v, yottanewton), yottanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottanewton) },
    R { n: "RN", u: 58, e: 27, own: |v| value!(quantity!(v, RN), RN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RN) },
    R { n: "ronnanewton", u: 58, e: 27, own: |v| value!(quantity!(v, ronnanewton), ronnanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnanewton) },
    R { n: "QN", u: 58, e: 30, own: |v| value!(quantity!(v, QN), QN), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QN), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QN) },
    R { n: "quettanewton", u: 58, e: 30, own: |v| value!(quantity!(v, quettanewton), quettanewton), base: |v| value!(Q0::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettanewton), kilo: |v| value!(Q1::<{1}, {1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettanewton) },
    R { n: "qJ", u: 59, e: -30, own: |v| value!(quantity!(v, qJ), qJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qJ) },
    R { n: "quectojoule", u: 59, e: -30, own: |v| value!(quantity!(v, quectojoule), quectojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectojoule) },
    R { n: "rJ", u: 59, e: -27, own: |v| value!(quantity!(v, rJ), rJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rJ) },
    R { n: "rontojoule", u: 59, e: -27, own: |v| value!(quantity!(v, rontojoule), rontojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontojoule) },
    R { n: "yJ", u: 59, e: -24, own: |v| value!(quantity!(v, yJ), yJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yJ) },
    R { n: "yoctojoule", u: 59, e: -24, own: |v| value!(quantity!(v, yoctojoule), yoctojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctojoule) },
    R { n: "zJ", u: 59, e: -21, own: |v| value!(quantity!(v, zJ), zJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zJ) },
    R { n: "zeptojoule", u: 59, e: -21, own: |v| value!(quantity!(v, zeptojoule), zeptojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptojoule) },
    R { n: "aJ", u: 59, e: -18, own: |v| value!(quantity!(v, aJ), aJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aJ) },
    R { n: "attojoule", u: 59, e: -18, own: |v| value!(quantity!(v, attojoule), attojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attojoule) },
    R { n: "fJ", u: 59, e: -15, own: |v| value!(quantity!(v, fJ), fJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fJ) },
    R { n: "femtojoule", u: 59, e: -15, own: |v| value!(quantity!(v, femtojoule), femtojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtojoule) },
    R { n: "pJ", u: 59, e: -12, own: |v| value!(quantity!(v, pJ), pJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pJ) },
    R { n: "picojoule", u: 59, e: -12, own: |v| value!(quantity!(v, picojoule), picojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), picojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), picojoule) },
    R { n: "nJ", u: 59, e: -9, own: |v| value!(quantity!(v, nJ), nJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nJ) },
    R { n: "µJ", u: 59, e: -6, own: |v| value!(quantity!(v, µJ), µJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µJ) },
    R { n: "microjoule", u: 59, e: -6, own: |v| value!(quantity!(v, microjoule), microjoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), microjoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), microjoule) },
    R { n: "millijoule", u: 59, e: -3, own: |v| value!(quantity!(v, millijoule), millijoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millijoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millijoule) },
    R { n: "cJ", u: 59, e: -2, own: |v| value!(quantity!(v, cJ), cJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cJ) },
    R { n: "centijoule", u: 59, e: -2, own: |v| value!(quantity!(v, centijoule), centijoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centijoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centijoule) },
    R { n: "dJ", u: 59, e: -1, own: |v| value!(quantity!(v, dJ), dJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dJ) },
    R { n: "decijoule", u: 59, e: -1, own: |v| value!(quantity!(v, decijoule), decijoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decijoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decijoule) },
    R { n: "daJ", u: 59, e: 1, own: |v| value!(quantity!(v, daJ), daJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daJ) },
    R { n: "decajoule", u: 59, e: 1, own: |v| value!(quantity!(v, decajoule), decajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decajoule) },
    R { n: "hJ", u: 59, e: 2, own: |v| value!(quantity!(v, hJ), hJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hJ) },
    R { n: "hectojoule", u: 59, e: 2, own: |v| value!(quantity!(v, hectojoule), hectojoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectojoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectojoule) },
    R { n: "megajoule", u: 59, e: 6, own: |v| value!(quantity!(v, megajoule), megajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), megajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), megajoule) },
    R { n: "GJ", u: 59, e: 9, own: |v| value!(quantity!(v, GJ), GJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GJ) },
    R { n: "gigajoule", u: 59, e: 9, own: |v| value!(quantity!(v, gigajoule), gigajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), gigajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), gigajoule) },
    R { n: "TJ", u: 59, e: 12, own: |v| value!(quantity!(v, TJ), TJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TJ) },
    R { n: "terajoule", u: 59, e: 12, own: |v| value!(quantity!(v, terajoule), terajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), terajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), terajoule) },
    R { n: "PJ", u: 59, e: 15, own: |v| value!(quantity!(v, PJ), PJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PJ) },
    R { n: "petajoule", u: 59, e: 15, own: |v| value!(quantity!(v, petajoule), petajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petajoule) },
    R { n: "EJ", u: 59, e: 18, own: |v| value!(quantity!(v, EJ), EJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EJ) },
    R { n: "exajoule", u: 59, e: 18, own: |v| value!(quantity!(v, exajoule), exajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exajoule) },
    R { n: "ZJ", u: 59, e: 21, own: |v| value!(quantity!(v, ZJ), ZJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZJ) },
    R { n: "zettajoule", u: 59, e: 21, own: |v| value!(quantity!(v, zettajoule), zettajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettajoule) },
    R { n: "YJ", u: 59, e: 24, own: |v| value!(quantity!(v, YJ), YJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YJ) },
    R { n: "yottajoule", u: 59, e: 24, own: |v| value!(quantity!(v, yottajoule), yottajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottajoule) },
    R { n: "RJ", u: 59, e: 27, own: |v| value!(quantity!(v, RJ), RJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RJ) },
    R { n: "ronnajoule", u: 59, e: 27, own: |v| value!(quantity!(v, ronnajoule), ronnajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnajoule) },
    R { n: "QJ", u: 59, e: 30, own: |v| value!(quantity!(v, QJ), QJ), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QJ), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QJ) },
    R { n: "quettajoule", u: 59, e: 30, own: |v| value!(quantity!(v, quettajoule), quettajoule), base: |v| value!(Q0::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettajoule), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettajoule) },
    R { n: "qW", u: 67, e: -30, own: |v| value!(quantity!(v, qW), qW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), qW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), qW) },
    R { n: "quectowatt", u: 67, e: -30, own: |v| value!(quantity!(v, quectowatt), quectowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), quectowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), quectowatt) },
    R { n: "rW", u: 67, e: -27, own: |v| value!(quantity!(v, rW), rW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), rW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), rW) },
    R { n: "rontowatt", u: 67, e: -27, own: |v| value!(quantity!(v, rontowatt), rontowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), rontowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), rontowatt) },
    R { n: "yW", u: 67, e: -24, own: |v| value!(quantity!(v, yW), yW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yW) },
    R { n: "yoctowatt", u: 67, e: -24, own: |v| value!(quantity!(v, yoctowatt), yoctowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctowatt) },
    R { n: "zW", u: 67, e: -21, own: |v| value!(quantity!(v, zW), zW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zW) },
    R { n: "zeptowatt", u: 67, e: -21, own: |v| value!(quantity!(v, zeptowatt), zeptowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptowatt) },
    R { n: "aW", u: 67, e: -18, own: |v| value!(quantity!(v, aW), aW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), aW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), aW) },
    R { n: "attowatt", u: 67, e: -18, own: |v| value!(quantity!(v, attowatt), attowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), attowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), attowatt) },
    R { n: "fW", u: 67, e: -15, own: |v| value!(quantity!(v, fW), fW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), fW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), fW) },
    R { n: "femtowatt", u: 67, e: -15, own: |v| value!(quantity!(v, femtowatt), femtowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), femtowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), femtowatt) },
    R { n: "pW", u: 67, e: -12, own: |v| value!(quantity!(v, pW), pW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), pW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), pW) },
    R { n: "picowatt", u: 67, e: -12, own: |v| value!(quantity!(v, picowatt), picowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), picowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), picowatt) },
    R { n: "nW", u: 67, e: -9, own: |v| value!(quantity!(v, nW), nW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), nW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), nW) },
    R { n: "µW", u: 67, e: -6, own: |v| value!(quantity!(v, µW), µW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), µW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), µW) },
    R { n: "microwatt", u: 67, e: -6, own: |v| value!(quantity!(v, microwatt), microwatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), microwatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), microwatt) },
    R { n: "milliwatt", u: 67, e: -3, own: |v| value!(quantity!(v, milliwatt), milliwatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), milliwatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), milliwatt) },
    R { n: "cW", u: 67, e: -2, own: |v| value!(quantity!(v, cW), cW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), cW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), cW) },
    R { n: "centiwatt", u: 67, e: -2, own: |v| value!(quantity!(v, centiwatt), centiwatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), centiwatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), centiwatt) },
    R { n: "dW", u: 67, e: -1, own: |v| value!(quantity!(v, dW), dW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), dW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), dW) },
    R { n: "deciwatt", u: 67, e: -1, own: |v| value!(quantity!(v, deciwatt), deciwatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), deciwatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), deciwatt) },
    R { n: "daW", u: 67, e: 1, own: |v| value!(quantity!(v, daW), daW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), daW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), daW) },
    R { n: "decawatt", u: 67, e: 1, own: |v| value!(quantity!(v, decawatt), decawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), decawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), decawatt) },
    R { n: "hW", u: 67, e: 2, own: |v| value!(quantity!(v, hW), hW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hW) },
    R { n: "hectowatt", u: 67, e: 2, own: |v| value!(quantity!(v, hectowatt), hectowatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hectowatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), hectowatt) },
    R { n: "megawatt", u: 67, e: 6, own: |v| value!(quantity!(v, megawatt), megawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), megawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), megawatt) },
    R { n: "GW", u: 67, e: 9, own: |v| value!(quantity!(v, GW), GW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), GW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), GW) },
    R { n: "gigawatt", u: 67, e: 9, own: |v| value!(quantity!(v, gigawatt), gigawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), gigawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), gigawatt) },
    R { n: "TW", u: 67, e: 12, own: |v| value!(quantity!(v, TW), TW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), TW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), TW) },
    R { n: "terawatt", u: 67, e: 12, own: |v| value!(quantity!(v, terawatt), terawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), terawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), terawatt) },
    R { n: "PW", u: 67, e: 15, own: |v| value!(quantity!(v, PW), PW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), PW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), PW) },
    R { n: "petawatt", u: 67, e: 15, own: |v| value!(quantity!(v, petawatt), petawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), petawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), petawatt) },
    R { n: "EW", u: 67, e: 18, own: |v| value!(quantity!(v, EW), EW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), EW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), EW) },
    R { n: "exawatt", u: 67, e: 18, own: |v| value!(quantity!(v, exawatt), exawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), exawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), exawatt) },
    R { n: "ZW", u: 67, e: 21, own: |v| value!(quantity!(v, ZW), ZW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), ZW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), ZW) },
    R { n: "zettawatt", u: 67, e: 21, own: |v| value!(quantity!(v, zettawatt), zettawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zettawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), zettawatt) },
    R { n: "YW", u: 67, e: 24, own: |v| value!(quantity!(v, YW), YW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), YW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), YW) },
    R { n: "yottawatt", u: 67, e: 24, own: |v| value!(quantity!(v, yottawatt), yottawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yottawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), yottawatt) },
    R { n: "RW", u: 67, e: 27, own: |v| value!(quantity!(v, RW), RW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), RW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), RW) },
    R { n: "ronnawatt", u: 67, e: 27, own: |v| value!(quantity!(v, ronnawatt), ronnawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnawatt) },
    R { n: "QW", u: 67, e: 30, own: |v| value!(quantity!(v, QW), QW), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), QW), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), QW) },
    R { n: "quettawatt", u: 67, e: 30, own: |v| value!(quantity!(v, quettawatt), quettawatt), base: |v| value!(Q0::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), quettawatt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {0}, {0}, {0}, {0}, {0}>::new(v), quettawatt) },
    R { n: "qPa", u: 69, e: -30, own: |v| value!(quantity!(v, qPa), qPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), qPa) },
    R { n: "quectopascal", u: 69, e: -30, own: |v| value!(quantity!(v, quectopascal), quectopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quectopascal) },
    R { n: "rPa", u: 69, e: -27, own: |v| value!(quantity!(v, rPa), rPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rPa) },
    R { n: "rontopascal", u: 69, e: -27, own: |v| value!(quantity!(v, rontopascal), rontopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), rontopascal) },
    R { n: "yPa", u: 69, e: -24, own: |v| value!(quantity!(v, yPa), yPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yPa) },
    R { n: "yoctopascal", u: 69, e: -24, own: |v| value!(quantity!(v, yoctopascal), yoctopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctopascal) },
    R { n: "zPa", u: 69, e: -21, own: |v| value!(quantity!(v, zPa), zPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zPa) },
    R { n: "zeptopascal", u: 69, e: -21, own: |v| value!(quantity!(v, zeptopascal), zeptopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptopascal) },
    R { n: "aPa", u: 69, e: -18, own: |v| value!(quantity!(v, aPa), aPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), aPa) },
    R { n: "attopascal", u: 69, e: -18, own: |v| value!(quantity!(v, attopascal), attopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), attopascal) },
    R { n: "fPa", u: 69, e: -15, own: |v| value!(quantity!(v, fPa), fPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), fPa) },
    R { n: "femtopascal", u: 69, e: -15, own: |v| value!(quantity!(v, femtopascal), femtopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), femtopascal) },
    R { n: "pPa", u: 69, e: -12, own: |v| value!(quantity!(v, pPa), pPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), pPa) },
    R { n: "picopascal", u: 69, e: -12, own: |v| value!(quantity!(v, picopascal), picopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), picopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), picopascal) },
    R { n: "nPa", u: 69, e: -9, own: |v| value!(quantity!(v, nPa), nPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), nPa) },
    R { n: "µPa", u: 69, e: -6, own: |v| value!(quantity!(v, µPa), µPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), µPa) },
    R { n: "micropascal", u: 69, e: -6, own: |v| value!(quantity!(v, micropascal), micropascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), micropascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), micropascal) },
    R { n: "millipascal", u: 69, e: -3, own: |v| value!(quantity!(v, millipascal), millipascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millipascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), millipascal) },
    R { n: "cPa", u: 69, e: -2, own: |v| value!(quantity!(v, cPa), cPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), cPa) },
    R { n: "centipascal", u: 69, e: -2, own: |v| value!(quantity!(v, centipascal), centipascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centipascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), centipascal) },
    R { n: "dPa", u: 69, e: -1, own: |v| value!(quantity!(v, dPa), dPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), dPa) },
    R { n: "decipascal", u: 69, e: -1, own: |v| value!(quantity!(v, decipascal), decipascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decipascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decipascal) },
    R { n: "daPa", u: 69, e: 1, own: |v| value!(quantity!(v, daPa), daPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), daPa) },
    R { n: "decapascal", u: 69, e: 1, own: |v| value!(quantity!(v, decapascal), decapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), decapascal) },
    R { n: "hPa", u: 69, e: 2, own: |v| value!(quantity!(v, hPa), hPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hPa) },
    R { n: "hectopascal", u: 69, e: 2, own: |v| value!(quantity!(v, hectopascal), hectopascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectopascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), hectopascal) },
    R { n: "megapascal", u: 69, e: 6, own: |v| value!(quantity!(v, megapascal), megapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), megapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), megapascal) },
    R { n: "GPa", u: 69, e: 9, own: |v| value!(quantity!(v, GPa), GPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), GPa) },
    R { n: "gigapascal", u: 69, e: 9, own: |v| value!(quantity!(v, gigapascal), gigapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), gigapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), gigapascal) },
    R { n: "TPa", u: 69, e: 12, own: |v| value!(quantity!(v, TPa), TPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), TPa) },
    R { n: "terapascal", u: 69, e: 12, own: |v| value!(quantity!(v, terapascal), terapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), terapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), terapascal) },
    R { n: "PPa", u: 69, e: 15, own: |v| value!(quantity!(v, PPa), PPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), PPa) },
    R { n: "petapascal", u: 69, e: 15, own: |v| value!(quantity!(v, petapascal), petapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), petapascal) },
    R { n: "EPa", u: 69, e: 18, own: |v| value!(quantity!(v, EPa), EPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), EPa) },
    R { n: "exapascal", u: 69, e: 18, own: |v| value!(quantity!(v, exapascal), exapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), exapascal) },
    R { n: "ZPa", u: 69, e: 21, own: |v| value!(quantity!(v, ZPa), ZPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ZPa) },
    R { n: "zettapascal", u: 69, e: 21, own: |v| value!(quantity!(v, zettapascal), zettapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), zettapascal) },
    R { n: "YPa", u: 69, e: 24, own: |v| value!(quantity!(v, YPa), YPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), YPa) },
    R { n: "yottapascal", u: 69, e: 24, own: |v| value!(quantity!(v, yottapascal), yottapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), yottapascal) },
    R { n: "RPa", u: 69, e: 27, own: |v| value!(quantity!(v, RPa), RPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), RPa) },
    R { n: "ronnapascal", u: 69, e: 27, own: |v| value!(quantity!(v, ronnapascal), ronnapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnapascal) },
    R { n: "QPa", u: 69, e: 30, own: |v| value!(quantity!(v, QPa), QPa), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QPa), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), QPa) },
    R { n: "quettapascal", u: 69, e: 30, own: |v| value!(quantity!(v, quettapascal), quettapascal), base: |v| value!(Q0::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettapascal), kilo: |v| value!(Q1::<{1}, {-1}, {-2}, {0}, {0}, {0}, {0}, {0}>::new(v), quettapascal) },
    R { n: "qC", u: 74, e: -30, own: |v| value!(quantity!(v, qC), qC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), qC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), qC) },
    R { n: "quectocoulomb", u: 74, e: -30, own: |v| value!(quantity!(v, quectocoulomb), quectocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), quectocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), quectocoulomb) },
    R { n: "rC", u: 74, e: -27, own: |v| value!(quantity!(v, rC), rC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), rC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), rC) },
    R { n: "rontocoulomb", u: 74, e: -27, own: |v| value!(quantity!(v, rontocoulomb), rontocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), rontocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), rontocoulomb) },
    R { n: "yC", u: 74, e: -24, own: |v| value!(quantity!(v, yC), yC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yC) },
    R { n: "yoctocoulomb", u: 74, e: -24, own: |v| value!(quantity!(v, yoctocoulomb), yoctocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yoctocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yoctocoulomb) },
    R { n: "zC", u: 74, e: -21, own: |v| value!(quantity!(v, zC), zC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zC) },
    R { n: "zeptocoulomb", u: 74, e: -21, own: |v| value!(quantity!(v, zeptocoulomb), zeptocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zeptocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zeptocoulomb) },
    R { n: "aC", u: 74, e: -18, own: |v| value!(quantity!(v, aC), aC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), aC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), aC) },
    R { n: "attocoulomb", u: 74, e: -18, own: |v| value!(quantity!(v, attocoulomb), attocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), attocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), attocoulomb) },
    R { n: "fC", u: 74, e: -15, own: |v| value!(quantity!(v, fC), fC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), fC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), fC) },
    R { n: "femtocoulomb", u: 74, e: -15, own: |v| value!(quantity!(v, femtocoulomb), femtocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), femtocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), femtocoulomb) },
    R { n: "pC", u: 74, e: -12, own: |v| value!(quantity!(v, pC), pC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), pC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), pC) },
    R { n: "picocoulomb", u: 74, e: -12, own: |v| value!(quantity!(v, picocoulomb), picocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), picocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), picocoulomb) },
    R { n: "nC", u: 74, e: -9, own: |v| value!(quantity!(v, nC), nC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), nC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), nC) },
    R { n: "µC", u: 74, e: -6, own: |v| value!(quantity!(v, µC), µC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), µC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), µC) },
    R { n: "microcoulomb", u: 74, e: -6, own: |v| value!(quantity!(v, microcoulomb), microcoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), microcoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), microcoulomb) },
    R { n: "millicoulomb", u: 74, e: -3, own: |v| value!(quantity!(v, millicoulomb), millicoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), millicoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), millicoulomb) },
    R { n: "cC", u: 74, e: -2, own: |v| value!(quantity!(v, cC), cC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), cC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), cC) },
    R { n: "centicoulomb", u: 74, e: -2, own: |v| value!(quantity!(v, centicoulomb), centicoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), centicoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), centicoulomb) },
    R { n: "dC", u: 74, e: -1, own: |v| value!(quantity!(v, dC), dC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), dC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), dC) },
    R { n: "decicoulomb", u: 74, e: -1, own: |v| value!(quantity!(v, decicoulomb), decicoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), decicoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), decicoulomb) },
    R { n: "daC", u: 74, e: 1, own: |v| value!(quantity!(v, daC), daC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), daC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), daC) },
    R { n: "decacoulomb", u: 74, e: 1, own: |v| value!(quantity!(v, decacoulomb), decacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), decacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), decacoulomb) },
    R { n: "hC", u: 74, e: 2, own: |v| value!(quantity!(v, hC), hC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), hC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), hC) },
    R { n: "hectocoulomb", u: 74, e: 2, own: |v| value!(quantity!(v, hectocoulomb), hectocoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), hectocoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), hectocoulomb) },
    R { n: "megacoulomb", u: 74, e: 6, own: |v| value!(quantity!(v, megacoulomb), megacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), megacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), megacoulomb) },
    R { n: "GC", u: 74, e: 9, own: |v| value!(quantity!(v, GC), GC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), GC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), GC) },
    R { n: "gigacoulomb", u: 74, e: 9, own: |v| value!(quantity!(v, gigacoulomb), gigacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), gigacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), gigacoulomb) },
    R { n: "TC", u: 74, e: 12, own: |v| value!(quantity!(v, TC), TC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), TC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), TC) },
    R { n: "teracoulomb", u: 74, e: 12, own: |v| value!(quantity!(v, teracoulomb), teracoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), teracoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), teracoulomb) },
    R { n: "PC", u: 74, e: 15, own: |v| value!(quantity!(v, PC), PC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), PC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), PC) },
    R { n: "petacoulomb", u: 74, e: 15, own: |v| value!(quantity!(v, petacoulomb), petacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), petacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), petacoulomb) },
    R { n: "EC", u: 74, e: 18, own: |v| value!(quantity!(v, EC), EC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), EC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), EC) },
    R { n: "exacoulomb", u: 74, e: 18, own: |v| value!(quantity!(v, exacoulomb), exacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), exacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), exacoulomb) },
    R { n: "ZC", u: 74, e: 21, own: |v| value!(quantity!(v, ZC), ZC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), ZC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), ZC) },
    R { n: "zettacoulomb", u: 74, e: 21, own: |v| value!(quantity!(v, zettacoulomb), zettacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zettacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), zettacoulomb) },
    R { n: "YC", u: 74, e: 24, own: |v| value!(quantity!(v, YC), YC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), YC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), YC) },
    R { n: "yottacoulomb", u: 74, e: 24, own: |v| value!(quantity!(v, yottacoulomb), yottacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yottacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), yottacoulomb) },
    R { n: "RC", u: 74, e: 27, own: |v| value!(quantity!(v, RC), RC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), RC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), RC) },
    R { n: "ronnacoulomb", u: 74, e: 27, own: |v| value!(quantity!(v, ronnacoulomb), ronnacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), ronnacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), ronnacoulomb) },
    R { n: "QC", u: 74, e: 30, own: |v| value!(quantity!(v, QC), QC), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), QC), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), QC) },
    R { n: "quettacoulomb", u: 74, e: 30, own: |v| value!(quantity!(v, quettacoulomb), quettacoulomb), base: |v| value!(Q0::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), quettacoulomb), kilo: |v| value!(Q1::<{0}, {0}, {1}, {1}, {0}, {0}, {0}, {0}>::new(v), quettacoulomb) },
    R { n: "qV", u: 75, e: -30, own: |v| value!(quantity!(v, qV), qV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), qV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), qV) },
    R { n: "quectovolt", u: 75, e: -30, own: |v| value!(quantity!(v, quectovolt), quectovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectovolt) },
    R { n: "rV", u: 75, e: -27, own: |v| value!(quantity!(v, rV), rV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), rV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), rV) },
    R { n: "rontovolt", u: 75, e: -27, own: |v| value!(quantity!(v, rontovolt), rontovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontovolt) },
    R { n: "yV", u: 75, e: -24, own: |v| value!(quantity!(v, yV), yV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yV) },
    R { n: "yoctovolt", u: 75, e: -24, own: |v| value!(quantity!(v, yoctovolt), yoctovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctovolt) },
    R { n: "zV", u: 75, e: -21, own: |v| value!(quantity!(v, zV), zV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zV) },
    R { n: "zeptovolt", u: 75, e: -21, own: |v| value!(quantity!(v, zeptovolt), zeptovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptovolt) },
    R { n: "aV", u: 75, e: -18, own: |v| value!(quantity!(v, aV), aV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), aV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), aV) },
    R { n: "attovolt", u: 75, e: -18, own: |v| value!(quantity!(v, attovolt), attovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), attovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), attovolt) },
    R { n: "fV", u: 75, e: -15, own: |v| value!(quantity!(v, fV), fV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), fV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), fV) },
    R { n: "femtovolt", u: 75, e: -15, own: |v| value!(quantity!(v, femtovolt), femtovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtovolt) },
    R { n: "pV", u: 75, e: -12, own: |v| value!(quantity!(v, pV), pV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), pV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), pV) },
    R { n: "picovolt", u: 75, e: -12, own: |v| value!(quantity!(v, picovolt), picovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), picovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), picovolt) },
    R { n: "nV", u: 75, e: -9, own: |v| value!(quantity!(v, nV), nV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), nV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), nV) },
    R { n: "µV", u: 75, e: -6, own: |v| value!(quantity!(v, µV), µV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), µV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), µV) },
    R { n: "microvolt", u: 75, e: -6, own: |v| value!(quantity!(v, microvolt), microvolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), microvolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), microvolt) },
    R { n: "millivolt", u: 75, e: -3, own: |v| value!(quantity!(v, millivolt), millivolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), millivolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), millivolt) },
    R { n: "cV", u: 75, e: -2, own: |v| value!(quantity!(v, cV), cV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), cV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), cV) },
    R { n: "centivolt", u: 75, e: -2, own: |v| value!(quantity!(v, centivolt), centivolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), centivolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), centivolt) },
    R { n: "dV", u: 75, e: -1, own: |v| value!(quantity!(v, dV), dV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), dV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), dV) },
    R { n: "decivolt", u: 75, e: -1, own: |v| value!(quantity!(v, decivolt), decivolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), decivolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), decivolt) },
    R { n: "daV", u: 75, e: 1, own: |v| value!(quantity!(v, daV), daV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), daV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), daV) },
    R { n: "decavolt", u: 75, e: 1, own: |v| value!(quantity!(v, decavolt), decavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), decavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), decavolt) },
    R { n: "hV", u: 75, e: 2, own: |v| value!(quantity!(v, hV), hV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), hV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), hV) },
    R { n: "hectovolt", u: 75, e: 2, own: |v| value!(quantity!(v, hectovolt), hectovolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectovolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectovolt) },
    R { n: "megavolt", u: 75, e: 6, own: |v| value!(quantity!(v, megavolt), megavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), megavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), megavolt) },
    R { n: "GV", u: 75, e: 9, own: |v| value!(quantity!(v, GV), GV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), GV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), GV) },
    R { n: "gigavolt", u: 75, e: 9, own: |v| value!(quantity!(v, gigavolt), gigavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigavolt) },
    R { n: "TV", u: 75, e: 12, own: |v| value!(quantity!(v, TV), TV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), TV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), TV) },
    R { n: "teravolt", u: 75, e: 12, own: |v| value!(quantity!(v, teravolt), teravolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), teravolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), teravolt) },
    R { n: "PV", u: 75, e: 15, own: |v| value!(quantity!(v, PV), PV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), PV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), PV) },
    R { n: "petavolt", u: 75, e: 15, own: |v| value!(quantity!(v, petavolt), petavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), petavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), petavolt) },
    R { n: "EV", u: 75, e: 18, own: |v| value!(quantity!(v, EV), EV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), EV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), EV) },
    R { n: "exavolt", u: 75, e: 18, own: |v| value!(quantity!(v, exavolt), exavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), exavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), exavolt) },
    R { n: "ZV", u: 75, e: 21, own: |v| value!(quantity!(v, ZV), ZV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZV) },
    R { n: "zettavolt", u: 75, e: 21, own: |v| value!(quantity!(v, zettavolt), zettavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettavolt) },
    R { n: "YV", u: 75, e: 24, own: |v| value!(quantity!(v, YV), YV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), YV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), YV) },
    R { n: "yottavolt", u: 75, e: 24, own: |v| value!(quantity!(v, yottavolt), yottavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottavolt) },
    R { n: "RV", u: 75, e: 27, own: |v| value!(quantity!(v, RV), RV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), RV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), RV) },
    R { n: "ronnavolt", u: 75, e: 27, own: |v| value!(quantity!(v, ronnavolt), ronnavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnavolt) },
    R { n: "QV", u: 75, e: 30, own: |v| value!(quantity!(v, QV), QV), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), QV), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), QV) },
    R { n: "quettavolt", u: 75, e: 30, own: |v| value!(quantity!(v, quettavolt), quettavolt), base: |v| value!(Q0::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettavolt), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettavolt) },
    R { n: "qF", u: 76, e: -30, own: |v| value!(quantity!(v, qF), qF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), qF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), qF) },
    R { n: "quectofarad", u: 76, e: -30, own: |v| value!(quantity!(v, quectofarad), quectofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), quectofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), quectofarad) },
    R { n: "rF", u: 76, e: -27, own: |v| value!(quantity!(v, rF), rF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), rF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), rF) },
    R { n: "rontofarad", u: 76, e: -27, own: |v| value!(quantity!(v, rontofarad), rontofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), rontofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), rontofarad) },
    R { n: "yF", u: 76, e: -24, own: |v| value!(quantity!(v, yF), yF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yF) },
    R { n: "yoctofarad", u: 76, e: -24, own: |v| value!(quantity!(v, yoctofarad), yoctofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yoctofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yoctofarad) },
    R { n: "zF", u: 76, e: -21, own: |v| value!(quantity!(v, zF), zF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zF) },
    R { n: "zeptofarad", u: 76, e: -21, own: |v| value!(quantity!(v, zeptofarad), zeptofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zeptofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zeptofarad) },
    R { n: "aF", u: 76, e: -18, own: |v| value!(quantity!(v, aF), aF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), aF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), aF) },
    R { n: "attofarad", u: 76, e: -18, own: |v| value!(quantity!(v, attofarad), attofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), attofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), attofarad) },
    R { n: "fF", u: 76, e: -15, own: |v| value!(quantity!(v, fF), fF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), fF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), fF) },
    R { n: "femtofarad", u: 76, e: -15, own: |v| value!(quantity!(v, femtofarad), femtofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), femtofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), femtofarad) },
    R { n: "pF", u: 76, e: -12, own: |v| value!(quantity!(v, pF), pF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), pF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), pF) },
    R { n: "picofarad", u: 76, e: -12, own: |v| value!(quantity!(v, picofarad), picofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), picofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), picofarad) },
    R { n: "nF", u: 76, e: -9, own: |v| value!(quantity!(v, nF), nF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), nF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), nF) },
    R { n: "µF", u: 76, e: -6, own: |v| value!(quantity!(v, µF), µF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), µF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), µF) },
    R { n: "microfarad", u: 76, e: -6, own: |v| value!(quantity!(v, microfarad), microfarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), microfarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), microfarad) },
    R { n: "millifarad", u: 76, e: -3, own: |v| value!(quantity!(v, millifarad), millifarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), millifarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), millifarad) },
    R { n: "cF", u: 76, e: -2, own: |v| value!(quantity!(v, cF), cF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), cF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), cF) },
    R { n: "centifarad", u: 76, e: -2, own: |v| value!(quantity!(v, centifarad), centifarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), centifarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), centifarad) },
    R { n: "dF", u: 76, e: -1, own: |v| value!(quantity!(v, dF), dF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), dF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), dF) },
    R { n: "decifarad", u: 76, e: -1, own: |v| value!(quantity!(v, decifarad), decifarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), decifarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), decifarad) },
    R { n: "daF", u: 76, e: 1, own: |v| value!(quantity!(v, daF), daF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), daF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), daF) },
    R { n: "decafarad", u: 76, e: 1, own: |v| value!(quantity!(v, decafarad), decafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), decafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), decafarad) },
    R { n: "hF", u: 76, e: 2, own: |v| value!(quantity!(v, hF), hF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), hF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), hF) },
    R { n: "hectofarad", u: 76, e: 2, own: |v| value!(quantity!(v, hectofarad), hectofarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), hectofarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), hectofarad) },
    R { n: "megafarad", u: 76, e: 6, own: |v| value!(quantity!(v, megafarad), megafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), megafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), megafarad) },
    R { n: "GF", u: 76, e: 9, own: |v| value!(quantity!(v, GF), GF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), GF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), GF) },
    R { n: "gigafarad", u: 76, e: 9, own: |v| value!(quantity!(v, gigafarad), gigafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), gigafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), gigafarad) },
    R { n: "TF", u: 76, e: 12, own: |v| value!(quantity!(v, TF), TF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), TF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), TF) },
    R { n: "terafarad", u: 76, e: 12, own: |v| value!(quantity!(v, terafarad), terafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), terafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), terafarad) },
    R { n: "PF", u: 76, e: 15, own: |v| value!(quantity!(v, PF), PF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), PF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), PF) },
    R { n: "petafarad", u: 76, e: 15, own: |v| value!(quantity!(v, petafarad), petafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), petafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), petafarad) },
    R { n: "EF", u: 76, e: 18, own: |v| value!(quantity!(v, EF), EF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), EF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), EF) },
    R { n: "exafarad", u: 76, e: 18, own: |v| value!(quantity!(v, exafarad), exafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), exafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), exafarad) },
    R { n: "ZF", u: 76, e: 21, own: |v| value!(quantity!(v, ZF), ZF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), ZF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), ZF) },
    R { n: "zettafarad", u: 76, e: 21, own: |v| value!(quantity!(v, zettafarad), zettafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zettafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), zettafarad) },
    R { n: "YF", u: 76, e: 24, own: |v| value!(quantity!(v, YF), YF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), YF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), YF) },
    R { n: "yottafarad", u: 76, e: 24, own: |v| value!(quantity!(v, yottafarad), yottafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yottafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), yottafarad) },
    R { n: "RF", u: 76, e: 27, own: |v| value!(quantity!(v, RF), RF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), RF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), RF) },
    R { n: "ronnafarad", u: 76, e: 27, own: |v| value!(quantity!(v, ronnafarad), ronnafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), ronnafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), ronnafarad) },
    R { n: "QF", u: 76, e: 30, own: |v| value!(quantity!(v, QF), QF), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), QF), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), QF) },
    R { n: "quettafarad", u: 76, e: 30, own: |v| value!(quantity!(v, quettafarad), quettafarad), base: |v| value!(Q0::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), quettafarad), kilo: |v| value!(Q1::<{-1}, {-2}, {4}, {2}, {0}, {0}, {0}, {0}>::new(v), quettafarad) },
    R { n: "qΩ", u: 77, e: -30, own: |v| value!(quantity!(v, qΩ), qΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), qΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), qΩ) },
    R { n: "quectoohm", u: 77, e: -30, own: |v| value!(quantity!(v, quectoohm), quectoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), quectoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), quectoohm) },
    R { n: "rΩ", u: 77, e: -27, own: |v| value!(quantity!(v, rΩ), rΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), rΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), rΩ) },
    R { n: "rontoohm", u: 77, e: -27, own: |v| value!(quantity!(v, rontoohm), rontoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), rontoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), rontoohm) },
    R { n: "yΩ", u: 77, e: -24, own: |v| value!(quantity!(v, yΩ), yΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yΩ) },
    R { n: "yoctoohm", u: 77, e: -24, own: |v| value!(quantity!(v, yoctoohm), yoctoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yoctoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yoctoohm) },
    R { n: "zΩ", u: 77, e: -21, own: |v| value!(quantity!(v, zΩ), zΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zΩ) },
    R { n: "zeptoohm", u: 77, e: -21, own: |v| value!(quantity!(v, zeptoohm), zeptoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zeptoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zeptoohm) },
    R { n: "aΩ", u: 77, e: -18, own: |v| value!(quantity!(v, aΩ), aΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), aΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), aΩ) },
    R { n: "attoohm", u: 77, e: -18, own: |v| value!(quantity!(v, attoohm), attoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), attoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), attoohm) },
    R { n: "fΩ", u: 77, e: -15, own: |v| value!(quantity!(v, fΩ), fΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), fΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), fΩ) },
    R { n: "femtoohm", u: 77, e: -15, own: |v| value!(quantity!(v, femtoohm), femtoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), femtoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), femtoohm) },
    R { n: "pΩ", u: 77, e: -12, own: |v| value!(quantity!(v, pΩ), pΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), pΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), pΩ) },
    R { n: "picoohm", u: 77, e: -12, own: |v| value!(quantity!(v, picoohm), picoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), picoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), picoohm) },
    R { n: "nΩ", u: 77, e: -9, own: |v| value!(quantity!(v, nΩ), nΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), nΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), nΩ) },
    R { n: "µΩ", u: 77, e: -6, own: |v| value!(quantity!(v, µΩ), µΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), µΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), µΩ) },
    R { n: "microohm", u: 77, e: -6, own: |v| value!(quantity!(v, microohm), microohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), microohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), microohm) },
    R { n: "milliohm", u: 77, e: -3, own: |v| value!(quantity!(v, milliohm), milliohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), milliohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), milliohm) },
    R { n: "cΩ", u: 77, e: -2, own: |v| value!(quantity!(v, cΩ), cΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), cΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), cΩ) },
    R { n: "centiohm", u: 77, e: -2, own: |v| value!(quantity!(v, centiohm), centiohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), centiohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), centiohm) },
    R { n: "dΩ", u: 77, e: -1, own: |v| value!(quantity!(v, dΩ), dΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), dΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), dΩ) },
    R { n: "deciohm", u: 77, e: -1, own: |v| value!(quantity!(v, deciohm), deciohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), deciohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), deciohm) },
    R { n: "daΩ", u: 77, e: 1, own: |v| value!(quantity!(v, daΩ), daΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), daΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), daΩ) },
    R { n: "decaohm", u: 77, e: 1, own: |v| value!(quantity!(v, decaohm), decaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), decaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), decaohm) },
    R { n: "hΩ", u: 77, e: 2, own: |v| value!(quantity!(v, hΩ), hΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), hΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), hΩ) },
    R { n: "hectoohm", u: 77, e: 2, own: |v| value!(quantity!(v, hectoohm), hectoohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), hectoohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), hectoohm) },
    R { n: "megaohm", u: 77, e: 6, own: |v| value!(quantity!(v, megaohm), megaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), megaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), megaohm) },
    R { n: "GΩ", u: 77, e: 9, own: |v| value!(quantity!(v, GΩ), GΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), GΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), GΩ) },
    R { n: "gigaohm", u: 77, e: 9, own: |v| value!(quantity!(v, gigaohm), gigaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), gigaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), gigaohm) },
    R { n: "TΩ", u: 77, e: 12, own: |v| value!(quantity!(v, TΩ), TΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), TΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), TΩ) },
    R { n: "teraohm", u: 77, e: 12, own: |v| value!(quantity!(v, teraohm), teraohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), teraohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), teraohm) },
    R { n: "PΩ", u: 77, e: 15, own: |v| value!(quantity!(v, PΩ), PΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), PΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), PΩ) },
    R { n: "petaohm", u: 77, e: 15, own: |v| value!(quantity!(v, petaohm), petaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), petaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), petaohm) },
    R { n: "EΩ", u: 77, e: 18, own: |v| value!(quantity!(v, EΩ), EΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), EΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), EΩ) },
    R { n: "exaohm", u: 77, e: 18, own: |v| value!(quantity!(v, exaohm), exaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), exaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), exaohm) },
    R { n: "ZΩ", u: 77, e: 21, own: |v| value!(quantity!(v, ZΩ), ZΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ZΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ZΩ) },
    R { n: "zettaohm", u: 77, e: 21, own: |v| value!(quantity!(v, zettaohm), zettaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zettaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), zettaohm) },
    R { n: "YΩ", u: 77, e: 24, own: |v| value!(quantity!(v, YΩ), YΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), YΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), YΩ) },
    R { n: "yottaohm", u: 77, e: 24, own: |v| value!(quantity!(v, yottaohm), yottaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yottaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), yottaohm) },
    R { n: "RΩ", u: 77, e: 27, own: |v| value!(quantity!(v, RΩ), RΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), RΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), RΩ) },
    R { n: "ronnaohm", u: 77, e: 27, own: |v| value!(quantity!(v, ronnaohm), ronnaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ronnaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), ronnaohm) },
    R { n: "QΩ", u: 77, e: 30, own: |v| value!(quantity!(v, QΩ), QΩ), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), QΩ), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), QΩ) },
    R { n: "quettaohm", u: 77, e: 30, own: |v| value!(quantity!(v, quettaohm), quettaohm), base: |v| value!(Q0::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), quettaohm), kilo: |v| value!(Q1::<{1}, {2}, {-3}, {-2}, {0}, {0}, {0}, {0}>::new(v), quettaohm) },
    R { n: "qS", u: 78, e: -30, own: |v| value!(quantity!(v, qS), qS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), qS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), qS) },
    R { n: "quectosiemens", u: 78, e: -30, own: |v| value!(quantity!(v, quectosiemens), quectosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), quectosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), quectosiemens) },
    R { n: "rS", u: 78, e: -27, own: |v| value!(quantity!(v, rS), rS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), rS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), rS) },
    R { n: "rontosiemens", u: 78, e: -27, own: |v| value!(quantity!(v, rontosiemens), rontosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), rontosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), rontosiemens) },
    R { n: "yS", u: 78, e: -24, own: |v| value!(quantity!(v, yS), yS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yS) },
    R { n: "yoctosiemens", u: 78, e: -24, own: |v| value!(quantity!(v, yoctosiemens), yoctosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yoctosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yoctosiemens) },
    R { n: "zS", u: 78, e: -21, own: |v| value!(quantity!(v, zS), zS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zS) },
    R { n: "zeptosiemens", u: 78, e: -21, own: |v| value!(quantity!(v, zeptosiemens), zeptosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zeptosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zeptosiemens) },
    R { n: "aS", u: 78, e: -18, own: |v| value!(quantity!(v, aS), aS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), aS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), aS) },
    R { n: "attosiemens", u: 78, e: -18, own: |v| value!(quantity!(v, attosiemens), attosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), attosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), attosiemens) },
    R { n: "fS", u: 78, e: -15, own: |v| value!(quantity!(v, fS), fS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), fS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), fS) },
    R { n: "femtosiemens", u: 78, e: -15, own: |v| value!(quantity!(v, femtosiemens), femtosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), femtosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), femtosiemens) },
    R { n: "pS", u: 78, e: -12, own: |v| value!(quantity!(v, pS), pS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), pS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), pS) },
    R { n: "picosiemens", u: 78, e: -12, own: |v| value!(quantity!(v, picosiemens), picosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), picosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), picosiemens) },
    R { n: "nS", u: 78, e: -9, own: |v| value!(quantity!(v, nS), nS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), nS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), nS) },
    R { n: "µS", u: 78, e: -6, own: |v| value!(quantity!(v, µS), µS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), µS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), µS) },
    R { n: "microsiemens", u: 78, e: -6, own: |v| value!(quantity!(v, microsiemens), microsiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), microsiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), microsiemens) },
    R { n: "millisiemens", u: 78, e: -3, own: |v| value!(quantity!(v, millisiemens), millisiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), millisiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), millisiemens) },
    R { n: "cS", u: 78, e: -2, own: |v| value!(quantity!(v, cS), cS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), cS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), cS) },
    R { n: "centisiemens", u: 78, e: -2, own: |v| value!(quantity!(v, centisiemens), centisiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), centisiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), centisiemens) },
    R { n: "dS", u: 78, e: -1, own: |v| value!(quantity!(v, dS), dS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), dS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), dS) },
    R { n: "decisiemens", u: 78, e: -1, own: |v| value!(quantity!(v, decisiemens), decisiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), decisiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), decisiemens) },
    R { n: "daS", u: 78, e: 1, own: |v| value!(quantity!(v, daS), daS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), daS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), daS) },
    R { n: "decasiemens", u: 78, e: 1, own: |v| value!(quantity!(v, decasiemens), decasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), decasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), decasiemens) },
    R { n: "hS", u: 78, e: 2, own: |v| value!(quantity!(v, hS), hS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), hS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), hS) },
    R { n: "hectosiemens", u: 78, e: 2, own: |v| value!(quantity!(v, hectosiemens), hectosiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), hectosiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), hectosiemens) },
    R { n: "megasiemens", u: 78, e: 6, own: |v| value!(quantity!(v, megasiemens), megasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), megasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), megasiemens) },
    R { n: "GS", u: 78, e: 9, own: |v| value!(quantity!(v, GS), GS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), GS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), GS) },
    R { n: "gigasiemens", u: 78, e: 9, own: |v| value!(quantity!(v, gigasiemens), gigasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), gigasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), gigasiemens) },
    R { n: "TS", u: 78, e: 12, own: |v| value!(quantity!(v, TS), TS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), TS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), TS) },
    R { n: "terasiemens", u: 78, e: 12, own: |v| value!(quantity!(v, terasiemens), terasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), terasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), terasiemens) },
    R { n: "PS", u: 78, e: 15, own: |v| value!(quantity!(v, PS), PS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), PS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), PS) },
    R { n: "petasiemens", u: 78, e: 15, own: |v| value!(quantity!(v, petasiemens), petasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), petasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), petasiemens) },
    R { n: "ES", u: 78, e: 18, own: |v| value!(quantity!(v, ES), ES), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ES), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ES) },
    R { n: "exasiemens", u: 78, e: 18, own: |v| value!(quantity!(v, exasiemens), exasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), exasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), exasiemens) },
    R { n: "ZS", u: 78, e: 21, own: |v| value!(quantity!(v, ZS), ZS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ZS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ZS) },
    R { n: "zettasiemens", u: 78, e: 21, own: |v| value!(quantity!(v, zettasiemens), zettasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zettasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), zettasiemens) },
    R { n: "YS", u: 78, e: 24, own: |v| value!(quantity!(v, YS), YS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), YS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), YS) },
    R { n: "yottasiemens", u: 78, e: 24, own: |v| value!(quantity!(v, yottasiemens), yottasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yottasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), yottasiemens) },
    R { n: "RS", u: 78, e: 27, own: |v| value!(quantity!(v, RS), RS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), RS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), RS) },
    R { n: "ronnasiemens", u: 78, e: 27, own: |v| value!(quantity!(v, ronnasiemens), ronnasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ronnasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), ronnasiemens) },
    R { n: "QS", u: 78, e: 30, own: |v| value!(quantity!(v, QS), QS), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), QS), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), QS) },
    R { n: "quettasiemens", u: 78, e: 30, own: |v| value!(quantity!(v, quettasiemens), quettasiemens), base: |v| value!(Q0::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), quettasiemens), kilo: |v| value!(Q1::<{-1}, {-2}, {3}, {2}, {0}, {0}, {0}, {0}>::new(v), quettasiemens) },
    R { n: "qH", u: 79, e: -30, own: |v| value!(quantity!(v, qH), qH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), qH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), qH) },
    R { n: "quectohenry", u: 79, e: -30, own: |v| value!(quantity!(v, quectohenry), quectohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), quectohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), quectohenry) },
    R { n: "rH", u: 79, e: -27, own: |v| value!(quantity!(v, rH), rH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), rH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), rH) },
    R { n: "rontohenry", u: 79, e: -27, own: |v| value!(quantity!(v, rontohenry), rontohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), rontohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), rontohenry) },
    R { n: "yH", u: 79, e: -24, own: |v| value!(quantity!(v, yH), yH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yH) },
    R { n: "yoctohenry", u: 79, e: -24, own: |v| value!(quantity!(v, yoctohenry), yoctohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yoctohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yoctohenry) },
    R { n: "zH", u: 79, e: -21, own: |v| value!(quantity!(v, zH), zH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zH) },
    R { n: "zeptohenry", u: 79, e: -21, own: |v| value!(quantity!(v, zeptohenry), zeptohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zeptohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zeptohenry) },
    R { n: "aH", u: 79, e: -18, own: |v| value!(quantity!(v, aH), aH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), aH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), aH) },
    R { n: "attohenry", u: 79, e: -18, own: |v| value!(quantity!(v, attohenry), attohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), attohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), attohenry) },
    R { n: "fH", u: 79, e: -15, own: |v| value!(quantity!(v, fH), fH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), fH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), fH) },
    R { n: "femtohenry", u: 79, e: -15, own: |v| value!(quantity!(v, femtohenry), femtohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), femtohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), femtohenry) },
    R { n: "pH", u: 79, e: -12, own: |v| value!(quantity!(v, pH), pH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), pH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), pH) },
    R { n: "picohenry", u: 79, e: -12, own: |v| value!(quantity!(v, picohenry), picohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), picohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), picohenry) },
    R { n: "nH", u: 79, e: -9, own: |v| value!(quantity!(v, nH), nH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), nH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), nH) },
    R { n: "µH", u: 79, e: -6, own: |v| value!(quantity!(v, µH), µH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), µH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), µH) },
    R { n: "microhenry", u: 79, e: -6, own: |v| value!(quantity!(v, microhenry), microhenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), microhenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), microhenry) },
    R { n: "millihenry", u: 79, e: -3, own: |v| value!(quantity!(v, millihenry), millihenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), millihenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), millihenry) },
    R { n: "cH", u: 79, e: -2, own: |v| value!(quantity!(v, cH), cH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), cH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), cH) },
    R { n: "centihenry", u: 79, e: -2, own: |v| value!(quantity!(v, centihenry), centihenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), centihenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), centihenry) },
    R { n: "dH", u: 79, e: -1, own: |v| value!(quantity!(v, dH), dH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), dH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), dH) },
    R { n: "decihenry", u: 79, e: -1, own: |v| value!(quantity!(v, decihenry), decihenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), decihenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), decihenry) },
    R { n: "daH", u: 79, e: 1, own: |v| value!(quantity!(v, daH), daH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), daH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), daH) },
    R { n: "decahenry", u: 79, e: 1, own: |v| value!(quantity!(v, decahenry), decahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), decahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), decahenry) },
    R { n: "hH", u: 79, e: 2, own: |v| value!(quantity!(v, hH), hH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), hH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), hH) },
    R { n: "hectohenry", u: 79, e: 2, own: |v| value!(quantity!(v, hectohenry), hectohenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), hectohenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), hectohenry) },
    R { n: "megahenry", u: 79, e: 6, own: |v| value!(quantity!(v, megahenry), megahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), megahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), megahenry) },
    R { n: "GH", u: 79, e: 9, own: |v| value!(quantity!(v, GH), GH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), GH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), GH) },
    R { n: "gigahenry", u: 79, e: 9, own: |v| value!(quantity!(v, gigahenry), gigahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), gigahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), gigahenry) },
    R { n: "TH", u: 79, e: 12, own: |v| value!(quantity!(v, TH), TH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), TH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), TH) },
    R { n: "terahenry", u: 79, e: 12, own: |v| value!(quantity!(v, terahenry), terahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), terahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), terahenry) },
    R { n: "PH", u: 79, e: 15, own: |v| value!(quantity!(v, PH), PH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), PH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), PH) },
    R { n: "petahenry", u: 79, e: 15, own: |v| value!(quantity!(v, petahenry), petahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), petahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), petahenry) },
    R { n: "EH", u: 79, e: 18, own: |v| value!(quantity!(v, EH), EH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), EH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), EH) },
    R { n: "exahenry", u: 79, e: 18, own: |v| value!(quantity!(v, exahenry), exahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), exahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), exahenry) },
    R { n: "ZH", u: 79, e: 21, own: |v| value!(quantity!(v, ZH), ZH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), ZH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), ZH) },
    R { n: "zettahenry", u: 79, e: 21, own: |v| value!(quantity!(v, zettahenry), zettahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zettahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), zettahenry) },
    R { n: "YH", u: 79, e: 24, own: |v| value!(quantity!(v, YH), YH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), YH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), YH) },
    R { n: "yottahenry", u: 79, e: 24, own: |v| value!(quantity!(v, yottahenry), yottahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yottahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), yottahenry) },
    R { n: "RH", u: 79, e: 27, own: |v| value!(quantity!(v, RH), RH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), RH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), RH) },
    R { n: "ronnahenry", u: 79, e: 27, own: |v| value!(quantity!(v, ronnahenry), ronnahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), ronnahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), ronnahenry) },
    R { n: "QH", u: 79, e: 30, own: |v| value!(quantity!(v, QH), QH), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), QH), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), QH) },
    R { n: "quettahenry", u: 79, e: 30, own: |v| value!(quantity!(v, quettahenry), quettahenry), base: |v| value!(Q0::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), quettahenry), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-2}, {0}, {0}, {0}, {0}>::new(v), quettahenry) },
    R { n: "qT", u: 80, e: -30, own: |v| value!(quantity!(v, qT), qT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), qT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), qT) },
    R { n: "quectotesla", u: 80, e: -30, own: |v| value!(quantity!(v, quectotesla), quectotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectotesla) },
    R { n: "rT", u: 80, e: -27, own: |v| value!(quantity!(v, rT), rT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rT) },
    R { n: "rontotesla", u: 80, e: -27, own: |v| value!(quantity!(v, rontotesla), rontotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontotesla) },
    R { n: "yT", u: 80, e: -24, own: |v| value!(quantity!(v, yT), yT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yT) },
    R { n: "yoctotesla", u: 80, e: -24, own: |v| value!(quantity!(v, yoctotesla), yoctotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctotesla) },
    R { n: "zT", u: 80, e: -21, own: |v| value!(quantity!(v, zT), zT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zT) },
    R { n: "zeptotesla", u: 80, e: -21, own: |v| value!(quantity!(v, zeptotesla), zeptotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptotesla) },
    R { n: "aT", u: 80, e: -18, own: |v| value!(quantity!(v, aT), aT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), aT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), aT) },
    R { n: "attotesla", u: 80, e: -18, own: |v| value!(quantity!(v, attotesla), attotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), attotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), attotesla) },
    R { n: "fT", u: 80, e: -15, own: |v| value!(quantity!(v, fT), fT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), fT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), fT) },
    R { n: "femtotesla", u: 80, e: -15, own: |v| value!(quantity!(v, femtotesla), femtotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtotesla) },
    R { n: "pT", u: 80, e: -12, own: |v| value!(quantity!(v, pT), pT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), pT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), pT) },
    R { n: "picotesla", u: 80, e: -12, own: |v| value!(quantity!(v, picotesla), picotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), picotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), picotesla) },
    R { n: "nT", u: 80, e: -9, own: |v| value!(quantity!(v, nT), nT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nT) },
    R { n: "µT", u: 80, e: -6, own: |v| value!(quantity!(v, µT), µT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), µT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), µT) },
    R { n: "microtesla", u: 80, e: -6, own: |v| value!(quantity!(v, microtesla), microtesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), microtesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), microtesla) },
    R { n: "millitesla", u: 80, e: -3, own: |v| value!(quantity!(v, millitesla), millitesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), millitesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), millitesla) },
    R { n: "cT", u: 80, e: -2, own: |v| value!(quantity!(v, cT), cT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), cT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), cT) },
    R { n: "centitesla", u: 80, e: -2, own: |v| value!(quantity!(v, centitesla), centitesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), centitesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), centitesla) },
    R { n: "dT", u: 80, e: -1, own: |v| value!(quantity!(v, dT), dT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), dT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), dT) },
    R { n: "decitesla", u: 80, e: -1, own: |v| value!(quantity!(v, decitesla), decitesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decitesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decitesla) },
    R { n: "daT", u: 80, e: 1, own: |v| value!(quantity!(v, daT), daT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), daT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), daT) },
    R { n: "decatesla", u: 80, e: 1, own: |v| value!(quantity!(v, decatesla), decatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decatesla) },
    R { n: "hT", u: 80, e: 2, own: |v| value!(quantity!(v, hT), hT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hT) },
    R { n: "hectotesla", u: 80, e: 2, own: |v| value!(quantity!(v, hectotesla), hectotesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectotesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectotesla) },
    R { n: "megatesla", u: 80, e: 6, own: |v| value!(quantity!(v, megatesla), megatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), megatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), megatesla) },
    R { n: "GT", u: 80, e: 9, own: |v| value!(quantity!(v, GT), GT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), GT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), GT) },
    R { n: "gigatesla", u: 80, e: 9, own: |v| value!(quantity!(v, gigatesla), gigatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigatesla) },
    R { n: "TT", u: 80, e: 12, own: |v| value!(quantity!(v, TT), TT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), TT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), TT) },
    R { n: "teratesla", u: 80, e: 12, own: |v| value!(quantity!(v, teratesla), teratesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), teratesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), teratesla) },
    R { n: "PT", u: 80, e: 15, own: |v| value!(quantity!(v, PT), PT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), PT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), PT) },
    R { n: "petatesla", u: 80, e: 15, own: |v| value!(quantity!(v, petatesla), petatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), petatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), petatesla) },
    R { n: "ET", u: 80, e: 18, own: |v| value!(quantity!(v, ET), ET), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ET), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ET) },
    R { n: "exatesla", u: 80, e: 18, own: |v| value!(quantity!(v, exatesla), exatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), exatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), exatesla) },
    R { n: "ZT", u: 80, e: 21, own: |v| value!(quantity!(v, ZT), ZT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZT) },
    R { n: "zettatesla", u: 80, e: 21, own: |v| value!(quantity!(v, zettatesla), zettatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettatesla) },
    R { n: "YT", u: 80, e: 24, own: |v| value!(quantity!(v, YT), YT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), YT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), YT) },
    R { n: "yottatesla", u: 80, e: 24, own: |v| value!(quantity!(v, yottatesla), yottatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottatesla) },
    R { n: "RT", u: 80, e: 27, own: |v| value!(quantity!(v, RT), RT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), RT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), RT) },
    R { n: "ronnatesla", u: 80, e: 27, own: |v| value!(quantity!(v, ronnatesla), ronnatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnatesla) },
    R { n: "QT", u: 80, e: 30, own: |v| value!(quantity!(v, QT), QT), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), QT), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), QT) },
    R { n: "quettatesla", u: 80, e: 30, own: |v| value!(quantity!(v, quettatesla), quettatesla), base: |v| value!(Q0::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettatesla), kilo: |v| value!(Q1::<{1}, {0}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettatesla) },
    R { n: "qWb", u: 81, e: -30, own: |v| value!(quantity!(v, qWb), qWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), qWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), qWb) },
    R { n: "quectoweber", u: 81, e: -30, own: |v| value!(quantity!(v, quectoweber), quectoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quectoweber) },
    R { n: "rWb", u: 81, e: -27, own: |v| value!(quantity!(v, rWb), rWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rWb) },
    R { n: "rontoweber", u: 81, e: -27, own: |v| value!(quantity!(v, rontoweber), rontoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), rontoweber) },
    R { n: "yWb", u: 81, e: -24, own: |v| value!(quantity!(v, yWb), yWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yWb) },
    R { n: "yoctoweber", u: 81, e: -24, own: |v| value!(quantity!(v, yoctoweber), yoctoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yoctoweber) },
    R { n: "zWb", u: 81, e: -21, own: |v| value!(quantity!(v, zWb), zWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zWb) },
    R { n: "zeptoweber", u: 81, e: -21, own: |v| value!(quantity!(v, zeptoweber), zeptoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zeptoweber) },
    R { n: "aWb", u: 81, e: -18, own: |v| value!(quantity!(v, aWb), aWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), aWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), aWb) },
    R { n: "attoweber", u: 81, e: -18, own: |v| value!(quantity!(v, attoweber), attoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), attoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), attoweber) },
    R { n: "fWb", u: 81, e: -15, own: |v| value!(quantity!(v, fWb), fWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), fWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), fWb) },
    R { n: "femtoweber", u: 81, e: -15, own: |v| value!(quantity!(v, femtoweber), femtoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), femtoweber) },
    R { n: "pWb", u: 81, e: -12, own: |v| value!(quantity!(v, pWb), pWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), pWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), pWb) },
    R { n: "picoweber", u: 81, e: -12, own: |v| value!(quantity!(v, picoweber), picoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), picoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), picoweber) },
    R { n: "nWb", u: 81, e: -9, own: |v| value!(quantity!(v, nWb), nWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), nWb) },
    R { n: "µWb", u: 81, e: -6, own: |v| value!(quantity!(v, µWb), µWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), µWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), µWb) },
    R { n: "microweber", u: 81, e: -6, own: |v| value!(quantity!(v, microweber), microweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), microweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), microweber) },
    R { n: "milliweber", u: 81, e: -3, own: |v| value!(quantity!(v, milliweber), milliweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), milliweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), milliweber) },
    R { n: "cWb", u: 81, e: -2, own: |v| value!(quantity!(v, cWb), cWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), cWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), cWb) },
    R { n: "centiweber", u: 81, e: -2, own: |v| value!(quantity!(v, centiweber), centiweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), centiweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), centiweber) },
    R { n: "dWb", u: 81, e: -1, own: |v| value!(quantity!(v, dWb), dWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), dWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), dWb) },
    R { n: "deciweber", u: 81, e: -1, own: |v| value!(quantity!(v, deciweber), deciweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), deciweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), deciweber) },
    R { n: "daWb", u: 81, e: 1, own: |v| value!(quantity!(v, daWb), daWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), daWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), daWb) },
    R { n: "decaweber", u: 81, e: 1, own: |v| value!(quantity!(v, decaweber), decaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), decaweber) },
    R { n: "hWb", u: 81, e: 2, own: |v| value!(quantity!(v, hWb), hWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hWb) },
    R { n: "hectoweber", u: 81, e: 2, own: |v| value!(quantity!(v, hectoweber), hectoweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectoweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), hectoweber) },
    R { n: "megaweber", u: 81, e: 6, own: |v| value!(quantity!(v, megaweber), megaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), megaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), megaweber) },
    R { n: "GWb", u: 81, e: 9, own: |v| value!(quantity!(v, GWb), GWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), GWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), GWb) },
    R { n: "gigaweber", u: 81, e: 9, own: |v| value!(quantity!(v, gigaweber), gigaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), gigaweber) },
    R { n: "TWb", u: 81, e: 12, own: |v| value!(quantity!(v, TWb), TWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), TWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), TWb) },
    R { n: "teraweber", u: 81, e: 12, own: |v| value!(quantity!(v, teraweber), teraweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), teraweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), teraweber) },
    R { n: "PWb", u: 81, e: 15, own: |v| value!(quantity!(v, PWb), PWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), PWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), PWb) },
    R { n: "petaweber", u: 81, e: 15, own: |v| value!(quantity!(v, petaweber), petaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), petaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), petaweber) },
    R { n: "EWb", u: 81, e: 18, own: |v| value!(quantity!(v, EWb), EWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), EWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), EWb) },
    R { n: "exaweber", u: 81, e: 18, own: |v| value!(quantity!(v, exaweber), exaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), exaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), exaweber) },
    R { n: "ZWb", u: 81, e: 21, own: |v| value!(quantity!(v, ZWb), ZWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ZWb) },
    R { n: "zettaweber", u: 81, e: 21, own: |v| value!(quantity!(v, zettaweber), zettaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), zettaweber) },
    R { n: "YWb", u: 81, e: 24, own: |v| value!(quantity!(v, YWb), YWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), YWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), YWb) },
    R { n: "yottaweber", u: 81, e: 24, own: |v| value!(quantity!(v, yottaweber), yottaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), yottaweber) },
    R { n: "RWb", u: 81, e: 27, own: |v| value!(quantity!(v, RWb), RWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), RWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), RWb) },
    R { n: "ronnaweber", u: 81, e: 27, own: |v| value!(quantity!(v, ronnaweber), ronnaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), ronnaweber) },
    R { n: "QWb", u: 81, e: 30, own: |v| value!(quantity!(v, QWb), QWb), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), QWb), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), QWb) },
    R { n: "quettaweber", u: 81, e: 30, own: |v| value!(quantity!(v, quettaweber), quettaweber), base: |v| value!(Q0::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettaweber), kilo: |v| value!(Q1::<{1}, {2}, {-2}, {-1}, {0}, {0}, {0}, {0}>::new(v), quettaweber) },
    R { n: "qlx", u: 82, e: -30, own: |v| value!(quantity!(v, qlx), qlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), qlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), qlx) },
    R { n: "quectolux", u: 82, e: -30, own: |v| value!(quantity!(v, quectolux), quectolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quectolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quectolux) },
    R { n: "rlx", u: 82, e: -27, own: |v| value!(quantity!(v, rlx), rlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rlx) },
    R { n: "rontolux", u: 82, e: -27, own: |v| value!(quantity!(v, rontolux), rontolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rontolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), rontolux) },
    R { n: "ylx", u: 82, e: -24, own: |v| value!(quantity!(v, ylx), ylx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ylx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ylx) },
    R { n: "yoctolux", u: 82, e: -24, own: |v| value!(quantity!(v, yoctolux), yoctolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yoctolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yoctolux) },
    R { n: "zlx", u: 82, e: -21, own: |v| value!(quantity!(v, zlx), zlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zlx) },
    R { n: "zeptolux", u: 82, e: -21, own: |v| value!(quantity!(v, zeptolux), zeptolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zeptolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zeptolux) },
    R { n: "alx", u: 82, e: -18, own: |v| value!(quantity!(v, alx), alx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), alx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), alx) },
    R { n: "attolux", u: 82, e: -18, own: |v| value!(quantity!(v, attolux), attolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), attolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), attolux) },
    R { n: "flx", u: 82, e: -15, own: |v| value!(quantity!(v, flx), flx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), flx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), flx) },
    R { n: "femtolux", u: 82, e: -15, own: |v| value!(quantity!(v, femtolux), femtolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), femtolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), femtolux) },
    R { n: "plx", u: 82, e: -12, own: |v| value!(quantity!(v, plx), plx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), plx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), plx) },
    R { n: "picolux", u: 82, e: -12, own: |v| value!(quantity!(v, picolux), picolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), picolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), picolux) },
    R { n: "nlx", u: 82, e: -9, own: |v| value!(quantity!(v, nlx), nlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), nlx) },
    R { n: "µlx", u: 82, e: -6, own: |v| value!(quantity!(v, µlx), µlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), µlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), µlx) },
    R { n: "microlux", u: 82, e: -6, own: |v| value!(quantity!(v, microlux), microlux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), microlux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), microlux) },
    R { n: "millilux", u: 82, e: -3, own: |v| value!(quantity!(v, millilux), millilux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), millilux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), millilux) },
    R { n: "clx", u: 82, e: -2, own: |v| value!(quantity!(v, clx), clx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), clx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), clx) },
    R { n: "centilux", u: 82, e: -2, own: |v| value!(quantity!(v, centilux), centilux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), centilux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), centilux) },
    R { n: "dlx", u: 82, e: -1, own: |v| value!(quantity!(v, dlx), dlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dlx) },
    R { n: "decilux", u: 82, e: -1, own: |v| value!(quantity!(v, decilux), decilux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decilux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decilux) },
    R { n: "dalx", u: 82, e: 1, own: |v| value!(quantity!(v, dalx), dalx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dalx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), dalx) },
    R { n: "decalux", u: 82, e: 1, own: |v| value!(quantity!(v, decalux), decalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), decalux) },
    R { n: "hlx", u: 82, e: 2, own: |v| value!(quantity!(v, hlx), hlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hlx) },
    R { n: "hectolux", u: 82, e: 2, own: |v| value!(quantity!(v, hectolux), hectolux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hectolux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), hectolux) },
    R { n: "megalux", u: 82, e: 6, own: |v| value!(quantity!(v, megalux), megalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), megalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), megalux) },
    R { n: "Glx", u: 82, e: 9, own: |v| value!(quantity!(v, Glx), Glx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Glx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Glx) },
    R { n: "gigalux", u: 82, e: 9, own: |v| value!(quantity!(v, gigalux), gigalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), gigalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), gigalux) },
    R { n: "Tlx", u: 82, e: 12, own: |v| value!(quantity!(v, Tlx), Tlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Tlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Tlx) },
    R { n: "teralux", u: 82, e: 12, own: |v| value!(quantity!(v, teralux), teralux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), teralux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), teralux) },
    R { n: "Plx", u: 82, e: 15, own: |v| value!(quantity!(v, Plx), Plx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Plx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Plx) },
    R { n: "petalux", u: 82, e: 15, own: |v| value!(quantity!(v, petalux), petalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), petalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), petalux) },
    R { n: "Elx", u: 82, e: 18, own: |v| value!(quantity!(v, Elx), Elx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Elx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Elx) },
    R { n: "exalux", u: 82, e: 18, own: |v| value!(quantity!(v, exalux), exalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), exalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), exalux) },
    R { n: "Zlx", u: 82, e: 21, own: |v| value!(quantity!(v, Zlx), Zlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Zlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Zlx) },
    R { n: "zettalux", u: 82, e: 21, own: |v| value!(quantity!(v, zettalux), zettalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zettalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), zettalux) },
    R { n: "Ylx", u: 82, e: 24, own: |v| value!(quantity!(v, Ylx), Ylx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ylx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Ylx) },
    R { n: "yottalux", u: 82, e: 24, own: |v| value!(quantity!(v, yottalux), yottalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yottalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), yottalux) },
    R { n: "Rlx", u: 82, e: 27, own: |v| value!(quantity!(v, Rlx), Rlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Rlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Rlx) },
    R { n: "ronnalux", u: 82, e: 27, own: |v| value!(quantity!(v, ronnalux), ronnalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ronnalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), ronnalux) },
    R { n: "Qlx", u: 82, e: 30, own: |v| value!(quantity!(v, Qlx), Qlx), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Qlx), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), Qlx) },
    R { n: "quettalux", u: 82, e: 30, own: |v| value!(quantity!(v, quettalux), quettalux), base: |v| value!(Q0::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quettalux), kilo: |v| value!(Q1::<{0}, {-2}, {0}, {0}, {0}, {0}, {1}, {0}>::new(v), quettalux) },
    R { n: "qSt", u: 84, e: -30, own: |v| value!(quantity!(v, qSt), qSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), qSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), qSt) },
    R { n: "quectostokes", u: 84, e: -30, own: |v| value!(quantity!(v, quectostokes), quectostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quectostokes) },
    R { n: "rSt", u: 84, e: -27, own: |v| value!(quantity!(v, rSt), rSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rSt) },
    R { n: "rontostokes", u: 84, e: -27, own: |v| value!(quantity!(v, rontostokes), rontostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), rontostokes) },
    R { n: "ySt", u: 84, e: -24, own: |v| value!(quantity!(v, ySt), ySt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ySt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ySt) },
    R { n: "yoctostokes", u: 84, e: -24, own: |v| value!(quantity!(v, yoctostokes), yoctostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yoctostokes) },
    R { n: "zSt", u: 84, e: -21, own: |v| value!(quantity!(v, zSt), zSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zSt) },
    R { n: "zeptostokes", u: 84, e: -21, own: |v| value!(quantity!(v, zeptostokes), zeptostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zeptostokes) },
    R { n: "aSt", u: 84, e: -18, own: |v| value!(quantity!(v, aSt), aSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), aSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), aSt) },
    R { n: "attostokes", u: 84, e: -18, own: |v| value!(quantity!(v, attostokes), attostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), attostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), attostokes) },
    R { n: "fSt", u: 84, e: -15, own: |v| value!(quantity!(v, fSt), fSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), fSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), fSt) },
    R { n: "femtostokes", u: 84, e: -15, own: |v| value!(quantity!(v, femtostokes), femtostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), femtostokes) },
    R { n: "pSt", u: 84, e: -12, own: |v| value!(quantity!(v, pSt), pSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), pSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), pSt) },
    R { n: "picostokes", u: 84, e: -12, own: |v| value!(quantity!(v, picostokes), picostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), picostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), picostokes) },
    R { n: "nSt", u: 84, e: -9, own: |v| value!(quantity!(v, nSt), nSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), nSt) },
    R { n: "µSt", u: 84, e: -6, own: |v| value!(quantity!(v, µSt), µSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), µSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), µSt) },
    R { n: "microstokes", u: 84, e: -6, own: |v| value!(quantity!(v, microstokes), microstokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), microstokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), microstokes) },
    R { n: "millistokes", u: 84, e: -3, own: |v| value!(quantity!(v, millistokes), millistokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), millistokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), millistokes) },
    R { n: "cSt", u: 84, e: -2, own: |v| value!(quantity!(v, cSt), cSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), cSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), cSt) },
    R { n: "centistokes", u: 84, e: -2, own: |v| value!(quantity!(v, centistokes), centistokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), centistokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), centistokes) },
    R { n: "dSt", u: 84, e: -1, own: |v| value!(quantity!(v, dSt), dSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), dSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), dSt) },
    R { n: "decistokes", u: 84, e: -1, own: |v| value!(quantity!(v, decistokes), decistokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decistokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decistokes) },
    R { n: "daSt", u: 84, e: 1, own: |v| value!(quantity!(v, daSt), daSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), daSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), daSt) },
    R { n: "decastokes", u: 84, e: 1, own: |v| value!(quantity!(v, decastokes), decastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), decastokes) },
    R { n: "hSt", u: 84, e: 2, own: |v| value!(quantity!(v, hSt), hSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hSt) },
    R { n: "hectostokes", u: 84, e: 2, own: |v| value!(quantity!(v, hectostokes), hectostokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectostokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), hectostokes) },
    R { n: "megastokes", u: 84, e: 6, own: |v| value!(quantity!(v, megastokes), megastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), megastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), megastokes) },
    R { n: "GSt", u: 84, e: 9, own: |v| value!(quantity!(v, GSt), GSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), GSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), GSt) },
    R { n: "gigastokes", u: 84, e: 9, own: |v| value!(quantity!(v, gigastokes), gigastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), gigastokes) },
    R { n: "TSt", u: 84, e: 12, own: |v| value!(quantity!(v, TSt), TSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), TSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), TSt) },
    R { n: "terastokes", u: 84, e: 12, own: |v| value!(quantity!(v, terastokes), terastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), terastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), terastokes) },
    R { n: "PSt", u: 84, e: 15, own: |v| value!(quantity!(v, PSt), PSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), PSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), PSt) },
    R { n: "petastokes", u: 84, e: 15, own: |v| value!(quantity!(v, petastokes), petastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), petastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), petastokes) },
    R { n: "ESt", u: 84, e: 18, own: |v| value!(quantity!(v, ESt), ESt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ESt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ESt) },
    R { n: "exastokes", u: 84, e: 18, own: |v| value!(quantity!(v, exastokes), exastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), exastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), exastokes) },
    R { n: "ZSt", u: 84, e: 21, own: |v| value!(quantity!(v, ZSt), ZSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ZSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ZSt) },
    R { n: "zettastokes", u: 84, e: 21, own: |v| value!(quantity!(v, zettastokes), zettastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), zettastokes) },
    R { n: "YSt", u: 84, e: 24, own: |v| value!(quantity!(v, YSt), YSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), YSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), YSt) },
    R { n: "yottastokes", u: 84, e: 24, own: |v| value!(quantity!(v, yottastokes), yottastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), yottastokes) },
    R { n: "RSt", u: 84, e: 27, own: |v| value!(quantity!(v, RSt), RSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), RSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), RSt) },
    R { n: "ronnastokes", u: 84, e: 27, own: |v| value!(quantity!(v, ronnastokes), ronnastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), ronnastokes) },
    R { n: "QSt", u: 84, e: 30, own: |v| value!(quantity!(v, QSt), QSt), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), QSt), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), QSt) },
    R { n: "quettastokes", u: 84, e: 30, own: |v| value!(quantity!(v, quettastokes), quettastokes), base: |v| value!(Q0::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettastokes), kilo: |v| value!(Q1::<{0}, {2}, {-1}, {0}, {0}, {0}, {0}, {0}>::new(v), quettastokes) },
];
pub static DECL: &[C] = &[
    C { n: "grams", u: 0, e: 0, f: |v| out(v.grams()) },
    C { n: "quectograms", u: 0, e: -30, f: |v| out(v.quectograms()) },
    C { n: "rontograms", u: 0, e: -27, f: |v| out(v.rontograms()) },
    C { n: "yoctograms", u: 0, e: -24, f: |v| out(v.yoctograms()) },
    C { n: "zeptograms", u: 0, e: -21, f: |v| out(v.zeptograms()) },
    C { n: "attograms", u: 0, e: -18, f: |v| out(v.attograms()) },
    C { n: "femtograms", u: 0, e: -15, f: |v| out(v.femtograms()) },
    C { n: "picograms", u: 0, e: -12, f: |v| out(v.picograms()) },
    C { n: "nanograms", u: 0, e: -9, f: |v| out(v.nanograms()) },
    C { n: "micrograms", u: 0, e: -6, f: |v| out(v.micrograms()) },
    C { n: "milligrams", u: 0, e: -3, f: |v| out(v.milligrams()) },
    C { n: "centigrams", u: 0, e: -2, f: |v| out(v.centigrams()) },
    C { n: "decigrams", u: 0, e: -1, f: |v| out(v.decigrams()) },
    C { n: "decagrams", u: 0, e: 1, f: |v| out(v.decagrams()) },
    C { n: "hectograms", u: 0, e: 2, f: |v| out(v.hectograms()) },
    C { n: "kilograms", u: 0, e: 3, f: |v| out(v.kilograms()) },
    C { n: "megagrams", u: 0, e: 6, f: |v| out(v.megagrams()) },
    C { n: "gigagrams", u: 0, e: 9, f: |v| out(v.gigagrams()) },
    C { n: "teragrams", u: 0, e: 12, f: |v| out(v.teragrams()) },
    C { n: "petagrams", u: 0, e: 15, f: |v| out(v.petagrams()) },
    C { n: "exagrams", u: 0, e: 18, f: |v| out(v.exagrams()) },
    C { n: "zettagrams", u: 0, e: 21, f: |v| out(v.zettagrams()) },
    C { n: "yottagrams", u: 0, e: 24, f: |v| out(v.yottagrams()) },
    C { n: "ronnagrams", u: 0, e: 27, f: |v| out(v.ronnagrams()) },
    C { n: "quettagrams", u: 0, e: 30, f: |v| out(v.quettagrams()) },
    C { n: "grains", u: 1, e: 0, f: |v| out(v.grains()) },
    C { n: "carats", u: 2, e: 0, f: |v| out(v.carats()) },
    C { n: "quectocarats", u: 2, e: -30, f: |v| out(v.quectocarats()) },
    C { n: "rontocarats", u: 2, e: -27, f: |v| out(v.rontocarats()) },
    C { n: "yoctocarats", u: 2, e: -24, f: |v| out(v.yoctocarats()) },
    C { n: "zeptocarats", u: 2, e: -21, f: |v| out(v.zeptocarats()) },
    C { n: "attocarats", u: 2, e: -18, f: |v| out(v.attocarats()) },
    C { n: "femtocarats", u: 2, e: -15, f: |v| out(v.femtocarats()) },
    C { n: "picocarats", u: 2, e: -12, f: |v| out(v.picocarats()) },
    C { n: "nanocarats", u: 2, e: -9, f: |v| out(v.nanocarats()) },
    C { n: "microcarats", u: 2, e: -6, f: |v| out(v.microcarats()) },
    C { n: "millicarats", u: 2, e: -3, f: |v| out(v.millicarats()) },
    C { n: "centicarats", u: 2, e: -2, f: |v| out(v.centicarats()) },
    C { n: "decicarats", u: 2, e: -1, f: |v| out(v.decicarats()) },
    C { n: "decacarats", u: 2, e: 1, f: |v| out(v.decacarats()) },
    C { n: "hectocarats", u: 2, e: 2, f: |v| out(v.hectocarats()) },
    C { n: "kilocarats", u: 2, e: 3, f: |v| out(v.kilocarats()) },
    C { n: "megacarats", u: 2, e: 6, f: |v| out(v.megacarats()) },
    C { n: "gigacarats", u: 2, e: 9, f: |v| out(v.gigacarats()) },
    C { n: "teracarats", u: 2, e: 12, f: |v| out(v.teracarats()) },
    C { n: "petacarats", u: 2, e: 15, f: |v| out(v.petacarats()) },
    C { n: "exacarats", u: 2, e: 18, f: |v| out(v.exacarats()) },
    C { n: "zettacarats", u: 2, e: 21, f: |v| out(v.zettacarats()) },
    C { n: "yottacarats", u: 2, e: 24, f: |v| out(v.yottacarats()) },
    C { n: "ronnacarats", u: 2, e: 27, f: |v| out(v.ronnacarats()) },
    C { n: "quettacarats", u: 2, e: 30, f: |v| out(v.quettacarats()) },
    C { n: "ounces", u: 3, e: 0, f: |v| out(v.ounces()) },
    C { n: "troy_ounces", u: 4, e: 0, f: |v| out(v.troy_ounces()) },
    C { n: "troy_pounds", u: 5, e: 0, f: |v| out(v.troy_pounds()) },
    C { n: "pounds", u: 6, e: 0, f: |v| out(v.pounds()) },
    C { n: "stone", u: 7, e: 0, f: |v| out(v.stone()) },
    C { n: "tons", u: 8, e: 0, f: |v| out(v.tons()) },
    C { n: "meters", u: 9, e: 0, f: |v| out(v.meters()) },
    C { n: "quectometers", u: 9, e: -30, f: |v| out(v.quectometers()) },
    C { n: "rontometers", u: 9, e: -27, f: |v| out(v.rontometers()) },
    C { n: "yoctometers", u: 9, e: -24, f: |v| out(v.yoctometers()) },
    C { n: "zeptometers", u: 9, e: -21, f: |v| out(v.zeptometers()) },
    C { n: "attometers", u: 9, e: -18, f: |v| out(v.attometers()) },
    C { n: "femtometers", u: 9, e: -15, f: |v| out(v.femtometers()) },
    C { n: "picometers", u: 9, e: -12, f: |v| out(v.picometers()) },
    C { n: "nanometers", u: 9, e: -9, f: |v| out(v.nanometers()) },
    C { n: "micrometers", u: 9, e: -6, f: |v| out(v.micrometers()) },
    C { n: "millimeters", u: 9, e: -3, f: |v| out(v.millimeters()) },
    C { n: "centimeters", u: 9, e: -2, f: |v| out(v.centimeters()) },
    C { n: "decimeters", u: 9, e: -1, f: |v| out(v.decimeters()) },
    C { n: "decameters", u: 9, e: 1, f: |v| out(v.decameters()) },
    C { n: "hectometers", u: 9, e: 2, f: |v| out(v.hectometers()) },
    C { n: "kilometers", u: 9, e: 3, f: |v| out(v.kilometers()) },
    C { n: "megameters", u: 9, e: 6, f: |v| out(v.megameters()) },
    C { n: "gigameters", u: 9, e: 9, f: |v| out(v.gigameters()) },
    C { n: "terameters", u: 9, e: 12, f: |v| out(v.terameters()) },
    C { n: "petameters", u: 9, e: 15, f: |v| out(v.petameters()) },
    C { n: "exameters", u: 9, e: 18, f: |v| out(v.exameters()) },
    C { n: "zettameters", u: 9, e: 21, f: |v| out(v.zettameters()) },
    C { n: "yottameters", u: 9, e: 24, f: |v| out(v.yottameters()) },
    C { n: "ronnameters", u: 9, e: 27, f: |v| out(v.ronnameters()) },
    C { n: "quettameters", u: 9, e: 30, f: |v| out(v.quettameters()) },
    C { n: "inches", u: 10, e: 0, f: |v| out(v.inches()) },
    C { n: "feet", u: 11, e: 0, f: |v| out(v.feet()) },
    C { n: "yards", u: 12, e: 0, f: |v| out(v.yards()) },
    C { n: "miles", u: 13, e: 0, f: |v| out(v.miles()) },
    C { n: "nautical_miles", u: 14, e: 0, f: |v| out(v.nautical_miles()) },
    C { n: "astronomical_units", u: 15, e: 0, f: |v| out(v.astronomical_units()) },
    C { n: "light_years", u: 16, e: 0, f: |v| out(v.light_years()) },
    C { n: "parsecs", u: 17, e: 0, f: |v| out(v.parsecs()) },
    C { n: "seconds", u: 18, e: 0, f: |v| out(v.seconds()) },
    C { n: "quectoseconds", u: 18, e: -30, f: |v| out(v.quectoseconds()) },
    C { n: "rontoseconds", u: 18, e: -27, f: |v| out(v.rontoseconds()) },
    C { n: "yoctoseconds", u: 18, e: -24, f: |v| out(v.yoctoseconds()) },
    C { n: "zeptoseconds", u: 18, e: -21, f: |v| out(v.zeptoseconds()) },
    C { n: "attoseconds", u: 18, e: -18, f: |v| out(v.attoseconds()) },
    C { n: "femtoseconds", u: 18, e: -15, f: |v| out(v.femtoseconds()) },
    C { n: "picoseconds", u: 18, e: -12, f: |v| out(v.picoseconds()) },
    C { n: "nanoseconds", u: 18, e: -9, f: |v| out(v.nanoseconds()) },
    C { n: "microseconds", u: 18, e: -6, f: |v| out(v.microseconds()) },
    C { n: "milliseconds", u: 18, e: -3, f: |v| out(v.milliseconds()) },
    C { n: "centiseconds", u: 18, e: -2, f: |v| out(v.centiseconds()) },
    C { n: "deciseconds", u: 18, e: -1, f: |v| out(v.deciseconds()) },
    C { n: "decaseconds", u: 18, e: 1, f: |v| out(v.decaseconds()) },
    C { n: "hectoseconds", u: 18, e: 2, f: |v| out(v.hectoseconds()) },
    C { n: "kiloseconds", u: 18, e: 3, f: |v| out(v.kiloseconds()) },
    C { n: "megaseconds", u: 18, e: 6, f: |v| out(v.megaseconds()) },
    C { n: "gigaseconds", u: 18, e: 9, f: |v| out(v.gigaseconds()) },
    C { n: "teraseconds", u: 18, e: 12, f: |v| out(v.teraseconds()) },
    C { n: "petaseconds", u: 18, e: 15, f: |v| out(v.petaseconds()) },
    C { n: "exaseconds", u: 18, e: 18, f: |v| out(v.exaseconds()) },
    C { n: "zettaseconds", u: 18, e: 21, f: |v| out(v.zettaseconds()) },
    C { n: "yottaseconds", u: 18, e: 24, f: |v| out(v.yottaseconds()) },
    C { n: "ronnaseconds", u: 18, e: 27, f: |v| out(v.ronnaseconds()) },
    C { n: "quettaseconds", u: 18, e: 30, f: |v| out(v.quettaseconds()) },
    C { n: "minutes", u: 19, e: 0, f: |v| out(v.minutes()) },
    C { n: "quectominutes", u: 19, e: -30, f: |v| out(v.quectominutes()) },
    C { n: "rontominutes", u: 19, e: -27, f: |v| out(v.rontominutes()) },
    C { n: "yoctominutes", u: 19, e: -24, f: |v| out(v.yoctominutes()) },
    C { n: "zeptominutes", u: 19, e: -21, f: |v| out(v.zeptominutes()) },
    C { n: "attominutes", u: 19, e: -18, f: |v| out(v.attominutes()) },
    C { n: "femtominutes", u: 19, e: -15, f: |v| out(v.femtominutes()) },
    C { n: "picominutes", u: 19, e: -12, f: |v| out(v.picominutes()) },
    C { n: "nanominutes", u: 19, e: -9, f: |v| out(v.nanominutes()) },
    C { n: "microminutes", u: 19, e: -6, f: |v| out(v.microminutes()) },
    C { n: "milliminutes", u: 19, e: -3, f: |v| out(v.milliminutes()) },
    C { n: "centiminutes", u: 19, e: -2, f: |v| out(v.centiminutes()) },
    C { n: "deciminutes", u: 19, e: -1, f: |v| out(v.deciminutes()) },
    C { n: "decaminutes", u: 19, e: 1, f: |v| out(v.decaminutes()) },
    C { n: "hectominutes", u: 19, e: 2, f: |v| out(v.hectominutes()) },
    C { n: "kilominutes", u: 19, e: 3, f: |v| out(v.kilominutes()) },
    C { n: "megaminutes", u: 19, e: 6, f: |v| out(v.megaminutes()) },
    C { n: "gigaminutes", u: 19, e: 9, f: |v| out(v.gigaminutes()) },
    C { n: "teraminutes", u: 19, e: 12, f: |v| out(v.teraminutes()) },
    C { n: "petaminutes", u: 19, e: 15, f: |v| out(v.petaminutes()) },
    C { n: "examinutes", u: 19, e: 18, f: |v| out(v.examinutes()) },
    C { n: "zettaminutes", u: 19, e: 21, f: |v| out(v.zettaminutes()) },
    C { n: "yottaminutes", u: 19, e: 24, f: |v| out(v.yottaminutes()) },
    C { n: "ronnaminutes", u: 19, e: 27, f: |v| out(v.ronnaminutes()) },
    C { n: "quettaminutes", u: 19, e: 30, f: |v| out(v.quettaminutes()) },
    C { n: "hours", u: 20, e: 0, f: |v| out(v.hours()) },
    C { n: "quectohours", u: 20, e: -30, f: |v| out(v.quectohours()) },
    C { n: "rontohours", u: 20, e: -27, f: |v| out(v.rontohours()) },
    C { n: "yoctohours", u: 20, e: -24, f: |v| out(v.yoctohours()) },
    C { n: "zeptohours", u: 20, e: -21, f: |v| out(v.zeptohours()) },
    C { n: "attohours", u: 20, e: -18, f: |v| out(v.attohours()) },
    C { n: "femtohours", u: 20, e: -15, f: |v| out(v.femtohours()) },
    C { n: "picohours", u: 20, e: -12, f: |v| out(v.picohours()) },
    C { n: "nanohours", u: 20, e: -9, f: |v| out(v.nanohours()) },
    C { n: "microhours", u: 20, e: -6, f: |v| out(v.microhours()) },
    C { n: "millihours", u: 20, e: -3, f: |v| out(v.millihours()) },
    C { n: "centihours", u: 20, e: -2, f: |v| out(v.centihours()) },
    C { n: "decihours", u: 20, e: -1, f: |v| out(v.decihours()) },
    C { n: "decahours", u: 20, e: 1, f: |v| out(v.decahours()) },
    C { n: "hectohours", u: 20, e: 2, f: |v| out(v.hectohours()) },
    C { n: "kilohours", u: 20, e: 3, f: |v| out(v.kilohours()) },
    C { n: "megahours", u: 20, e: 6, f: |v| out(v.megahours()) },
    C { n: "gigahours", u: 20, e: 9, f: |v| out(v.gigahours()) },
    C { n: "terahours", u: 20, e: 12, f: |v| out(v.terahours()) },
    C { n: "petahours", u: 20, e: 15, f: |v| out(v.petahours()) },
    C { n: "exahours", u: 20, e: 18, f: |v| out(v.exahours()) },
    C { n: "zettahours", u: 20, e: 21, f: |v| out(v.zettahours()) },
    C { n: "yottahours", u: 20, e: 24, f: |v| out(v.yottahours()) },
    C { n: "ronnahours", u: 20, e: 27, f: |v| out(v.ronnahours()) },
    C { n: "quettahours", u: 20, e: 30, f: |v| out(v.quettahours()) },
    C { n: "days", u: 21, e: 0, f: |v| out(v.days()) },
    C { n: "quectodays", u: 21, e: -30, f: |v| out(v.quectodays()) },
    C { n: "rontodays", u: 21, e: -27, f: |v| out(v.rontodays()) },
    C { n: "yoctodays", u: 21, e: -24, f: |v| out(v.yoctodays()) },
    C { n: "zeptodays", u: 21, e: -21, f: |v| out(v.zeptodays()) },
    C { n: "attodays", u: 21, e: -18, f: |v| out(v.attodays()) },
    C { n: "femtodays", u: 21, e: -15, f: |v| out(v.femtodays()) },
    C { n: "picodays", u: 21, e: -12, f: |v| out(v.picodays()) },
    C { n: "nanodays", u: 21, e: -9, f: |v| out(v.nanodays()) },
    C { n: "microdays", u: 21, e: -6, f: |v| out(v.microdays()) },
    C { n: "millidays", u: 21, e: -3, f: |v| out(v.millidays()) },
    C { n: "centidays", u: 21, e: -2, f: |v| out(v.centidays()) },
    C { n: "decidays", u: 21, e: -1, f: |v| out(v.decidays()) },
    C { n: "decadays", u: 21, e: 1, f: |v| out(v.decadays()) },
    C { n: "hectodays", u: 21, e: 2, f: |v| out(v.hectodays()) },
    C { n: "kilodays", u: 21, e: 3, f: |v| out(v.kilodays()) },
    C { n: "megadays", u: 21, e: 6, f: |v| out(v.megadays()) },
    C { n: "gigadays", u: 21, e: 9, f: |v| out(v.gigadays()) },
    C { n: "teradays", u: 21, e: 12, f: |v| out(v.teradays()) },
    C { n: "petadays", u: 21, e: 15, f: |v| out(v.petadays()) },
    C { n: "exadays", u: 21, e: 18, f: |v| out(v.exadays()) },
    C { n: "zettadays", u: 21, e: 21, f: |v| out(v.zettadays()) },
    C { n: "yottadays", u: 21, e: 24, f: |v| out(v.yottadays()) },
    C { n: "ronnadays", u: 21, e: 27, f: |v| out(v.ronnadays()) },
    C { n: "quettadays", u: 21, e: 30, f: |v| out(v.quettadays()) },
    C { n: "weeks", u: 22, e: 0, f: |v| out(v.weeks()) },
    C { n: "months", u: 23, e: 0, f: |v| out(v.months()) },
    C { n: "quectomonths", u: 23, e: -30, f: |v| out(v.quectomonths()) },
    C { n: "rontomonths", u: 23, e: -27, f: |v| out(v.rontomonths()) },
    C { n: "yoctomonths", u: 23, e: -24, f: |v| out(v.yoctomonths()) },
    C { n: "zeptomonths", u: 23, e: -21, f: |v| out(v.zeptomonths()) },
    C { n: "attomonths", u: 23, e: -18, f: |v| out(v.attomonths()) },
    C { n: "femtomonths", u: 23, e: -15, f: |v| out(v.femtomonths()) },
    C { n: "picomonths", u: 23, e: -12, f: |v| out(v.picomonths()) },
    C { n: "nanomonths", u: 23, e: -9, f: |v| out(v.nanomonths()) },
    C { n: "micromonths", u: 23, e: -6, f: |v| out(v.micromonths()) },
    C { n: "millimonths", u: 23, e: -3, f: |v| out(v.millimonths()) },
    C { n: "centimonths", u: 23, e: -2, f: |v| out(v.centimonths()) },
    C { n: "decimonths", u: 23, e: -1, f: |v| out(v.decimonths()) },
    C { n: "decamonths", u: 23, e: 1, f: |v| out(v.decamonths()) },
    C { n: "hectomonths", u: 23, e: 2, f: |v| out(v.hectomonths()) },
    C { n: "kilomonths", u: 23, e: 3, f: |v| out(v.kilomonths()) },
    C { n: "megamonths", u: 23, e: 6, f: |v| out(v.megamonths()) },
    C { n: "gigamonths", u: 23, e: 9, f: |v| out(v.gigamonths()) },
    C { n: "teramonths", u: 23, e: 12, f: |v| out(v.teramonths()) },
    C { n: "petamonths", u: 23, e: 15, f: |v| out(v.petamonths()) },
    C { n: "examonths", u: 23, e: 18, f: |v| out(v.examonths()) },
    C { n: "zettamonths", u: 23, e: 21, f: |v| out(v.zettamonths()) },
    C { n: "yottamonths", u: 23, e: 24, f: |v| out(v.yottamonths()) },
    C { n: "ronnamonths", u: 23, e: 27, f: |v| out(v.ronnamonths()) },
    C { n: "quettamonths", u: 23, e: 30, f: |v| out(v.quettamonths()) },
    C { n: "years", u: 24, e: 0, f: |v| out(v.years()) },
    C { n: "amperes", u: 25, e: 0, f: |v| out(v.amperes()) },
    C { n: "quectoamperes", u: 25, e: -30, f: |v| out(v.quectoamperes()) },
    C { n: "rontoamperes", u: 25, e: -27, f: |v| out(v.rontoamperes()) },
    C { n: "yoctoamperes", u: 25, e: -24, f: |v| out(v.yoctoamperes()) },
    C { n: "zeptoamperes", u: 25, e: -21, f: |v| out(v.zeptoamperes()) },
    C { n: "attoamperes", u: 25, e: -18, f: |v| out(v.attoamperes()) },
    C { n: "femtoamperes", u: 25, e: -15, f: |v| out(v.femtoamperes()) },
    C { n: "picoamperes", u: 25, e: -12, f: |v| out(v.picoamperes()) },
    C { n: "nanoamperes", u: 25, e: -9, f: |v| out(v.nanoamperes()) },
    C { n: "microamperes", u: 25, e: -6, f: |v| out(v.microamperes()) },
    C { n: "milliamperes", u: 25, e: -3, f: |v| out(v.milliamperes()) },
    C { n: "centiamperes", u: 25, e: -2, f: |v| out(v.centiamperes()) },
    C { n: "deciamperes", u: 25, e: -1, f: |v| out(v.deciamperes()) },
    C { n: "decaamperes", u: 25, e: 1, f: |v| out(v.decaamperes()) },
    C { n: "hectoamperes", u: 25, e: 2, f: |v| out(v.hectoamperes()) },
    C { n: "kiloamperes", u: 25, e: 3, f: |v| out(v.kiloamperes()) },
    C { n: "megaamperes", u: 25, e: 6, f: |v| out(v.megaamperes()) },
    C { n: "gigaamperes", u: 25, e: 9, f: |v| out(v.gigaamperes()) },
    C { n: "teraamperes", u: 25, e: 12, f: |v| out(v.teraamperes()) },
    C { n: "petaamperes", u: 25, e: 15, f: |v| out(v.petaamperes()) },
    C { n: "exaamperes", u: 25, e: 18, f: |v| out(v.exaamperes()) },
    C { n: "zettaamperes", u: 25, e: 21, f: |v| out(v.zettaamperes()) },
    C { n: "yottaamperes", u: 25, e: 24, f: |v| out(v.yottaamperes()) },
    C { n: "ronnaamperes", u: 25, e: 27, f: |v| out(v.ronnaamperes()) },
    C { n: "quettaamperes", u: 25, e: 30, f: |v| out(v.quettaamperes()) },
    C { n: "kelvin", u: 26, e: 0, f: |v| out(v.kelvin()) },
    C { n: "quectokelvin", u: 26, e: -30, f: |v| out(v.quectokelvin()) },
    C { n: "rontokelvin", u: 26, e: -27, f: |v| out(v.rontokelvin()) },
    C { n: "yoctokelvin", u: 26, e: -24, f: |v| out(v.yoctokelvin()) },
    C { n: "zeptokelvin", u: 26, e: -21, f: |v| out(v.zeptokelvin()) },
    C { n: "attokelvin", u: 26, e: -18, f: |v| out(v.attokelvin()) },
    C { n: "femtokelvin", u: 26, e: -15, f: |v| out(v.femtokelvin()) },
    C { n: "picokelvin", u: 26, e: -12, f: |v| out(v.picokelvin()) },
    C { n: "nanokelvin", u: 26, e: -9, f: |v| out(v.nanokelvin()) },
    C { n: "microkelvin", u: 26, e: -6, f: |v| out(v.microkelvin()) },
    C { n: "millikelvin", u: 26, e: -3, f: |v| out(v.millikelvin()) },
    C { n: "centikelvin", u: 26, e: -2, f: |v| out(v.centikelvin()) },
    C { n: "decikelvin", u: 26, e: -1, f: |v| out(v.decikelvin()) },
    C { n: "decakelvin", u: 26, e: 1, f: |v| out(v.decakelvin()) },
    C { n: "hectokelvin", u: 26, e: 2, f: |v| out(v.hectokelvin()) },
    C { n: "kilokelvin", u: 26, e: 3, f: |v| out(v.kilokelvin()) },
    C { n: "megakelvin", u: 26, e: 6, f: |v| out(v.megakelvin()) },
    C { n: "gigakelvin", u: 26, e: 9, f: |v| out(v.gigakelvin()) },
    C { n: "terakelvin", u: 26, e: 12, f: |v| out(v.terakelvin()) },
    C { n: "petakelvin", u: 26, e: 15, f: |v| out(v.petakelvin()) },
    C { n: "exakelvin", u: 26, e: 18, f: |v| out(v.exakelvin()) },
    C { n: "zettakelvin", u: 26, e: 21, f: |v| out(v.zettakelvin()) },
    C { n: "yottakelvin", u: 26, e: 24, f: |v| out(v.yottakelvin()) },
    C { n: "ronnakelvin", u: 26, e: 27, f: |v| out(v.ronnakelvin()) },
    C { n: "quettakelvin", u: 26, e: 30, f: |v| out(v.quettakelvin()) },
    C { n: "celsius", u: 27, e: 0, f: |v| out(v.celsius()) },
    C { n: "rankine", u: 28, e: 0, f: |v| out(v.rankine()) },
    C { n: "fahrenheit", u: 29, e: 0, f: |v| out(v.fahrenheit()) },
    C { n: "moles", u: 30, e: 0, f: |v| out(v.moles()) },
    C { n: "quectomoles", u: 30, e: -30, f: |v| out(v.quectomoles()) },
    C { n: "rontomoles", u: 30, e: -27, f: |v| out(v.rontomoles()) },
    C { n: "yoctomoles", u: 30, e: -24, f: |v| out(v.yoctomoles()) },
    C { n: "zeptomoles", u: 30, e: -21, f: |v| out(v.zeptomoles()) },
    C { n: "attomoles", u: 30, e: -18, f: |v| out(v.attomoles()) },
    C { n: "femtomoles", u: 30, e: -15, f: |v| out(v.femtomoles()) },
    C { n: "picomoles", u: 30, e: -12, f: |v| out(v.picomoles()) },
    C { n: "nanomoles", u: 30, e: -9, f: |v| out(v.nanomoles()) },
    C { n: "micromoles", u: 30, e: -6, f: |v| out(v.micromoles()) },
    C { n: "millimoles", u: 30, e: -3, f: |v| out(v.millimoles()) },
    C { n: "centimoles", u: 30, e: -2, f: |v| out(v.centimoles()) },
    C { n: "decimoles", u: 30, e: -1, f: |v| out(v.decimoles()) },
    C { n: "decamoles", u: 30, e: 1, f: |v| out(v.decamoles()) },
    C { n: "hectomoles", u: 30, e: 2, f: |v| out(v.hectomoles()) },
    C { n: "kilomoles", u: 30, e: 3, f: |v| out(v.kilomoles()) },
    C { n: "megamoles", u: 30, e: 6, f: |v| out(v.megamoles()) },
    C { n: "gigamoles", u: 30, e: 9, f: |v| out(v.gigamoles()) },
    C { n: "teramoles", u: 30, e: 12, f: |v| out(v.teramoles()) },
    C { n: "petamoles", u: 30, e: 15, f: |v| out(v.petamoles()) },
    C { n: "examoles", u: 30, e: 18, f: |v| out(v.examoles()) },
    C { n: "zettamoles", u: 30, e: 21, f: |v| out(v.zettamoles()) },
    C { n: "yottamoles", u: 30, e: 24, f: |v| out(v.yottamoles()) },
    C { n: "ronnamoles", u: 30, e: 27, f: |v| out(v.ronnamoles()) },
    C { n: "quettamoles", u: 30, e: 30, f: |v| out(v.quettamoles()) },
    C { n: "candela", u: 31, e: 0, f: |v| out(v.candela()) },
    C { n: "quectocandela", u: 31, e: -30, f: |v| out(v.quectocandela()) },
    C { n: "rontocandela", u: 31, e: -27, f: |v| out(v.rontocandela()) },
    C { n: "yoctocandela", u: 31, e: -24, f: |v| out(v.yoctocandela()) },
    C { n: "zeptocandela", u: 31, e: -21, f: |v| out(v.zeptocandela()) },
    C { n: "attocandela", u: 31, e: -18, f: |v| out(v.attocandela()) },
    C { n: "femtocandela", u: 31, e: -15, f: |v| out(v.femtocandela()) },
    C { n: "picocandela", u: 31, e: -12, f: |v| out(v.picocandela()) },
    C { n: "nanocandela", u: 31, e: -9, f: |v| out(v.nanocandela()) },
    C { n: "microcandela", u: 31, e: -6, f: |v| out(v.microcandela()) },
    C { n: "millicandela", u: 31, e: -3, f: |v| out(v.millicandela()) },
    C { n: "centicandela", u: 31, e: -2, f: |v| out(v.centicandela()) },
    C { n: "decicandela", u: 31, e: -1, f: |v| out(v.decicandela()) },
    C { n: "decacandela", u: 31, e: 1, f: |v| out(v.decacandela()) },
    C { n: "hectocandela", u: 31, e: 2, f: |v| out(v.hectocandela()) },
    C { n: "kilocandela", u: 31, e: 3, f: |v| out(v.kilocandela()) },
    C { n: "megacandela", u: 31, e: 6, f: |v| out(v.megacandela()) },
    C { n: "gigacandela", u: 31, e: 9, f: |v| out(v.gigacandela()) },
    C { n: "teracandela", u: 31, e: 12, f: |v| out(v.teracandela()) },
    C { n: "petacandela", u: 31, e: 15, f: |v| out(v.petacandela()) },
    C { n: "exacandela", u: 31, e: 18, f: |v| out(v.exacandela()) },
    C { n: "zettacandela", u: 31, e: 21, f: |v| out(v.zettacandela()) },
    C { n: "yottacandela", u: 31, e: 24, f: |v| out(v.yottacandela()) },
    C { n: "ronnacandela", u: 31, e: 27, f: |v| out(v.ronnacandela()) },
    C { n: "quettacandela", u: 31, e: 30, f: |v| out(v.quettacandela()) },
    C { n: "lumens", u: 32, e: 0, f: |v| out(v.lumens()) },
    C { n: "quectolumens", u: 32, e: -30, f: |v| out(v.quectolumens()) },
    C { n: "rontolumens", u: 32, e: -27, f: |v| out(v.rontolumens()) },
    C { n: "yoctolumens", u: 32, e: -24, f: |v| out(v.yoctolumens()) },
    C { n: "zeptolumens", u: 32, e: -21, f: |v| out(v.zeptolumens()) },
    C { n: "attolumens", u: 32, e: -18, f: |v| out(v.attolumens()) },
    C { n: "femtolumens", u: 32, e: -15, f: |v| out(v.femtolumens()) },
    C { n: "picolumens", u: 32, e: -12, f: |v| out(v.picolumens()) },
    C { n: "nanolumens", u: 32, e: -9, f: |v| out(v.nanolumens()) },
    C { n: "microlumens", u: 32, e: -6, f: |v| out(v.microlumens()) },
    C { n: "millilumens", u: 32, e: -3, f: |v| out(v.millilumens()) },
    C { n: "centilumens", u: 32, e: -2, f: |v| out(v.centilumens()) },
    C { n: "decilumens", u: 32, e: -1, f: |v| out(v.decilumens()) },
    C { n: "decalumens", u: 32, e: 1, f: |v| out(v.decalumens()) },
    C { n: "hectolumens", u: 32, e: 2, f: |v| out(v.hectolumens()) },
    C { n: "kilolumens", u: 32, e: 3, f: |v| out(v.kilolumens()) },
    C { n: "megalumens", u: 32, e: 6, f: |v| out(v.megalumens()) },
    C { n: "gigalumens", u: 32, e: 9, f: |v| out(v.gigalumens()) },
    C { n: "teralumens", u: 32, e: 12, f: |v| out(v.teralumens()) },
    C { n: "petalumens", u: 32, e: 15, f: |v| out(v.petalumens()) },
    C { n: "exalumens", u: 32, e: 18, f: |v| out(v.exalumens()) },
    C { n: "zettalumens", u: 32, e: 21, f: |v| out(v.zettalumens()) },
    C { n: "yottalumens", u: 32, e: 24, f: |v| out(v.yottalumens()) },
    C { n: "ronnalumens", u: 32, e: 27, f: |v| out(v.ronnalumens()) },
    C { n: "quettalumens", u: 32, e: 30, f: |v| out(v.quettalumens()) },
    C { n: "radians", u: 33, e: 0, f: |v| out(v.radians()) },
    C { n: "quectoradians", u: 33, e: -30, f: |v| out(v.quectoradians()) },
    C { n: "rontoradians", u: 33, e: -27, f: |v| out(v.rontoradians()) },
    C { n: "yoctoradians", u: 33, e: -24, f: |v| out(v.yoctoradians()) },
    C { n: "zeptoradians", u: 33, e: -21, f: |v| out(v.zeptoradians()) },
    C { n: "attoradians", u: 33, e: -18, f: |v| out(v.attoradians()) },
    C { n: "femtoradians", u: 33, e: -15, f: |v| out(v.femtoradians()) },
    C { n: "picoradians", u: 33, e: -12, f: |v| out(v.picoradians()) },
    C { n: "nanoradians", u: 33, e: -9, f: |v| out(v.nanoradians()) },
    C { n: "microradians", u: 33, e: -6, f: |v| out(v.microradians()) },
    C { n: "milliradians", u: 33, e: -3, f: |v| out(v.milliradians()) },
    C { n: "centiradians", u: 33, e: -2, f: |v| out(v.centiradians()) },
    C { n: "deciradians", u: 33, e: -1, f: |v| out(v.deciradians()) },
    C { n: "decaradians", u: 33, e: 1, f: |v| out(v.decaradians()) },
    C { n: "hectoradians", u: 33, e: 2, f: |v| out(v.hectoradians()) },
    C { n: "kiloradians", u: 33, e: 3, f: |v| out(v.kiloradians()) },
    C { n: "megaradians", u: 33, e: 6, f: |v| out(v.megaradians()) },
    C { n: "gigaradians", u: 33, e: 9, f: |v| out(v.gigaradians()) },
    C { n: "teraradians", u: 33, e: 12, f: |v| out(v.teraradians()) },
    C { n: "petaradians", u: 33, e: 15, f: |v| out(v.petaradians()) },
    C { n: "exaradians", u: 33, e: 18, f: |v| out(v.exaradians()) },
    C { n: "zettaradians", u: 33, e: 21, f: |v| out(v.zettaradians()) },
    C { n: "yottaradians", u: 33, e: 24, f: |v| out(v.yottaradians()) },
    C { n: "ronnaradians", u: 33, e: 27, f: |v| out(v.ronnaradians()) },
    C { n: "quettaradians", u: 33, e: 30, f: |v| out(v.quettaradians()) },
    C { n: "degrees", u: 34, e: 0, f: |v| out(v.degrees()) },
    C { n: "quectodegrees", u: 34, e: -30, f: |v| out(v.quectodegrees()) },
    C { n: "rontodegrees", u: 34, e: -27, f: |v| out(v.rontodegrees()) },
    C { n: "yoctodegrees", u: 34, e: -24, f: |v| out(v.yoctodegrees()) },
    C { n: "zeptodegrees", u: 34, e: -21, f: |v| out(v.zeptodegrees()) },
    C { n: "attodegrees", u: 34, e: -18, f: |v| out(v.attodegrees()) },
    C { n: "femtodegrees", u: 34, e: -15, f: |v| out(v.femtodegrees()) },
    C { n: "picodegrees", u: 34, e: -12, f: |v| out(v.picodegrees()) },
    C { n: "nanodegrees", u: 34, e: -9, f: |v| out(v.nanodegrees()) },
    C { n: "microdegrees", u: 34, e: -6, f: |v| out(v.microdegrees()) },
    C { n: "millidegrees", u: 34, e: -3, f: |v| out(v.millidegrees()) },
    C { n: "centidegrees", u: 34, e: -2, f: |v| out(v.centidegrees()) },
    C { n: "decidegrees", u: 34, e: -1, f: |v| out(v.decidegrees()) },
    C { n: "decadegrees", u: 34, e: 1, f: |v| out(v.decadegrees()) },
    C { n: "hectodegrees", u: 34, e: 2, f: |v| out(v.hectodegrees()) },
    C { n: "kilodegrees", u: 34, e: 3, f: |v| out(v.kilodegrees()) },
    C { n: "megadegrees", u: 34, e: 6, f: |v| out(v.megadegrees()) },
    C { n: "gigadegrees", u: 34, e: 9, f: |v| out(v.gigadegrees()) },
    C { n: "teradegrees", u: 34, e: 12, f: |v| out(v.teradegrees()) },
    C { n: "petadegrees", u: 34, e: 15, f: |v| out(v.petadegrees()) },
    C { n: "exadegrees", u: 34, e: 18, f: |v| out(v.exadegrees()) },
    C { n: "zettadegrees", u: 34, e: 21, f: |v| out(v.zettadegrees()) },
    C { n: "yottadegrees", u: 34, e: 24, f: |v| out(v.yottadegrees()) },
    C { n: "ronnadegrees", u: 34, e: 27, f: |v| out(v.ronnadegrees()) },
    C { n: "quettadegrees", u: 34, e: 30, f: |v| out(v.quettadegrees()) },
    C { n: "gradians", u: 35, e: 0, f: |v| out(v.gradians()) },
    C { n: "quectogradians", u: 35, e: -30, f: |v| out(v.quectogradians()) },
    C { n: "rontogradians", u: 35, e: -27, f: |v| out(v.rontogradians()) },
    C { n: "yoctogradians", u: 35, e: -24, f: |v| out(v.yoctogradians()) },
    C { n: "zeptogradians", u: 35, e: -21, f: |v| out(v.zeptogradians()) },
    C { n: "attogradians", u: 35, e: -18, f: |v| out(v.attogradians()) },
    C { n: "femtogradians", u: 35, e: -15, f: |v| out(v.femtogradians()) },
    C { n: "picogradians", u: 35, e: -12, f: |v| out(v.picogradians()) },
    C { n: "nanogradians", u: 35, e: -9, f: |v| out(v.nanogradians()) },
    C { n: "microgradians", u: 35, e: -6, f: |v| out(v.microgradians()) },
    C { n: "milligradians", u: 35, e: -3, f: |v| out(v.milligradians()) },
    C { n: "centigradians", u: 35, e: -2, f: |v| out(v.centigradians()) },
    C { n: "decigradians", u: 35, e: -1, f: |v| out(v.decigradians()) },
    C { n: "decagradians", u: 35, e: 1, f: |v| out(v.decagradians()) },
    C { n: "hectogradians", u: 35, e: 2, f: |v| out(v.hectogradians()) },
    C { n: "kilogradians", u: 35, e: 3, f: |v| out(v.kilogradians()) },
    C { n: "megagradians", u: 35, e: 6, f: |v| out(v.megagradians()) },
    C { n: "gigagradians", u: 35, e: 9, f: |v| out(v.gigagradians()) },
    C { n: "teragradians", u: 35, e: 12, f: |v| out(v.teragradians()) },
    C { n: "petagradians", u: 35, e: 15, f: |v| out(v.petagradians()) },
    C { n: "exagradians", u: 35, e: 18, f: |v| out(v.exagradians()) },
    C { n: "zettagradians", u: 35, e: 21, f: |v| out(v.zettagradians()) },
    C { n: "yottagradians", u: 35, e: 24, f: |v| out(v.yottagradians()) },
    C { n: "ronnagradians", u: 35, e: 27, f: |v| out(v.ronnagradians()) },
    C { n: "quettagradians", u: 35, e: 30, f: |v| out(v.quettagradians()) },
    C { n: "turns", u: 36, e: 0, f: |v| out(v.turns()) },
    C { n: "quectoturns", u: 36, e: -30, f: |v| out(v.quectoturns()) },
    C { n: "rontoturns", u: 36, e: -27, f: |v| out(v.rontoturns()) },
    C { n: "yoctoturns", u: 36, e: -24, f: |v| out(v.yoctoturns()) },
    C { n: "zeptoturns", u: 36, e: -21, f: |v| out(v.zeptoturns()) },
    C { n: "attoturns", u: 36, e: -18, f: |v| out(v.attoturns()) },
    C { n: "femtoturns", u: 36, e: -15, f: |v| out(v.femtoturns()) },
    C { n: "picoturns", u: 36, e: -12, f: |v| out(v.picoturns()) },
    C { n: "nanoturns", u: 36, e: -9, f: |v| out(v.nanoturns()) },
    C { n: "microturns", u: 36, e: -6, f: |v| out(v.microturns()) },
    C { n: "milliturns", u: 36, e: -3, f: |v| out(v.milliturns()) },
    C { n: "centiturns", u: 36, e: -2, f: |v| out(v.centiturns()) },
    C { n: "deciturns", u: 36, e: -1, f: |v| out(v.deciturns()) },
    C { n: "decaturns", u: 36, e: 1, f: |v| out(v.decaturns()) },
    C { n: "hectoturns", u: 36, e: 2, f: |v| out(v.hectoturns()) },
    C { n: "kiloturns", u: 36, e: 3, f: |v| out(v.kiloturns()) },
    C { n: "megaturns", u: 36, e: 6, f: |v| out(v.megaturns()) },
    C { n: "gigaturns", u: 36, e: 9, f: |v| out(v.gigaturns()) },
    C { n: "teraturns", u: 36, e: 12, f: |v| out(v.teraturns()) },
    C { n: "petaturns", u: 36, e: 15, f: |v| out(v.petaturns()) },
    C { n: "exaturns", u: 36, e: 18, f: |v| out(v.exaturns()) },
    C { n: "zettaturns", u: 36, e: 21, f: |v| out(v.zettaturns()) },
    C { n: "yottaturns", u: 36, e: 24, f: |v| out(v.yottaturns()) },
    C { n: "ronnaturns", u: 36, e: 27, f: |v| out(v.ronnaturns()) },
    C { n: "quettaturns", u: 36, e: 30, f: |v| out(v.quettaturns()) },
    C { n: "arcminutes", u: 37, e: 0, f: |v| out(v.arcminutes()) },
    C { n: "quectoarcminutes", u: 37, e: -30, f: |v| out(v.quectoarcminutes()) },
    C { n: "rontoarcminutes", u: 37, e: -27, f: |v| out(v.rontoarcminutes()) },
    C { n: "yoctoarcminutes", u: 37, e: -24, f: |v| out(v.yoctoarcminutes()) },
    C { n: "zeptoarcminutes", u: 37, e: -21, f: |v| out(v.zeptoarcminutes()) },
    C { n: "attoarcminutes", u: 37, e: -18, f: |v| out(v.attoarcminutes()) },
    C { n: "femtoarcminutes", u: 37, e: -15, f: |v| out(v.femtoarcminutes()) },
    C { n: "picoarcminutes", u: 37, e: -12, f: |v| out(v.picoarcminutes()) },
    C { n: "nanoarcminutes", u: 37, e: -9, f: |v| out(v.nanoarcminutes()) },
    C { n: "microarcminutes", u: 37, e: -6, f: |v| out(v.microarcminutes()) },
    C { n: "milliarcminutes", u: 37, e: -3, f: |v| out(v.milliarcminutes()) },
    C { n: "centiarcminutes", u: 37, e: -2, f: |v| out(v.centiarcminutes()) },
    C { n: "deciarcminutes", u: 37, e: -1, f: |v| out(v.deciarcminutes()) },
    C { n: "decaarcminutes", u: 37, e: 1, f: |v| out(v.decaarcminutes()) },
    C { n: "hectoarcminutes", u: 37, e: 2, f: |v| out(v.hectoarcminutes()) },
    C { n: "kiloarcminutes", u: 37, e: 3, f: |v| out(v.kiloarcminutes()) },
    C { n: "megaarcminutes", u: 37, e: 6, f: |v| out(v.megaarcminutes()) },
    C { n: "gigaarcminutes", u: 37, e: 9, f: |v| out(v.gigaarcminutes()) },
    C { n: "teraarcminutes", u: 37, e: 12, f: |v| out(v.teraarcminutes()) },
    C { n: "petaarcminutes", u: 37, e: 15, f: |v| out(v.petaarcminutes()) },
    C { n: "exaarcminutes", u: 37, e: 18, f: |v| out(v.exaarcminutes()) },
    C { n: "zettaarcminutes", u: 37, e: 21, f: |v| out(v.zettaarcminutes()) },
    C { n: "yottaarcminutes", u: 37, e: 24, f: |v| out(v.yottaarcminutes()) },
    C { n: "ronnaarcminutes", u: 37, e: 27, f: |v| out(v.ronnaarcminutes()) },
    C { n: "quettaarcminutes", u: 37, e: 30, f: |v| out(v.quettaarcminutes()) },
    C { n: "arcseconds", u: 38, e: 0, f: |v| out(v.arcseconds()) },
    C { n: "quectoarcseconds", u: 38, e: -30, f: |v| out(v.quectoarcseconds()) },
    C { n: "rontoarcseconds", u: 38, e: -27, f: |v| out(v.rontoarcseconds()) },
    C { n: "yoctoarcseconds", u: 38, e: -24, f: |v| out(v.yoctoarcseconds()) },
    C { n: "zeptoarcseconds", u: 38, e: -21, f: |v| out(v.zeptoarcseconds()) },
    C { n: "attoarcseconds", u: 38, e: -18, f: |v| out(v.attoarcseconds()) },
    C { n: "femtoarcseconds", u: 38, e: -15, f: |v| out(v.femtoarcseconds()) },
    C { n: "picoarcseconds", u: 38, e: -12, f: |v| out(v.picoarcseconds()) },
    C { n: "nanoarcseconds", u: 38, e: -9, f: |v| out(v.nanoarcseconds()) },
    C { n: "microarcseconds", u: 38, e: -6, f: |v| out(v.microarcseconds()) },
    C { n: "milliarcseconds", u: 38, e: -3, f: |v| out(v.milliarcseconds()) },
    C { n: "centiarcseconds", u: 38, e: -2, f: |v| out(v.centiarcseconds()) },
    C { n: "deciarcseconds", u: 38, e: -1, f: |v| out(v.deciarcseconds()) },
    C { n: "decaarcseconds", u: 38, e: 1, f: |v| out(v.decaarcseconds()) },
    C { n: "hectoarcseconds", u: 38, e: 2, f: |v| out(v.hectoarcseconds()) },
    C { n: "kiloarcseconds", u: 38, e: 3, f: |v| out(v.kiloarcseconds()) },
    C { n: "megaarcseconds", u: 38, e: 6, f: |v| out(v.megaarcseconds()) },
    C { n: "gigaarcseconds", u: 38, e: 9, f: |v| out(v.gigaarcseconds()) },
    C { n: "teraarcseconds", u: 38, e: 12, f: |v| out(v.teraarcseconds()) },
    C { n: "petaarcseconds", u: 38, e: 15, f: |v| out(v.petaarcseconds()) },
    C { n: "exaarcseconds", u: 38, e: 18, f: |v| out(v.exaarcseconds()) },
    C { n: "zettaarcseconds", u: 38, e: 21, f: |v| out(v.zettaarcseconds()) },
    C { n: "yottaarcseconds", u: 38, e: 24, f: |v| out(v.yottaarcseconds()) },
    C { n: "ronnaarcseconds", u: 38, e: 27, f: |v| out(v.ronnaarcseconds()) },
    C { n: "quettaarcseconds", u: 38, e: 30, f: |v| out(v.quettaarcseconds()) },
    C { n: "hectares", u: 39, e: 0, f: |v| out(v.hectares()) },
    C { n: "quectohectares", u: 39, e: -30, f: |v| out(v.quectohectares()) },
    C { n: "rontohectares", u: 39, e: -27, f: |v| out(v.rontohectares()) },
    C { n: "yoctohectares", u: 39, e: -24, f: |v| out(v.yoctohectares()) },
    C { n: "zeptohectares", u: 39, e: -21, f: |v| out(v.zeptohectares()) },
    C { n: "attohectares", u: 39, e: -18, f: |v| out(v.attohectares()) },
    C { n: "femtohectares", u: 39, e: -15, f: |v| out(v.femtohectares()) },
    C { n: "picohectares", u: 39, e: -12, f: |v| out(v.picohectares()) },
    C { n: "nanohectares", u: 39, e: -9, f: |v| out(v.nanohectares()) },
    C { n: "microhectares", u: 39, e: -6, f: |v| out(v.microhectares()) },
    C { n: "millihectares", u: 39, e: -3, f: |v| out(v.millihectares()) },
    C { n: "centihectares", u: 39, e: -2, f: |v| out(v.centihectares()) },
    C { n: "decihectares", u: 39, e: -1, f: |v| out(v.decihectares()) },
    C { n: "decahectares", u: 39, e: 1, f: |v| out(v.decahectares()) },
    C { n: "hectohectares", u: 39, e: 2, f: |v| out(v.hectohectares()) },
    C { n: "kilohectares", u: 39, e: 3, f: |v| out(v.kilohectares()) },
    C { n: "megahectares", u: 39, e: 6, f: |v| out(v.megahectares()) },
    C { n: "gigahectares", u: 39, e: 9, f: |v| out(v.gigahectares()) },
    C { n: "terahectares", u: 39, e: 12, f: |v| out(v.terahectares()) },
    C { n: "petahectares", u: 39, e: 15, f: |v| out(v.petahectares()) },
    C { n: "exahectares", u: 39, e: 18, f: |v| out(v.exahectares()) },
    C { n: "zettahectares", u: 39, e: 21, f: |v| out(v.zettahectares()) },
    C { n: "yottahectares", u: 39, e: 24, f: |v| out(v.yottahectares()) },
    C { n: "ronnahectares", u: 39, e: 27, f: |v| out(v.ronnahectares()) },
    C { n: "quettahectares", u: 39, e: 30, f: |v| out(v.quettahectares()) },
    C { n: "acres", u: 40, e: 0, f: |v| out(v.acres()) },
    C { n: "liters", u: 41, e: 0, f: |v| out(v.liters()) },
    C { n: "quectoliters", u: 41, e: -30, f: |v| out(v.quectoliters()) },
    C { n: "rontoliters", u: 41, e: -27, f: |v| out(v.rontoliters()) },
    C { n: "yoctoliters", u: 41, e: -24, f: |v| out(v.yoctoliters()) },
    C { n: "zeptoliters", u: 41, e: -21, f: |v| out(v.zeptoliters()) },
    C { n: "attoliters", u: 41, e: -18, f: |v| out(v.attoliters()) },
    C { n: "femtoliters", u: 41, e: -15, f: |v| out(v.femtoliters()) },
    C { n: "picoliters", u: 41, e: -12, f: |v| out(v.picoliters()) },
    C { n: "nanoliters", u: 41, e: -9, f: |v| out(v.nanoliters()) },
    C { n: "microliters", u: 41, e: -6, f: |v| out(v.microliters()) },
    C { n: "milliliters", u: 41, e: -3, f: |v| out(v.milliliters()) },
    C { n: "centiliters", u: 41, e: -2, f: |v| out(v.centiliters()) },
    C { n: "deciliters", u: 41, e: -1, f: |v| out(v.deciliters()) },
    C { n: "decaliters", u: 41, e: 1, f: |v| out(v.decaliters()) },
    C { n: "hectoliters", u: 41, e: 2, f: |v| out(v.hectoliters()) },
    C { n: "kiloliters", u: 41, e: 3, f: |v| out(v.kiloliters()) },
    C { n: "megaliters", u: 41, e: 6, f: |v| out(v.megaliters()) },
    C { n: "gigaliters", u: 41, e: 9, f: |v| out(v.gigaliters()) },
    C { n: "teraliters", u: 41, e: 12, f: |v| out(v.teraliters()) },
    C { n: "petaliters", u: 41, e: 15, f: |v| out(v.petaliters()) },
    C { n: "exaliters", u: 41, e: 18, f: |v| out(v.exaliters()) },
    C { n: "zettaliters", u: 41, e: 21, f: |v| out(v.zettaliters()) },
    C { n: "yottaliters", u: 41, e: 24, f: |v| out(v.yottaliters()) },
    C { n: "ronnaliters", u: 41, e: 27, f: |v| out(v.ronnaliters()) },
    C { n: "quettaliters", u: 41, e: 30, f: |v| out(v.quettaliters()) },
    C { n: "gallons", u: 42, e: 0, f: |v| out(v.gallons()) },
    C { n: "quarts", u: 43, e: 0, f: |v| out(v.quarts()) },
    C { n: "pints", u: 44, e: 0, f: |v| out(v.pints()) },
    C { n: "cups", u: 45, e: 0, f: |v| out(v.cups()) },
    C { n: "fluid_ounces", u: 46, e: 0, f: |v| out(v.fluid_ounces()) },
    C { n: "tablespoons", u: 47, e: 0, f: |v| out(v.tablespoons()) },
    C { n: "teaspoons", u: 48, e: 0, f: |v| out(v.teaspoons()) },
    C { n: "uk_gallons", u: 49, e: 0, f: |v| out(v.uk_gallons()) },
    C { n: "uk_quarts", u: 50, e: 0, f: |v| out(v.uk_quarts()) },
    C { n: "uk_pints", u: 51, e: 0, f: |v| out(v.uk_pints()) },
    C { n: "uk_cups", u: 52, e: 0, f: |v| out(v.uk_cups()) },
    C { n: "uk_fluid_ounces", u: 53, e: 0, f: |v| out(v.uk_fluid_ounces()) },
    C { n: "uk_tablespoons", u: 54, e: 0, f: |v| out(v.uk_tablespoons()) },
    C { n: "uk_teaspoons", u: 55, e: 0, f: |v| out(v.uk_teaspoons()) },
    C { n: "bushels", u: 56, e: 0, f: |v| out(v.bushels()) },
    C { n: "hertzs", u: 57, e: 0, f: |v| out(v.hertzs()) },
    C { n: "quectohertzs", u: 57, e: -30, f: |v| out(v.quectohertzs()) },
    C { n: "rontohertzs", u: 57, e: -27, f: |v| out(v.rontohertzs()) },
    C { n: "yoctohertzs", u: 57, e: -24, f: |v| out(v.yoctohertzs()) },
    C { n: "zeptohertzs", u: 57, e: -21, f: |v| out(v.zeptohertzs()) },
    C { n: "attohertzs", u: 57, e: -18, f: |v| out(v.attohertzs()) },
    C { n: "femtohertzs", u: 57, e: -15, f: |v| out(v.femtohertzs()) },
    C { n: "picohertzs", u: 57, e: -12, f: |v| out(v.picohertzs()) },
    C { n: "nanohertzs", u: 57, e: -9, f: |v| out(v.nanohertzs()) },
    C { n: "microhertzs", u: 57, e: -6, f: |v| out(v.microhertzs()) },
    C { n: "millihertzs", u: 57, e: -3, f: |v| out(v.millihertzs()) },
    C { n: "centihertzs", u: 57, e: -2, f: |v| out(v.centihertzs()) },
    C { n: "decihertzs", u: 57, e: -1, f: |v| out(v.decihertzs()) },
    C { n: "decahertzs", u: 57, e: 1, f: |v| out(v.decahertzs()) },
    C { n: "hectohertzs", u: 57, e: 2, f: |v| out(v.hectohertzs()) },
    C { n: "kilohertzs", u: 57, e: 3, f: |v| out(v.kilohertzs()) },
    C { n: "megahertzs", u: 57, e: 6, f: |v| out(v.megahertzs()) },
    C { n: "gigahertzs", u: 57, e: 9, f: |v| out(v.gigahertzs()) },
    C { n: "terahertzs", u: 57, e: 12, f: |v| out(v.terahertzs()) },
    C { n: "petahertzs", u: 57, e: 15, f: |v| out(v.petahertzs()) },
    C { n: "exahertzs", u: 57, e: 18, f: |v| out(v.exahertzs()) },
    C { n: "zettahertzs", u: 57, e: 21, f: |v| out(v.zettahertzs()) },
    C { n: "yottahertzs", u: 57, e: 24, f: |v| out(v.yottahertzs()) },
    C { n: "ronnahertzs", u: 57, e: 27, f: |v| out(v.ronnahertzs()) },
    C { n: "quettahertzs", u: 57, e: 30, f: |v| out(v.quettahertzs()) },
    C { n: "newtons", u: 58, e: 0, f: |v| out(v.newtons()) },
    C { n: "quectonewtons", u: 58, e: -30, f: |v| out(v.quectonewtons()) },
    C { n: "rontonewtons", u: 58, e: -27, f: |v| out(v.rontonewtons()) },
    C { n: "yoctonewtons", u: 58, e: -24, f: |v| out(v.yoctonewtons()) },
    C { n: "zeptonewtons", u: 58, e: -21, f: |v| out(v.zeptonewtons()) },
    C { n: "attonewtons", u: 58, e: -18, f: |v| out(v.attonewtons()) },
    C { n: "femtonewtons", u: 58, e: -15, f: |v| out(v.femtonewtons()) },
    C { n: "piconewtons", u: 58, e: -12, f: |v| out(v.piconewtons()) },
    C { n: "nanonewtons", u: 58, e: -9, f: |v| out(v.nanonewtons()) },
    C { n: "micronewtons", u: 58, e: -6, f: |v| out(v.micronewtons()) },
    C { n: "millinewtons", u: 58, e: -3, f: |v| out(v.millinewtons()) },
    C { n: "centinewtons", u: 58, e: -2, f: |v| out(v.centinewtons()) },
    C { n: "decinewtons", u: 58, e: -1, f: |v| out(v.decinewtons()) },
    C { n: "decanewtons", u: 58, e: 1, f: |v| out(v.decanewtons()) },
    C { n: "hectonewtons", u: 58, e: 2, f: |v| out(v.hectonewtons()) },
    C { n: "kilonewtons", u: 58, e: 3, f: |v| out(v.kilonewtons()) },
    C { n: "meganewtons", u: 58, e: 6, f: |v| out(v.meganewtons()) },
    C { n: "giganewtons", u: 58, e: 9, f: |v| out(v.giganewtons()) },
    C { n: "teranewtons", u: 58, e: 12, f: |v| out(v.teranewtons()) },
    C { n: "petanewtons", u: 58, e: 15, f: |v| out(v.petanewtons()) },
    C { n: "exanewtons", u: 58, e: 18, f: |v| out(v.exanewtons()) },
    C { n: "zettanewtons", u: 58, e: 21, f: |v| out(v.zettanewtons()) },
    C { n: "yottanewtons", u: 58, e: 24, f: |v| out(v.yottanewtons()) },
    C { n: "ronnanewtons", u: 58, e: 27, f: |v| out(v.ronnanewtons()) },
    C { n: "quettanewtons", u: 58, e: 30, f: |v| out(v.quettanewtons()) },
    C { n: "joules", u: 59, e: 0, f: |v| out(v.joules()) },
    C { n: "quectojoules", u: 59, e: -30, f: |v| out(v.quectojoules()) },
    C { n: "rontojoules", u: 59, e: -27, f: |v| out(v.rontojoules()) },
    C { n: "yoctojoules", u: 59, e: -24, f: |v| out(v.yoctojoules()) },
    C { n: "zeptojoules", u: 59, e: -21, f: |v| out(v.zeptojoules()) },
    C { n: "attojoules", u: 59, e: -18, f: |v| out(v.attojoules()) },
    C { n: "femtojoules", u: 59, e: -15, f: |v| out(v.femtojoules()) },
    C { n: "picojoules", u: 59, e: -12, f: |v| out(v.picojoules()) },
    C { n: "nanojoules", u: 59, e: -9, f: |v| out(v.nanojoules()) },
    C { n: "microjoules", u: 59, e: -6, f: |v| out(v.microjoules()) },
    C { n: "millijoules", u: 59, e: -3, f: |v| out(v.millijoules()) },
    C { n: "centijoules", u: 59, e: -2, f: |v| out(v.centijoules()) },
    C { n: "decijoules", u: 59, e: -1, f: |v| out(v.decijoules()) },
    C { n: "decajoules", u: 59, e: 1, f: |v| out(v.decajoules()) },
    C { n: "hectojoules", u: 59, e: 2, f: |v| out(v.hectojoules()) },
    C { n: "kilojoules", u: 59, e: 3, f: |v| out(v.kilojoules()) },
    C { n: "megajoules", u: 59, e: 6, f: |v| out(v.megajoules()) },
    C { n: "gigajoules", u: 59, e: 9, f: |v| out(v.gigajoules()) },
    C { n: "terajoules", u: 59, e: 12, f: |v| out(v.terajoules()) },
    C { n: "petajoules", u: 59, e: 15, f: |v| out(v.petajoules()) },
    C { n: "exajoules", u: 59, e: 18, f: |v| out(v.exajoules()) },
    C { n: "zettajoules", u: 59, e: 21, f: |v| out(v.zettajoules()) },
    C { n: "yottajoules", u: 59, e: 24, f: |v| out(v.yottajoules()) },
    C { n: "ronnajoules", u: 59, e: 27, f: |v| out(v.ronnajoules()) },
    C { n: "quettajoules", u: 59, e: 30, f: |v| out(v.quettajoules()) },
    C { n: "electron_volts", u: 60, e: 0, f: |v| out(v.electron_volts()) },
    C { n: "ergs", u: 61, e: 0, f: |v| out(v.ergs()) },
    C { n: "quectoergs", u: 61, e: -30, f: |v| out(v.quectoergs()) },
    C { n: "rontoergs", u: 61, e: -27, f: |v| out(v.rontoergs()) },
    C { n: "yoctoergs", u: 61, e: -24, f: |v| out(v.yoctoergs()) },
    C { n: "zeptoergs", u: 61, e: -21, f: |v| out(v.zeptoergs()) },
    C { n: "attoergs", u: 61, e: -18, f: |v| out(v.attoergs()) },
    C { n: "femtoergs", u: 61, e: -15, f: |v| out(v.femtoergs()) },
    C { n: "picoergs", u: 61, e: -12, f: |v| out(v.picoergs()) },
    C { n: "nanoergs", u: 61, e: -9, f: |v| out(v.nanoergs()) },
    C { n: "microergs", u: 61, e: -6, f: |v| out(v.microergs()) },
    C { n: "milliergs", u: 61, e: -3, f: |v| out(v.milliergs()) },
    C { n: "centiergs", u: 61, e: -2, f: |v| out(v.centiergs()) },
    C { n: "deciergs", u: 61, e: -1, f: |v| out(v.deciergs()) },
    C { n: "decaergs", u: 61, e: 1, f: |v| out(v.decaergs()) },
    C { n: "hectoergs", u: 61, e: 2, f: |v| out(v.hectoergs()) },
    C { n: "kiloergs", u: 61, e: 3, f: |v| out(v.kiloergs()) },
    C { n: "megaergs", u: 61, e: 6, f: |v| out(v.megaergs()) },
    C { n: "gigaergs", u: 61, e: 9, f: |v| out(v.gigaergs()) },
    C { n: "teraergs", u: 61, e: 12, f: |v| out(v.teraergs()) },
    C { n: "petaergs", u: 61, e: 15, f: |v| out(v.petaergs()) },
    C { n: "exaergs", u: 61, e: 18, f: |v| out(v.exaergs()) },
    C { n: "zettaergs", u: 61, e: 21, f: |v| out(v.zettaergs()) },
    C { n: "yottaergs", u: 61, e: 24, f: |v| out(v.yottaergs()) },
    C { n: "ronnaergs", u: 61, e: 27, f: |v| out(v.ronnaergs()) },
    C { n: "quettaergs", u: 61, e: 30, f: |v| out(v.quettaergs()) },
    C { n: "newton_meters", u: 62, e: 0, f: |v| out(v.newton_meters()) },
    C { n: "quectonewton_meters", u: 62, e: -30, f: |v| out(v.quectonewton_meters()) },
    C { n: "rontonewton_meters", u: 62, e: -27, f: |v| out(v.rontonewton_meters()) },
    C { n: "yoctonewton_meters", u: 62, e: -24, f: |v| out(v.yoctonewton_meters()) },
    C { n: "zeptonewton_meters", u: 62, e: -21, f: |v| out(v.zeptonewton_meters()) },
    C { n: "attonewton_meters", u: 62, e: -18, f: |v| out(v.attonewton_meters()) },
    C { n: "femtonewton_meters", u: 62, e: -15, f: |v| out(v.femtonewton_meters()) },
    C { n: "piconewton_meters", u: 62, e: -12, f: |v| out(v.piconewton_meters()) },
    C { n: "nanonewton_meters", u: 62, e: -9, f: |v| out(v.nanonewton_meters()) },
    C { n: "micronewton_meters", u: 62, e: -6, f: |v| out(v.micronewton_meters()) },
    C { n: "millinewton_meters", u: 62, e: -3, f: |v| out(v.millinewton_meters()) },
    C { n: "centinewton_meters", u: 62, e: -2, f: |v| out(v.centinewton_meters()) },
    C { n: "decinewton_meters", u: 62, e: -1, f: |v| out(v.decinewton_meters()) },
    C { n: "decanewton_meters", u: 62, e: 1, f: |v| out(v.decanewton_meters()) },
    C { n: "hectonewton_meters", u: 62, e: 2, f: |v| out(v.hectonewton_meters()) },
    C { n: "kilonewton_meters", u: 62, e: 3, f: |v| out(v.kilonewton_meters()) },
    C { n: "meganewton_meters", u: 62, e: 6, f: |v| out(v.meganewton_meters()) },
    C { n: "giganewton_meters", u: 62, e: 9, f: |v| out(v.giganewton_meters()) },
    C { n: "teranewton_meters", u: 62, e: 12, f: |v| out(v.teranewton_meters()) },
    C { n: "petanewton_meters", u: 62, e: 15, f: |v| out(v.petanewton_meters()) },
    C { n: "exanewton_meters", u: 62, e: 18, f: |v| out(v.exanewton_meters()) },
    C { n: "zettanewton_meters", u: 62, e: 21, f: |v| out(v.zettanewton_meters()) },
    C { n: "yottanewton_meters", u: 62, e: 24, f: |v| out(v.yottanewton_meters()) },
    C { n: "ronnanewton_meters", u: 62, e: 27, f: |v| out(v.ronnanewton_meters()) },
    C { n: "quettanewton_meters", u: 62, e: 30, f: |v| out(v.quettanewton_meters()) },
    C { n: "calories", u: 63, e: 0, f: |v| out(v.calories()) },
    C { n: "foot_pounds", u: 64, e: 0, f: |v| out(v.foot_pounds()) },
    C { n: "kilowatt_hours", u: 65, e: 0, f: |v| out(v.kilowatt_hours()) },
    C { n: "quectokilowatt_hours", u: 65, e: -30, f: |v| out(v.quectokilowatt_hours()) },
    C { n: "rontokilowatt_hours", u: 65, e: -27, f: |v| out(v.rontokilowatt_hours()) },
    C { n: "yoctokilowatt_hours", u: 65, e: -24, f: |v| out(v.yoctokilowatt_hours()) },
    C { n: "zeptokilowatt_hours", u: 65, e: -21, f: |v| out(v.zeptokilowatt_hours()) },
    C { n: "attokilowatt_hours", u: 65, e: -18, f: |v| out(v.attokilowatt_hours()) },
    C { n: "femtokilowatt_hours", u: 65, e: -15, f: |v| out(v.femtokilowatt_hours()) },
    C { n: "picokilowatt_hours", u: 65, e: -12, f: |v| out(v.picokilowatt_hours()) },
    C { n: "nanokilowatt_hours", u: 65, e: -9, f: |v| out(v.nanokilowatt_hours()) },
    C { n: "microkilowatt_hours", u: 65, e: -6, f: |v| out(v.microkilowatt_hours()) },
    C { n: "millikilowatt_hours", u: 65, e: -3, f: |v| out(v.millikilowatt_hours()) },
    C { n: "centikilowatt_hours", u: 65, e: -2, f: |v| out(v.centikilowatt_hours()) },
    C { n: "decikilowatt_hours", u: 65, e: -1, f: |v| out(v.decikilowatt_hours()) },
    C { n: "decakilowatt_hours", u: 65, e: 1, f: |v| out(v.decakilowatt_hours()) },
    C { n: "hectokilowatt_hours", u: 65, e: 2, f: |v| out(v.hectokilowatt_hours()) },
    C { n: "kilokilowatt_hours", u: 65, e: 3, f: |v| out(v.kilokilowatt_hours()) },
    C { n: "megakilowatt_hours", u: 65, e: 6, f: |v| out(v.megakilowatt_hours()) },
    C { n: "gigakilowatt_hours", u: 65, e: 9, f: |v| out(v.gigakilowatt_hours()) },
    C { n: "terakilowatt_hours", u: 65, e: 12, f: |v| out(v.terakilowatt_hours()) },
    C { n: "petakilowatt_hours", u: 65, e: 15, f: |v| out(v.petakilowatt_hours()) },
    C { n: "exakilowatt_hours", u: 65, e: 18, f: |v| out(v.exakilowatt_hours()) },
    C { n: "zettakilowatt_hours", u: 65, e: 21, f: |v| out(v.zettakilowatt_hours()) },
    C { n: "yottakilowatt_hours", u: 65, e: 24, f: |v| out(v.yottakilowatt_hours()) },
    C { n: "ronnakilowatt_hours", u: 65, e: 27, f: |v| out(v.ronnakilowatt_hours()) },
    C { n: "quettakilowatt_hours", u: 65, e: 30, f: |v| out(v.quettakilowatt_hours()) },
    C { n: "therms", u: 66, e: 0, f: |v| out(v.therms()) },
    C { n: "watts", u: 67, e: 0, f: |v| out(v.watts()) },
    C { n: "quectowatts", u: 67, e: -30, f: |v| out(v.quectowatts()) },
    C { n: "rontowatts", u: 67, e: -27, f: |v| out(v.rontowatts()) },
    C { n: "yoctowatts", u: 67, e: -24, f: |v| out(v.yoctowatts()) },
    C { n: "zeptowatts", u: 67, e: -21, f: |v| out(v.zeptowatts()) },
    C { n: "attowatts", u: 67, e: -18, f: |v| out(v.attowatts()) },
    C { n: "femtowatts", u: 67, e: -15, f: |v| out(v.femtowatts()) },
    C { n: "picowatts", u: 67, e: -12, f: |v| out(v.picowatts()) },
    C { n: "nanowatts", u: 67, e: -9, f: |v| out(v.nanowatts()) },
    C { n: "microwatts", u: 67, e: -6, f: |v| out(v.microwatts()) },
    C { n: "milliwatts", u: 67, e: -3, f: |v| out(v.milliwatts()) },
    C { n: "centiwatts", u: 67, e: -2, f: |v| out(v.centiwatts()) },
    C { n: "deciwatts", u: 67, e: -1, f: |v| out(v.deciwatts()) },
    C { n: "decawatts", u: 67, e: 1, f: |v| out(v.decawatts()) },
    C { n: "hectowatts", u: 67, e: 2, f: |v| out(v.hectowatts()) },
    C { n: "kilowatts", u: 67, e: 3, f: |v| out(v.kilowatts()) },
    C { n: "megawatts", u: 67, e: 6, f: |v| out(v.megawatts()) },
    C { n: "gigawatts", u: 67, e: 9, f: |v| out(v.gigawatts()) },
    C { n: "terawatts", u: 67, e: 12, f: |v| out(v.terawatts()) },
    C { n: "petawatts", u: 67, e: 15, f: |v| out(v.petawatts()) },
    C { n: "exawatts", u: 67, e: 18, f: |v| out(v.exawatts()) },
    C { n: "zettawatts", u: 67, e: 21, f: |v| out(v.zettawatts()) },
    C { n: "yottawatts", u: 67, e: 24, f: |v| out(v.yottawatts()) },
    C { n: "ronnawatts", u: 67, e: 27, f: |v| out(v.ronnawatts()) },
    C { n: "quettawatts", u: 67, e: 30, f: |v| out(v.quettawatts()) },
    C { n: "horsepower", u: 68, e: 0, f: |v| out(v.horsepower()) },
    C { n: "pascals", u: 69, e: 0, f: |v| out(v.pascals()) },
    C { n: "quectopascals", u: 69, e: -30, f: |v| out(v.quectopascals()) },
    C { n: "rontopascals", u: 69, e: -27, f: |v| out(v.rontopascals()) },
    C { n: "yoctopascals", u: 69, e: -24, f: |v| out(v.yoctopascals()) },
    C { n: "zeptopascals", u: 69, e: -21, f: |v| out(v.zeptopascals()) },
    C { n: "attopascals", u: 69, e: -18, f: |v| out(v.attopascals()) },
    C { n: "femtopascals", u: 69, e: -15, f: |v| out(v.femtopascals()) },
    C { n: "picopascals", u: 69, e: -12, f: |v| out(v.picopascals()) },
    C { n: "nanopascals", u: 69, e: -9, f: |v| out(v.nanopascals()) },
    C { n: "micropascals", u: 69, e: -6, f: |v| out(v.micropascals()) },
    C { n: "millipascals", u: 69, e: -3, f: |v| out(v.millipascals()) },
    C { n: "centipascals", u: 69, e: -2, f: |v| out(v.centipascals()) },
    C { n: "decipascals", u: 69, e: -1, f: |v| out(v.decipascals()) },
    C { n: "decapascals", u: 69, e: 1, f: |v| out(v.decapascals()) },
    C { n: "hectopascals", u: 69, e: 2, f: |v| out(v.hectopascals()) },
    C { n: "kilopascals", u: 69, e: 3, f: |v| out(v.kilopascals()) },
    C { n: "megapascals", u: 69, e: 6, f: |v| out(v.megapascals()) },
    C { n: "gigapascals", u: 69, e: 9, f: |v| out(v.gigapascals()) },
    C { n: "terapascals", u: 69, e: 12, f: |v| out(v.terapascals()) },
    C { n: "petapascals", u: 69, e: 15, f: |v| out(v.petapascals()) },
    C { n: "exapascals", u: 69, e: 18, f: |v| out(v.exapascals()) },
    C { n: "zettapascals", u: 69, e: 21, f: |v| out(v.zettapascals()) },
    C { n: "yottapascals", u: 69, e: 24, f: |v| out(v.yottapascals()) },
    C { n: "ronnapascals", u: 69, e: 27, f: |v| out(v.ronnapascals()) },
    C { n: "quettapascals", u: 69, e: 30, f: |v| out(v.quettapascals()) },
    C { n: "torr", u: 70, e: 0, f: |v| out(v.torr()) },
    C { n: "psi", u: 71, e: 0, f: |v| out(v.psi()) },
    C { n: "bar", u: 72, e: 0, f: |v| out(v.bar()) },
    C { n: "quectobar", u: 72, e: -30, f: |v| out(v.quectobar()) },
    C { n: "rontobar", u: 72, e: -27, f: |v| out(v.rontobar()) },
    C { n: "yoctobar", u: 72, e: -24, f: |v| out(v.yoctobar()) },
    C { n: "zeptobar", u: 72, e: -21, f: |v| out(v.zeptobar()) },
    C { n: "attobar", u: 72, e: -18, f: |v| out(v.attobar()) },
    C { n: "femtobar", u: 72, e: -15, f: |v| out(v.femtobar()) },
    C { n: "picobar", u: 72, e: -12, f: |v| out(v.picobar()) },
    C { n: "nanobar", u: 72, e: -9, f: |v| out(v.nanobar()) },
    C { n: "microbar", u: 72, e: -6, f: |v| out(v.microbar()) },
    C { n: "millibar", u: 72, e: -3, f: |v| out(v.millibar()) },
    C { n: "centibar", u: 72, e: -2, f: |v| out(v.centibar()) },
    C { n: "decibar", u: 72, e: -1, f: |v| out(v.decibar()) },
    C { n: "decabar", u: 72, e: 1, f: |v| out(v.decabar()) },
    C { n: "hectobar", u: 72, e: 2, f: |v| out(v.hectobar()) },
    C { n: "kilobar", u: 72, e: 3, f: |v| out(v.kilobar()) },
    C { n: "megabar", u: 72, e: 6, f: |v| out(v.megabar()) },
    C { n: "gigabar", u: 72, e: 9, f: |v| out(v.gigabar()) },
    C { n: "terabar", u: 72, e: 12, f: |v| out(v.terabar()) },
    C { n: "petabar", u: 72, e: 15, f: |v| out(v.petabar()) },
    C { n: "exabar", u: 72, e: 18, f: |v| out(v.exabar()) },
    C { n: "zettabar", u: 72, e: 21, f: |v| out(v.zettabar()) },
    C { n: "yottabar", u: 72, e: 24, f: |v| out(v.yottabar()) },
    C { n: "ronnabar", u: 72, e: 27, f: |v| out(v.ronnabar()) },
    C { n: "quettabar", u: 72, e: 30, f: |v| out(v.quettabar()) },
    C { n: "atmospheres", u: 73, e: 0, f: |v| out(v.atmospheres()) },
    C { n: "coulombs", u: 74, e: 0, f: |v| out(v.coulombs()) },
    C { n: "quectocoulombs", u: 74, e: -30, f: |v| out(v.quectocoulombs()) },
    C { n: "rontocoulombs", u: 74, e: -27, f: |v| out(v.rontocoulombs()) },
    C { n: "yoctocoulombs", u: 74, e: -24, f: |v| out(v.yoctocoulombs()) },
    C { n: "zeptocoulombs", u: 74, e: -21, f: |v| out(v.zeptocoulombs()) },
    C { n: "attocoulombs", u: 74, e: -18, f: |v| out(v.attocoulombs()) },
    C { n: "femtocoulombs", u: 74, e: -15, f: |v| out(v.femtocoulombs()) },
    C { n: "picocoulombs", u: 74, e: -12, f: |v| out(v.picocoulombs()) },
    C { n: "nanocoulombs", u: 74, e: -9, f: |v| out(v.nanocoulombs()) },
    C { n: "microcoulombs", u: 74, e: -6, f: |v| out(v.microcoulombs()) },
    C { n: "millicoulombs", u: 74, e: -3, f: |v| out(v.millicoulombs()) },
    C { n: "centicoulombs", u: 74, e: -2, f: |v| out(v.centicoulombs()) },
    C { n: "decicoulombs", u: 74, e: -1, f: |v| out(v.decicoulombs()) },
    C { n: "decacoulombs", u: 74, e: 1, f: |v| out(v.decacoulombs()) },
    C { n: "hectocoulombs", u: 74, e: 2, f: |v| out(v.hectocoulombs()) },
    C { n: "kilocoulombs", u: 74, e: 3, f: |v| out(v.kilocoulombs()) },
    C { n: "megacoulombs", u: 74, e: 6, f: |v| out(v.megacoulombs()) },
    C { n: "gigacoulombs", u: 74, e: 9, f: |v| out(v.gigacoulombs()) },
    C { n: "teracoulombs", u: 74, e: 12, f: |v| out(v.teracoulombs()) },
    C { n: "petacoulombs", u: 74, e: 15, f: |v| out(v.petacoulombs()) },
    C { n: "exacoulombs", u: 74, e: 18, f: |v| out(v.exacoulombs()) },
    C { n: "zettacoulombs", u: 74, e: 21, f: |v| out(v.zettacoulombs()) },
    C { n: "yottacoulombs", u: 74, e: 24, f: |v| out(v.yottacoulombs()) },
    C { n: "ronnacoulombs", u: 74, e: 27, f: |v| out(v.ronnacoulombs()) },
    C { n: "quettacoulombs", u: 74, e: 30, f: |v| out(v.quettacoulombs()) },
    C { n: "volts", u: 75, e: 0, f: |v| out(v.volts()) },
    C { n: "quectovolts", u: 75, e: -30, f: |v| out(v.quectovolts()) },
    C { n: "rontovolts", u: 75, e: -27, f: |v| out(v.rontovolts()) },
    C { n: "yoctovolts", u: 75, e: -24, f: |v| out(v.yoctovolts()) },
    C { n: "zeptovolts", u: 75, e: -21, f: |v| out(v.zeptovolts()) },
    C { n: "attovolts", u: 75, e: -18, f: |v| out(v.attovolts()) },
    C { n: "femtovolts", u: 75, e: -15, f: |v| out(v.femtovolts()) },
    C { n: "picovolts", u: 75, e: -12, f: |v| out(v.picovolts()) },
    C { n: "nanovolts", u: 75, e: -9, f: |v| out(v.nanovolts()) },
    C { n: "microvolts", u: 75, e: -6, f: |v| out(v.microvolts()) },
    C { n: "millivolts", u: 75, e: -3, f: |v| out(v.millivolts()) },
    C { n: "centivolts", u: 75, e: -2, f: |v| out(v.centivolts()) },
    C { n: "decivolts", u: 75, e: -1, f: |v| out(v.decivolts()) },
    C { n: "decavolts", u: 75, e: 1, f: |v| out(v.decavolts()) },
    C { n: "hectovolts", u: 75, e: 2, f: |v| out(v.hectovolts()) },
    C { n: "kilovolts", u: 75, e: 3, f: |v| out(v.kilovolts()) },
    C { n: "megavolts", u: 75, e: 6, f: |v| out(v.megavolts()) },
    C { n: "gigavolts", u: 75, e: 9, f: |v| out(v.gigavolts()) },
    C { n: "teravolts", u: 75, e: 12, f: |v| out(v.teravolts()) },
    C { n: "petavolts", u: 75, e: 15, f: |v| out(v.petavolts()) },
    C { n: "exavolts", u: 75, e: 18, f: |v| out(v.exavolts()) },
    C { n: "zettavolts", u: 75, e: 21, f: |v| out(v.zettavolts()) },
    C { n: "yottavolts", u: 75, e: 24, f: |v| out(v.yottavolts()) },
    C { n: "ronnavolts", u: 75, e: 27, f: |v| out(v.ronnavolts()) },
    C { n: "quettavolts", u: 75, e: 30, f: |v| out(v.quettavolts()) },
    C { n: "farads", u: 76, e: 0, f: |v| out(v.farads()) },
    C { n: "quectofarads", u: 76, e: -30, f: |v| out(v.quectofarads()) },
    C { n: "rontofarads", u: 76, e: -27, f: |v| out(v.rontofarads()) },
    C { n: "yoctofarads", u: 76, e: -24, f: |v| out(v.yoctofarads()) },
    C { n: "zeptofarads", u: 76, e: -21, f: |v| out(v.zeptofarads()) },
    C { n: "attofarads", u: 76, e: -18, f: |v| out(v.attofarads()) },
    C { n: "femtofarads", u: 76, e: -15, f: |v| out(v.femtofarads()) },
    C { n: "picofarads", u: 76, e: -12, f: |v| out(v.picofarads()) },
    C { n: "nanofarads", u: 76, e: -9, f: |v| out(v.nanofarads()) },
    C { n: "microfarads", u: 76, e: -6, f: |v| out(v.microfarads()) },
    C { n: "millifarads", u: 76, e: -3, f: |v| out(v.millifarads()) },
    C { n: "centifarads", u: 76, e: -2, f: |v| out(v.centifarads()) },
    C { n: "decifarads", u: 76, e: -1, f: |v| out(v.decifarads()) },
    C { n: "decafarads", u: 76, e: 1, f: |v| out(v.decafarads()) },
    C { n: "hectofarads", u: 76, e: 2, f: |v| out(v.hectofarads()) },
    C { n: "kilofarads", u: 76, e: 3, f: |v| out(v.kilofarads()) },
    C { n: "megafarads", u: 76, e: 6, f: |v| out(v.megafarads()) },
    C { n: "gigafarads", u: 76, e: 9, f: |v| out(v.gigafarads()) },
    C { n: "terafarads", u: 76, e: 12, f: |v| out(v.terafarads()) },
    C { n: "petafarads", u: 76, e: 15, f: |v| out(v.petafarads()) },
    C { n: "exafarads", u: 76, e: 18, f: |v| out(v.exafarads()) },
    C { n: "zettafarads", u: 76, e: 21, f: |v| out(v.zettafarads()) },
    C { n: "yottafarads", u: 76, e: 24, f: |v| out(v.yottafarads()) },
    C { n: "ronnafarads", u: 76, e: 27, f: |v| out(v.ronnafarads()) },
    C { n: "quettafarads", u: 76, e: 30, f: |v| out(v.quettafarads()) },
    C { n: "ohms", u: 77, e: 0, f: |v| out(v.ohms()) },
    C { n: "quectoohms", u: 77, e: -30, f: |v| out(v.quectoohms()) },
    C { n: "rontoohms", u: 77, e: -27, f: |v| out(v.rontoohms()) },
    C { n: "yoctoohms", u: 77, e: -24, f: |v| out(v.yoctoohms()) },
    C { n: "zeptoohms", u: 77, e: -21, f: |v| out(v.zeptoohms()) },
    C { n: "attoohms", u: 77, e: -18, f: |v| out(v.attoohms()) },
    C { n: "femtoohms", u: 77, e: -15, f: |v| out(v.femtoohms()) },
    C { n: "picoohms", u: 77, e: -12, f: |v| out(v.picoohms()) },
    C { n: "nanoohms", u: 77, e: -9, f: |v| out(v.nanoohms()) },
    C { n: "microohms", u: 77, e: -6, f: |v| out(v.microohms()) },
    C { n: "milliohms", u: 77, e: -3, f: |v| out(v.milliohms()) },
    C { n: "centiohms", u: 77, e: -2, f: |v| out(v.centiohms()) },
    C { n: "deciohms", u: 77, e: -1, f: |v| out(v.deciohms()) },
    C { n: "decaohms", u: 77, e: 1, f: |v| out(v.decaohms()) },
    C { n: "hectoohms", u: 77, e: 2, f: |v| out(v.hectoohms()) },
    C { n: "kiloohms", u: 77, e: 3, f: |v| out(v.kiloohms()) },
    C { n: "megaohms", u: 77, e: 6, f: |v| out(v.megaohms()) },
    C { n: "gigaohms", u: 77, e: 9, f: |v| out(v.gigaohms()) },
    C { n: "teraohms", u: 77, e: 12, f: |v| out(v.teraohms()) },
    C { n: "petaohms", u: 77, e: 15, f: |v| out(v.petaohms()) },
    C { n: "exaohms", u: 77, e: 18, f: |v| out(v.exaohms()) },
    C { n: "zettaohms", u: 77, e: 21, f: |v| out(v.zettaohms()) },
    C { n: "yottaohms", u: 77, e: 24, f: |v| out(v.yottaohms()) },
    C { n: "ronnaohms", u: 77, e: 27, f: |v| out(v.ronnaohms()) },
    C { n: "quettaohms", u: 77, e: 30, f: |v| out(v.quettaohms()) },
    C { n: "siemenss", u: 78, e: 0, f: |v| out(v.siemenss()) },
    C { n: "quectosiemenss", u: 78, e: -30, f: |v| out(v.quectosiemenss()) },
    C { n: "rontosiemenss", u: 78, e: -27, f: |v| out(v.rontosiemenss()) },
    C { n: "yoctosiemenss", u: 78, e: -24, f: |v| out(v.yoctosiemenss()) },
    C { n: "zeptosiemenss", u: 78, e: -21, f: |v| out(v.zeptosiemenss()) },
    C { n: "attosiemenss", u: 78, e: -18, f: |v| out(v.attosiemenss()) },
    C { n: "femtosiemenss", u: 78, e: -15, f: |v| out(v.femtosiemenss()) },
    C { n: "picosiemenss", u: 78, e: -12, f: |v| out(v.picosiemenss()) },
    C { n: "nanosiemenss", u: 78, e: -9, f: |v| out(v.nanosiemenss()) },
    C { n: "microsiemenss", u: 78, e: -6, f: |v| out(v.microsiemenss()) },
    C { n: "millisiemenss", u: 78, e: -3, f: |v| out(v.millisiemenss()) },
    C { n: "centisiemenss", u: 78, e: -2, f: |v| out(v.centisiemenss()) },
    C { n: "decisiemenss", u: 78, e: -1, f: |v| out(v.decisiemenss()) },
    C { n: "decasiemenss", u: 78, e: 1, f: |v| out(v.decasiemenss()) },
    C { n: "hectosiemenss", u: 78, e: 2, f: |v| out(v.hectosiemenss()) },
    C { n: "kilosiemenss", u: 78, e: 3, f: |v| out(v.kilosiemenss()) },
    C { n: "megasiemenss", u: 78, e: 6, f: |v| out(v.megasiemenss()) },
    C { n: "gigasiemenss", u: 78, e: 9, f: |v| out(v.gigasiemenss()) },
    C { n: "terasiemenss", u: 78, e: 12, f: |v| out(v.terasiemenss()) },
    C { n: "petasiemenss", u: 78, e: 15, f: |v| out(v.petasiemenss()) },
    C { n: "exasiemenss", u: 78, e: 18, f: |v| out(v.exasiemenss()) },
    C { n: "zettasiemenss", u: 78, e: 21, f: |v| out(v.zettasiemenss()) },
    C { n: "yottasiemenss", u: 78, e: 24, f: |v| out(v.yottasiemenss()) },
    C { n: "ronnasiemenss", u: 78, e: 27, f: |v| out(v.ronnasiemenss()) },
    C { n: "quettasiemenss", u: 78, e: 30, f: |v| out(v.quettasiemenss()) },
    C { n: "henries", u: 79, e: 0, f: |v| out(v.henries()) },
    C { n: "quectohenries", u: 79, e: -30, f: |v| out(v.quectohenries()) },
    C { n: "rontohenries", u: 79, e: -27, f: |v| out(v.rontohenries()) },
    C { n: "yoctohenries", u: 79, e: -24, f: |v| out(v.yoctohenries()) },
    C { n: "zeptohenries", u: 79, e: -21, f: |v| out(v.zeptohenries()) },
    C { n: "attohenries", u: 79, e: -18, f: |v| out(v.attohenries()) },
    C { n: "femtohenries", u: 79, e: -15, f: |v| out(v.femtohenries()) },
    C { n: "picohenries", u: 79, e: -12, f: |v| out(v.picohenries()) },
    C { n: "nanohenries", u: 79, e: -9, f: |v| out(v.nanohenries()) },
    C { n: "microhenries", u: 79, e: -6, f: |v| out(v.microhenries()) },
    C { n: "millihenries", u: 79, e: -3, f: |v| out(v.millihenries()) },
    C { n: "centihenries", u: 79, e: -2, f: |v| out(v.centihenries()) },
    C { n: "decihenries", u: 79, e: -1, f: |v| out(v.decihenries()) },
    C { n: "decahenries", u: 79, e: 1, f: |v| out(v.decahenries()) },
    C { n: "hectohenries", u: 79, e: 2, f: |v| out(v.hectohenries()) },
    C { n: "kilohenries", u: 79, e: 3, f: |v| out(v.kilohenries()) },
    C { n: "megahenries", u: 79, e: 6, f: |v| out(v.megahenries()) },
    C { n: "gigahenries", u: 79, e: 9, f: |v| out(v.gigahenries()) },
    C { n: "terahenries", u: 79, e: 12, f: |v| out(v.terahenries()) },
    C { n: "petahenries", u: 79, e: 15, f: |v| out(v.petahenries()) },
    C { n: "exahenries", u: 79, e: 18, f: |v| out(v.exahenries()) },
    C { n: "zettahenries", u: 79, e: 21, f: |v| out(v.zettahenries()) },
    C { n: "yottahenries", u: 79, e: 24, f: |v| out(v.yottahenries()) },
    C { n: "ronnahenries", u: 79, e: 27, f: |v| out(v.ronnahenries()) },
    C { n: "quettahenries", u: 79, e: 30, f: |v| out(v.quettahenries()) },
    C { n: "teslas", u: 80, e: 0, f: |v| out(v.teslas()) },
    C { n: "quectoteslas", u: 80, e: -30, f: |v| out(v.quectoteslas()) },
    C { n: "rontoteslas", u: 80, e: -27, f: |v| out(v.rontoteslas()) },
    C { n: "yoctoteslas", u: 80, e: -24, f: |v| out(v.yoctoteslas()) },
    C { n: "zeptoteslas", u: 80, e: -21, f: |v| out(v.zeptoteslas()) },
    C { n: "attoteslas", u: 80, e: -18, f: |v| out(v.attoteslas()) },
    C { n: "femtoteslas", u: 80, e: -15, f: |v| out(v.femtoteslas()) },
    C { n: "picoteslas", u: 80, e: -12, f: |v| out(v.picoteslas()) },
    C { n: "nanoteslas", u: 80, e: -9, f: |v| out(v.nanoteslas()) },
    C { n: "microteslas", u: 80, e: -6, f: |v| out(v.microteslas()) },
    C { n: "milliteslas", u: 80, e: -3, f: |v| out(v.milliteslas()) },
    C { n: "centiteslas", u: 80, e: -2, f: |v| out(v.centiteslas()) },
    C { n: "deciteslas", u: 80, e: -1, f: |v| out(v.deciteslas()) },
    C { n: "decateslas", u: 80, e: 1, f: |v| out(v.decateslas()) },
    C { n: "hectoteslas", u: 80, e: 2, f: |v| out(v.hectoteslas()) },
    C { n: "kiloteslas", u: 80, e: 3, f: |v| out(v.kiloteslas()) },
    C { n: "megateslas", u: 80, e: 6, f: |v| out(v.megateslas()) },
    C { n: "gigateslas", u: 80, e: 9, f: |v| out(v.gigateslas()) },
    C { n: "terateslas", u: 80, e: 12, f: |v| out(v.terateslas()) },
    C { n: "petateslas", u: 80, e: 15, f: |v| out(v.petateslas()) },
    C { n: "exateslas", u: 80, e: 18, f: |v| out(v.exateslas()) },
    C { n: "zettateslas", u: 80, e: 21, f: |v| out(v.zettateslas()) },
    C { n: "yottateslas", u: 80, e: 24, f: |v| out(v.yottateslas()) },
    C { n: "ronnateslas", u: 80, e: 27, f: |v| out(v.ronnateslas()) },
    C { n: "quettateslas", u: 80, e: 30, f: |v| out(v.quettateslas()) },
    C { n: "webers", u: 81, e: 0, f: |v| out(v.webers()) },
    C { n: "quectowebers", u: 81, e: -30, f: |v| out(v.quectowebers()) },
    C { n: "rontowebers", u: 81, e: -27, f: |v| out(v.rontowebers()) },
    C { n: "yoctowebers", u: 81, e: -24, f: |v| out(v.yoctowebers()) },
    C { n: "zeptowebers", u: 81, e: -21, f: |v| out(v.zeptowebers()) },
    C { n: "attowebers", u: 81, e: -18, f: |v| out(v.attowebers()) },
    C { n: "femtowebers", u: 81, e: -15, f: |v| out(v.femtowebers()) },
    C { n: "picowebers", u: 81, e: -12, f: |v| out(v.picowebers()) },
    C { n: "nanowebers", u: 81, e: -9, f: |v| out(v.nanowebers()) },
    C { n: "microwebers", u: 81, e: -6, f: |v| out(v.microwebers()) },
    C { n: "milliwebers", u: 81, e: -3, f: |v| out(v.milliwebers()) },
    C { n: "centiwebers", u: 81, e: -2, f: |v| out(v.centiwebers()) },
    C { n: "deciwebers", u: 81, e: -1, f: |v| out(v.deciwebers()) },
    C { n: "decawebers", u: 81, e: 1, f: |v| out(v.decawebers()) },
    C { n: "hectowebers", u: 81, e: 2, f: |v| out(v.hectowebers()) },
    C { n: "kilowebers", u: 81, e: 3, f: |v| out(v.kilowebers()) },
    C { n: "megawebers", u: 81, e: 6, f: |v| out(v.megawebers()) },
    C { n: "gigawebers", u: 81, e: 9, f: |v| out(v.gigawebers()) },
    C { n: "terawebers", u: 81, e: 12, f: |v| out(v.terawebers()) },
    C { n: "petawebers", u: 81, e: 15, f: |v| out(v.petawebers()) },
    C { n: "exawebers", u: 81, e: 18, f: |v| out(v.exawebers()) },
    C { n: "zettawebers", u: 81, e: 21, f: |v| out(v.zettawebers()) },
    C { n: "yottawebers", u: 81, e: 24, f: |v| out(v.yottawebers()) },
    C { n: "ronnawebers", u: 81, e: 27, f: |v| out(v.ronnawebers()) },
    C { n: "quettawebers", u: 81, e: 30, f: |v| out(v.quettawebers()) },
    C { n: "lux", u: 82, e: 0, f: |v| out(v.lux()) },
    C { n: "quectolux", u: 82, e: -30, f: |v| out(v.quectolux()) },
    C { n: "rontolux", u: 82, e: -27, f: |v| out(v.rontolux()) },
    C { n: "yoctolux", u: 82, e: -24, f: |v| out(v.yoctolux()) },
    C { n: "zeptolux", u: 82, e: -21, f: |v| out(v.zeptolux()) },
    C { n: "attolux", u: 82, e: -18, f: |v| out(v.attolux()) },
    C { n: "femtolux", u: 82, e: -15, f: |v| out(v.femtolux()) },
    C { n: "picolux", u: 82, e: -12, f: |v| out(v.picolux()) },
    C { n: "nanolux", u: 82, e: -9, f: |v| out(v.nanolux()) },
    C { n: "microlux", u: 82, e: -6, f: |v| out(v.microlux()) },
    C { n: "millilux", u: 82, e: -3, f: |v| out(v.millilux()) },
    C { n: "centilux", u: 82, e: -2, f: |v| out(v.centilux()) },
    C { n: "decilux", u: 82, e: -1, f: |v| out(v.decilux()) },
    C { n: "decalux", u: 82, e: 1, f: |v| out(v.decalux()) },
    C { n: "hectolux", u: 82, e: 2, f: |v| out(v.hectolux()) },
    C { n: "kilolux", u: 82, e: 3, f: |v| out(v.kilolux()) },
    C { n: "megalux", u: 82, e: 6, f: |v| out(v.megalux()) },
    C { n: "gigalux", u: 82, e: 9, f: |v| out(v.gigalux()) },
    C { n: "teralux", u: 82, e: 12, f: |v| out(v.teralux()) },
    C { n: "petalux", u: 82, e: 15, f: |v| out(v.petalux()) },
    C { n: "exalux", u: 82, e: 18, f: |v| out(v.exalux()) },
    C { n: "zettalux", u: 82, e: 21, f: |v| out(v.zettalux()) },
    C { n: "yottalux", u: 82, e: 24, f: |v| out(v.yottalux()) },
    C { n: "ronnalux", u: 82, e: 27, f: |v| out(v.ronnalux()) },
    C { n: "quettalux", u: 82, e: 30, f: |v| out(v.quettalux()) },
    C { n: "gausss", u: 83, e: 0, f: |v| out(v.gausss()) },
    C { n: "quectogausss", u: 83, e: -30, f: |v| out(v.quectogausss()) },
    C { n: "rontogausss", u: 83, e: -27, f: |v| out(v.rontogausss()) },
    C { n: "yoctogausss", u: 83, e: -24, f: |v| out(v.yoctogausss()) },
    C { n: "zeptogausss", u: 83, e: -21, f: |v| out(v.zeptogausss()) },
    C { n: "attogausss", u: 83, e: -18, f: |v| out(v.attogausss()) },
    C { n: "femtogausss", u: 83, e: -15, f: |v| out(v.femtogausss()) },
    C { n: "picogausss", u: 83, e: -12, f: |v| out(v.picogausss()) },
    C { n: "nanogausss", u: 83, e: -9, f: |v| out(v.nanogausss()) },
    C { n: "microgausss", u: 83, e: -6, f: |v| out(v.microgausss()) },
    C { n: "milligausss", u: 83, e: -3, f: |v| out(v.milligausss()) },
    C { n: "centigausss", u: 83, e: -2, f: |v| out(v.centigausss()) },
    C { n: "decigausss", u: 83, e: -1, f: |v| out(v.decigausss()) },
    C { n: "decagausss", u: 83, e: 1, f: |v| out(v.decagausss()) },
    C { n: "hectogausss", u: 83, e: 2, f: |v| out(v.hectogausss()) },
    C { n: "kilogausss", u: 83, e: 3, f: |v| out(v.kilogausss()) },
    C { n: "megagausss", u: 83, e: 6, f: |v| out(v.megagausss()) },
    C { n: "gigagausss", u: 83, e: 9, f: |v| out(v.gigagausss()) },
    C { n: "teragausss", u: 83, e: 12, f: |v| out(v.teragausss()) },
    C { n: "petagausss", u: 83, e: 15, f: |v| out(v.petagausss()) },
    C { n: "exagausss", u: 83, e: 18, f: |v| out(v.exagausss()) },
    C { n: "zettagausss", u: 83, e: 21, f: |v| out(v.zettagausss()) },
    C { n: "yottagausss", u: 83, e: 24, f: |v| out(v.yottagausss()) },
    C { n: "ronnagausss", u: 83, e: 27, f: |v| out(v.ronnagausss()) },
    C { n: "quettagausss", u: 83, e: 30, f: |v| out(v.quettagausss()) },
    C { n: "stokess", u: 84, e: 0, f: |v| out(v.stokess()) },
    C { n: "quectostokess", u: 84, e: -30, f: |v| out(v.quectostokess()) },
    C { n: "rontostokess", u: 84, e: -27, f: |v| out(v.rontostokess()) },
    C { n: "yoctostokess", u: 84, e: -24, f: |v| out(v.yoctostokess()) },
    C { n: "zeptostokess", u: 84, e: -21, f: |v| out(v.zeptostokess()) },
    C { n: "attostokess", u: 84, e: -18, f: |v| out(v.attostokess()) },
    C { n: "femtostokess", u: 84, e: -15, f: |v| out(v.femtostokess()) },
    C { n: "picostokess", u: 84, e: -12, f: |v| out(v.picostokess()) },
    C { n: "nanostokess", u: 84, e: -9, f: |v| out(v.nanostokess()) },
    C { n: "microstokess", u: 84, e: -6, f: |v| out(v.microstokess()) },
    C { n: "millistokess", u: 84, e: -3, f: |v| out(v.millistokess()) },
    C { n: "centistokess", u: 84, e: -2, f: |v| out(v.centistokess()) },
    C { n: "decistokess", u: 84, e: -1, f: |v| out(v.decistokess()) },
    C { n: "decastokess", u: 84, e: 1, f: |v| out(v.decastokess()) },
    C { n: "hectostokess", u: 84, e: 2, f: |v| out(v.hectostokess()) },
    C { n: "kilostokess", u: 84, e: 3, f: |v| out(v.kilostokess()) },
    C { n: "megastokess", u: 84, e: 6, f: |v| out(v.megastokess()) },
    C { n: "gigastokess", u: 84, e: 9, f: |v| out(v.gigastokess()) },
    C { n: "terastokess", u: 84, e: 12, f: |v| out(v.terastokess()) },
    C { n: "petastokess", u: 84, e: 15, f: |v| out(v.petastokess()) },
    C { n: "exastokess", u: 84, e: 18, f: |v| out(v.exastokess()) },
    C { n: "zettastokess", u: 84, e: 21, f: |v| out(v.zettastokess()) },
    C { n: "yottastokess", u: 84, e: 24, f: |v| out(v.yottastokess()) },
    C { n: "ronnastokess", u: 84, e: 27, f: |v| out(v.ronnastokess()) },
    C { n: "quettastokess", u: 84, e: 30, f: |v| out(v.quettastokess()) },
];
pub static DECLI: &[DI] = &[
    DI { n: "grams", u: 0, f: |v| outi(v.grams()) },
    DI { n: "grains", u: 1, f: |v| outi(v.grains()) },
    DI { n: "carats", u: 2, f: |v| outi(v.carats()) },
    DI { n: "ounces", u: 3, f: |v| outi(v.ounces()) },
    DI { n: "troy_ounces", u: 4, f: |v| outi(v.troy_ounces()) },
    DI { n: "troy_pounds", u: 5, f: |v| outi(v.troy_pounds()) },
    DI { n: "pounds", u: 6, f: |v| outi(v.pounds()) },
    DI { n: "stone", u: 7, f: |v| outi(v.stone()) },
    DI { n: "tons", u: 8, f: |v| outi(v.tons()) },
    DI { n: "meters", u: 9, f: |v| outi(v.meters()) },
    DI { n: "inches", u: 10, f: |v| outi(v.inches()) },
    DI { n: "feet", u: 11, f: |v| outi(v.feet()) },
    DI { n: "yards", u: 12, f: |v| outi(v.yards()) },
    DI { n: "miles", u: 13, f: |v| outi(v.miles()) },
    DI { n: "nautical_miles", u: 14, f: |v| outi(v.nautical_miles()) },
    DI { n: "astronomical_units", u: 15, f: |v| outi(v.astronomical_units()) },
    DI { n: "light_years", u: 16, f: |v| outi(v.light_years()) },
    DI { n: "parsecs", u: 17, f: |v| outi(v.parsecs()) },
    DI { n: "seconds", u: 18, f: |v| outi(v.seconds()) },
    DI { n: "minutes", u: 19, f: |v| outi(v.minutes()) },
    DI { n: "hours", u: 20, f: |v| outi(v.hours()) },
    DI { n: "days", u: 21, f: |v| outi(v.days()) },
    DI { n: "weeks", u: 22, f: |v| outi(v.weeks()) },
    DI { n: "months", u: 23, f: |v| outi(v.months()) },
    DI { n: "years", u: 24, f: |v| outi(v.years()) },
    DI { n: "amperes", u: 25, f: |v| outi(v.amperes()) },
    DI { n: "kelvin", u: 26, f: |v| outi(v.kelvin()) },
    DI { n: "rankine", u: 28, f: |v| outi(v.rankine()) },
    DI { n: "moles", u: 30, f: |v| outi(v.moles()) },
    DI { n: "candela", u: 31, f: |v| outi(v.candela()) },
    DI { n: "lumens", u: 32, f: |v| outi(v.lumens()) },
    DI { n: "radians", u: 33, f: |v| outi(v.radians()) },
    DI { n: "degrees", u: 34, f: |v| outi(v.degrees()) },
    DI { n: "gradians", u: 35, f: |v| outi(v.gradians()) },
    DI { n: "turns", u: 36, f: |v| outi(v.turns()) },
    DI { n: "arcminutes", u: 37, f: |v| outi(v.arcminutes()) },
    DI { n: "arcseconds", u: 38, f: |v| outi(v.arcseconds()) },
    DI { n: "hectares", u: 39, f: |v| outi(v.hectares()) },
    DI { n: "acres", u: 40, f: |v| outi(v.acres()) },
    DI { n: "liters", u: 41, f: |v| outi(v.liters()) },
    DI { n: "gallons", u: 42, f: |v| outi(v.gallons()) },
    DI { n: "quarts", u: 43, f: |v| outi(v.quarts()) },
    DI { n: "pints", u: 44, f: |v| outi(v.pints()) },
    DI { n: "cups", u: 45, f: |v| outi(v.cups()) },
    DI { n: "fluid_ounces", u: 46, f: |v| outi(v.fluid_ounces()) },
    DI { n: "tablespoons", u: 47, f: |v| outi(v.tablespoons()) },
    DI { n: "teaspoons", u: 48, f: |v| outi(v.teaspoons()) },
    DI { n: "uk_gallons", u: 49, f: |v| outi(v.uk_gallons()) },
    DI { n: "uk_quarts", u: 50, f: |v| outi(v.uk_quarts()) },
    DI { n: "uk_pints", u: 51, f: |v| outi(v.uk_pints()) },
    DI { n: "uk_cups", u: 52, f: |v| outi(v.uk_cups()) },
    DI { n: "uk_fluid_ounces", u: 53, f: |v| outi(v.uk_fluid_ounces()) },
    DI { n: "uk_tablespoons", u: 54, f: |v| outi(v.uk_tablespoons()) },
    DI { n: "uk_teaspoons", u: 55, f: |v| outi(v.uk_teaspoons()) },
    DI { n: "bushels", u: 56, f: |v| outi(v.bushels()) },
    DI { n: "hertzs", u: 57, f: |v| outi(v.hertzs()) },
    DI { n: "newtons", u: 58, f: |v| outi(v.newtons()) },
    DI { n: "joules", u: 59, f: |v| outi(v.joules()) },
    DI { n: "electron_volts", u: 60, f: |v| outi(v.electron_volts()) },
    DI { n: "ergs", u: 61, f: |v| outi(v.ergs()) },
    DI { n: "newton_meters", u: 62, f: |v| outi(v.newton_meters()) },
    DI { n: "calories", u: 63, f: |v| outi(v.calories()) },
    DI { n: "foot_pounds", u: 64, f: |v| outi(v.foot_pounds()) },
    DI { n: "kilowatt_hours", u: 65, f: |v| outi(v.kilowatt_hours()) },
    DI { n: "therms", u: 66, f: |v| outi(v.therms()) },
    DI { n: "watts", u: 67, f: |v| outi(v.watts()) },
    DI { n: "horsepower", u: 68, f: |v| outi(v.horsepower()) },
    DI { n: "pascals", u: 69, f: |v| outi(v.pascals()) },
    DI { n: "torr", u: 70, f: |v| outi(v.torr()) },
    DI { n: "psi", u: 71, f: |v| outi(v.psi()) },
    DI { n: "bar", u: 72, f: |v| outi(v.bar()) },
    DI { n: "atmospheres", u: 73, f: |v| outi(v.atmospheres()) },
    DI { n: "coulombs", u: 74, f: |v| outi(v.coulombs()) },
    DI { n: "volts", u: 75, f: |v| outi(v.volts()) },
    DI { n: "farads", u: 76, f: |v| outi(v.farads()) },
    DI { n: "ohms", u: 77, f: |v| outi(v.ohms()) },
    DI { n: "siemenss", u: 78, f: |v| outi(v.siemenss()) },
    DI { n: "henries", u: 79, f: |v| outi(v.henries()) },
    DI { n: "teslas", u: 80, f: |v| outi(v.teslas()) },
    DI { n: "webers", u: 81, f: |v| outi(v.webers()) },
    DI { n: "lux", u: 82, f: |v| outi(v.lux()) },
    DI { n: "gausss", u: 83, f: |v| outi(v.gausss()) },
    DI { n: "stokess", u: 84, f: |v| outi(v.stokess()) },
];
pub fn literals(f: &mut dyn FnMut(Out, Out, &'static str)) {
    lits(f)
}
#[culit::culit(whippyunits::default_declarators::literals)]
fn lits(f: &mut dyn FnMut(Out, Out, &'static str)) {
    f(out(7.1g), out(quantity!(7.1, g)), "g");
    f(out(7.1gr), out(quantity!(7.1, gr)), "gr");
    f(out(7.1ct), out(quantity!(7.1, ct)), "ct");
    f(out(7.1oz), out(quantity!(7.1, oz)), "oz");
    f(out(7.1ozt), out(quantity!(7.1, ozt)), "ozt");
    f(out(7.1lbt), out(quantity!(7.1, lbt)), "lbt");
    f(out(7.1lb), out(quantity!(7.1, lb)), "lb");
    f(out(7.1st), out(quantity!(7.1, st)), "st");
    f(out(7.1t), out(quantity!(7.1, t)), "t");
    f(out(7.1m), out(quantity!(7.1, m)), "m");
    f(out(7.1ft), out(quantity!(7.1, ft)), "ft");
    f(out(7.1yd), out(quantity!(7.1, yd)), "yd");
    f(out(7.1mi), out(quantity!(7.1, mi)), "mi");
    f(out(7.1nmi), out(quantity!(7.1, nmi)), "nmi");
    f(out(7.1AU), out(quantity!(7.1, AU)), "AU");
    f(out(7.1ly), out(quantity!(7.1, ly)), "ly");
    f(out(7.1pc), out(quantity!(7.1, pc)), "pc");
    f(out(7.1s), out(quantity!(7.1, s)), "s");
    f(out(7.1min), out(quantity!(7.1, min)), "min");
    f(out(7.1h), out(quantity!(7.1, h)), "h");
    f(out(7.1hr), out(quantity!(7.1, hr)), "hr");
    f(out(7.1d), out(quantity!(7.1, d)), "d");
    f(out(7.1wk), out(quantity!(7.1, wk)), "wk");
    f(out(7.1mo), out(quantity!(7.1, mo)), "mo");
    f(out(7.1yr), out(quantity!(7.1, yr)), "yr");
    f(out(7.1A), out(quantity!(7.1, A)), "A");
    f(out(7.1K), out(quantity!(7.1, K)), "K");
    f(out(7.1degC), out(quantity!(7.1, degC)), "degC");
    f(out(7.1degR), out(quantity!(7.1, degR)), "degR");
    f(out(7.1degF), out(quantity!(7.1, degF)), "degF");
    f(out(7.1mol), out(quantity!(7.1, mol)), "mol");
    f(out(7.1cd), out(quantity!(7.1, cd)), "cd");
    f(out(7.1lm), out(quantity!(7.1, lm)), "lm");
    f(out(7.1rad), out(quantity!(7.1, rad)), "rad");
    f(out(7.1deg), out(quantity!(7.1, deg)), "deg");
    f(out(7.1grad), out(quantity!(7.1, grad)), "grad");
    f(out(7.1rot), out(quantity!(7.1, rot)), "rot");
    f(out(7.1arcmin), out(quantity!(7.1, arcmin)), "arcmin");
    f(out(7.1arcsec), out(quantity!(7.1, arcsec)), "arcsec");
    f(out(7.1hect), out(quantity!(7.1, hect)), "hect");
    f(out(7.1L), out(quantity!(7.1, L)), "L");
    f(out(7.1l), out(quantity!(7.1, l)), "l");
    f(out(7.1gal), out(quantity!(7.1, gal)), "gal");
    f(out(7.1qrt), out(quantity!(7.1, qrt)), "qrt");
    f(out(7.1pnt), out(quantity!(7.1, pnt)), "pnt");
    f(out(7.1fl_oz), out(quantity!(7.1, fl_oz)), "fl_oz");
    f(out(7.1tbsp), out(quantity!(7.1, tbsp)), "tbsp");
    f(out(7.1tsp), out(quantity!(7.1, tsp)), "tsp");
    f(out(7.1uk_gal), out(quantity!(7.1, uk_gal)), "uk_gal");
    f(out(7.1uk_qrt), out(quantity!(7.1, uk_qrt)), "uk_qrt");
    f(out(7.1uk_pnt), out(quantity!(7.1, uk_pnt)), "uk_pnt");
    f(out(7.1uk_fl_oz), out(quantity!(7.1, uk_fl_oz)), "uk_fl_oz");
    f(out(7.1uk_tbsp), out(quantity!(7.1, uk_tbsp)), "uk_tbsp");
    f(out(7.1uk_tsp), out(quantity!(7.1, uk_tsp)), "uk_tsp");
    f(out(7.1bu), out(quantity!(7.1, bu)), "bu");
    f(out(7.1Hz), out(quantity!(7.1, Hz)), "Hz");
    f(out(7.1N), out(quantity!(7.1, N)), "N");
    f(out(7.1J), out(quantity!(7.1, J)), "J");
    f(out(7.1Nm), out(quantity!(7.1, Nm)), "Nm");
    f(out(7.1cal), out(quantity!(7.1, cal)), "cal");
    f(out(7.1ft_lb), out(quantity!(7.1, ft_lb)), "ft_lb");
    f(out(7.1kWh), out(quantity!(7.1, kWh)), "kWh");
    f(out(7.1thm), out(quantity!(7.1, thm)), "thm");
    f(out(7.1W), out(quantity!(7.1, W)), "W");
    f(out(7.1hp), out(quantity!(7.1, hp)), "hp");
    f(out(7.1Pa), out(quantity!(7.1, Pa)), "Pa");
    f(out(7.1Torr), out(quantity!(7.1, Torr)), "Torr");
    f(out(7.1atm), out(quantity!(7.1, atm)), "atm");
    f(out(7.1C), out(quantity!(7.1, C)), "C");
    f(out(7.1V), out(quantity!(7.1, V)), "V");
    f(out(7.1F), out(quantity!(7.1, F)), "F");
    f(out(7.1S), out(quantity!(7.1, S)), "S");
    f(out(7.1H), out(quantity!(7.1, H)), "H");
    f(out(7.1T), out(quantity!(7.1, T)), "T");
    f(out(7.1Wb), out(quantity!(7.1, Wb)), "Wb");
    f(out(7.1lx), out(quantity!(7.1, lx)), "lx");
    f(out(7.1G), out(quantity!(7.1, G)), "G");
    f(out(7.1St), out(quantity!(7.1, St)), "St");
    f(out(7.1mg), out(quantity!(7.1, mg)), "mg");
    f(out(7.1kg), out(quantity!(7.1, kg)), "kg");
    f(out(7.1Mg), out(quantity!(7.1, Mg)), "Mg");
    f(out(7.1qm), out(quantity!(7.1, qm)), "qm");
    f(out(7.1rm), out(quantity!(7.1, rm)), "rm");
    f(out(7.1ym), out(quantity!(7.1, ym)), "ym");
    f(out(7.1zm), out(quantity!(7.1, zm)), "zm");
    f(out(7.1am), out(quantity!(7.1, am)), "am");
    f(out(7.1fm), out(quantity!(7.1, fm)), "fm");
    f(out(7.1pm), out(quantity!(7.1, pm)), "pm");
    f(out(7.1nm), out(quantity!(7.1, nm)), "nm");
    f(out(7.1mm), out(quantity!(7.1, mm)), "mm");
    f(out(7.1cm), out(quantity!(7.1, cm)), "cm");
    f(out(7.1dm), out(quantity!(7.1, dm)), "dm");
    f(out(7.1dam), out(quantity!(7.1, dam)), "dam");
    f(out(7.1hm), out(quantity!(7.1, hm)), "hm");
    f(out(7.1km), out(quantity!(7.1, km)), "km");
    f(out(7.1Mm), out(quantity!(7.1, Mm)), "Mm");
    f(out(7.1Gm), out(quantity!(7.1, Gm)), "Gm");
    f(out(7.1Tm), out(quantity!(7.1, Tm)), "Tm");
    f(out(7.1Pm), out(quantity!(7.1, Pm)), "Pm");
    f(out(7.1Zm), out(quantity!(7.1, Zm)), "Zm");
    f(out(7.1Ym), out(quantity!(7.1, Ym)), "Ym");
    f(out(7.1Rm), out(quantity!(7.1, Rm)), "Rm");
    f(out(7.1Qm), out(quantity!(7.1, Qm)), "Qm");
    f(out(7.1ms), out(quantity!(7.1, ms)), "ms");
    f(out(7.1ks), out(quantity!(7.1, ks)), "ks");
    f(out(7.1Ms), out(quantity!(7.1, Ms)), "Ms");
    f(out(7.1mA), out(quantity!(7.1, mA)), "mA");
    f(out(7.1kA), out(quantity!(7.1, kA)), "kA");
    f(out(7.1MA), out(quantity!(7.1, MA)), "MA");
    f(out(7.1mK), out(quantity!(7.1, mK)), "mK");
    f(out(7.1kK), out(quantity!(7.1, kK)), "kK");
    f(out(7.1MK), out(quantity!(7.1, MK)), "MK");
    f(out(7.1mmol), out(quantity!(7.1, mmol)), "mmol");
    f(out(7.1kmol), out(quantity!(7.1, kmol)), "kmol");
    f(out(7.1Mmol), out(quantity!(7.1, Mmol)), "Mmol");
    f(out(7.1mcd), out(quantity!(7.1, mcd)), "mcd");
    f(out(7.1kcd), out(quantity!(7.1, kcd)), "kcd");
    f(out(7.1Mcd), out(quantity!(7.1, Mcd)), "Mcd");
    f(out(7.1mrad), out(quantity!(7.1, mrad)), "mrad");
    f(out(7.1krad), out(quantity!(7.1, krad)), "krad");
    f(out(7.1Mrad), out(quantity!(7.1, Mrad)), "Mrad");
    f(out(7.1mhect), out(quantity!(7.1, mhect)), "mhect");
    f(out(7.1khect), out(quantity!(7.1, khect)), "khect");
    f(out(7.1Mhect), out(quantity!(7.1, Mhect)), "Mhect");
    f(out(7.1mL), out(quantity!(7.1, mL)), "mL");
    f(out(7.1ml), out(quantity!(7.1, ml)), "ml");
    f(out(7.1kL), out(quantity!(7.1, kL)), "kL");
    f(out(7.1kl), out(quantity!(7.1, kl)), "kl");
    f(out(7.1ML), out(quantity!(7.1, ML)), "ML");
    f(out(7.1Ml), out(quantity!(7.1, Ml)), "Ml");
    f(out(7.1mHz), out(quantity!(7.1, mHz)), "mHz");
    f(out(7.1kHz), out(quantity!(7.1, kHz)), "kHz");
    f(out(7.1MHz), out(quantity!(7.1, MHz)), "MHz");
    f(out(7.1mN), out(quantity!(7.1, mN)), "mN");
    f(out(7.1kN), out(quantity!(7.1, kN)), "kN");
    f(out(7.1MN), out(quantity!(7.1, MN)), "MN");
    f(out(7.1mJ), out(quantity!(7.1, mJ)), "mJ");
    f(out(7.1kJ), out(quantity!(7.1, kJ)), "kJ");
    f(out(7.1MJ), out(quantity!(7.1, MJ)), "MJ");
    f(out(7.1mW), out(quantity!(7.1, mW)), "mW");
    f(out(7.1kW), out(quantity!(7.1, kW)), "kW");
    f(out(7.1MW), out(quantity!(7.1, MW)), "MW");
    f(out(7.1mPa), out(quantity!(7.1, mPa)), "mPa");
    f(out(7.1kPa), out(quantity!(7.1, kPa)), "kPa");
    f(out(7.1MPa), out(quantity!(7.1, MPa)), "MPa");
    f(out(7.1mC), out(quantity!(7.1, mC)), "mC");
    f(out(7.1kC), out(quantity!(7.1, kC)), "kC");
    f(out(7.1MC), out(quantity!(7.1, MC)), "MC");
    f(out(7.1mV), out(quantity!(7.1, mV)), "mV");
    f(out(7.1kV), out(quantity!(7.1, kV)), "kV");
    f(out(7.1MV), out(quantity!(7.1, MV)), "MV");
    f(out(7.1mF), out(quantity!(7.1, mF)), "mF");
    f(out(7.1kF), out(quantity!(7.1, kF)), "kF");
    f(out(7.1MF), out(quantity!(7.1, MF)), "MF");
    f(out(7.1mS), out(quantity!(7.1, mS)), "mS");
    f(out(7.1kS), out(quantity!(7.1, kS)), "kS");
    f(out(7.1MS), out(quantity!(7.1, MS)), "MS");
    f(out(7.1mH), out(quantity!(7.1, mH)), "mH");
    f(out(7.1kH), out(quantity!(7.1, kH)), "kH");
    f(out(7.1MH), out(quantity!(7.1, MH)), "MH");
    f(out(7.1mT), out(quantity!(7.1, mT)), "mT");
    f(out(7.1kT), out(quantity!(7.1, kT)), "kT");
    f(out(7.1MT), out(quantity!(7.1, MT)), "MT");
    f(out(7.1mWb), out(quantity!(7.1, mWb)), "mWb");
    f(out(7.1kWb), out(quantity!(7.1, kWb)), "kWb");
    f(out(7.1MWb), out(quantity!(7.1, MWb)), "MWb");
    f(out(7.1mlx), out(quantity!(7.1, mlx)), "mlx");
    f(out(7.1klx), out(quantity!(7.1, klx)), "klx");
    f(out(7.1Mlx), out(quantity!(7.1, Mlx)), "Mlx");
    f(out(7.1mSt), out(quantity!(7.1, mSt)), "mSt");
    f(out(7.1kSt), out(quantity!(7.1, kSt)), "kSt");
    f(out(7.1MSt), out(quantity!(7.1, MSt)), "MSt");
}
pub fn literals_typed(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    lits_typed(f)
}
#[culit::culit(whippyunits::default_declarators::literals)]
fn lits_typed(f: &mut dyn FnMut(OutT, OutT, &'static str)) {
    f(typed(7.1m_f64), typed(quantity!(7.1f64, m, f64)), "m_f64");
    f(typed(7.1m_f32), typed(quantity!(7.1f32, m, f32)), "m_f32");
    f(typed(16777217m_i32), typed(quantity!(16777217i32, m, i32)), "m_i32");
    f(typed(5000000011m_i64), typed(quantity!(5000000011i64, m, i64)), "m_i64");
    f(typed(16777217m_u32), typed(quantity!(16777217u32, m, u32)), "m_u32");
    f(typed(5000000011m_u64), typed(quantity!(5000000011u64, m, u64)), "m_u64");
    f(typed(16777217m), typed(quantity!(16777217i32, m, i32)), "m int");
    f(typed(7.1km_f64), typed(quantity!(7.1f64, km, f64)), "km_f64");
    f(typed(7.1km_f32), typed(quantity!(7.1f32, km, f32)), "km_f32");
    f(typed(16777217km_i32), typed(quantity!(16777217i32, km, i32)), "km_i32");
    f(typed(5000000011km_i64), typed(quantity!(5000000011i64, km, i64)), "km_i64");
    f(typed(16777217km_u32), typed(quantity!(16777217u32, km, u32)), "km_u32");
    f(typed(5000000011km_u64), typed(quantity!(5000000011u64, km, u64)), "km_u64");
    f(typed(16777217km), typed(quantity!(16777217i32, km, i32)), "km int");
    f(typed(7.1mm_f64), typed(quantity!(7.1f64, mm, f64)), "mm_f64");
    f(typed(7.1mm_f32), typed(quantity!(7.1f32, mm, f32)), "mm_f32");
    f(typed(16777217mm_i32), typed(quantity!(16777217i32, mm, i32)), "mm_i32");
    f(typed(5000000011mm_i64), typed(quantity!(5000000011i64, mm, i64)), "mm_i64");
    f(typed(16777217mm_u32), typed(quantity!(16777217u32, mm, u32)), "mm_u32");
    f(typed(5000000011mm_u64), typed(quantity!(5000000011u64, mm, u64)), "mm_u64");
    f(typed(16777217mm), typed(quantity!(16777217i32, mm, i32)), "mm int");
    f(typed(7.1kg_f64), typed(quantity!(7.1f64, kg, f64)), "kg_f64");
    f(typed(7.1kg_f32), typed(quantity!(7.1f32, kg, f32)), "kg_f32");
    f(typed(16777217kg_i32), typed(quantity!(16777217i32, kg, i32)), "kg_i32");
    f(typed(5000000011kg_i64), typed(quantity!(5000000011i64, kg, i64)), "kg_i64");
    f(typed(16777217kg_u32), typed(quantity!(16777217u32, kg, u32)), "kg_u32");
    f(typed(5000000011kg_u64), typed(quantity!(5000000011u64, kg, u64)), "kg_u64");
    f(typed(16777217kg), typed(quantity!(16777217i32, kg, i32)), "kg int");
    f(typed(7.1g_f64), typed(quantity!(7.1f64, g, f64)), "g_f64");
    f(typed(7.1g_f32), typed(quantity!(7.1f32, g, f32)), "g_f32");
    f(typed(16777217g_i32), typed(quantity!(16777217i32, g, i32)), "g_i32");
    f(typed(5000000011g_i64), typed(quantity!(5000000011i64, g, i64)), "g_i64");
    f(typed(16777217g_u32), typed(quantity!(16777217u32, g, u32)), "g_u32");
    f(typed(5000000011g_u64), typed(quantity!(5000000011u64, g, u64)), "g_u64");
    f(typed(16777217g), typed(quantity!(16777217i32, g, i32)), "g int");
    f(typed(7.1s_f64), typed(quantity!(7.1f64, s, f64)), "s_f64");
    f(typed(7.1s_f32), typed(quantity!(7.1f32, s, f32)), "s_f32");
    f(typed(16777217s_i32), typed(quantity!(16777217i32, s, i32)), "s_i32");
    f(typed(5000000011s_i64), typed(quantity!(5000000011i64, s, i64)), "s_i64");
    f(typed(16777217s_u32), typed(quantity!(16777217u32, s, u32)), "s_u32");
    f(typed(5000000011s_u64), typed(quantity!(5000000011u64, s, u64)), "s_u64");
    f(typed(16777217s), typed(quantity!(16777217i32, s, i32)), "s int");
    f(typed(7.1min_f64), typed(quantity!(7.1f64, min, f64)), "min_f64");
    f(typed(7.1min_f32), typed(quantity!(7.1f32, min, f32)), "min_f32");
    f(typed(16777217min_i32), typed(quantity!(16777217i32, min, i32)), "min_i32");
    f(typed(5000000011min_i64), typed(quantity!(5000000011i64, min, i64)), "min_i64");
    f(typed(16777217min_u32), typed(quantity!(16777217u32, min, u32)), "min_u32");
    f(typed(5000000011min_u64), typed(quantity!(5000000011u64, min, u64)), "min_u64");
    f(typed(16777217min), typed(quantity!(16777217i32, min, i32)), "min int");
    f(typed(7.1h_f64), typed(quantity!(7.1f64, h, f64)), "h_f64");
    f(typed(7.1h_f32), typed(quantity!(7.1f32, h, f32)), "h_f32");
    f(typed(16777217h_i32), typed(quantity!(16777217i32, h, i32)), "h_i32");
    f(typed(5000000011h_i64), typed(quantity!(5000000011i64, h, i64)), "h_i64");
    f(typed(16777217h_u32), typed(quantity!(16777217u32, h, u32)), "h_u32");
    f(typed(5000000011h_u64), typed(quantity!(5000000011u64, h, u64)), "h_u64");
    f(typed(16777217h), typed(quantity!(16777217i32, h, i32)), "h int");
    f(typed(7.1A_f64), typed(quantity!(7.1f64, A, f64)), "A_f64");
    f(typed(7.1A_f32), typed(quantity!(7.1f32, A, f32)), "A_f32");
    f(typed(16777217A_i32), typed(quantity!(16777217i32, A, i32)), "A_i32");
    f(typed(5000000011A_i64), typed(quantity!(5000000011i64, A, i64)), "A_i64");
    f(typed(16777217A_u32), typed(quantity!(16777217u32, A, u32)), "A_u32");
    f(typed(5000000011A_u64), typed(quantity!(5000000011u64, A, u64)), "A_u64");
    f(typed(16777217A), typed(quantity!(16777217i32, A, i32)), "A int");
    f(typed(7.1mA_f64), typed(quantity!(7.1f64, mA, f64)), "mA_f64");
    f(typed(7.1mA_f32), typed(quantity!(7.1f32, mA, f32)), "mA_f32");
    f(typed(16777217mA_i32), typed(quantity!(16777217i32, mA, i32)), "mA_i32");
    f(typed(5000000011mA_i64), typed(quantity!(5000000011i64, mA, i64)), "mA_i64");
    f(typed(16777217mA_u32), typed(quantity!(16777217u32, mA, u32)), "mA_u32");
    f(typed(5000000011mA_u64), typed(quantity!(5000000011u64, mA, u64)), "mA_u64");
    f(typed(16777217mA), typed(quantity!(16777217i32, mA, i32)), "mA int");
    f(typed(7.1K_f64), typed(quantity!(7.1f64, K, f64)), "K_f64");
    f(typed(7.1K_f32), typed(quantity!(7.1f32, K, f32)), "K_f32");
    f(typed(16777217K_i32), typed(quantity!(16777217i32, K, i32)), "K_i32");
    f(typed(5000000011K_i64), typed(quantity!(5000000011i64, K, i64)), "K_i64");
    f(typed(16777217K_u32), typed(quantity!(16777217u32, K, u32)), "K_u32");
    f(typed(5000000011K_u64), typed(quantity!(5000000011u64, K, u64)), "K_u64");
    f(typed(16777217K), typed(quantity!(16777217i32, K, i32)), "K int");
    f(typed(7.1mol_f64), typed(quantity!(7.1f64, mol, f64)), "mol_f64");
    f(typed(7.1mol_f32), typed(quantity!(7.1f32, mol, f32)), "mol_f32");
    f(typed(16777217mol_i32), typed(quantity!(16777217i32, mol, i32)), "mol_i32");
    f(typed(5000000011mol_i64), typed(quantity!(5000000011i64, mol, i64)), "mol_i64");
    f(typed(16777217mol_u32), typed(quantity!(16777217u32, mol, u32)), "mol_u32");
    f(typed(5000000011mol_u64), typed(quantity!(5000000011u64, mol, u64)), "mol_u64");
    f(typed(16777217mol), typed(quantity!(16777217i32, mol, i32)), "mol int");
    f(typed(7.1cd_f64), typed(quantity!(7.1f64, cd, f64)), "cd_f64");
    f(typed(7.1cd_f32), typed(quantity!(7.1f32, cd, f32)), "cd_f32");
    f(typed(16777217cd_i32), typed(quantity!(16777217i32, cd, i32)), "cd_i32");
    f(typed(5000000011cd_i64), typed(quantity!(5000000011i64, cd, i64)), "cd_i64");
    f(typed(16777217cd_u32), typed(quantity!(16777217u32, cd, u32)), "cd_u32");
    f(typed(5000000011cd_u64), typed(quantity!(5000000011u64, cd, u64)), "cd_u64");
    f(typed(16777217cd), typed(quantity!(16777217i32, cd, i32)), "cd int");
    f(typed(7.1rad_f64), typed(quantity!(7.1f64, rad, f64)), "rad_f64");
    f(typed(7.1rad_f32), typed(quantity!(7.1f32, rad, f32)), "rad_f32");
    f(typed(16777217rad_i32), typed(quantity!(16777217i32, rad, i32)), "rad_i32");
    f(typed(5000000011rad_i64), typed(quantity!(5000000011i64, rad, i64)), "rad_i64");
    f(typed(16777217rad_u32), typed(quantity!(16777217u32, rad, u32)), "rad_u32");
    f(typed(5000000011rad_u64), typed(quantity!(5000000011u64, rad, u64)), "rad_u64");
    f(typed(16777217rad), typed(quantity!(16777217i32, rad, i32)), "rad int");
    f(typed(7.1deg_f64), typed(quantity!(7.1f64, deg, f64)), "deg_f64");
    f(typed(7.1deg_f32), typed(quantity!(7.1f32, deg, f32)), "deg_f32");
    f(typed(16777217deg_i32), typed(quantity!(16777217i32, deg, i32)), "deg_i32");
    f(typed(5000000011deg_i64), typed(quantity!(5000000011i64, deg, i64)), "deg_i64");
    f(typed(16777217deg_u32), typed(quantity!(16777217u32, deg, u32)), "deg_u32");
    f(typed(5000000011deg_u64), typed(quantity!(5000000011u64, deg, u64)), "deg_u64");
    f(typed(16777217deg), typed(quantity!(16777217i32, deg, i32)), "deg int");
    f(typed(7.1V_f64), typed(quantity!(7.1f64, V, f64)), "V_f64");
    f(typed(7.1V_f32), typed(quantity!(7.1f32, V, f32)), "V_f32");
    f(typed(16777217V_i32), typed(quantity!(16777217i32, V, i32)), "V_i32");
    f(typed(5000000011V_i64), typed(quantity!(5000000011i64, V, i64)), "V_i64");
    f(typed(16777217V_u32), typed(quantity!(16777217u32, V, u32)), "V_u32");
    f(typed(5000000011V_u64), typed(quantity!(5000000011u64, V, u64)), "V_u64");
    f(typed(16777217V), typed(quantity!(16777217i32, V, i32)), "V int");
    f(typed(7.1kW_f64), typed(quantity!(7.1f64, kW, f64)), "kW_f64");
    f(typed(7.1kW_f32), typed(quantity!(7.1f32, kW, f32)), "kW_f32");
    f(typed(16777217kW_i32), typed(quantity!(16777217i32, kW, i32)), "kW_i32");
    f(typed(5000000011kW_i64), typed(quantity!(5000000011i64, kW, i64)), "kW_i64");
    f(typed(16777217kW_u32), typed(quantity!(16777217u32, kW, u32)), "kW_u32");
    f(typed(5000000011kW_u64), typed(quantity!(5000000011u64, kW, u64)), "kW_u64");
    f(typed(16777217kW), typed(quantity!(16777217i32, kW, i32)), "kW int");
    f(typed(7.1Pa_f64), typed(quantity!(7.1f64, Pa, f64)), "Pa_f64");
    f(typed(7.1Pa_f32), typed(quantity!(7.1f32, Pa, f32)), "Pa_f32");
    f(typed(16777217Pa_i32), typed(quantity!(16777217i32, Pa, i32)), "Pa_i32");
    f(typed(5000000011Pa_i64), typed(quantity!(5000000011i64, Pa, i64)), "Pa_i64");
    f(typed(16777217Pa_u32), typed(quantity!(16777217u32, Pa, u32)), "Pa_u32");
    f(typed(5000000011Pa_u64), typed(quantity!(5000000011u64, Pa, u64)), "Pa_u64");
    f(typed(16777217Pa), typed(quantity!(16777217i32, Pa, i32)), "Pa int");
    f(typed(7.1N_f64), typed(quantity!(7.1f64, N, f64)), "N_f64");
    f(typed(7.1N_f32), typed(quantity!(7.1f32, N, f32)), "N_f32");
    f(typed(16777217N_i32), typed(quantity!(16777217i32, N, i32)), "N_i32");
    f(typed(5000000011N_i64), typed(quantity!(5000000011i64, N, i64)), "N_i64");
    f(typed(16777217N_u32), typed(quantity!(16777217u32, N, u32)), "N_u32");
    f(typed(5000000011N_u64), typed(quantity!(5000000011u64, N, u64)), "N_u64");
    f(typed(16777217N), typed(quantity!(16777217i32, N, i32)), "N int");
    f(typed(7.1J_f64), typed(quantity!(7.1f64, J, f64)), "J_f64");
    f(typed(7.1J_f32), typed(quantity!(7.1f32, J, f32)), "J_f32");
    f(typed(16777217J_i32), typed(quantity!(16777217i32, J, i32)), "J_i32");
    f(typed(5000000011J_i64), typed(quantity!(5000000011i64, J, i64)), "J_i64");
    f(typed(16777217J_u32), typed(quantity!(16777217u32, J, u32)), "J_u32");
    f(typed(5000000011J_u64), typed(quantity!(5000000011u64, J, u64)), "J_u64");
    f(typed(16777217J), typed(quantity!(16777217i32, J, i32)), "J int");
    f(typed(7.1Hz_f64), typed(quantity!(7.1f64, Hz, f64)), "Hz_f64");
    f(typed(7.1Hz_f32), typed(quantity!(7.1f32, Hz, f32)), "Hz_f32");
    f(typed(16777217Hz_i32), typed(quantity!(16777217i32, Hz, i32)), "Hz_i32");
    f(typed(5000000011Hz_i64), typed(quantity!(5000000011i64, Hz, i64)), "Hz_i64");
    f(typed(16777217Hz_u32), typed(quantity!(16777217u32, Hz, u32)), "Hz_u32");
    f(typed(5000000011Hz_u64), typed(quantity!(5000000011u64, Hz, u64)), "Hz_u64");
    f(typed(16777217Hz), typed(quantity!(16777217i32, Hz, i32)), "Hz int");
    f(typed(7.1L_f64), typed(quantity!(7.1f64, L, f64)), "L_f64");
    f(typed(7.1L_f32), typed(quantity!(7.1f32, L, f32)), "L_f32");
    f(typed(16777217L_i32), typed(quantity!(16777217i32, L, i32)), "L_i32");
    f(typed(5000000011L_i64), typed(quantity!(5000000011i64, L, i64)), "L_i64");
    f(typed(16777217L_u32), typed(quantity!(16777217u32, L, u32)), "L_u32");
    f(typed(5000000011L_u64), typed(quantity!(5000000011u64, L, u64)), "L_u64");
    f(typed(16777217L), typed(quantity!(16777217i32, L, i32)), "L int");
    f(typed(7.1mL_f64), typed(quantity!(7.1f64, mL, f64)), "mL_f64");
    f(typed(7.1mL_f32), typed(quantity!(7.1f32, mL, f32)), "mL_f32");
    f(typed(16777217mL_i32), typed(quantity!(16777217i32, mL, i32)), "mL_i32");
    f(typed(5000000011mL_i64), typed(quantity!(5000000011i64, mL, i64)), "mL_i64");
    f(typed(16777217mL_u32), typed(quantity!(16777217u32, mL, u32)), "mL_u32");
    f(typed(5000000011mL_u64), typed(quantity!(5000000011u64, mL, u64)), "mL_u64");
    f(typed(16777217mL), typed(quantity!(16777217i32, mL, i32)), "mL int");
    f(typed(7.1ft_f64), typed(quantity!(7.1f64, ft, f64)), "ft_f64");
    f(typed(7.1ft_f32), typed(quantity!(7.1f32, ft, f32)), "ft_f32");
    f(typed(16777217ft_i32), typed(quantity!(16777217i32, ft, i32)), "ft_i32");
    f(typed(5000000011ft_i64), typed(quantity!(5000000011i64, ft, i64)), "ft_i64");
    f(typed(16777217ft_u32), typed(quantity!(16777217u32, ft, u32)), "ft_u32");
    f(typed(5000000011ft_u64), typed(quantity!(5000000011u64, ft, u64)), "ft_u64");
    f(typed(16777217ft), typed(quantity!(16777217i32, ft, i32)), "ft int");
    f(typed(7.1inch_f64), typed(quantity!(7.1f64, inch, f64)), "inch_f64");
    f(typed(7.1inch_f32), typed(quantity!(7.1f32, inch, f32)), "inch_f32");
    f(typed(16777217inch_i32), typed(quantity!(16777217i32, inch, i32)), "inch_i32");
    f(typed(5000000011inch_i64), typed(quantity!(5000000011i64, inch, i64)), "inch_i64");
    f(typed(16777217inch_u32), typed(quantity!(16777217u32, inch, u32)), "inch_u32");
    f(typed(5000000011inch_u64), typed(quantity!(5000000011u64, inch, u64)), "inch_u64");
    f(typed(16777217inch), typed(quantity!(16777217i32, inch, i32)), "inch int");
    f(typed(7.1lb_f64), typed(quantity!(7.1f64, lb, f64)), "lb_f64");
    f(typed(7.1lb_f32), typed(quantity!(7.1f32, lb, f32)), "lb_f32");
    f(typed(16777217lb_i32), typed(quantity!(16777217i32, lb, i32)), "lb_i32");
    f(typed(5000000011lb_i64), typed(quantity!(5000000011i64, lb, i64)), "lb_i64");
    f(typed(16777217lb_u32), typed(quantity!(16777217u32, lb, u32)), "lb_u32");
    f(typed(5000000011lb_u64), typed(quantity!(5000000011u64, lb, u64)), "lb_u64");
    f(typed(16777217lb), typed(quantity!(16777217i32, lb, i32)), "lb int");
    f(typed(7.1mi_f64), typed(quantity!(7.1f64, mi, f64)), "mi_f64");
    f(typed(7.1mi_f32), typed(quantity!(7.1f32, mi, f32)), "mi_f32");
    f(typed(16777217mi_i32), typed(quantity!(16777217i32, mi, i32)), "mi_i32");
    f(typed(5000000011mi_i64), typed(quantity!(5000000011i64, mi, i64)), "mi_i64");
    f(typed(16777217mi_u32), typed(quantity!(16777217u32, mi, u32)), "mi_u32");
    f(typed(5000000011mi_u64), typed(quantity!(5000000011u64, mi, u64)), "mi_u64");
    f(typed(16777217mi), typed(quantity!(16777217i32, mi, i32)), "mi int");
    f(typed(7.1degC_f64), typed(quantity!(7.1f64, degC, f64)), "degC_f64");
    f(typed(7.1degC_f32), typed(quantity!(7.1f32, degC, f32)), "degC_f32");
    f(typed(16777217degC_i32), typed(quantity!(16777217i32, degC, i32)), "degC_i32");
    f(typed(5000000011degC_i64), typed(quantity!(5000000011i64, degC, i64)), "degC_i64");
    f(typed(16777217degC_u32), typed(quantity!(16777217u32, degC, u32)), "degC_u32");
    f(typed(5000000011degC_u64), typed(quantity!(5000000011u64, degC, u64)), "degC_u64");
    f(typed(16777217degC), typed(quantity!(16777217i32, degC, i32)), "degC int");
    f(typed(7.1degF_f64), typed(quantity!(7.1f64, degF, f64)), "degF_f64");
    f(typed(7.1degF_f32), typed(quantity!(7.1f32, degF, f32)), "degF_f32");
    f(typed(16777217degF_i32), typed(quantity!(16777217i32, degF, i32)), "degF_i32");
    f(typed(5000000011degF_i64), typed(quantity!(5000000011i64, degF, i64)), "degF_i64");
    f(typed(16777217degF_u32), typed(quantity!(16777217u32, degF, u32)), "degF_u32");
    f(typed(5000000011degF_u64), typed(quantity!(5000000011u64, degF, u64)), "degF_u64");
    f(typed(16777217degF), typed(quantity!(16777217i32, degF, i32)), "degF int");
    f(typed(7.1celsius_f64), typed(quantity!(7.1f64, celsius, f64)), "celsius_f64");
    f(typed(7.1celsius_f32), typed(quantity!(7.1f32, celsius, f32)), "celsius_f32");
    f(typed(16777217celsius_i32), typed(quantity!(16777217i32, celsius, i32)), "celsius_i32");
    f(typed(5000000011celsius_i64), typed(quantity!(5000000011i64, celsius, i64)), "celsius_i64");
    f(typed(16777217celsius_u32), typed(quantity!(16777217u32, celsius, u32)), "celsius_u32");
    f(typed(5000000011celsius_u64), typed(quantity!(5000000011u64, celsius, u64)), "celsius_u64");
    f(typed(16777217celsius), typed(quantity!(16777217i32, celsius, i32)), "celsius int");
    f(typed(7.1acre_f64), typed(quantity!(7.1f64, acre, f64)), "acre_f64");
    f(typed(7.1acre_f32), typed(quantity!(7.1f32, acre, f32)), "acre_f32");
    f(typed(16777217acre_i32), typed(quantity!(16777217i32, acre, i32)), "acre_i32");
    f(typed(5000000011acre_i64), typed(quantity!(5000000011i64, acre, i64)), "acre_i64");
    f(typed(16777217acre_u32), typed(quantity!(16777217u32, acre, u32)), "acre_u32");
    f(typed(5000000011acre_u64), typed(quantity!(5000000011u64, acre, u64)), "acre_u64");
    f(typed(16777217acre), typed(quantity!(16777217i32, acre, i32)), "acre int");
    f(typed(7.1psi_f64), typed(quantity!(7.1f64, psi, f64)), "psi_f64");
    f(typed(7.1psi_f32), typed(quantity!(7.1f32, psi, f32)), "psi_f32");
    f(typed(16777217psi_i32), typed(quantity!(16777217i32, psi, i32)), "psi_i32");
    f(typed(5000000011psi_i64), typed(quantity!(5000000011i64, psi, i64)), "psi_i64");
    f(typed(16777217psi_u32), typed(quantity!(16777217u32, psi, u32)), "psi_u32");
    f(typed(5000000011psi_u64), typed(quantity!(5000000011u64, psi, u64)), "psi_u64");
    f(typed(16777217psi), typed(quantity!(16777217i32, psi, i32)), "psi int");
}
pub static COMP: &[K] = &[
    K { n: "kg * m / s^2", d: [1, 1, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, kg * m / s^2)), back: |v| value!(quantity!(v, kg * m / s^2), kg * m / s^2) },
    K { n: "m / s / s", d: [0, 1, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, m / s / s)), back: |v| value!(quantity!(v, m / s / s), m / s / s) },
    K { n: "J / (kg * K)", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, J / (kg * K))), back: |v| value!(quantity!(v, J / (kg * K)), J / (kg * K)) },
    K { n: "V * s^2 / m", d: [1, 1, -1, -1, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, V * s^2 / m)), back: |v| value!(quantity!(v, V * s^2 / m), V * s^2 / m) },
    K { n: "km / h", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.2777777777777778f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, km / h)), back: |v| value!(quantity!(v, km / h), km / h) },
    K { n: "mi / h", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, mi / h)), back: |v| value!(quantity!(v, mi / h), mi / h) },
    K { n: "lb * ft^2 / min", d: [1, 2, -1, 0, 0, 0, 0, 0], val: 0.00070233516823008f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, lb * ft^2 / min)), back: |v| value!(quantity!(v, lb * ft^2 / min), lb * ft^2 / min) },
    K { n: "ft^3", d: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.028316846592f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, ft^3)), back: |v| value!(quantity!(v, ft^3), ft^3) },
    K { n: "m / ft", d: [0, 0, 0, 0, 0, 0, 0, 0], val: 3.2808398950131235f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, m / ft)), back: |v| value!(quantity!(v, m / ft), m / ft) },
    K { n: "gal / min", d: [0, 3, -1, 0, 0, 0, 0, 0], val: 6.30901964e-05f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, gal / min)), back: |v| value!(quantity!(v, gal / min), gal / min) },
    K { n: "W / m^2", d: [1, 0, -3, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, W / m^2)), back: |v| value!(quantity!(v, W / m^2), W / m^2) },
    K { n: "mW / cm^2", d: [1, 0, -3, 0, 0, 0, 0, 0], val: 10.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, mW / cm^2)), back: |v| value!(quantity!(v, mW / cm^2), mW / cm^2) },
    K { n: "m^-1", d: [0, -1, 0, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, m^-1)), back: |v| value!(quantity!(v, m^-1), m^-1) },
    K { n: "1 / s", d: [0, 0, -1, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, 1 / s)), back: |v| value!(quantity!(v, 1 / s), 1 / s) },
    K { n: "ft^-2 * lb", d: [1, -2, 0, 0, 0, 0, 0, 0], val: 4.88242763638305f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, ft^-2 * lb)), back: |v| value!(quantity!(v, ft^-2 * lb), ft^-2 * lb) },
    K { n: "(km * g) / (ms * A)", d: [1, 1, -1, -1, 0, 0, 0, 0], val: 1000.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, (km * g) / (ms * A))), back: |v| value!(quantity!(v, (km * g) / (ms * A)), (km * g) / (ms * A)) },
    K { n: "kWh / yr", d: [1, 2, -3, 0, 0, 0, 0, 0], val: 0.11407955261548605f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, kWh / yr)), back: |v| value!(quantity!(v, kWh / yr), kWh / yr) },
    K { n: "deg / s", d: [0, 0, -1, 0, 0, 0, 0, 1], val: 0.005555555555555556f64, pi: 1, stored: true, aff: false, f: |v| out(quantity!(v, deg / s)), back: |v| value!(quantity!(v, deg / s), deg / s) },
    K { n: "rad * m^2", d: [0, 2, 0, 0, 0, 0, 0, 1], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, rad * m^2)), back: |v| value!(quantity!(v, rad * m^2), rad * m^2) },
    K { n: "psi * gal", d: [1, 2, -2, 0, 0, 0, 0, 0], val: 26.09949550537946f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, psi * gal)), back: |v| value!(quantity!(v, psi * gal), psi * gal) },
    K { n: "mol / L", d: [0, -3, 0, 0, 0, 1, 0, 0], val: 1000.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, mol / L)), back: |v| value!(quantity!(v, mol / L), mol / L) },
    K { n: "hp * h", d: [1, 2, -2, 0, 0, 0, 0, 0], val: 2684519.537696173f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, hp * h)), back: |v| value!(quantity!(v, hp * h), hp * h) },
    K { n: "acre * ft", d: [0, 3, 0, 0, 0, 0, 0, 0], val: 1233.48183754752f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, acre * ft)), back: |v| value!(quantity!(v, acre * ft), acre * ft) },
    K { n: "eV / K", d: [1, 2, -2, 0, -1, 0, 0, 0], val: 1.602176634e-19f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, eV / K)), back: |v| value!(quantity!(v, eV / K), eV / K) },
    K { n: "N * m", d: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, N * m)), back: |v| value!(quantity!(v, N * m), N * m) },
    K { n: "Pa * s", d: [1, -1, -1, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, Pa * s)), back: |v| value!(quantity!(v, Pa * s), Pa * s) },
    K { n: "A * s * V", d: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, A * s * V)), back: |v| value!(quantity!(v, A * s * V), A * s * V) },
    K { n: "cd / m^2", d: [0, -2, 0, 0, 0, 0, 1, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, cd / m^2)), back: |v| value!(quantity!(v, cd / m^2), cd / m^2) },
    K { n: "C / mol", d: [0, 0, 1, 1, 0, -1, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, C / mol)), back: |v| value!(quantity!(v, C / mol), C / mol) },
    K { n: "oz / ft / ft", d: [1, -2, 0, 0, 0, 0, 0, 0], val: 0.30515172727394063f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, oz / ft / ft)), back: |v| value!(quantity!(v, oz / ft / ft), oz / ft / ft) },
    K { n: "(ft / s)^2", d: [0, 2, -2, 0, 0, 0, 0, 0], val: 0.09290304f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (ft / s)^2)), back: |v| value!(quantity!(v, (ft / s)^2), (ft / s)^2) },
    K { n: "(lb / ft^3)^-1", d: [-1, 3, 0, 0, 0, 0, 0, 0], val: 0.06242796057614461f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (lb / ft^3)^-1)), back: |v| value!(quantity!(v, (lb / ft^3)^-1), (lb / ft^3)^-1) },
    K { n: "kg2 * m3", d: [2, 3, 0, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: false, f: |v| out(quantity!(v, kg2 * m3)), back: |v| value!(quantity!(v, kg2 * m3), kg2 * m3) },
    K { n: "yd . stone / wk", d: [1, 1, -1, 0, 0, 0, 0, 0], val: 9.601038498333333e-06f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, yd . stone / wk)), back: |v| value!(quantity!(v, yd . stone / wk), yd . stone / wk) },
    K { n: "(ft)^-3", d: [0, -3, 0, 0, 0, 0, 0, 0], val: 35.31466672148859f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (ft)^-3)), back: |v| value!(quantity!(v, (ft)^-3), (ft)^-3) },
    K { n: "J * (lb * s)^-3", d: [-2, 2, -5, 0, 0, 0, 0, 0], val: 10.715261600999527f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, J * (lb * s)^-3)), back: |v| value!(quantity!(v, J * (lb * s)^-3), J * (lb * s)^-3) },
    K { n: "(ft * min)^-4 * kg", d: [1, -4, -4, 0, 0, 0, 0, 0], val: 8.939951192820376e-06f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (ft * min)^-4 * kg)), back: |v| value!(quantity!(v, (ft * min)^-4 * kg), (ft * min)^-4 * kg) },
    K { n: "yd^5", d: [0, 5, 0, 0, 0, 0, 0, 0], val: 0.6392652349813368f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, yd^5)), back: |v| value!(quantity!(v, yd^5), yd^5) },
    K { n: "gal^-3", d: [0, -9, 0, 0, 0, 0, 0, 0], val: 18435741.533348676f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, gal^-3)), back: |v| value!(quantity!(v, gal^-3), gal^-3) },
    K { n: "(mi / h)^3", d: [0, 3, -3, 0, 0, 0, 0, 0], val: 0.089338602225664f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (mi / h)^3)), back: |v| value!(quantity!(v, (mi / h)^3), (mi / h)^3) },
    K { n: "(lb^2 * ft) / (yd^2 * oz)", d: [1, -1, 0, 0, 0, 0, 0, 0], val: 2.6456247885680955f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (lb^2 * ft) / (yd^2 * oz))), back: |v| value!(quantity!(v, (lb^2 * ft) / (yd^2 * oz)), (lb^2 * ft) / (yd^2 * oz)) },
    K { n: "deg^-3", d: [0, 0, 0, 0, 0, 0, 0, -3], val: 5832000.0f64, pi: -3, stored: true, aff: false, f: |v| out(quantity!(v, deg^-3)), back: |v| value!(quantity!(v, deg^-3), deg^-3) },
    K { n: "(mi * acre)^-1", d: [0, -3, 0, 0, 0, 0, 0, 0], val: 1.5354416549051374e-07f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, (mi * acre)^-1)), back: |v| value!(quantity!(v, (mi * acre)^-1), (mi * acre)^-1) },
    K { n: "lb * (ft / (min * gal))", d: [1, -2, -1, 0, 0, 0, 0, 0], val: 0.6087182507698349f64, pi: 0, stored: false, aff: false, f: |v| out(quantity!(v, lb * (ft / (min * gal)))), back: |v| value!(quantity!(v, lb * (ft / (min * gal))), lb * (ft / (min * gal))) },
    K { n: "degC * ft", d: [0, 1, 0, 0, 1, 0, 0, 0], val: 0.3048f64, pi: 0, stored: false, aff: true, f: |v| out(quantity!(v, degC * ft)), back: |v| value!(quantity!(v, degC * ft), degC * ft) },
    K { n: "lb / degF", d: [1, 0, 0, 0, -1, 0, 0, 0], val: 0.816466266f64, pi: 0, stored: false, aff: true, f: |v| out(quantity!(v, lb / degF)), back: |v| value!(quantity!(v, lb / degF), lb / degF) },
    K { n: "degC / min", d: [0, 0, -1, 0, 1, 0, 0, 0], val: 0.016666666666666666f64, pi: 0, stored: false, aff: true, f: |v| out(quantity!(v, degC / min)), back: |v| value!(quantity!(v, degC / min), degC / min) },
    K { n: "m * degF", d: [0, 1, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, stored: false, aff: true, f: |v| out(quantity!(v, m * degF)), back: |v| value!(quantity!(v, m * degF), m * degF) },
    K { n: "J / degC", d: [1, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, pi: 0, stored: true, aff: true, f: |v| out(quantity!(v, J / degC)), back: |v| value!(quantity!(v, J / degC), J / degC) },
];
pub static TYPED: &[Y] = &[
    Y { n: "ft, f64", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, off: 0.0f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, ft, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, ft, f64, Br)), ft, f64, Br) as f64 },
    Y { n: "ft, f32", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, off: 0.0f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, ft, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, ft, f32, Br)), ft, f32, Br) as f64 },
    Y { n: "ft, i32", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, off: 0.0f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, ft, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, ft, i32, Br)), ft, i32, Br) as f64 },
    Y { n: "ft, i64", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, off: 0.0f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, ft, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, ft, i64, Br)), ft, i64, Br) as f64 },
    Y { n: "ft, u16", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, off: 0.0f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, ft, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, ft, u16, Br)), ft, u16, Br) as f64 },
    Y { n: "degC, f64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, off: 273.15f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, degC, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, degC, f64, Br)), degC, f64, Br) as f64 },
    Y { n: "degC, f32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, off: 273.15f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, degC, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, degC, f32, Br)), degC, f32, Br) as f64 },
    Y { n: "degC, i32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, off: 273.15f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, degC, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, degC, i32, Br)), degC, i32, Br) as f64 },
    Y { n: "degC, i64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, off: 273.15f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, degC, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, degC, i64, Br)), degC, i64, Br) as f64 },
    Y { n: "degC, u16", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, off: 273.15f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, degC, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, degC, u16, Br)), degC, u16, Br) as f64 },
    Y { n: "degF, f64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, degF, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, degF, f64, Br)), degF, f64, Br) as f64 },
    Y { n: "degF, f32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, degF, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, degF, f32, Br)), degF, f32, Br) as f64 },
    Y { n: "degF, i32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, degF, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, degF, i32, Br)), degF, i32, Br) as f64 },
    Y { n: "degF, i64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, degF, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, degF, i64, Br)), degF, i64, Br) as f64 },
    Y { n: "degF, u16", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, degF, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, degF, u16, Br)), degF, u16, Br) as f64 },
    Y { n: "fahrenheit, f64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, fahrenheit, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, fahrenheit, f64, Br)), fahrenheit, f64, Br) as f64 },
    Y { n: "fahrenheit, f32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, fahrenheit, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, fahrenheit, f32, Br)), fahrenheit, f32, Br) as f64 },
    Y { n: "fahrenheit, i32", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, fahrenheit, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, fahrenheit, i32, Br)), fahrenheit, i32, Br) as f64 },
    Y { n: "fahrenheit, i64", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, fahrenheit, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, fahrenheit, i64, Br)), fahrenheit, i64, Br) as f64 },
    Y { n: "fahrenheit, u16", d: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, off: 459.67f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, fahrenheit, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, fahrenheit, u16, Br)), fahrenheit, u16, Br) as f64 },
    Y { n: "km, f64", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 1000.0f64, off: 0.0f64, pi: 0, stored: true, k: 0, f: |v| typed(quantity!(v.f, km, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, km, f64, Br)), km, f64, Br) as f64 },
    Y { n: "km, f32", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 1000.0f64, off: 0.0f64, pi: 0, stored: true, k: 1, f: |v| typed(quantity!(v.f as f32, km, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, km, f32, Br)), km, f32, Br) as f64 },
    Y { n: "km, i32", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 1000.0f64, off: 0.0f64, pi: 0, stored: true, k: 2, f: |v| typed(quantity!(v.i as i32, km, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, km, i32, Br)), km, i32, Br) as f64 },
    Y { n: "km, i64", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 1000.0f64, off: 0.0f64, pi: 0, stored: true, k: 3, f: |v| typed(quantity!(v.i as i64, km, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, km, i64, Br)), km, i64, Br) as f64 },
    Y { n: "km, u16", d: [0, 1, 0, 0, 0, 0, 0, 0], val: 1000.0f64, off: 0.0f64, pi: 0, stored: true, k: 4, f: |v| typed(quantity!(v.i as u16, km, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, km, u16, Br)), km, u16, Br) as f64 },
    Y { n: "mi / h, f64", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, off: 0.0f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, mi / h, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, mi / h, f64, Br)), mi / h, f64, Br) as f64 },
    Y { n: "mi / h, f32", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, off: 0.0f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, mi / h, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, mi / h, f32, Br)), mi / h, f32, Br) as f64 },
    Y { n: "mi / h, i32", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, off: 0.0f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, mi / h, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, mi / h, i32, Br)), mi / h, i32, Br) as f64 },
    Y { n: "mi / h, i64", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, off: 0.0f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, mi / h, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, mi / h, i64, Br)), mi / h, i64, Br) as f64 },
    Y { n: "mi / h, u16", d: [0, 1, -1, 0, 0, 0, 0, 0], val: 0.44704f64, off: 0.0f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, mi / h, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, mi / h, u16, Br)), mi / h, u16, Br) as f64 },
    Y { n: "J / (kg * K), f64", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, off: 0.0f64, pi: 0, stored: true, k: 0, f: |v| typed(quantity!(v.f, J / (kg * K), f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, J / (kg * K), f64, Br)), J / (kg * K), f64, Br) as f64 },
    Y { n: "J / (kg * K), f32", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, off: 0.0f64, pi: 0, stored: true, k: 1, f: |v| typed(quantity!(v.f as f32, J / (kg * K), f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, J / (kg * K), f32, Br)), J / (kg * K), f32, Br) as f64 },
    Y { n: "J / (kg * K), i32", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, off: 0.0f64, pi: 0, stored: true, k: 2, f: |v| typed(quantity!(v.i as i32, J / (kg * K), i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, J / (kg * K), i32, Br)), J / (kg * K), i32, Br) as f64 },
    Y { n: "J / (kg * K), i64", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, off: 0.0f64, pi: 0, stored: true, k: 3, f: |v| typed(quantity!(v.i as i64, J / (kg * K), i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, J / (kg * K), i64, Br)), J / (kg * K), i64, Br) as f64 },
    Y { n: "J / (kg * K), u16", d: [0, 2, -2, 0, -1, 0, 0, 0], val: 1.0f64, off: 0.0f64, pi: 0, stored: true, k: 4, f: |v| typed(quantity!(v.i as u16, J / (kg * K), u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, J / (kg * K), u16, Br)), J / (kg * K), u16, Br) as f64 },
    Y { n: "lb, f64", d: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, off: 0.0f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, lb, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, lb, f64, Br)), lb, f64, Br) as f64 },
    Y { n: "lb, f32", d: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, off: 0.0f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, lb, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, lb, f32, Br)), lb, f32, Br) as f64 },
    Y { n: "lb, i32", d: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, off: 0.0f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, lb, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, lb, i32, Br)), lb, i32, Br) as f64 },
    Y { n: "lb, i64", d: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, off: 0.0f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, lb, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, lb, i64, Br)), lb, i64, Br) as f64 },
    Y { n: "lb, u16", d: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, off: 0.0f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, lb, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, lb, u16, Br)), lb, u16, Br) as f64 },
    Y { n: "acre, f64", d: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, off: 0.0f64, pi: 0, stored: false, k: 0, f: |v| typed(quantity!(v.f, acre, f64, Br)), back: |v| value!(rebrand::<f64, _>(quantity!(v.f, acre, f64, Br)), acre, f64, Br) as f64 },
    Y { n: "acre, f32", d: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, off: 0.0f64, pi: 0, stored: false, k: 1, f: |v| typed(quantity!(v.f as f32, acre, f32, Br)), back: |v| value!(rebrand::<f32, _>(quantity!(v.f as f32, acre, f32, Br)), acre, f32, Br) as f64 },
    Y { n: "acre, i32", d: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, off: 0.0f64, pi: 0, stored: false, k: 2, f: |v| typed(quantity!(v.i as i32, acre, i32, Br)), back: |v| value!(rebrand::<i32, _>(quantity!(v.i as i32, acre, i32, Br)), acre, i32, Br) as f64 },
    Y { n: "acre, i64", d: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, off: 0.0f64, pi: 0, stored: false, k: 3, f: |v| typed(quantity!(v.i as i64, acre, i64, Br)), back: |v| value!(rebrand::<i64, _>(quantity!(v.i as i64, acre, i64, Br)), acre, i64, Br) as f64 },
    Y { n: "acre, u16", d: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, off: 0.0f64, pi: 0, stored: false, k: 4, f: |v| typed(quantity!(v.i as u16, acre, u16, Br)), back: |v| value!(rebrand::<u16, _>(quantity!(v.i as u16, acre, u16, Br)), acre, u16, Br) as f64 },
];
