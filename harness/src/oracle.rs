// generated by lib/units_oracle.py
pub struct Or { pub name: &'static str, pub syms: &'static [&'static str], pub dims: [i16; 8], pub val: f64, pub pi: i16, pub off: f64, pub stored: bool, pub prefix: bool, pub tol: f64, pub sc: Option<[i16; 4]> }
pub static ORACLE: &[Or] = &[
    Or { name: "gram", syms: &["g"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([-3, 0, -3, 0]) },
    Or { name: "grain", syms: &["gr"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 6.479891e-05f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "carat", syms: &["ct"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.0002f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-3, 0, -4, 0]) },
    Or { name: "ounce", syms: &["oz"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.028349523125f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "troy_ounce", syms: &["ozt"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.0311034768f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "troy_pound", syms: &["lbt"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.3732417216f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "pound", syms: &["lb"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 0.45359237f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "stone", syms: &["st"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 6.35029318f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "ton", syms: &["t"], dims: [1, 0, 0, 0, 0, 0, 0, 0], val: 1016.0469088f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "meter", syms: &["m"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "inch", syms: &["in"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.0254f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "foot", syms: &["ft"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.3048f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "yard", syms: &["yd"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 0.9144f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "mile", syms: &["mi"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 1609.344f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "nautical_mile", syms: &["nmi"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 1852.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "astronomical_unit", syms: &["AU"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 149597870700.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "light_year", syms: &["ly"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 9460730472580800.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "parsec", syms: &["pc"], dims: [0, 1, 0, 0, 0, 0, 0, 0], val: 3.085677581491367e+16f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-10, sc: None },
    Or { name: "second", syms: &["s"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "minute", syms: &["min"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 60.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([2, 1, 1, 0]) },
    Or { name: "hour", syms: &["h", "hr"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 3600.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([4, 2, 2, 0]) },
    Or { name: "day", syms: &["d"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 86400.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([7, 3, 2, 0]) },
    Or { name: "week", syms: &["wk"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 604800.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "month", syms: &["mo"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 2592000.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([8, 4, 3, 0]) },
    Or { name: "year", syms: &["yr"], dims: [0, 0, 1, 0, 0, 0, 0, 0], val: 31556926.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "ampere", syms: &["A"], dims: [0, 0, 0, 1, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "kelvin", syms: &["K"], dims: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "celsius", syms: &["degC"], dims: [0, 0, 0, 0, 1, 0, 0, 0], val: 1.0f64, pi: 0, off: 273.15f64, stored: true, prefix: false, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "rankine", syms: &["degR"], dims: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([0, -2, 1, 0]) },
    Or { name: "fahrenheit", syms: &["degF"], dims: [0, 0, 0, 0, 1, 0, 0, 0], val: 0.5555555555555556f64, pi: 0, off: 459.67f64, stored: true, prefix: false, tol: 1e-12, sc: Some([0, -2, 1, 0]) },
    Or { name: "mole", syms: &["mol"], dims: [0, 0, 0, 0, 0, 1, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "candela", syms: &["cd"], dims: [0, 0, 0, 0, 0, 0, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "lumen", syms: &["lm"], dims: [0, 0, 0, 0, 0, 0, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "radian", syms: &["rad"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "degree", syms: &["deg"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 0.005555555555555556f64, pi: 1, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-2, -2, -1, 1]) },
    Or { name: "gradian", syms: &["grad"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 0.005f64, pi: 1, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-3, 0, -2, 1]) },
    Or { name: "turn", syms: &["rot", "turn"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 2.0f64, pi: 1, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([1, 0, 0, 1]) },
    Or { name: "arcminute", syms: &["arcmin"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 9.259259259259259e-05f64, pi: 1, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-4, -3, -2, 1]) },
    Or { name: "arcsecond", syms: &["arcsec"], dims: [0, 0, 0, 0, 0, 0, 0, 1], val: 1.5432098765432098e-06f64, pi: 1, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-6, -4, -3, 1]) },
    Or { name: "hectare", syms: &["hect"], dims: [0, 2, 0, 0, 0, 0, 0, 0], val: 10000.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([4, 0, 4, 0]) },
    Or { name: "acre", syms: &["acre"], dims: [0, 2, 0, 0, 0, 0, 0, 0], val: 4046.8564224f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "liter", syms: &["L", "l"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.001f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([-3, 0, -3, 0]) },
    Or { name: "gallon", syms: &["gal", "gallon"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.003785411784f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "quart", syms: &["qrt"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.000946352946f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "pint", syms: &["pnt"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.000473176473f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "cup", syms: &["cup"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.0002365882365f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "fluid_ounce", syms: &["fl_oz"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 2.95735295625e-05f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "tablespoon", syms: &["tbsp"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 1.478676478125e-05f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "teaspoon", syms: &["tsp"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 4.92892159375e-06f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_gallon", syms: &["uk_gal"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.00454609f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_quart", syms: &["uk_qrt"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.0011365225f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_pint", syms: &["uk_pnt"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.00056826125f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_cup", syms: &["uk_cup"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.000284130625f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_fluid_ounce", syms: &["uk_fl_oz"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 2.84130625e-05f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_tablespoon", syms: &["uk_tbsp"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 1.77581640625e-05f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "uk_teaspoon", syms: &["uk_tsp"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 5.919388020833334e-06f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "bushel", syms: &["bu"], dims: [0, 3, 0, 0, 0, 0, 0, 0], val: 0.03523907016688f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "hertz", syms: &["Hz"], dims: [0, 0, -1, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "newton", syms: &["N"], dims: [1, 1, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "joule", syms: &["J"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "electron_volt", syms: &["eV"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.602176634e-19f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "erg", syms: &["erg"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 1e-07f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-7, 0, -7, 0]) },
    Or { name: "newton_meter", syms: &["Nm"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "calorie", syms: &["cal"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 4.184f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "foot_pound", syms: &["ft_lb"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 1.3558179483314003f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "kilowatt_hour", syms: &["kWh"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 3600000.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([7, 2, 5, 0]) },
    Or { name: "therm", syms: &["thm"], dims: [1, 2, -2, 0, 0, 0, 0, 0], val: 105505585.262f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "watt", syms: &["W"], dims: [1, 2, -3, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "horsepower", syms: &["hp"], dims: [1, 2, -3, 0, 0, 0, 0, 0], val: 745.6998715822702f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "pascal", syms: &["Pa"], dims: [1, -1, -2, 0, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "torr", syms: &["Torr"], dims: [1, -1, -2, 0, 0, 0, 0, 0], val: 133.32236842105263f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "psi", syms: &["psi"], dims: [1, -1, -2, 0, 0, 0, 0, 0], val: 6894.757293168362f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "bar", syms: &["bar"], dims: [1, -1, -2, 0, 0, 0, 0, 0], val: 100000.0f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([5, 0, 5, 0]) },
    Or { name: "atmosphere", syms: &["atm"], dims: [1, -1, -2, 0, 0, 0, 0, 0], val: 101325.0f64, pi: 0, off: 0.0f64, stored: false, prefix: false, tol: 1e-12, sc: None },
    Or { name: "coulomb", syms: &["C"], dims: [0, 0, 1, 1, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "volt", syms: &["V"], dims: [1, 2, -3, -1, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "farad", syms: &["F"], dims: [-1, -2, 4, 2, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "ohm", syms: &["Ω"], dims: [1, 2, -3, -2, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "siemens", syms: &["S"], dims: [-1, -2, 3, 2, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "henry", syms: &["H"], dims: [1, 2, -2, -2, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "tesla", syms: &["T"], dims: [1, 0, -2, -1, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "weber", syms: &["Wb"], dims: [1, 2, -2, -1, 0, 0, 0, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "lux", syms: &["lx"], dims: [0, -2, 0, 0, 0, 0, 1, 0], val: 1.0f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([0, 0, 0, 0]) },
    Or { name: "gauss", syms: &["G"], dims: [1, 0, -2, -1, 0, 0, 0, 0], val: 0.0001f64, pi: 0, off: 0.0f64, stored: true, prefix: false, tol: 1e-12, sc: Some([-4, 0, -4, 0]) },
    Or { name: "stokes", syms: &["St"], dims: [0, 2, -1, 0, 0, 0, 0, 0], val: 0.0001f64, pi: 0, off: 0.0f64, stored: true, prefix: true, tol: 1e-12, sc: Some([-4, 0, -4, 0]) },
];
pub struct Pre { pub name: &'static str, pub syms: &'static [&'static str], pub exp: i16 }
pub static PREFIXES: &[Pre] = &[
    Pre { name: "quecto", syms: &["q"], exp: -30 },
    Pre { name: "ronto", syms: &["r"], exp: -27 },
    Pre { name: "yocto", syms: &["y"], exp: -24 },
    Pre { name: "zepto", syms: &["z"], exp: -21 },
    Pre { name: "atto", syms: &["a"], exp: -18 },
    Pre { name: "femto", syms: &["f"], exp: -15 },
    Pre { name: "pico", syms: &["p"], exp: -12 },
    Pre { name: "nano", syms: &["n"], exp: -9 },
    Pre { name: "micro", syms: &["µ", "u"], exp: -6 },
    Pre { name: "milli", syms: &["m"], exp: -3 },
    Pre { name: "centi", syms: &["c"], exp: -2 },
    Pre { name: "deci", syms: &["d"], exp: -1 },
    Pre { name: "deca", syms: &["da"], exp: 1 },
    Pre { name: "hecto", syms: &["h"], exp: 2 },
    Pre { name: "kilo", syms: &["k"], exp: 3 },
    Pre { name: "mega", syms: &["M"], exp: 6 },
    Pre { name: "giga", syms: &["G"], exp: 9 },
    Pre { name: "tera", syms: &["T"], exp: 12 },
    Pre { name: "peta", syms: &["P"], exp: 15 },
    Pre { name: "exa", syms: &["E"], exp: 18 },
    Pre { name: "zetta", syms: &["Z"], exp: 21 },
    Pre { name: "yotta", syms: &["Y"], exp: 24 },
    Pre { name: "ronna", syms: &["R"], exp: 27 },
    Pre { name: "quetta", syms: &["Q"], exp: 30 },
];
pub static DIMS: &[(&str, [i16; 8])] = &[
    ("Mass", [1, 0, 0, 0, 0, 0, 0, 0]),
    ("Length", [0, 1, 0, 0, 0, 0, 0, 0]),
    ("Time", [0, 0, 1, 0, 0, 0, 0, 0]),
    ("Current", [0, 0, 0, 1, 0, 0, 0, 0]),
    ("Temperature", [0, 0, 0, 0, 1, 0, 0, 0]),
    ("Amount", [0, 0, 0, 0, 0, 1, 0, 0]),
    ("Luminosity", [0, 0, 0, 0, 0, 0, 1, 0]),
    ("Angle", [0, 0, 0, 0, 0, 0, 0, 1]),
    ("Area", [0, 2, 0, 0, 0, 0, 0, 0]),
    ("Volume", [0, 3, 0, 0, 0, 0, 0, 0]),
    ("Frequency", [0, 0, -1, 0, 0, 0, 0, 0]),
    ("Force", [1, 1, -2, 0, 0, 0, 0, 0]),
    ("Energy", [1, 2, -2, 0, 0, 0, 0, 0]),
    ("Power", [1, 2, -3, 0, 0, 0, 0, 0]),
    ("Pressure", [1, -1, -2, 0, 0, 0, 0, 0]),
    ("Electric Charge", [0, 0, 1, 1, 0, 0, 0, 0]),
    ("Electric Potential", [1, 2, -3, -1, 0, 0, 0, 0]),
    ("Capacitance", [-1, -2, 4, 2, 0, 0, 0, 0]),
    ("Electric Resistance", [1, 2, -3, -2, 0, 0, 0, 0]),
    ("Electric Conductance", [-1, -2, 3, 2, 0, 0, 0, 0]),
    ("Inductance", [1, 2, -2, -2, 0, 0, 0, 0]),
    ("Magnetic Field", [1, 0, -2, -1, 0, 0, 0, 0]),
    ("Magnetic Flux", [1, 2, -2, -1, 0, 0, 0, 0]),
    ("Illuminance", [0, -2, 0, 0, 0, 0, 1, 0]),
    ("Volume Mass Density", [1, -3, 0, 0, 0, 0, 0, 0]),
    ("Linear Mass Density", [1, -1, 0, 0, 0, 0, 0, 0]),
    ("Dynamic Viscosity", [1, -1, -1, 0, 0, 0, 0, 0]),
    ("Kinematic Viscosity", [0, 2, -1, 0, 0, 0, 0, 0]),
];
