TOOLCHAIN = {}
def J(h, *p, **k):
    d = {"h": h, "p": list(p)}
    d.update(k)
    return d
Q = ("quick",)
T = ("thorough",)
PROPS = {}
PROPS["C07"] = dict(
    jobs=[
        J("h_scale_rational", 100, 100, 0, 0, 0, 0, 0, 0),
        J("h_scale_rational", 0, 0, 100, 100, 0, 0, 0, 0),
        J("h_scale_rational", 0, 0, 0, 0, 100, 100, 0, 0),
        J("h_scale_rational", 0, 0, 0, 0, 0, 0, 8, 8),
        J("h_scale_rational", 8, 8, 3, 3, 6, 6, 1, 1, wit=["proper-fraction"], w=5),
        J("h_scale_rational", 24, 24, 0, 0, 24, 24, 1, 1, wit=["proper-fraction"], w=5),
        *[J("h_scale_rational", *[n if i == k else 0 for i in range(4) for _ in (0, 1)], pin) for pin in (1, 2) for k, n in enumerate((140, 90, 60, 16))],
        J("h_reduce", 5, wit=["w"]),
        J("h_scale_rational", 30, 30, 6, 6, 30, 30, 1, 1, tiers=T, w=9),
        J("h_reduce", 8, tiers=T),
    ],
    bounds="exponent differences: each prime alone over its whole table (2,3,5: +-100, pi: +-8); jointly 2:+-8,3:+-3,5:+-6,pi:+-1 and 2,5:+-24,pi:+-1; from/to exponents within +-200; beyond the tables each prime alone up to 2^140, 3^90, 5^60, pi^16 with one side unscaled; exact ratio representable in i128; reduction: |num|,|den| < 2^5",
    outside="differences beyond the tables of several primes at once; ratios that do not fit i128",
)
INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
FLOATS = ["f64", "f32"]
PROPS["C08"] = dict(
    jobs=[
        J("h_scale_float", 100, 100, 0, 0, 0, 0, 0, 0),
        J("h_scale_float", 0, 0, 100, 100, 0, 0, 0, 0, wit=["fraction"]),
        J("h_scale_float", 0, 0, 0, 0, 100, 100, 0, 0),
        J("h_scale_float", 0, 0, 0, 0, 0, 0, 8, 8),
        J("h_scale_float", 8, 8, 3, 3, 6, 6, 1, 1, wit=["fraction"], w=5),
        J("h_scale_float", 24, 24, 0, 0, 24, 24, 1, 1, w=5),
        *[J("h_scale_float", *[n if i == k else 0 for i in range(4) for _ in (0, 1)], pin) for pin in (1, 2) for k, n in enumerate((200, 200, 200, 40))],
        J("h_scale_float", 30, 30, 6, 6, 30, 30, 1, 1, tiers=T, w=9),
    ],
    bounds="as C07, and each prime alone up to +-200 (pi: +-40) with one side unscaled; relative error 1e-13 against correctly rounded powers",
    outside="exponent differences beyond the tables of several primes at once, or beyond +-200; storage f32 rounding (C10)",
)
PROPS["C05"] = dict(
    jobs=[J("h_arith_" + t, wit=["compared"]) for t in FLOATS + INTS],
    bounds="every pair of values of every storage type (f32, f64, i8..i128, isize, u8..u128, usize), every operator; one dimension/scale/brand instantiation with pairwise distinct exponents plus one unbranded",
    outside="other exponent instantiations (C01/C02 decide the types for all exponents)",
)
PROPS["C09"] = dict(
    jobs=[J("h_rescale_" + t, c) for t in INTS for c in range(12)]
    + [J("h_scale_rational", *[n if i == k else 0 for i in range(4) for _ in (0, 1)]) for k, n in enumerate((100, 100, 100, 8))]
    + [J("h_scale_rational", 8, 8, 3, 3, 6, 6, 1, 1, wit=["proper-fraction"], w=5)],
    bounds="every value of each of the twelve integer storage types, twelve scale changes (identity, 10^3, 10^-3, 10^20, 10^-20, 216/5, 1/12, 1/3600, 3/2, 25/18, pi/180, 2/pi^2)",
    outside="whole rescale at other scale pairs (the factor itself is decided for every exponent difference within the tables, as in C07)",
)
PROPS["C10"] = dict(
    jobs=[J("h_rescale_" + t) for t in FLOATS + ["default"]]
    + [J("h_scale_float", *[n if i == k else 0 for i in range(4) for _ in (0, 1)]) for k, n in enumerate((100, 100, 100, 8))]
    + [J("h_scale_float", 8, 8, 3, 3, 6, 6, 1, 1, w=5)],
    bounds="every f32/f64 value, fourteen scale changes covering each prime and pi in both directions",
    outside="whole rescale at other scale pairs (the factor itself is decided for every exponent difference within the tables, as in C08)",
)
PROPS["C06"] = dict(
    jobs=[J("h_erase_" + t) for t in FLOATS + INTS] + [J("h_cross_" + t) for t in FLOATS + INTS]
    + [J("h_rad_" + t, w=2) for t in ("f32", "f64", "i16", "i32", "i64", "i128", "isize")]
    + [J("h_radx_" + t) for t in ("f32_f64", "f64_f32", "i32_f32", "i32_f64", "i64_f32", "i64_f64", "f32_i32", "f64_i32", "f32_i64", "f64_i64")],
    bounds="every value of every storage type; every storage-type pair; every angle power -9..9; scales 1, 10^3, 216/5, 2*pi, pi/180",
    outside="other scales",
)
PROPS["C21"] = dict(
    jobs=[J("h_exps", wit=["added", "is-power-of-ten", "energy"]), J("h_powers", wit=["powers"])],
    bounds="all eight dimension exponents and all four scale exponents symbolic over the whole of i16",
    outside="inputs whose exact result does not fit i16 (sums, powers, negation of -32768)",
)
MODES = (0, 1, 2)
PROPS["C12"] = dict(
    jobs=[J("h_lookup", n, m, w=3 if m == 0 else 1) for m in MODES for n in range(1 if m == 0 else 0, 17)]
    + [J("h_find", n, m, wit=["reached"]) for m in MODES for n in range(1 if m == 0 else 0, 17)]
    + [J(h, n, m, tiers=T) for h in ("h_lookup", "h_find") for m in MODES for n in range(17, 27)],
    bounds="identifiers of 1..16 characters (thorough: 26) over A-Z, a-z and underscore, alone, after the micro sign or before the ohm sign",
    outside="digits and other Unicode letters inside identifiers, longer identifiers; identifiers that are Rust keywords",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions"],
)
PROPS["C13"] = dict(
    jobs=[J("h_expr", 1, 6, w=5), J("h_expr", 2, 1, w=9)]
    + [J("h_text", n, a, 0, w=n) for n in (1, 2, 3) for a in (0, 1, 2)]
    + [J("h_text", 4, 2, c, w=5) for c in range(1, 9)]
    + [J("h_tmpl", i, w=4 if i == 20 else 2) for i in range(22)] + [J("h_tmpl", 22, tiers=T)]
    + [J("h_expr", 2, k, tiers=T, w=99) for k in (2, 3)]
    + [J("h_text", 4, a, c, tiers=T) for a in (0, 1) for c in range(1, 12)]
    + [J("h_text", 5, 2, c, tiers=T) for c in range(1, 9)],
    bounds="texts of up to 3 characters over {m s * . / ^ ( ) 2 - space} and {1 0}, up to 4 over {m . / ^ ( ) - 3} (thorough: 4 and 5); 22 layouts of up to five factors with nested parentheses, powers, trailing digits and numbers, where every operator (* . /), digit and sign is symbolic; trees of depth 1 over 6 units and depth 2 over 1 unit (thorough: 3 units), leaf exponents -8..7, powers -2..3",
    outside="comments (// and /*) inside unit texts, numbers glued to dots, exponents outside i16; longer texts and deeper trees",
)

import types_smt_lite as TS
TYPES = dict(
    bounds="all twelve exponents of each operand symbolic over i16 (acceptance of products and sums in the default configuration: operands within +-200, the extent of its typenum tables), storage type and brand symbolic; default configuration and generic const expressions",
    outside="bounds on storage and brand types are assumed to hold; where clauses of derived PartialEq on the Scale and Dimension types themselves",
    assumptions=["the macro-expanded source rustc prints (-Zunpretty=expanded) is what it compiles", "trait solving is modelled as first-order unification plus the where clauses on exponents"],
)
for _p in ("C01", "C02", "C03", "C04"):
    PROPS[_p] = dict(TYPES, jobs=[], extra=TS.extra(_p))
PROPS["C15"] = dict(
    jobs=[], extra=TS.extra_probe("C15", "types_generic.py"),
    bounds="about 1100 definitions (thorough: about 4500) of one to five expressions: every dimension name and symbol with powers, trailing digits, all pairs of symbols under each operator, 17 layouts of up to five factors, generated trees of depth 3; per definition, the type's twelve exponents symbolic over i16 and its storage type symbolic; the eight atomic traits likewise",
    outside="branded quantities (the generated implementations cover the default brand); names with a space (they cannot be written); exponents beyond i16; other definitions: the macro's input is a program text, which is enumerated, not symbolic",
    assumptions=["the macro-expanded source rustc prints (-Zunpretty=expanded) is what it compiles", "trait solving is modelled as first-order unification plus the where clauses on exponents"],
)
PROPS["C24"] = dict(
    jobs=[], extra=TS.extra_probe("C24", "types_units.py"),
    bounds="about 1300 unit! types (thorough: about 4300): the identifiers of natively stored units (all unprefixed and short ones and 250 others; thorough: all), powers and trailing digits, 300 (thorough: 2500) generated expressions of depth 3, every storage type, with and without a brand; all types of default_declarators; against each, a quantity type whose twelve exponents, storage type and brand are symbolic",
    outside="other unit expressions (a program text is enumerated, not symbolic; C13 has symbolic ones); that converted and offset units are refused; local_unit! types (C16)",
    assumptions=["the macro-expanded source rustc prints (-Zunpretty=expanded) is what it compiles", "the oracle table lib/units_oracle.py states the SI/NIST definitions"],
)
SETUP = [TS.prepare]
U = dict(crate="harness-units")
UR = dict(crate="harness-units-rest", tiers=T)
PROPS["C11"] = dict(
    programs=True,
    jobs=[J("h_make", b, w=4 if b < 3 else 1, **U) for b in range(8)]
    + [J("h_decl", b, w=4, **U) for b in range(7)]
    + [J("h_decl_int", b, wit=["converted"], w=2, **U) for b in range(2)]
    + [J("h_typed", 0, wit=["typed"], w=9, **U)]
    + [J("h_make_rest", b, **UR) for b in range(22)],
    bounds="every unit of the table: by symbol and by name through quantity! (quick: all unprefixed identifiers, all prefixed metres, and kilo, milli, micro, mega, nano on every other prefixable unit; thorough: all identifiers), every f64 declarator method including all prefixed ones, every unprefixed i32 method, nine units in five explicit storage types with a brand. Native units: every bit pattern; converted: |number| <= 1e100 (f64), 1e15 (f32), i32 up to +-2^30 scaled so the result does not saturate, i16 otherwise",
    outside="larger magnitudes and saturation; identifiers that are Rust keywords; storage types other than f64, f32, i32, i64, u16",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions", "closeness over the reals: each rounding replaced by a relative and an absolute error variable"],
)
PROPS["C14"] = dict(
    jobs=[J("h_read", b, m, w=3 if m else 1, wit=[("own", "base", "kilo")[m]], **U) for b in range(8) for m in range(3)]
    + [J("h_compound", 0, w=5, wit=["compound"], **U), J("h_literals", wit=["literals"], **U)]
    + [J("h_read_rest", b, m, w=3 if m else 1, **UR) for b in range(22) for m in range(3)],
    bounds="quantity! then value! in the same unit, and value! from the coherent unit and from 1000 times it, for the identifiers of C11; 39 compound expressions; literal suffixes (all unprefixed and some prefixed) at one number each against quantity!; |number| <= 1e100",
    outside="larger magnitudes; literal suffixes at other numbers (the literal expands to the same constructor); integer storage (C11 covers nine units)",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions", "closeness over the reals: each rounding replaced by a relative and an absolute error variable"],
)
L = dict(crate="harness-lsp")
PROPS["C20"] = dict(
    jobs=[J("h_frame", *p, w=3 if p[2] == 2 else 1, wit=["end"], **L) for p in ((1, 1, 1, 0, 0), (1, 1, 1, 0, 1), (2, 1, 1, 0, 0), (3, 0, 0, 0, 0), (3, 1, 0, 0, 1), (1, 1, 2, 0, 0), (1, 1, 1, 1, 0), (2, 1, 0, 1, 0), (0, 1, 1, 0, 1))]
    + [J("h_truncated", n, wit=["held back"], **L) for n in (1, 3)]
    + [J("h_pass", k, n, wit=["passed"], **L) for k, n in ((0, 4), (1, 3), (2, 2), (3, 2), (10, 2), (11, 0), (12, 1), (13, 2), (14, 2))]
    + [J("h_rewritten", k, n, w=9 if k == 0 else 1, wit=["rewritten"], **L) for k, n in ((0, 1), (1, 1), (2, 0), (3, 1))]
    + [J("h_frame", *p, tiers=T, w=5, **L) for p in ((2, 1, 2, 0, 1), (3, 1, 1, 0, 0), (2, 1, 1, 1, 0), (0, 1, 2, 1, 0))]
    + [J("h_pass", k, n, tiers=T, **L) for k, n in ((0, 6), (1, 5), (2, 4), (10, 3), (14, 4))]
    + [J("h_rewritten", 2, 1, tiers=T, w=5, **L)],
    bounds="two messages of up to 3 arbitrary bytes each, in either direction through the proxy's own main() (its streams, child process, runtime spawn and logger replaced by stand-ins), with and without a second header line, with a message in the other direction, delivered in up to 3 pieces cut anywhere and with the reader not ready in between, with a short first write, with and without end of stream; a message of up to 4 bytes cut short anywhere; bodies of up to 4 arbitrary UTF-8 bytes, and nine JSON-RPC shapes with up to 3 arbitrary characters that the proxy must leave alone; hover (markdown and code list), inlay hint list and resolved hint with an arbitrary character in the neighbouring text",
    outside="starting the real rust-analyzer process and its standard error; the order in which the runtime polls the two directions (one fixed order); messages still under way when either side closes its stream; longer messages; JSON escapes in the neighbouring text; numbers that do not survive serde_json",
    assumptions=["a rewritten body is compared as JSON (object key order is not significant)"],
)
PROPS["C22"] = dict(
    jobs=[J("h_line", *p, w={0: 4, 3: 9}.get(p[0], 1), wit=["replaced"], **L) for p in ((0, 0, 0, 0, 0, 0), (0, 1, 0, 0, 1, 0), (1, 0, 0, 0, 0, 0), (1, 0, 1, 0, 0, 0), (2, 1, 0, 0, 1, 0), (3, 0, 0, 0, 0, 0), (4, 2, 0, 1, 0, 0), (5, 2, 0, 1, 0, 0), (9, 0, 1, 1, 0, 0), (9, 0, 2, 2, 0, 1))]
    + [J("h_two", *p, wit=["two"], **L) for p in ((9, 9, 1), (9, 4, 1))]
    + [J("h_plain", *p, w=4, wit=["plain"], **L) for p in ((0, 3, 0, 0), (1, 2, 0, 0), (2, 3, 1, 0), (6, 1, 0, 0), (7, 3, 0, 0), (8, 2, 0, 0), (9, 2, 0, 0), (10, 2, 0, 0), (3, 1, 2, 0))]
    + [J("h_hover", *p, w=4 if p[0] == 0 else 1, wit=["hover"], **L) for p in ((9, 0, 0, 1), (9, 1, 1, 1), (0, 0, 2, 0), (9, 0, 3, 1), (1, 1, 4, 0))]
    + [J("h_hint", *p, w=7 if p[0] == 3 else 1, wit=["hint"], **L) for p in ((9, 1, 1), (0, 0, 0), (1, 2, 0), (3, 1, 0), (9, 0, 2))]
    + [J("h_line", *p, tiers=T, w=9, **L) for p in ((0, 0, 1, 1, 0, 1), (0, 0, 2, 2, 0, 0), (1, 0, 1, 1, 0, 1), (2, 0, 0, 0, 0, 1))]
    + [J("h_two", *p, tiers=T, w=9, **L) for p in ((9, 0, 1), (9, 9, 2), (4, 1, 1))]
    + [J("h_plain", *p, tiers=T, w=9, **L) for p in ((2, 3, 0, 1), (3, 2, 0, 0), (4, 2, 0, 0), (5, 2, 0, 0), (2, 2, 3, 0), (0, 5, 0, 0), (3, 3, 0, 0))],
    bounds="one or two quantity types per text in families covering each base dimension (exponents -2..2, powers of ten -3..3), compounds up to length^13, every scale prime up to +-12, unknown and left-out parameters, three-digit exponents, brands and three storage types; up to 2 arbitrary ASCII characters and one wide character before and after; texts of up to 3 arbitrary bytes after eleven beginnings of a type; compiler-output printer, type formatter, hover (five markdown layouts) and inlay-hint labels split at three places",
    outside="longer arbitrary text; the rewriting of trait signatures (impl ... for), which is meant to drop text; whether the unit named is right (C19 decides the display of units)",
    assumptions=["the expected replacement is the library's own display of the same exponents"],
)
PROPS["C19"] = dict(
    jobs=[J("h_ten", *p, w=w, wit=["shown"]) for p, w in (((0, 0, 40), 1), ((1, 3, 31), 5), ((1, 12, 1), 1), ((2, 2, 4), 6), ((3, 1, 1), 3))]
    + [J("h_named", *p, w=3, wit=["shown"]) for p in ((31, 0), (2, 1))]
    + [J("h_unit_name", *p, w=w, wit=["shown"]) for p, w in (((0, 1, 3), 1), ((1, 1, 1), 7))]
    + [J("h_scale_name", *p, w=w, wit=["shown"]) for p, w in (((1, 1, 2, 2, 2, 1), 5), ((0, 1, 4, 3, 2, 2), 1))]
    + [J("h_super", 999, wit=["superscript"])]
    + [J("h_scale_name", *p, tiers=T, w=9, wit=["shown"]) for p in ((2, 1, 1, 1, 1, 1), (1, 2, 3, 2, 2, 1), (1, 3, 3, 0, 3, 0), (1, 1, 0, 4, 0, 3))]
    + [J("h_ten", *p, tiers=T, w=9, wit=["shown"]) for p in ((1, 9, 40), (2, 3, 9), (4, 1, 1), (3, 2, 1))]
    + [J("h_unit_name", *p, tiers=T, w=9, wit=["shown"]) for p in ((1, 2, 2),)]
    + [J("h_named", 40, 1, tiers=T, w=9, wit=["shown"]), J("h_super", 32767, tiers=T, w=9)],
    bounds="short and long unit names, and the whole displayed type plain and verbose: no nonzero exponent with powers of ten to +-40; one exponent to +-3 with powers of ten to +-31, or to +-12 with +-1; two exponents to +-2 with +-4; three to +-1 with +-1; the 28 named dimensions with powers of ten to +-31, and with factors of 2 and pi; scales of the 44 natively stored units raised to +-3, beside their own dimension or not and beside another base dimension; any scale with 2, 3 and 5 to +-2 and pi to +-1 beside one exponent +-1; superscripts -999..999 (thorough: all of i16; more exponents and wider ranges)",
    outside="scales whose value under- or overflows f64 (beyond the typenum tables); exponents read as unknown by the editor tools (C22); numeric factors are shown to three significant digits, and read back as such",
    assumptions=["the oracle table lib/units_oracle.py states what each unit word and prefix denotes", "a prefix before a parenthesis scales the whole, a prefix on a word is raised with it"],
)
L = dict(crate="harness-local")
PROPS["C16"] = dict(
    programs=True,
    jobs=[J("h_unit", s, b, 2, wit=["local"], w=3, **L) for s in range(4) for b in (0, 1)]
    + [J("h_compound", s, b, 2, wit=["local"], w=2, **L) for s in range(4) for b in (0, 1)]
    + [J("h_method", s, 0, 1, wit=["local"], w=4, **L) for s in range(5)]
    + [J("h_branded", 0, 0, 1, wit=["local"], **L)]
    + [J("h_int", s, 0, 1, wit=["whole"], w=2, **L) for s in range(5)]
    + [J("h_literals", s, wit=["literals"], **L) for s in range(4)],
    bounds="four systems (sa: gram, kilometer, millisecond, milliampere, millikelvin, kilomole, millicandela, milliradian; sb, branded: kilogram, millimeter, SI otherwise; sc, branded: milligram, centimeter, minute, kiloampere, rankine, micromole, kilocandela, degree; sd: megagram, nanometer, hour, microampere, kelvin, nanomole, hectocandela, turn) and a brand without base units; every unit of the table by first symbol and by name (sa, sb: every symbol and some prefixed ones), every base unit to powers -4..4, 108 compound expressions including every table of compound units of C11, declarator methods of every base unit with every prefix; f64 values with |v| <= 1e100, read back through value! in the written unit; i64 with |v| <= 10^12 (every i64 where the stored unit is not smaller) and i32 with |v| <= 2000 wherever the ratio of the units is whole or the inverse of a whole number up to 10^6; literal suffixes (one literal value per suffix)",
    outside="other base units; whole-number storage with other ratios; base units that are not powers of 2, 3, 5 and pi (pound, foot: rejected at compile time)",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions", "closeness over the reals: each rounding replaced by a relative and an absolute error variable"],
)
X = dict(crate="harness-text")
_RR = ["read", "refused"]
PROPS["C17"] = dict(
    jobs=[J("h_read_unit", b, 8, m, w=1 + 3 * m, **X) for b in range(8) for m in (0, 1) if (b, m) != (4, 1)]
    + [J("h_read_unit", b, 4, 2, w=2, **X) for b in range(4)]
    + [J("h_read_ident", 2, 0, t, w=7, wit=["prefixed", "refused"], **X) for t in (0, 2, 4, 8)]
    + [J("h_read_ident", *p, w=4, wit=["refused"], **X) for p in ((1, 0, 2), (3, 0, 2), (2, 1, 2), (2, 2, 36))]
    + [J("h_read_expr", i, s, w=2, wit=_RR, **X) for i in range(14) for s in (0, 1)]
    + [J("h_number", i, **X) for i in range(20)]
    + [J("h_string", i, m, w=1 + 2 * m, wit=["read"], **X) for i in range(6) for m in (0, 1)]
    + [J("h_json", i, t, m, w=5, wit=["read"], **X) for i, t, m in ((0, 0, 1), (1, 1, 1), (2, 2, 1), (3, 0, 1), (4, 1, 1), (1, 0, 0), (2, 1, 0), (3, 2, 0), (4, 0, 0))]
    + [J("h_json", i, 0, m, **X) for i in range(5, 17) for m in (0, 1)]
    + [J("h_fields", n, s, wit=["read"], w=2, **X) for n, s in ((2, 0), (2, 1), (3, 1))]
    + [J("h_fields", 4, 0, wit=["read"], tiers=T, **X)]
    + [J("h_json", 0, t, 0, w=9, wit=["read"], tiers=T, **X) for t in (0, 1, 2)]
    + [J("h_json", i, t, 1, w=5, tiers=T, **X) for i in range(5) for t in (0, 1, 2)]
    + [J("h_read_ident", n, 0, t, w=9, tiers=T, **X) for n in (2, 3) for t in range(0, 54, 2)]
    + [J("h_read_ident", 4, 0, t, w=9, tiers=T, **X) for t in (0, 2, 4, 8)]
    + [J("h_read_ident", 3, m, t, w=9, tiers=T, **X) for m in (1, 2) for t in (2, 36)],
    bounds="every unit of the table by symbol and by name, and with every prefix, read into the coherent and a scaled type of its dimension (refused by another dimension; by name refused by the 27 other types), |number| <= 1e100; every identifier of up to 2 letters as mass, length, time or temperature and of 3 letters as length (thorough: up to 3 letters in 27 dimensions, 4 in four), also led by the micro or ended by the ohm sign; 14 unit layouts with symbolic operators, digits and signs; 20 number layouts, 6 number-and-unit and 17 JSON layouts with symbolic digits or symbolic unit letters through from_string! and from_json!; serde maps of up to 3 fields (thorough 4) with symbolic keys and kinds of value",
    outside="units with an offset (Celsius, Fahrenheit) inside compounds; the identifiers dimensionless and power_of_10; inf and nan as numbers; storage types other than f64; longer texts, deeply nested parentheses",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions", "closeness over the reals: each rounding replaced by a relative and an absolute error variable"],
)
PROPS["C18"] = dict(
    jobs=[J("h_fmt_unit", b, 8, m, w=5, wit=["unrounded"], **X) for b in range(8) for m in (0, 1) if (b, m) != (4, 1)]
    + [J("h_fmt_unit", b, 4, 2, w=2, wit=["unrounded"], **X) for b in range(4)]
    + [J("h_fmt_ident", 2, 0, t, w=7, wit=["prefixed", "refused"], **X) for t in (0, 2, 5, 9)]
    + [J("h_fmt_ident", *p, w=4, wit=["refused"], **X) for p in ((1, 0, 2), (3, 0, 3), (2, 1, 3), (2, 2, 37))]
    + [J("h_fmt_expr", i, s, w=2, wit=["shown", "refused"], **X) for i in range(14) for s in (0, 1)]
    + [J("h_fmt_ident", n, 0, t, w=9, tiers=T, **X) for n in (2, 3) for t in range(1, 54, 2)]
    + [J("h_fmt_ident", 4, 0, t, w=9, tiers=T, **X) for t in (1, 3, 5, 9)]
    + [J("h_fmt_ident", 3, m, t, w=9, tiers=T, **X) for m in (1, 2) for t in (3, 37)],
    bounds="every unit of the table by symbol and by name, and with every prefix, for quantities of the coherent and a scaled (and branded) type of its dimension and of one other dimension (by name: of the 27 others), |stored number| <= 1e100, no precision or 0 to 3 decimals; every identifier of up to 2 letters for mass, length, time and temperature and of 3 letters for length (thorough: up to 3 letters in 27 dimensions, 4 in four), also led by the micro or ended by the ohm sign; 14 unit layouts with symbolic operators, digits and signs",
    outside="the digits core::fmt prints for a float (replaced by a stand-in that records the value and precision asked for); units with an offset inside compounds; width, fill and sign flags; storage types other than f64",
    assumptions=["the oracle table lib/units_oracle.py states the SI/NIST definitions", "closeness over the reals: each rounding replaced by a relative and an absolute error variable", "core's Display for f64 prints the value it is given at the precision it is given"],
)
PROPS["C23"] = dict(
    jobs=[J("h_round", b, 8, wit=["negative"], **X) for b in range(8)] + [J("h_json_text", b, 8, **X) for b in range(8)],
    bounds="the 25 named dimensions with units, the dimensionless one, angular velocity and one with eight different exponents, each coherent and at another scale (with powers of 2, 3, 5 and pi) and branded; every |stored number| <= 1e100",
    outside="the digits ryu prints for a float (replaced by a stand-in that records the value); storage types other than f64; serde formats other than a map of a number and a text",
    assumptions=["closeness over the reals: each rounding replaced by a relative and an absolute error variable", "serde_json prints a float so that it reads back as the same number"],
)
