"""Property texts.  `python3 lib/spec.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys

S = []


def P(id, title, statement, over, text, why, files, mech, note="", technique="", observe=None, na=None):
    S.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, observe=observe, na=na))


LL = "symbolic execution of the compiled code's LLVM IR with SMT (z3/cvc5) deciding every branch and assertion; models replayed natively"
TT = "trait impls and signatures of the macro-expanded source unified against symbolic operand types; SMT (z3) decides the exponent, scale, storage and brand constraints; models replayed by compiling programs"
TNOTE = "Holds for every operand type (exponents over all of i16, any storage and brand) as far as trait solving is modelled: bounds on the storage and brand types are assumed to hold. The encoding is re-extracted from the current tree; the thorough tier compiles solver models against it."
NOTE = "Holds for every value within the stated bounds, on the IR rustc emits for the current tree; trusts rustc's lowering, llsym's semantics (cross-checked by native replay of solver models) and the SMT solvers."

P("C01", "Products, quotients and inverses carry the exact unit of the result",
  "Multiplying two quantities yields a quantity whose dimension exponents and scale exponents are the sums of the operands' exponents, dividing yields their differences, and dividing a plain number by a quantity yields the negated exponents; storage type and brand are kept. This holds for every combination of exponents the type system accepts and for every storage type, in the default configuration and with generic const expressions enabled.",
  ["programs", "configurations"], "every pair of dimension and scale exponent vectors, every storage type, both build configurations",
  "The exponents live in types: a test fixes one combination per line of code, and the combinations are unbounded.",
  ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs", "whippyunits-core/src/num.rs"],
  ["Output types of the Mul/Div operator implementations", "const-to-type-level-integer table"], note=TNOTE, technique=TT)
P("C02", "Quantities of different dimension or scale never mix silently",
  "Adding, subtracting, taking a remainder, comparing, or assigning with a compound operator is accepted by the compiler only between quantities of identical dimension and identical scale; mixing dimensions or scales, or a quantity with a plain number, is a compile-time error (taking the remainder of a quantity by a plain number is allowed and keeps its unit). A scale changes only through an explicit rescale call, which accepts any target scale but never a different dimension.",
  ["programs"], "every pair of exponent vectors for the two operands, every operator, every storage type",
  "A test shows one program being rejected; the guarantee is about every ill-typed program.",
  ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs"], ["operator impls require one and the same Scale and Dimension parameter", "rescale keeps the dimension parameters"], note=TNOTE, technique=TT)
P("C03", "Brands keep quantities of separate systems apart",
  "Quantities of different brands cannot be added, subtracted, multiplied, divided, compared or assigned to one another, and no operation changes a quantity's brand. Only unbranded quantities can be turned into plain numbers implicitly.",
  ["programs"], "every pair of brand types, every operator and conversion", "As C02: a property of all programs.",
  ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs"], ["Brand parameter shared by both operands of every impl", "conversions implemented for the default brand"], note=TNOTE, technique=TT)
P("C04", "Only dimensionless and angle quantities turn into plain numbers",
  "Converting a quantity into a plain number without naming a unit is accepted by the compiler only for dimensionless quantities and for pure powers of an angle; no quantity with any other non-zero dimension exponent has such a conversion, and no plain number turns into a quantity with a dimension. Dropping the angle from a compound unit leaves every other exponent unchanged.",
  ["programs"], "every dimension exponent vector and every storage type", "As C02.",
  ["src/api.rs", "src/quantity.rs"], ["From impls on Quantity restricted to zero or angle-only dimensions"], note=TNOTE, technique=TT)
P("C05", "Arithmetic on quantities is exactly arithmetic on the stored numbers",
  "Every operator between quantities, or between a quantity and a plain number, produces the same stored number (and the same comparison result, overflow panic or wraparound) as the same operator applied to the raw stored numbers, for all storage types. Compound assignments, negation and the stored-value accessors agree with their by-value forms.",
  ["inputs"], "every pair of values of f32, f64 and all signed and unsigned integer types, every operator",
  "Tests sample a few small values of f64 and i32; an error for one integer width, for NaN, for an extreme value or one operator stays invisible.",
  ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs"], ["operator macros expanded per storage type"], note=NOTE, technique=LL)
P("C06", "Turning dimensionless and angle quantities into numbers applies the scale",
  "Converting a dimensionless quantity into a plain number yields the stored value multiplied by its scale (so 1 of something in thousands is 1000), and converting an angle quantity yields the value in radians raised to the angle's power. The result agrees, to rounding, with exact arithmetic for every stored value, every supported number type and every supported pair of stored and target type, and integer results that fit are exact up to truncation.",
  ["inputs"], "every value of every storage type, every source/target type pair, angle powers -9..9, representative scales",
  "Tests convert a few floats; integer types, cross-type pairs, negative powers and extreme values are not reached.",
  ["src/api.rs", "src/quantity.rs"], ["From impls for dimensionless and radian quantities"], note=NOTE, technique=LL)
P("C07", "Exact conversion ratios between scales",
  "The exact ratio between two scales equals 2^a·3^b·5^c·π^d for the exponent differences (π approximated by a fixed rational), as a fraction in lowest terms with a positive denominator. It is right for every combination of exponents whose ratio is representable, and it is never inverted, truncated or off by a factor.",
  ["inputs"], "every exponent difference within the supported table range", "The tests evaluate a handful of prefixes; each table entry and each sign combination is a separate case.",
  ["src/scale_conversion.rs"], ["power tables per prime", "fraction reduction"], note=NOTE, technique=LL)
P("C08", "Floating-point conversion factors between scales",
  "The floating-point factor between two scales equals 2^a·3^b·5^c·π^d to within rounding (relative error at most 1e-13) for every combination of exponent differences in the supported range, and is exactly one for equal scales.",
  ["inputs"], "every exponent difference within the supported table range", "As C07.",
  ["src/scale_conversion.rs"], ["power tables per prime"], note=NOTE, technique=LL)
P("C09", "Rescaling integer quantities is exact up to truncation",
  "Rescaling an integer-valued quantity gives the exact mathematical value in the target scale, truncated toward zero, whenever the conversion ratio is a whole multiple, a whole fraction or a ratio of integers, and for ratios involving π within the accuracy of the rational approximation. If the result does not fit the storage type the program panics instead of returning a wrong number, and a result that fits is never lost to an intermediate overflow.",
  ["inputs"], "every value of each of the twelve integer storage types; representative scale changes up, down, fractional and with π",
  "Tests use small values; overflow in the middle of the computation and narrow types appear only at the edges.",
  ["src/api.rs", "src/scale_conversion.rs"], ["integer rescale macros"], note=NOTE, technique=LL)
P("C10", "Rescaling floating-point quantities",
  "Rescaling a floating-point quantity multiplies the stored value by the conversion factor between the scales, so that the physical value is unchanged up to rounding, for every finite, infinite or NaN value; rescaling to the same scale returns the value unchanged.",
  ["inputs"], "every f32 and f64 value; scale changes covering each prime and π in both directions", "Tests use a few round numbers.",
  ["src/api.rs", "src/scale_conversion.rs"], ["rescale functions per float type"], note=NOTE, technique=LL)
P("C11", "Every unit constructs the physical value its definition prescribes",
  "Constructing a quantity from a number and a named unit and reading it back in coherent SI units gives the number times the unit's internationally defined size (plus the defined offset for temperature scales), to within rounding, for every unit the library offers. Natively stored units keep the number untouched.",
  ["inputs"], "every unit of the default unit set; every finite number", "Each unit's factor is a separate constant; tests check a few of them at one value.",
  ["whippyunits-core/src/units.rs", "src/default_declarators.rs", "proc-macros/src/quantity_macro.rs"], ["unit tables", "declarator and quantity! expansion"], note=NOTE, technique=LL)
P("C12", "Unit symbols and prefixes resolve to the right unit",
  "Every identifier resolves to the unit, prefix and dimension that the SI rules assign to it: an exact symbol or name wins, otherwise one SI prefix on a prefixable base unit, with the symbol form using prefix symbols and the long form prefix names. The resolved scale, conversion factor and offset give the internationally defined size, non-native units are refused where only native ones are allowed, and any other identifier is not a unit.",
  ["inputs"], "every identifier of letters and underscore (plus leading micro and trailing ohm sign) up to the stated length", "There are about 2000 valid and unboundedly many invalid identifiers; tests try some dozens, and prefix/unit clashes (cd, min, Pa, mol, ft) are decided by search order.",
  ["whippyunits-core/src/lib.rs", "whippyunits-core/src/parser.rs", "whippyunits-core/src/prefix.rs", "whippyunits-core/src/dimensions.rs", "whippyunits-core/src/units.rs"],
  ["symbol/name search", "prefix stripping", "unit evaluation"], note=NOTE, technique=LL)
P("C13", "Unit expressions parse and evaluate as written",
  "A unit expression is accepted exactly when it follows the grammar of products (* or .), quotients, integer powers (^ or a trailing digit) and parentheses, products binding tighter than quotients and quotients associating to the left. Its dimension and scale exponents are those of the corresponding algebra: exponents add, subtract and multiply, and conversion factors multiply, divide and are raised to the power.",
  ["inputs"], "every text over a unit alphabet up to the stated length; every expression tree up to depth two with arbitrary leaf exponents", "Tests evaluate a few expressions; precedence and sign errors show in shapes they do not use.",
  ["whippyunits-core/src/parser.rs"], ["recursive-descent parser", "recursive evaluation"], note=NOTE, technique=LL)
P("C14", "All ways of writing a quantity agree",
  "Writing the same number in the same unit through the quantity macro, the literal suffix, the method-style declarators or a compound expression gives the same stored value and type, and reading the value back in the unit it was written in returns the number (to within rounding for converted units). Reading in another unit of the same dimension converts by the exact ratio of the two units.",
  ["inputs"], "every number; units covering native, prefixed, converted, offset and compound ones", "Each route expands different code; tests compare constants for some units.",
  ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "src/default_declarators.rs"], ["macro expansions"], note=NOTE, technique=LL)
P("C15", "Generic dimension bounds admit exactly the described dimensions",
  "A quantity (of the default brand) satisfies a user-defined generic dimension exactly when its dimension exponents equal those of one of the listed dimension expressions, whatever its scale and storage type. Dimension expressions combine by adding, subtracting and multiplying exponents; every dimension name and every documented one-letter symbol can be written in them.",
  ["programs"], "every exponent vector, scale and storage type against each of about a thousand definitions over all dimension names and symbols", "A test instantiates one dimension and one quantity.",
  ["proc-macros/src/define_generic_dimension_macro.rs", "src/dimension_traits.rs"], ["trait definition generated per expression"], technique=TT)
P("C16", "Local unit systems rescale literals without changing the physical value",
  "Inside a scope that declares its own base units, a quantity written in any unit has the same physical value as outside it, while its stored scale is the one built from the declared base units. Every dimension exponent contributes the corresponding power of its base unit's scale.",
  ["inputs", "programs"], "every exponent vector and every choice of prefixed base units in the supported range", "Tests declare one or two systems.",
  ["proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/define_unit_declarators_macro.rs"], ["local scale computation from the declared base units"], note=NOTE, technique=LL)
P("C17", "Reading quantities from text converts or refuses",
  "Reading a quantity from JSON or from a number-and-unit text yields the same physical value in the requested type: the number is converted from the written unit's scale (and factor and offset) to the target's. A unit of another dimension, an unknown unit or malformed text is an error, never a wrong number and never a panic.",
  ["inputs"], "every number together with every unit text of the stated length; target units covering native, prefixed and compound ones", "Tests parse a few well-formed texts.",
  ["src/serialization.rs"], ["unit parsing and scale conversion during deserialization"], note=NOTE, technique=LL)
P("C18", "Formatting in a chosen unit shows the converted value",
  "Formatting a quantity in a named unit prints the number that expresses the same physical value in that unit, followed by the unit's name; a unit of another dimension or an unknown unit prints an error message instead of a number.",
  ["inputs"], "every stored f64 and every unit name of the stated length; quantity types covering native, prefixed and compound units", "Tests format a few values in a few units.",
  ["src/print/mod.rs", "src/quantity.rs"], ["unit lookup and conversion in the formatter"], note=NOTE, technique=LL)
P("C19", "Displayed unit names denote the quantity's actual unit",
  "The unit shown for a quantity denotes exactly its dimension and scale: exponents are shown with their sign and digits, a prefix accounts for the whole power of ten the unit word does not, and any scale the name cannot express is shown as an explicit factor (to three significant digits). The verbose form lists every nonzero exponent, so that no two different units are shown alike there, and a dimension name shown is that dimension's own.",
  ["inputs"], "every dimension exponent vector and scale in the stated ranges", "Tests print some common units; exponent vectors are unbounded.",
  ["whippyunits-core/src/storage_unit.rs", "src/print/prettyprint.rs", "src/print/utils.rs", "whippyunits-core/src/lib.rs"], ["unit symbol generation", "superscript rendering"], note=NOTE, technique=LL)
P("C20", "The language-server proxy forwards traffic intact",
  "Every message between editor and language server arrives complete, once and in order, whatever the chunking of the byte stream, and messages the proxy does not rewrite arrive unchanged. A rewritten message keeps every field the server sent other than the text rewritten. Framing headers match the body length in bytes, and a message that is incomplete is held back rather than truncated.",
  ["inputs", "schedules"], "every byte content and every split into chunks within the stated sizes", "Tests feed whole, well-formed ASCII messages.",
  ["lsp-proxy/src/main.rs", "lsp-proxy/src/lib.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/inlay_hint_processor.rs"], ["message framing", "choice of messages to rewrite", "hover rewriting", "inlay-hint rewriting"], note=NOTE, technique=LL)
P("C21", "Unit exponents form an exact vector algebra",
  "Run-time dimension and scale exponents add under multiplication, negate under inversion and scale under powers, component by component and exactly for all 16-bit exponents whose result fits; the eight base dimensions are the unit vectors. Looking up a named dimension by its exponents finds the dimension whose SI definition has those exponents, and none other.",
  ["inputs"], "all eight dimension exponents and all four scale exponents, each over the whole 16-bit range", "A swapped or dropped component among eight shows only for vectors where the two components differ; tests use sparse vectors.",
  ["whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs", "whippyunits-core/src/dimensions.rs"], ["component-wise operators", "dimension table"], note=NOTE, technique=LL)
P("C22", "Compiler and editor text is rewritten only where a quantity type stands",
  "Replacing quantity types in compiler messages and editor hints changes exactly the complete quantity types in the text and leaves every other character as it was (apart from the abbreviation of trait signatures, impl ... for, which is meant to drop text); the replacement names the unit of the type's exponents. Text without such a type comes back unchanged, and no input makes the rewriting fail.",
  ["inputs"], "arbitrary text of the stated length around and after the beginning of a type; every exponent in the stated ranges inside a quantity type", "Tests rewrite some recorded compiler messages.",
  ["lsp-proxy/src/unit_formatter.rs", "lsp-proxy/src/quantity_detection.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/inlay_hint_processor.rs", "whippyunits-pretty/src/rustc_pretty.rs"], ["generic-argument parsing and replacement", "textual detection of quantity types", "hovers", "inlay hints", "compiler output"], note=NOTE, technique=LL)

P("C23", "Quantities written as text or JSON read back as the same physical value",
  "Serializing a quantity, through serde or to JSON text, writes one number and one unit text that together denote the quantity's physical value, whatever its scale and brand. Reading them back into the same type, or into a type of another scale, gives the same physical value up to rounding; a type of another dimension refuses them.",
  ["inputs"], "every stored number of the stated range in types of every named dimension at coherent and other scales", "Tests write a few quantities and compare texts.",
  ["src/serialization.rs"], ["unit text and scale conversion during serialization and deserialization"], note=NOTE, technique=LL)

P("C24", "Unit types denote exactly the unit they are written with",
  "The type unit!(expression, storage, brand) is the quantity type whose dimension and scale exponents are those of the written unit expression (native units, with prefixes, products, quotients and powers), with the given storage type (f64 when left out) and brand (none when left out). Each named type of default_declarators (Kilometer, Minute, Millivolt) is the quantity type of the unit it is named after, for any storage type.",
  ["programs"], "every quantity type against each of about 1300 unit! types and all of the about 1000 named types", "A test uses a handful of unit types; a type that is slightly off still compiles wherever it is used consistently.",
  ["proc-macros/src/unit_macro.rs", "proc-macros/src/generate_default_declarators_macro.rs", "src/default_declarators.rs"], ["unit! expansion", "generated type aliases"], technique=TT)


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks, na = [], []
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in S:
            a = {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][min(i, len(p["files"]) - 1)]} for i, m in enumerate(p["mech"])]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
            if p["id"] in props.PROPS:
                q = props.PROPS[p["id"]]
                checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough", "technique": q.get("technique", p["technique"]), "level": q.get("level", "model_checking"),
                               "level_note": (q.get("note") or p["note"] or NOTE) + " Bounds: " + q.get("bounds", "see DESIGN.md") + "."})
            else:
                na.append({"property": p["id"], "reason": p["na"] or "no check built yet; nothing is claimed for it"})
    m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
         "notes": "llsym (in /verif/llsym) is the symbolic executor; every check recompiles the harness crates against /repo's working tree and executes the resulting LLVM IR symbolically."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    main()
