"""C24: the types unit! and default_declarators name, as the compiler expands them, against the units
they are written with.  Every type is unified with a quantity whose exponents, storage type and brand
are symbolic."""
import json, os, random, re, sys, time
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as R
import types_smt as TS
import types_generic as G
from units_oracle import U, PREFIX, DIM, scale_of
from gen_units import IDS, KEYWORDS

HEAD = "#![allow(uncommon_codepoints, non_camel_case_types, confusable_idents)]\npub struct Sys;\n"


def add(a, b, k=1):
    return [x + k * y for x, y in zip(a, b)]


def unit_of(i, e):
    x = U[i]
    s = scale_of(x)
    if s is None or x["off"]:
        return None
    return list(DIM[x["dim"]]) + [s[0] + e, s[1], s[2] + e, s[3]]


# identifier -> 8 dimension exponents and 4 scale exponents
IDENT = {s: v for s, (i, e) in IDS.items() if s not in KEYWORDS and re.fullmatch(r"[^\W\d]\w*", s) and not re.search(r"\d", s) for v in [unit_of(i, e)] if v}


def value(text):
    tok = re.findall(r"[^\W\d]+|\d+|[-*./^()]", text)
    pos = [0]
    peek = lambda: tok[pos[0]] if pos[0] < len(tok) else None

    def take():
        pos[0] += 1
        return tok[pos[0] - 1]

    def expr():
        v = factor()
        while peek() == "/":
            take()
            v = add(v, factor(), -1)
        return v

    def factor():
        v = power()
        while peek() in ("*", "."):
            take()
            v = add(v, power())
        return v

    def power():
        v = atom()
        if peek() == "^":
            take()
            sg = 1
            if peek() == "-":
                take()
                sg = -1
            k = sg * int(take())
            v = [a * k for a in v]
        return v

    def atom():
        t = take()
        if t == "(":
            v = expr()
            assert take() == ")"
            return v
        if t == "1":
            return [0] * 12
        v = list(IDENT[t])
        if peek() is not None and peek().isdigit():
            k = int(take())
            v = [a * k for a in v]
        return v

    v = expr()
    assert pos[0] == len(tok), text
    return v


STORE = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]


def lines(tier):
    """(text, storage, brand)"""
    rnd = random.Random(11)
    out = []
    quick = [s for s in IDENT if IDS[s][1] == 0 or len(s) <= 3]
    names = list(IDENT) if tier != "quick" else sorted(set(quick) | set(rnd.sample(sorted(IDENT), 250)))
    for s in names:
        out.append((s, None, None))
    pool = [s for s in quick if s.isascii()]
    for s in rnd.sample(pool, 60):
        out.append((f"{s}^{rnd.randint(-9, 9)}", None, None))
        out.append((f"{s}{rnd.randint(2, 12)}", None, None))
        out.append((f"1 / {s}", None, None))

    def tree(d):
        if d == 0 or rnd.random() < 0.2:
            n = rnd.choice(pool + ["1", "m", "s", "kg"] * 8)
            return (n if n == "1" or rnd.random() < 0.8 else f"{n}{rnd.randint(2, 4)}") + (f"^{rnd.randint(-4, 5)}" if n != "1" and rnd.random() < 0.4 else "")
        s = tree(d - 1)
        for _ in range(rnd.randint(1, 3)):
            op, t = rnd.choice([" * ", ".", "/", " / "]), tree(d - 1)
            if op == "." and s[-1].isdigit() and (t[0] == "(" or t[0].isdigit()):
                op = " . "
            s += op + t
        return f"({s})" + (f"^{rnd.randint(-3, 3)}" if rnd.random() < 0.4 else "") if rnd.random() < 0.7 else s
    n = 0
    while n < (300 if tier == "quick" else 2500):
        t = tree(rnd.randint(1, 3))
        if max(map(abs, value(t))) < 30000:
            st = rnd.choice([None, None] + STORE)
            out.append((t, st, "Sys" if st and rnd.random() < 0.5 else None))
            n += 1
    for i, st in enumerate(STORE):
        for t in ("m", "km / h", "mol^-1 * cd"):
            out += [(t, st, None), (t, st, "Sys")]
    return list(dict.fromkeys(out))


def macro(l):
    return f"whippyunits::unit!({', '.join(x for x in l if x)})"


def probe(defs):
    return G.probe_crate("units-probe", HEAD + "".join(f"pub type U{i} = {macro(l)};\n" for i, l in enumerate(defs)))


def solve(tier):
    out = {"violations": [], "problems": [], "incomplete": [], "queries": 0, "obligations": 0, "replayed": 0, "solver_s": 0.0, "samples": [], "detail": []}
    js, defs, refused = G.expand_defs(lines(tier), probe, "units-probe", HEAD.count("\n") + 1, f"c24{tier}")
    lib = TS.expand("whippyunits", "")
    js = dict(js, structs={**lib["structs"], **js["structs"]}, aliases={**lib["aliases"], **js["aliases"]})
    facts, core, lfacts = TS.Facts(js), TS.Facts(TS.expand("whippyunits-core", "")), TS.Facts(lib)
    kinds, cand = {}, []

    def ask(cs):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*cs)
        t = time.time()
        r = s.check()
        out["solver_s"] += time.time() - t
        out["queries"] += 1
        if r == z3.unknown:
            out["incomplete"].append("solver gave no answer")
        return s.model() if r == z3.sat else None

    helper = [i for i in lib["impls"] if i["tr"] and lfacts.head(i["tr"]["p"]) == "GetSecondGeneric"]

    def norm(t, sol):
        """projections through the library's own impls"""
        for _ in range(4):
            if t[0] != "proj":
                return t
            for i in helper:
                fr = TS.rename(i, lfacts)
                env = {}
                s = t[4]
                if s[0] == "a" and s[1] == "Helper" and len(s[2]) == 2 and t[1] == lfacts.head(i["tr"]["p"]):
                    s = ("a", "Helper", (("c", z3.IntVal(0)), s[2][1]))
                if sol.unify(TS.strip(fr["self"]), s, env, [], []):
                    a = fr["assoc"].get(t[3])
                    if a is not None:
                        t = TS.subst(a, env)
                        while t[0] == "v" and t[1] in env:
                            t = env[t[1]]
                        break
            else:
                return t
        return t

    def judge(name, want, storage, brand, text, head):
        al = js["aliases"].get(name)
        if al is None:
            out["problems"].append(f"no type alias {name} in the expansion")
            return
        A = TS.Op("a")
        sol = TS.Solve(facts, core)
        try:
            # a generic alias is used with its parameter free: it must be the storage type
            t = facts.term({"p": [name], "a": [] if not al["g"] or storage != "?" else [{"ty": {"p": ["T_"], "a": []}}]}, {"type": {"T_"}, "const": set()})
            t = norm(t, sol)
            env, cons, dl = {}, [], []
            ok = sol.unify(TS.strip(t), A.term, env, cons, dl)
            if dl:
                raise TS.Stuck("delayed")
        except TS.Stuck as e:
            out["incomplete"].append(f"{name} ({text}): {e}")
            return
        acc = z3.And(*[c for c in cons if c is not True]) if ok else z3.BoolVal(False)
        parts = [x == v for x, v in zip(A.d, want[:8])] + [x == v for x, v in zip(A.s, want[8:])]
        if storage != "?":
            parts.append(A.t == TS.prim_id(storage or "f64"))
        parts.append(A.b == (TS.UNIT if not brand else sol.opaque(("a", brand, ()), {}, [])))
        eq = z3.And(*parts)
        for label, cs in (("denotes-another-type", [acc, z3.Not(eq)]), ("is-not-the-unit's-type", [eq, z3.Not(acc)])):
            m = ask(A.wf() + cs)
            out["obligations"] += 1
            k = (label, "sat" if m is not None else "unsat")
            kinds[k] = kinds.get(k, 0) + 1
            if m is not None:
                cand.append((label, text, head, want, storage, brand))

    for i, l in enumerate(defs):
        judge(f"U{i}", value(l[0]), l[1], l[2], macro(l), f"pub struct Sys;\ntype Probe = {macro(l)};\n")
    named = 0
    for i, x in enumerate(U):
        for pn, e in [("", 0)] + [(pn, e) for pn, _, e in PREFIX]:
            n = pn + x["name"]
            n = n[0].upper() + n[1:]
            camel = "".join(w[0].upper() + w[1:] for w in (pn + x["name"]).split("_") if w)
            s = scale_of(x)
            for c in dict.fromkeys((n, camel)):
                al = lib["aliases"].get(c)
                if al and al["m"].endswith("default_declarators") and s is not None and not x["off"]:
                    named += 1
                    judge(c, list(DIM[x["dim"]]) + [s[0] + e, s[1], s[2] + e, s[3]], "?", None, f"default_declarators::{c}", f"type Probe = whippyunits::default_declarators::{c};\n")
    if named < 300:
        out["problems"].append(f"only {named} named types found")
    for l in refused[:6]:
        body = f"pub struct Sys;\npub type Probe = {macro(l)};\n"
        ok, log = TS.compiles("", body + "fn main() {}\n")
        out["replayed"] += 1
        if not ok:
            out["violations"].append({"where": "unit!", "label": f"refused: {macro(l)}"[:120], "detail": body.strip(), "inputs": [], "replayed": True, "out": log[-1500:]})
        else:
            out["problems"].append(f"type refused in the probe crate only: {l}")
    seen = set()
    for label, text, head, want, storage, brand in cand:
        if text in seen or len(seen) >= 6:
            continue
        seen.add(text)
        sg = (f"Quantity<Scale<{', '.join(f'_{x}<{{{k}}}>' for x, k in zip(TS.SCALES, want[8:]))}>, "
              f"Dimension<{', '.join(f'_{x}<{{{k}}}>' for x, k in zip(TS.DIMS, want[:8]))}>, {'f64' if storage in (None, '?') else storage}, {brand or '()'}>")
        ok, log = TS.compiles("", head + f"fn same(x: Probe) -> {sg} {{ x }}\nfn main() {{ let _ = same; }}\n")
        out["replayed"] += 1
        if not ok:
            out["violations"].append({"where": "unit!" if "unit!" in text else "default_declarators", "label": label, "detail": f"{text} is not {sg}"[:400], "inputs": [], "replayed": True, "out": log[-1500:]})
        else:
            out["incomplete"].append(f"{text}: '{label}' satisfiable in the encoding but rustc does not confirm it")
    out["detail"] = [{"must_not": k[0], "result": k[1], "obligations": n} for k, n in kinds.items()] + [{"unit types": len(defs), "named types": named, "refused": len(refused)}]
    out["samples"] = [{"type": macro(l), "exponents": str(value(l[0]))} for l in defs[:: max(1, len(defs) // 12)]][:12]
    if len(defs) < 400:
        out["problems"].append(f"only {len(defs)} types")
    return out


if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            TS.expand("units-probe", "", probe(lines("quick")), "c24quick")
        else:
            print(json.dumps(solve(sys.argv[2])))
    except R.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
