"""C15: the traits define_generic_dimension! generates, as the compiler expands them, against the
dimension expressions they were written with.  A probe crate defines one trait per line; every impl of
a trait is unified with a quantity whose twelve exponents, storage type and brand are symbolic."""
import itertools, json, os, random, re, shutil, subprocess, sys, time
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as R
import types_smt as TS
from units_oracle import DIM

BASE = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
SYM = {"M": "Mass", "L": "Length", "T": "Time", "I": "Current", "Θ": "Temperature", "N": "Amount", "J": "Luminosity", "A": "Angle"}
NAMES = [n for n in DIM if " " not in n]
EXTRA_SYM = {"θ": "Temperature", "Cd": "Luminosity", "TI": "Electric Charge"}
ALL = {**{n: DIM[n] for n in NAMES}, **{s: DIM[n] for s, n in {**SYM, **EXTRA_SYM}.items()}}


# ------------------------------------------------------------------ what an expression means
def value(text):
    """factor ('/' factor)*; factor: power (('*'|'.') power)*; power: atom ('^' integer)?; atom: '(' .. ')', 1, name, name digits"""
    tok = re.findall(r"[A-Za-zΘθ]+|\d+|[-*./^()]", text)
    pos = [0]

    def peek():
        return tok[pos[0]] if pos[0] < len(tok) else None

    def take():
        pos[0] += 1
        return tok[pos[0] - 1]

    def expr():
        v = factor()
        while peek() == "/":
            take()
            v = [a - b for a, b in zip(v, factor())]
        return v

    def factor():
        v = power()
        while peek() in ("*", "."):
            take()
            v = [a + b for a, b in zip(v, power())]
        return v

    def power():
        v = atom()
        if peek() == "^":
            take()
            sg = 1
            if peek() == "-":
                take()
                sg = -1
            k = sg * int(take())
            v = [a * k for a in v]
        return v

    def atom():
        t = take()
        if t == "(":
            v = expr()
            assert take() == ")"
            return v
        if t == "1":
            return [0] * 8
        v = list(ALL[t])
        if peek() is not None and peek().isdigit():
            k = int(take())
            v = [a * k for a in v]
        return v

    v = expr()
    assert pos[0] == len(tok), text
    return v


def texts(tier):
    rnd = random.Random(7)
    out = []
    for n in ALL:
        out.append([n])
        for k in (-9, -3, -2, -1, 0, 1, 2, 3, 9):
            out.append([f"{n}^{k}"])
    for s in list(SYM) + ["Length", "Force", "TI"]:
        for k in (0, 1, 2, 3, 4, 10, 21):
            out.append([f"{s}{k}"])
        out += [[f"1 / {s}"], [f"1/{s}^2"], [f"(1/{s})^-3"], [f"{s}2^3"], [f"({s}^2)^-3"], [f"1 * {s}"]]
    out += [["1"], ["1/1"], ["(1)"], ["1^3"]]
    for a, b in itertools.product(SYM, SYM):
        for op in (" * ", ".", " / "):
            out.append([f"{a}{op}{b}"])
    for a, b in itertools.product(BASE[:5] + ["Energy", "Illuminance"], BASE[2:] + ["Capacitance"]):
        out.append([f"{a} / {b} ^ 2"])
        out.append([f"({a} / {b})^-2"])
    for t in ("{0} / {1} / {2}", "{0} / {1} * {2}", "{0} * {1} / {2}", "{0} / ({1} / {2})", "({0} / {1}) / {2}", "{0}.{1}2/{2}^2", "{0} * {1} ^ 2 / {2} ^ 3 / {3}", "{0} ^ 4.{1} ^ 2 / {2} / {3} ^ 2",
              "{0} / {1} . {2} / {3} * {0}", "(({0}))", "({0} * ({1} / {2} ^ -2)) ^ 3", "{0}3 * {1}^-2 / ({2} / {3}2)^2", "({0}/{1}).({2}/{3})", "{0}^-1 / {1}^-1", "({0} / {1} / {2}) ^ -1 / {3}", "1 / {0} / {1}", "1 / ({0} * {1})"):
        for _ in range(8 if tier == "quick" else 60):
            p = rnd.sample(list(SYM) + ["Length", "Time", "Power", "Volume"], 4)
            out.append([t.format(*p)])

    def tree(d):
        if d == 0 or rnd.random() < 0.2:
            n = rnd.choice(list(ALL) + ["1"])
            return (n if n == "1" or rnd.random() < 0.7 else f"{n}{rnd.randint(0, 4)}") + (f"^{rnd.randint(-4, 5)}" if rnd.random() < 0.4 else "")
        k = rnd.randint(2, 3)
        s = tree(d - 1)
        for _ in range(k - 1):
            op, t = rnd.choice([" * ", ".", "/", " / "]), tree(d - 1)
            if op == "." and s[-1].isdigit() and (t[0] == "(" or t[0].isdigit()):
                op = " . "  # "2.(" and "2.1" would be floating-point tokens
            s += op + t
        return f"({s})" + (f"^{rnd.randint(-3, 3)}" if rnd.random() < 0.5 else "")

    for _ in range(150 if tier == "quick" else 1500):
        t = tree(rnd.randint(1, 3))
        out.append([t])
    for _ in range(120 if tier == "quick" else 800):
        out.append([rnd.choice(out)[0] for _ in range(rnd.randint(2, 5))])
    res, seen = [], set()
    for l in out:
        vals, keep = set(), []
        for t in l:
            v = tuple(value(t))
            if v in vals or max(map(abs, v)) > 30000:
                continue
            vals.add(v)
            keep.append(t)
        if keep and tuple(keep) not in seen:
            seen.add(tuple(keep))
            res.append(keep)
    return res


# ------------------------------------------------------------------ probe crate
def probe_crate(name, src):
    d = os.path.join(R.BUILD, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nwhippyunits = {{ path = "/repo" }}\n[workspace]\n')
    shutil.copy(os.path.join(R.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    p = os.path.join(d, "src/lib.rs")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return d


def probe(defs):
    src = "#![allow(uncommon_codepoints, non_camel_case_types)]\nuse whippyunits::dimension_traits::define_generic_dimension;\n"
    return probe_crate("generic-probe", src + "".join(f"define_generic_dimension!(G{i}, {', '.join(l)});\n" for i, l in enumerate(defs)))


def bad_lines(d, name, first):
    """indices of the definitions rustc reports errors for; empty when it fails elsewhere"""
    env = R.cargo_env(os.path.join(R.BUILD, "expand-stable"), "stable")
    r = R.sh(["cargo", "check", "--offline", "--lib", "--message-format", "json"], env, cwd=d)
    lines = set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or not m["message"]["spans"]:
            continue
        if not m["package_id"].split("#")[0].endswith(name):
            return []
        lines |= {x["line_start"] - first for x in m["message"]["spans"] if x["is_primary"] and x["file_name"] == "src/lib.rs"}
    return sorted(lines)


def expand_defs(defs, make, name, first, tag):
    """facts of the probe crate, the definitions it holds, and those the macro or the compiler refuses although the library builds"""
    refused = []
    for _ in range(4):
        d = make(defs)
        try:
            return TS.expand(name, "", d, tag), defs, refused
        except R.CheckError:
            lines = [x for x in bad_lines(d, name, first) if 0 <= x < len(defs)]
            if not lines:
                raise
            refused += [defs[i] for i in lines]
            lines = set(lines)
            defs = [x for i, x in enumerate(defs) if i not in lines]
    raise R.CheckError(f"{name} does not expand")


def solve(tier):
    out = {"violations": [], "problems": [], "incomplete": [], "queries": 0, "obligations": 0, "replayed": 0, "solver_s": 0.0, "samples": [], "detail": []}
    js, defs, refused = expand_defs(texts(tier), probe, "generic-probe", 3, f"c15{tier}")
    lib = TS.expand("whippyunits", "")
    js = dict(js, structs={**lib["structs"], **js["structs"]}, aliases={**lib["aliases"], **js["aliases"]})
    facts, core = TS.Facts(js), TS.Facts(TS.expand("whippyunits-core", ""))
    lfacts = TS.Facts(lib)

    def impls(f, name):
        return [i for i in f.js["impls"] if i["tr"] and not i["tr"].get("neg") and f.head(i["tr"]["p"]) == name]

    def ask(cs):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*cs)
        t = time.time()
        r = s.check()
        out["solver_s"] += time.time() - t
        out["queries"] += 1
        if r == z3.unknown:
            out["incomplete"].append("solver gave no answer")
        return s.model() if r == z3.sat else None

    kinds = {}
    cand = []

    def judge(f, name, want, text, head):
        A = TS.Op("a", brand=z3.IntVal(TS.UNIT))
        sol = TS.Solve(f, core)
        acc = []
        found = impls(f, name)
        if not found:
            out["problems"].append(f"no impl of {name} found")
            return
        for i in found:
            fr = TS.rename(i, f)
            env, cons, dl = {}, [], []
            if not sol.unify(TS.strip(fr["self"]), A.term, env, cons, dl):
                continue
            try:
                sol.where(fr["where"], env, cons, dl)
            except TS.Stuck as e:
                out["incomplete"].append(f"{name}: {e}")
            acc.append(z3.And(*[c for c in cons if c is not True]) if cons else z3.BoolVal(True))
        any_acc = z3.Or(*acc) if acc else z3.BoolVal(False)
        eqs = [z3.And(*[x == v for x, v in zip(A.d, w)]) for w in want]
        for label, cs, expect in (("admits-another-dimension", [any_acc, z3.Not(z3.Or(*eqs))], "pass"), *[("refuses-the-dimension", [e, z3.Not(any_acc)], "fail") for e in eqs]):
            m = ask(A.wf() + cs)
            out["obligations"] += 1
            k = (label, "sat" if m is not None else "unsat")
            kinds[k] = kinds.get(k, 0) + 1
            if m is not None:
                cand.append((label, text, head, name, TS.concrete(m, (A, "q")), expect))
        # the encoding is not vacuous
        if ask(A.wf() + [any_acc]) is None:
            out["incomplete"].append(f"{text}: nothing satisfies the trait")

    for i, l in enumerate(defs):
        judge(facts, f"G{i}", [value(t) for t in l], ", ".join(l), f"whippyunits::dimension_traits::define_generic_dimension!(Probe, {', '.join(l)});\nuse Probe as Need;\n")
    for n in BASE:
        judge(lfacts, n, [DIM[n]], n, f"use whippyunits::dimension_traits::{n} as Need;\n")
    for l in refused[:6]:
        body = f"whippyunits::dimension_traits::define_generic_dimension!(Probe, {', '.join(l)});\n"
        ok, log = TS.compiles("", body + "fn main() {}\n")
        out["replayed"] += 1
        if not ok:
            out["violations"].append({"where": "define_generic_dimension", "label": f"refused: {', '.join(l)}"[:120], "detail": body.strip(), "inputs": [], "replayed": True, "out": log[-1500:]})
        else:
            out["problems"].append(f"definition refused in the probe crate only: {l}")
    for label, text, head, name, v, expect in cand[:6]:
        ty = TS.rust_ty(v)
        body = head + f"fn need<X: Need>() {{}}\nfn f() {{ need::<{ty}>() }}\n"
        ok, log = TS.compiles("", body + "fn main() { f() }\n")
        out["replayed"] += 1
        if ok == (expect == "pass"):
            out["violations"].append({"where": "define_generic_dimension" if name not in BASE else f"dimension_traits::{name}", "label": label, "detail": f"{text}: {ty}"[:400], "inputs": [str(v)], "replayed": True, "out": log[-1500:]})
        else:
            out["incomplete"].append(f"{text}: '{label}' satisfiable in the encoding but rustc does not confirm it: {v} {log[-300:]}")
    out["detail"] = [{"must_not": k[0], "result": k[1], "obligations": n} for k, n in kinds.items()] + [{"definitions": len(defs), "refused": len(refused)}]
    out["samples"] = [{"definition": ", ".join(l), "exponents": str([value(t) for t in l])} for l in defs[:: max(1, len(defs) // 12)]][:12]
    # the encoding against rustc: accepted exponents compile, neighbours do not
    if len(defs) < 500:
        out["problems"].append(f"only {len(defs)} definitions")
    return out


if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            TS.expand("generic-probe", "", probe(texts("quick")), "c15quick")
        else:
            print(json.dumps(solve(sys.argv[2])))
    except R.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
