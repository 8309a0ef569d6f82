"""Type-level SMT: trait impls and function signatures of the current tree, taken from the
macro-expanded source the compiler emits, as constraints over exponent vectors, storage and brand."""
import json, os, re, subprocess, sys, time, hashlib
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import run as R

DIMS = ["M", "L", "T", "I", "Θ", "N", "J", "A"]
SCALES = ["2", "3", "5", "Pi"]
PRIMS = ["f32", "f64", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
MIX = ["Add", "Sub", "Rem", "PartialEq", "PartialOrd", "AddAssign", "SubAssign", "RemAssign"]
I16 = (-32768, 32767)


# ------------------------------------------------------------------ extraction
def build_typex():
    t = os.path.join(R.BUILD, "typex")
    os.makedirs(t, exist_ok=True)
    r = R.sh(["cargo", "build", "--release", "--offline", "--quiet"], R.cargo_env(t), cwd=os.path.join(VERIF, "typex"))
    b = os.path.join(t, "release", "typex")
    if r.returncode or not os.path.exists(b):
        raise R.CheckError("typex does not build:\n" + r.stdout[-3000:])
    return b


def expand(pkg, feats, src_dir=R.REPO, tag="repo"):
    """macro-expanded source of a package's library, as the compiler prints it -> facts (JSON)"""
    tx = build_typex()
    key = R.repo_hash()
    if src_dir != R.REPO:
        key.update(open(os.path.join(src_dir, "src/lib.rs"), "rb").read())
    key.update(f"{pkg}|{feats}".encode())
    key.update(open(os.path.join(VERIF, "typex/src/main.rs"), "rb").read())
    out = os.path.join(R.BUILD, f"facts-{tag}-{pkg}-{feats or 'default'}-{key.hexdigest()[:20]}.json")
    if os.path.exists(out):
        return json.load(open(out))
    tc = "nightly" if "cge" in feats else "stable"
    target = os.path.join(R.BUILD, f"expand-{tc}")
    env = R.cargo_env(target, tc)
    env["RUSTC_BOOTSTRAP"] = "1"
    cmd = ["cargo", "rustc", "--offline", "--lib", "-p", pkg, "--profile", "dev"]
    if feats:
        cmd += ["--features", feats]
    cmd += ["--", "-Zunpretty=expanded"]
    e = dict(os.environ)
    e.update(env)
    tmp = out + f".{os.getpid()}.rs"
    with open(tmp, "w") as f:
        p = subprocess.run(cmd, env=e, cwd=src_dir, stdout=f, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode:
        raise R.CheckError(f"{pkg} ({feats or 'default'}) does not expand:\n" + p.stderr[-2500:])
    r = subprocess.run([tx, tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.unlink(tmp)
    if r.returncode:
        raise R.CheckError("typex: " + r.stderr[-1000:])
    for f in os.listdir(R.BUILD):
        if f.startswith(f"facts-{tag}-{pkg}-{feats or 'default'}-"):
            os.unlink(os.path.join(R.BUILD, f))
    open(out, "w").write(r.stdout)
    return json.loads(r.stdout)


# ------------------------------------------------------------------ terms
# ('a', head, (args...))   application      ('c', z3int)  const argument
# ('v', name, kind)        generic variable ('o', z3int)  opaque type id (storage / brand)
# ('tn', z3int)            typenum integer  ('proj', trait, targs, name, self)
class Facts:
    def __init__(self, js):
        self.js = js
        self.structs, self.aliases = js["structs"], js["aliases"]
        self.unmodelled = set()

    def head(self, p):
        return p[-1]

    def cexpr(self, e, sc):
        """const expression -> ('x', fn(env)->z3 int, names) kept lazily as a tree"""
        if "lit" in e:
            return ("c", z3.IntVal(int(e["lit"])))
        if "name" in e:
            if e["name"] in sc["const"]:
                return ("v", e["name"], "const")
            return ("cx", e, ())
        if "cast" in e:
            return self.cexpr(e["cast"], sc)
        if "neg" in e:
            a = self.cexpr(e["neg"], sc)
            if a[0] == "c":
                return ("c", z3.simplify(-a[1]))
            return ("cneg", a)
        if "bin" in e and e["bin"] in "+-*":
            return ("cbin", e["bin"], self.cexpr(e["a"], sc), self.cexpr(e["b"], sc))
        return ("cx", str(e), ())

    def term(self, t, sc):
        """type JSON -> term.  sc: {'type': set, 'const': set, 'self': term, 'assoc': {name: json}}"""
        if t is None:
            return ("a", "()", ())
        if "ref" in t:
            return ("a", "&mut" if t["ref"] else "&", (self.term(t["t"], sc),))
        if "tup" in t:
            return ("a", "()" if not t["tup"] else f"tuple{len(t['tup'])}", tuple(self.term(x, sc) for x in t["tup"]))
        if "proj" in t:
            s = self.term(t["self"], sc)
            tr = t["tr"]
            if tr is None:
                return ("proj", None, (), t["proj"], s)
            return ("proj", self.head(tr["p"]), tuple(self.targs(tr["a"], sc)), t["proj"], s)
        if "arr" in t:
            return ("a", "[]", (self.term(t["arr"], sc), self.cexpr(t["n"], sc)))
        if "p" in t:
            p = t["p"]
            if len(p) == 1 and not t["a"]:
                n = p[0]
                if n in sc["type"]:
                    return ("v", n, "type")
                if n in sc["const"]:
                    return ("v", n, "const")
                if n == "Self" and sc.get("self"):
                    return sc["self"]
            if p[0] == "Self" and len(p) == 2:
                if p[1] in sc.get("assoc", {}):
                    return self.term(sc["assoc"][p[1]], sc)
                return ("proj", None, (), p[1], sc.get("self") or ("v", "Self", "type"))
            if len(p) == 2 and p[0] in sc["type"]:
                return ("proj", None, (), p[1], ("v", p[0], "type"))
            h = self.head(p)
            args = self.targs(t["a"], sc)
            # typenum results
            if p[0] == "typenum" or (len(p) == 1 and not args and re.fullmatch(r"[PN]\d+|Z0", h) and h not in self.structs):
                m = re.fullmatch(r"([PN])(\d+)|Z0", h)
                if m:
                    return ("tn", z3.IntVal(0 if h == "Z0" else (1 if m[1] == "P" else -1) * int(m[2])))
            if h in self.structs:
                g = self.structs[h]["g"]
            elif h in self.aliases:
                g = self.aliases[h]["g"]
            else:
                return ("a", h, tuple(args))
            env = {}
            for i, q in enumerate(g):
                if i < len(args):
                    env[q["n"]] = args[i]
                elif q.get("d") is not None:
                    dsc = {"type": set(env) | {x["n"] for x in g}, "const": {x["n"] for x in g if x["k"] == "const"}}
                    d = self.cexpr(q["d"], dsc) if q["k"] == "const" else self.term(q["d"], dsc)
                    env[q["n"]] = subst(d, env)
                else:
                    env[q["n"]] = ("v", "_" + q["n"], q["k"])
            if h in self.structs:
                return ("a", h, tuple(env[q["n"]] for q in g))
            asc = {"type": {x["n"] for x in g if x["k"] == "type"}, "const": {x["n"] for x in g if x["k"] == "const"}}
            return subst(self.term(self.aliases[h]["t"], asc), env)
        return ("a", "?" + json.dumps(t, ensure_ascii=False)[:80], ())

    def targs(self, a, sc):
        r = []
        for x in a:
            if "ty" in x and "eq" not in x:
                r.append(self.term(x["ty"], sc))
            elif "cx" in x:
                r.append(self.cexpr(x["cx"], sc))
        return r

    def scope(self, *gs):
        s = {"type": set(), "const": set()}
        for g in gs:
            for q in g:
                s[q["k"]].add(q["n"])
        return s


def subst(t, env):
    k = t[0]
    if k == "v":
        return env.get(t[1], t)
    if k == "a":
        return ("a", t[1], tuple(subst(x, env) for x in t[2]))
    if k == "proj":
        return ("proj", t[1], tuple(subst(x, env) for x in t[2]), t[3], subst(t[4], env))
    if k == "cneg":
        return ("cneg", subst(t[1], env))
    if k == "cbin":
        return ("cbin", t[1], subst(t[2], env), subst(t[3], env))
    return t


class Stuck(Exception):
    pass


IDS = {}


def type_id(key):
    if key not in IDS:
        IDS[key] = len(IDS) + 100
    return IDS[key]


def prim_id(n):
    return PRIMS.index(n)


UNIT = 50


class Solve:
    """Unification of impl patterns with symbolic operands; constraints are z3 booleans."""

    def __init__(self, facts, core):
        self.f, self.core = facts, core
        self.notes = set()
        self.sumcache = {}

    # ---- constants
    def cval(self, t, env, cons):
        t = self.walk(t, env)
        if t[0] == "c":
            return t[1]
        if t[0] == "cneg":
            v = -self.cval(t[1], env, cons)
        elif t[0] == "cbin":
            a, b = self.cval(t[2], env, cons), self.cval(t[3], env, cons)
            v = {"+": a + b, "-": a - b, "*": a * b}[t[1]]
        elif t[0] == "v":
            raise Stuck(t[1])
        else:
            self.notes.add(f"constant expression {t[1:]} not modelled")
            return z3.FreshInt("cx")
        cons.append(z3.And(v >= I16[0], v <= I16[1]))
        return v

    def walk(self, t, env):
        while t[0] == "v" and t[1] in env:
            t = env[t[1]]
        return t

    def opaque(self, t, env, cons):
        """type term in a storage/brand position -> z3 int id"""
        t = self.walk(t, env)
        if t[0] == "o":
            return t[1]
        if t[0] == "a":
            if t[1] in PRIMS and not t[2]:
                return z3.IntVal(prim_id(t[1]))
            if t[1] == "()":
                return z3.IntVal(UNIT)
            try:
                return z3.IntVal(type_id(self.ground(t, env)))
            except Stuck:
                return z3.FreshInt("ty")
        if t[0] == "proj":
            return self.opaque(self.proj(t, env, cons), env, cons)
        raise Stuck(t[1] if len(t) > 1 else "?")

    def ground(self, t, env):
        t = self.walk(t, env)
        if t[0] == "a":
            return t[1] + "<" + ",".join(self.ground(x, env) for x in t[2]) + ">"
        if t[0] == "c" and z3.is_int_value(z3.simplify(t[1])):
            return str(z3.simplify(t[1]))
        raise Stuck("ground")

    # ---- unification: pattern p (with generics) against a term t; returns False on clash
    def unify(self, p, t, env, cons, delayed):
        p, t = self.walk(p, env), self.walk(t, env)
        if p[0] == "proj":
            try:
                p = self.proj(p, env, cons)
            except Stuck:
                delayed.append((p, t))
                return True
        if t[0] == "proj":
            t = self.proj(t, env, cons)
        if p[0] == "v":
            if t[0] == "v" and t[1] == p[1]:
                return True
            env[p[1]] = t
            return True
        if t[0] == "v":
            env[t[1]] = p
            return True
        if p[0] in ("c", "cneg", "cbin", "cx") or t[0] in ("c", "cneg", "cbin", "cx"):
            if p[0] in ("a", "o", "tn") or t[0] in ("a", "o", "tn"):
                return False
            try:
                cons.append(self.cval(p, env, cons) == self.cval(t, env, cons))
            except Stuck:
                delayed.append((p, t))
            return True
        if p[0] == "tn" or t[0] == "tn":
            if p[0] == t[0]:
                cons.append(p[1] == t[1])
                return True
            return False
        if p[0] == "o" or t[0] == "o":
            for x, y in ((p, t), (t, p)):
                if x[0] == "a" and y[0] == "o":
                    if is_q(x) or x[1] in ("&", "&mut"):
                        return False  # operands are by value; a quantity is never a storage type or a number here
            try:
                x, y = self.opaque(p, env, cons), self.opaque(t, env, cons)
                if z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() != y.as_long():
                    return False
                cons.append(x == y)
            except Stuck:
                delayed.append((p, t))
            return True
        if p[1] != t[1] or len(p[2]) != len(t[2]):
            return False
        # storage and brand come last in a quantity and refuse most candidates
        return all(self.unify(a, b, env, cons, delayed) for a, b in reversed(list(zip(p[2], t[2]))))

    # ---- traits on N and typenum
    def proj(self, t, env, cons):
        _, tr, targs, name, s = t
        s = self.walk(s, env)
        if s[0] == "proj":
            s = self.proj(s, env, cons)
        if s[0] == "v":
            raise Stuck(s[1])
        if s[0] == "tn":
            if tr in ("Add", "Sub"):
                o = self.walk(targs[0], env)
                if o[0] == "proj":
                    o = self.proj(o, env, cons)
                if o[0] != "tn":
                    raise Stuck("tn")
                return ("tn", s[1] + o[1] if tr == "Add" else s[1] - o[1])
            if tr == "Neg":
                return ("tn", -s[1])
        r = self.find_assoc(tr, s, targs, name, env, cons)
        if r is None:
            raise Stuck(f"{tr}::{name}")
        return r

    def impls(self, facts, tr, headname):
        key = (id(facts), tr, headname)
        if key not in self.sumcache:
            l = []
            for i in facts.js["impls"]:
                if i["tr"] and facts.head(i["tr"]["p"]) == tr:
                    sc = facts.scope(i["g"])
                    s = facts.term(i["self"], sc)
                    if s[0] == "v" or s[0] == "a" and s[1] == headname or s[0] == "tn" and headname == "tn":
                        l.append((i, sc, s))
            self.sumcache[key] = l
        return self.sumcache[key]

    def table(self, facts, tr, headname, assoc):
        """ground lookup table int -> int for a family of impls on N<k> or typenum integers"""
        key = ("tab", id(facts), tr, headname, assoc)
        if key in self.sumcache:
            return self.sumcache[key]
        tab = {}
        for i, sc, s in self.impls(facts, tr, headname):
            if s[0] == "tn":
                k = z3.simplify(s[1]).as_long()
            elif s[0] == "a" and len(s[2]) == 1 and s[2][0][0] == "c":
                k = z3.simplify(s[2][0][1]).as_long()
            else:
                tab = None
                break
            if assoc is None:
                tab[k] = k
                continue
            o = facts.term(i["assoc"][assoc], sc) if assoc in i["assoc"] else None
            if o and o[0] == "tn":
                tab[k] = z3.simplify(o[1]).as_long()
            elif o and o[0] == "a" and o[1] == "N" and o[2] and o[2][0][0] == "c":
                tab[k] = z3.simplify(o[2][0][1]).as_long()
            else:
                tab = None
                break
        self.sumcache[key] = tab or None
        return self.sumcache[key]

    def member(self, tab, x):
        ks = sorted(tab)
        rs, a = [], None
        for k in ks:
            if a is None:
                a = b = k
            elif k == b + 1:
                b = k
            else:
                rs.append((a, b))
                a = b = k
        rs.append((a, b))
        return z3.Or([z3.And(x >= a, x <= b) for a, b in rs])

    def lookup(self, tab, x):
        e = x
        for k, v in tab.items():
            if k != v:
                e = z3.If(x == k, z3.IntVal(v), e)
        return e

    def find_assoc(self, tr, s, targs, name, env, cons):
        """associated type of a trait on an N<..> or typenum term"""
        if s[0] == "a" and s[1] == "N" or s[0] == "tn":
            head = "N" if s[0] == "a" else "tn"
            for facts in (self.core, self.f):
                tab = self.table(facts, tr, head, name)
                if tab:
                    x = self.cval(s[2][0], env, cons) if head == "N" else s[1]
                    cons.append(self.member(tab, x))
                    v = self.lookup(tab, x)
                    # results are N for the back conversion and typenum for the forward one
                    o = self.impls(facts, tr, head)[0]
                    ot = facts.term(o[0]["assoc"][name], o[1])
                    return ("tn", v) if ot[0] == "tn" else ("a", "N", (("c", v),))
                for i, sc, st in self.impls(facts, tr, head):
                    loc = {}
                    fresh = rename(i, facts)
                    d = []
                    if not self.unify(fresh["self"], s, loc, cons, d):
                        continue
                    if not all(self.unify(a, self.close(b, env), loc, cons, d) for a, b in zip(fresh["targs"], targs)):
                        continue
                    sub = Solve(facts, self.core)
                    sub.sumcache = self.sumcache
                    sub.where(fresh["where"], loc, cons, d)
                    self.notes |= sub.notes
                    return sub.resolve(fresh["assoc"][name], loc, cons)
        return None

    def close(self, t, env):
        t = self.walk(t, env)
        if t[0] == "a":
            return ("a", t[1], tuple(self.close(x, env) for x in t[2]))
        return t

    def resolve(self, t, env, cons):
        """fully evaluated term"""
        t = self.walk(t, env)
        if t[0] == "proj":
            return self.resolve(self.proj(t, env, cons), env, cons)
        if t[0] == "a":
            return ("a", t[1], tuple(self.resolve(x, env, cons) for x in t[2]))
        if t[0] in ("cneg", "cbin", "cx"):
            return ("c", self.cval(t, env, cons))
        return t

    def where(self, preds, env, cons, delayed):
        """assert the where clauses (unmodelled ones count as true)"""
        pend = list(preds)
        for _ in range(4):
            nxt = []
            for w in pend:
                try:
                    self.pred(w, env, cons, delayed)
                except Stuck:
                    nxt.append(w)
            if not nxt:
                break
            pend = nxt
        else:
            for w in nxt:
                self.notes.add(f"where clause not modelled: {w['text'][:120]}")
        for _ in range(3):
            d2, todo = [], list(delayed)
            delayed.clear()
            for p, t in todo:
                if not self.unify(p, t, env, cons, d2):
                    cons.append(z3.BoolVal(False))
            delayed.extend(d2)
            if not delayed:
                break

    def pred(self, w, env, cons, delayed):
        t = w["t"]
        if t[0] == "a" and t[1] == "[]":
            self.cval(t[2][1], env, cons)
            return
        if t[0] == "v" and self.walk(t, env)[0] == "v":
            return
        s = self.resolve(t, env, cons)
        for tr, targs, eqs in w["b"]:
            if s[0] == "a" and s[1] == "()" and tr == "IsI16":
                for a in targs:
                    self.cval(a, env, cons)
                continue
            if s[0] == "a" and s[1] == "N" or s[0] == "tn":
                if not eqs:
                    head = "N" if s[0] == "a" else "tn"
                    tab = None
                    for facts in (self.core, self.f):
                        im = self.impls(facts, tr, head)
                        if im:
                            names = list(im[0][0]["assoc"])
                            tab = self.table(facts, tr, head, names[0] if names else None)
                            if tab:
                                cons.append(self.member(tab, self.cval(s[2][0], env, cons) if head == "N" else s[1]))
                            elif names:
                                self.find_assoc(tr, s, targs, names[0], env, cons)
                            break
                    else:
                        if head == "N":
                            cons.append(z3.BoolVal(False))  # no impl at all
                    continue
                for name, ty in eqs:
                    got = self.proj(("proj", tr, targs, name, s), env, cons)
                    if not self.unify(ty, got, env, cons, delayed):
                        cons.append(z3.BoolVal(False))
                continue
            if s[0] in ("o", "v") or s[0] == "a" and s[1] in PRIMS:
                continue  # bounds on the storage or brand type: assumed to hold
            self.notes.add(f"where clause not modelled: {w['text'][:120]}")


COUNT = [0]


def rename(i, facts, extra_g=(), fn=None):
    """an impl (or function) with its generics renamed apart"""
    COUNT[0] += 1
    g = list(i["g"]) + list(extra_g)
    sc = facts.scope(g)
    env = {q["n"]: ("v", f"{q['n']}#{COUNT[0]}", q["k"]) for q in g}
    selft = facts.term(i["self"], sc) if i.get("self") else None
    sc["self"] = selft
    sc["assoc"] = i.get("assoc") or {}
    if i.get("tr"):
        # names of associated types reachable as Self::X
        pass

    def preds(ws, gs):
        out = []
        for w in list(ws) + [{"t": {"p": [q["n"]], "a": []}, "b": q["b"]} for q in gs if q["k"] == "type" and q["b"]]:
            bs = []
            for b in w["b"]:
                if "p" not in b or b.get("maybe"):
                    continue
                eqs = [(x["eq"], subst(facts.term(x["ty"], sc), env)) for x in b["a"] if "eq" in x]
                bs.append((facts.head(b["p"]), tuple(subst(x, env) for x in facts.targs(b["a"], sc)), eqs))
            out.append({"t": subst(facts.term(w["t"], sc), env), "b": bs, "text": json.dumps(w, ensure_ascii=False)})
        return out

    d = {
        "self": subst(selft, env) if selft else None,
        "targs": [subst(x, env) for x in facts.targs(i["tr"]["a"], sc)] if i.get("tr") else [],
        "where": preds(i.get("w", []), i["g"]),
        "assoc": {k: subst(facts.term(v, sc), env) for k, v in (i.get("assoc") or {}).items()},
    }
    if fn is not None:
        fsc = facts.scope(g, fn["g"])
        fsc["self"], fsc["assoc"] = selft, i.get("assoc") or {}
        fenv = dict(env)
        for q in fn["g"]:
            fenv[q["n"]] = ("v", f"{q['n']}#{COUNT[0]}", q["k"])
        sc, env = fsc, fenv
        d["in"] = [subst(facts.term(t, fsc), fenv) for t in fn["in"]]
        d["out"] = subst(facts.term(fn["out"], fsc), fenv) if fn["out"] else ("a", "()", ())
        d["where"] += preds(fn["w"], fn["g"])
    return d


def strip(t):
    while t[0] == "a" and t[1] in ("&", "&mut"):
        t = t[2][0]
    return t


def is_q(t):
    return t[0] == "a" and t[1] == "Quantity"


class Op:
    """a symbolic quantity type"""

    def __init__(self, n, brand=None, storage=None):
        self.d = [z3.Int(f"{n}_{x}") for x in DIMS]
        self.s = [z3.Int(f"{n}_s{x}") for x in SCALES]
        self.t = z3.Int(f"{n}_t") if storage is None else z3.IntVal(prim_id(storage))
        self.b = z3.Int(f"{n}_b") if brand is None else brand
        self.term = ("a", "Quantity", (
            ("a", "Scale", tuple(("a", "_" + x, (("c", v),)) for x, v in zip(SCALES, self.s))),
            ("a", "Dimension", tuple(("a", "_" + x, (("c", v),)) for x, v in zip(DIMS, self.d))),
            ("o", self.t), ("o", self.b)))

    def wf(self, lo=I16[0], hi=I16[1]):
        return [z3.And(x >= lo, x <= hi) for x in self.d + self.s] + [self.t >= 0, z3.Or(self.t < len(PRIMS), self.t >= 100), self.b >= UNIT]


def slots(sol, t, env, cons):
    """Quantity term -> (dims, scales, storage id, brand id)"""
    t = sol.resolve(t, env, cons)
    if not is_q(t):
        return None
    sc, dm, st, br = t[2]
    if sc[0] != "a" or dm[0] != "a":
        raise Stuck("generic scale")
    return (
        [sol.cval(x[2][0], env, cons) for x in dm[2]],
        [sol.cval(x[2][0], env, cons) for x in sc[2]],
        sol.opaque(st, env, cons),
        sol.opaque(br, env, cons),
    )


# ------------------------------------------------------------------ obligations
OPFN = set(MIX) | {"Mul", "Div", "MulAssign", "DivAssign", "Neg", "Sum", "Product"}
CONV = {"From", "TryFrom", "Into", "TryInto", "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "ToPrimitive", "AsPrimitive", "FromPrimitive", "NumCast"}
DERIVED = {"Clone", "Copy", "Debug", "Display", "Serialize", "Deserialize", "Visitor", "Hash", "Default", "Eq", "Ord", "StructuralPartialEq", "LowerExp", "UpperExp"}


class Checker:
    def __init__(self, cfg, tier):
        self.cfg = cfg
        self.facts = Facts(expand("whippyunits", cfg))
        self.core = Facts(expand("whippyunits-core", cfg))
        self.sol = Solve(self.facts, self.core)
        self.viol, self.detail, self.problems, self.incomplete = [], [], [], []
        self.n = self.nsat = self.nreach = 0
        self.models = []
        self.solver_s = 0.0
        self.timeout = 20000 if tier == "quick" else 200000

    def ask(self, cs):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*[c for c in cs if c is not True])
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.n += 1
        if r == z3.sat:
            self.nsat += 1
            return s.model()
        if r == z3.unknown:
            self.incomplete.append(f"{self.cfg or 'default'}: solver gave no answer")
        return None

    def reach(self, what, cs):
        """the impl or function must be usable by someone: its encoding is not vacuous"""
        m = self.ask(cs)
        self.nreach += m is not None
        if m is None:
            self.problems.append(f"{self.cfg or 'default'}: {what}: no operand types satisfy its encoding")

    def forbid(self, props, what, label, cs, ops, assertion):
        """`cs` must be unsatisfiable; `assertion(model)` gives a program fragment which compiles iff the model is real"""
        m = self.ask(cs)
        self.detail.append({"config": self.cfg or "default", "props": props, "impl": what, "must_not": label, "result": "sat" if m is not None else "unsat"})
        if m is not None:
            vals = {n: concrete(m, o) for n, o in ops.items()}
            self.viol.append({"props": props, "where": f"{self.cfg or 'default'}:{what}", "label": label, "vals": vals, "prog": assertion(vals)})

    # -------- operators
    def impls(self):
        for i in self.facts.js["impls"]:
            if not i["tr"] or i["tr"].get("neg"):
                continue
            yield self.facts.head(i["tr"]["p"]), i

    def binary(self):
        for tr, i in self.impls():
            if tr not in OPFN:
                continue
            fr = rename(i, self.facts)
            s = strip(fr["self"])
            r = strip(fr["targs"][0]) if fr["targs"] else s
            if tr == "Neg":
                if is_q(s) or s[0] == "v":
                    self.unary(tr, i)
                continue
            def opts(t):
                o = []
                if is_q(t) or t[0] in ("v", "proj"):
                    o.append("q")
                if not is_q(t):
                    o.append("p")
                return o
            for a in opts(s):
                for b in opts(r):
                    if "q" in (a, b):
                        self.pair(tr, i, a, b)

    def start(self, i, fn=None):
        return rename(i, self.facts, fn=fn), {}, [], []

    def pair(self, tr, i, ka, kb):
        fr, env, cons, dl = self.start(i)
        A, B = Op("a"), Op("b")
        s = strip(fr["self"])
        r = strip(fr["targs"][0]) if fr["targs"] else s
        ta = A.term if ka == "q" else ("o", A.t)
        tb = B.term if kb == "q" else ("o", B.t)
        what = f"{tr}: {show(fr['self'])} with {show(fr['targs'][0]) if fr['targs'] else 'itself'}"
        if not self.sol.unify(s, ta, env, cons, dl) or not self.sol.unify(r, tb, env, cons, dl):
            return
        try:
            self.sol.where(fr["where"], env, cons, dl)
        except Stuck as e:
            self.sol.notes.add(f"{what}: {e}")
        base = A.wf() + B.wf() + cons
        ops = {"A": (A, ka), "B": (B, kb)}
        assign = tr.endswith("Assign")
        prog = lambda v: op_prog(tr, v, None)
        out = None
        if "Output" in fr["assoc"]:
            c2 = []
            try:
                out = self.sol.resolve(fr["assoc"]["Output"], env, c2)
                o = slots(self.sol, out, env, c2) if is_q(out) else None
            except Stuck as e:
                self.sol.notes.add(f"{what}: output {e}")
                o = None
            base = base + c2
            if o is None and not is_q(out or ("a", "", ())):
                if tr in ("Mul", "Div") or tr in ("Add", "Sub", "Rem"):
                    # a non-quantity result is fine only when the exact result is a plain number
                    exp = expected(tr, A, B, ka, kb)
                    self.forbid(["C01" if tr in ("Mul", "Div") else "C02"], what, "result-not-a-quantity", base + [differ(exp[0] + exp[1], [0] * 12)], ops, prog)
        self.reach(what, base)
        dif = differ(A.d + A.s, B.d + B.s)
        if ka == kb == "q":
            self.forbid(["C03"], what, "mixes-brands", base + [A.b != B.b], ops, prog)
            if tr in MIX or tr == "Sum":
                self.forbid(["C02"], what, "mixes-dimension-or-scale", base + [dif], ops, prog)
            if tr in ("MulAssign", "DivAssign", "Product"):
                self.forbid(["C01"], what, "in-place-product-changes-unit", base + [differ(B.d + B.s, [0] * 12)], ops, prog)
        elif tr in MIX and not (tr in ("Rem", "RemAssign") and ka == "q"):
            Q = A if ka == "q" else B
            self.forbid(["C02"], what, "mixes-quantity-and-number", base + [differ(Q.d + Q.s, [0] * 12)], ops, prog)
        elif tr == "Product":
            return
        if tr in ("Add", "Sub", "Rem", "Mul", "Div") and out is not None and is_q(out) and o is not None:
            exp = expected(tr, A, B, ka, kb)
            inr = [z3.And(x >= I16[0], x <= I16[1]) for x in exp[0] + exp[1]]
            prop = "C01" if tr in ("Mul", "Div") else "C02"
            op2 = lambda v: op_prog(tr, v, "wrong")
            small = [z3.And(x >= -12, x <= 12, x != 0) for x in A.d + A.s + (B.d + B.s if ka == kb == "q" and tr in ("Mul", "Div") else [])]
            m = self.ask(base + small + [A.b == UNIT, B.b == UNIT])
            if m is not None:
                v = {n: concrete(m, o2) for n, o2 in ops.items()}
                res = {"kind": "q", "d": [m.eval(x, model_completion=True).as_long() for x in o[0]], "s": [m.eval(x, model_completion=True).as_long() for x in o[1]], "t": m.eval(o[2], model_completion=True).as_long(), "b": m.eval(o[3], model_completion=True).as_long()}
                if not any("&" in show(t) for t in [fr["self"]] + fr["targs"]):
                    self.models.append((tr, v, rust_ty(res)))
            self.forbid([prop], what, "result-dimension", base + [differ(o[0], exp[0])], ops, op2)
            self.forbid([prop], what, "result-scale", base + [differ(o[1], exp[1])], ops, op2)
            Q = A if ka == "q" else B
            self.forbid([prop], what, "result-storage", base + [o[2] != Q.t], ops, op2)
            self.forbid(["C03", prop], what, "result-brand", base + [o[3] != Q.b], ops, op2)

    def unary(self, tr, i):
        fr, env, cons, dl = self.start(i)
        A = Op("a")
        if not self.sol.unify(strip(fr["self"]), A.term, env, cons, dl):
            return
        self.sol.where(fr["where"], env, cons, dl)
        what = f"{tr}: {show(fr['self'])}"
        out = self.sol.resolve(fr["assoc"]["Output"], env, cons)
        o = slots(self.sol, out, env, cons) if is_q(out) else None
        ops = {"A": (A, "q")}
        base = A.wf() + cons
        p = lambda v: op_prog(tr, v, "wrong")
        self.reach(what, base)
        if o is None:
            self.forbid(["C01"], what, "result-not-a-quantity", base, ops, p)
            return
        self.forbid(["C01", "C02"], what, "result-unit", base + [z3.Or(differ(o[0] + o[1], A.d + A.s), o[2] != A.t)], ops, p)
        self.forbid(["C03"], what, "result-brand", base + [o[3] != A.b], ops, p)

    # -------- acceptance: every in-range product, quotient and inverse exists
    def acceptance(self):
        lo, hi = (-200, 200) if not self.cfg else I16
        for tr in ("Mul", "Div", "Add", "Sub", "Rem", "PartialOrd", "PartialEq", "AddAssign", "SubAssign", "RemAssign", "MulAssign", "DivAssign"):
            same = tr not in ("Mul", "Div")
            kinds = (("q", "p"),) if tr in ("MulAssign", "DivAssign") else (("q", "q"),) if same else (("q", "q"), ("q", "p"), ("p", "q"))
            cands = [i for t, i in self.impls() if t == tr]
            for pr in PRIMS:
                for ka, kb in kinds:
                    A = Op("a", storage=pr)
                    B = Op("b", storage=pr, brand=A.b)
                    acc = []
                    for i in cands:
                        fr, env, cons, dl = self.start(i)
                        s = fr["self"]
                        r = fr["targs"][0] if fr["targs"] else s
                        ta = A.term if ka == "q" else ("o", A.t)
                        tb = (A.term if same else B.term) if kb == "q" else ("o", B.t)
                        try:
                            if not self.sol.unify(s, ta, env, cons, dl) or not self.sol.unify(r, tb, env, cons, dl):
                                continue
                            self.sol.where(fr["where"], env, cons, dl)
                            if "Output" in fr["assoc"]:
                                self.sol.resolve(fr["assoc"]["Output"], env, cons)
                        except Stuck as e:
                            self.sol.notes.add(f"acceptance {tr} {pr}: {e}")
                            continue
                        acc.append(z3.And(cons))
                    # a lone impl for another storage type is refuted by propagation
                    exp = expected(tr, A, B, ka, kb) if not same else (A.d, A.s)
                    base = A.wf(lo, hi) + (B.wf(lo, hi) if not same else []) + [z3.And(x >= I16[0], x <= I16[1]) for x in exp[0] + exp[1]]
                    what = f"{tr} on {pr} ({'quantity' if ka == 'q' else 'number'}, {'quantity' if kb == 'q' else 'number'})"
                    self.forbid(["C01"] if not same else ["C02"], what, "rejected", base + [z3.Not(z3.Or(acc))], {"A": (A, ka), "B": (A if same and kb == "q" else B, kb)}, lambda v, tr=tr: op_prog(tr, v, "absent"))

    # -------- conversions
    def conversions(self):
        for tr, i in self.impls():
            if tr not in CONV:
                continue
            fr = rename(i, self.facts)
            if tr in ("From", "TryFrom"):
                src, dst = fr["targs"][0], fr["self"]
            elif "Target" in fr["assoc"]:
                src, dst = fr["self"], fr["assoc"]["Target"]
            elif fr["targs"]:
                src, dst = fr["self"], fr["targs"][0]
            elif tr in ("ToPrimitive", "NumCast"):
                src, dst = fr["self"], ("a", "f64", ())
            else:
                continue
            src, dst = strip(src), strip(dst)
            if not (is_q(src) or is_q(dst)):
                continue
            env, cons, dl = {}, [], []
            A, B = Op("a"), Op("b")
            qs, qd = is_q(src), is_q(dst)
            what = f"{tr}: {show(src)} into {show(dst)}"
            if not self.sol.unify(src, A.term if qs else ("o", A.t), env, cons, dl) or not self.sol.unify(dst, B.term if qd else ("o", B.t), env, cons, dl):
                continue
            try:
                self.sol.where(fr["where"], env, cons, dl)
            except Stuck as e:
                self.sol.notes.add(f"{what}: {e}")
            base = A.wf() + B.wf() + cons
            ops = {"A": (A, "q" if qs else "p"), "B": (B, "q" if qd else "p")}
            prog = lambda v, tr=tr: conv_prog(tr, v)
            self.reach(what, base)
            if qs:
                self.forbid(["C03"], what, "brand-lost", base + [z3.And(A.b != B.b) if qd else A.b != UNIT], ops, prog)
            if qs and not qd:
                self.forbid(["C04"], what, "dimension-lost", base + [differ(A.d[:7], [0] * 7)], ops, prog)
            elif qs and qd:
                self.forbid(["C02", "C04"], what, "dimension-changed", base + [differ(A.d[:7], B.d[:7])], ops, prog)
                self.forbid(["C02"], what, "scale-changed", base + [differ(A.s, B.s)], ops, prog)
                self.forbid(["C04"], what, "angle-changed", base + [A.d[7] != B.d[7], B.d[7] != 0], ops, prog)
            else:
                self.forbid(["C04"], what, "number-gains-dimension", base + [differ(B.d + B.s, [0] * 12)], ops, prog)

    # -------- functions from quantity to quantity
    def functions(self):
        cand = [(None, f) for f in self.facts.js["fns"] if f["vis"] == "pub"]
        for i in self.facts.js["impls"]:
            tr = self.facts.head(i["tr"]["p"]) if i["tr"] else None
            if tr in OPFN or tr in CONV or tr in DERIVED:
                continue
            cand += [(i, f) for f in i["f"] if tr or f["vis"] == "pub"]
        seen = []
        for i, f in cand:
            holder = i or {"g": [], "w": [], "self": None, "tr": None, "assoc": {}}
            try:
                fr = rename(holder, self.facts, fn=f)
            except RecursionError:
                continue
            ins = [strip(t) for t in fr["in"]]
            out = strip(fr["out"])
            if out[0] == "a" and out[1] in ("Option", "Result", "Box") and out[2]:
                out = strip(out[2][0])
            qi = [t for t in ins if is_q(t)]
            if not is_q(out) or len(qi) != 1:
                continue
            env, cons, dl = {}, [], []
            A, B = Op("a"), Op("b")
            what = f"fn {f['n']}"
            try:
                if not self.sol.unify(qi[0], A.term, env, cons, dl) or not self.sol.unify(out, B.term, env, cons, dl):
                    continue
                self.sol.where(fr["where"], env, cons, dl)
            except Stuck as e:
                self.sol.notes.add(f"{what}: {e}")
            base = A.wf() + B.wf() + cons
            ops = {"A": (A, "q"), "B": (B, "q")}
            prog = lambda v, f=f, i=i: fn_prog(f, i, v)
            seen.append(f["n"])
            self.reach(what, base)
            self.forbid(["C02"], what, "dimension-changed", base + [differ(A.d, B.d)], ops, prog)
            self.forbid(["C03"], what, "brand-changed", base + [A.b != B.b], ops, prog)
            if "rescale" not in f["n"]:
                self.forbid(["C02"], what, "scale-changed", base + [differ(A.s, B.s)], ops, prog)
            else:
                m = re.fullmatch(r"rescale(?:_(\w+))?", f["n"])
                pr = (m[1] or "f64") if m else None
                if pr in PRIMS:
                    same = [x == y for x, y in zip(A.d, B.d)] + [A.b == B.b, A.t == prim_id(pr), B.t == prim_id(pr)]
                    self.forbid(["C02"], what, "rescale-rejected", A.wf() + B.wf() + same + [z3.Not(z3.And(cons))], ops, lambda v, f=f, i=i: fn_prog(f, i, v) and dict(fn_prog(f, i, v), expect="fail"))
        miss = [f"rescale_{p}" for p in PRIMS if p != "f64" and f"rescale_{p}" not in seen]
        if miss:
            self.viol.append({"props": ["C02"], "where": f"{self.cfg or 'default'}:rescale", "label": "missing", "vals": {}, "prog": None, "detail": f"no rescale function found for {miss}"})

    def run(self):
        self.binary()
        self.acceptance()
        self.conversions()
        self.functions()


def differ(xs, ys):
    return z3.Or([x != y for x, y in zip(xs, ys)])


def expected(tr, A, B, ka, kb):
    if tr == "Mul":
        if ka == kb == "q":
            return [x + y for x, y in zip(A.d, B.d)], [x + y for x, y in zip(A.s, B.s)]
        Q = A if ka == "q" else B
        return Q.d, Q.s
    if tr == "Div":
        if ka == kb == "q":
            return [x - y for x, y in zip(A.d, B.d)], [x - y for x, y in zip(A.s, B.s)]
        if ka == "q":
            return A.d, A.s
        return [-x for x in B.d], [-x for x in B.s]
    Q = A if ka == "q" else B
    return Q.d, Q.s


def show(t):
    t0 = t
    pre = ""
    while t[0] == "a" and t[1] in ("&", "&mut"):
        pre += t[1]
        t = t[2][0]
    if is_q(t):
        st = t[2][2]
        br = t[2][3]
        d = t[2][1]
        ex = ""
        if d[0] == "a":
            ks = [str(x[2][0][1]) for x in d[2] if x[0] == "a" and x[2] and x[2][0][0] == "c" and str(x[2][0][1]) != "0"]
            ex = " dims " + ",".join(ks) if ks else ""
        return f"{pre}Quantity[{st[1].split('#')[0] if st[0] in 'av' else '?'}{ex}{'' if br[0] == 'v' else ' unbranded'}]"
    return pre + (str(t[1]).split("#")[0] if t[0] in "av" else t[0])


# ------------------------------------------------------------------ counterexamples as programs
def concrete(m, o):
    op, kind = o
    g = lambda x: m.eval(x, model_completion=True).as_long()
    d = {"kind": kind, "t": g(op.t)}
    if kind == "q":
        d.update(d=[g(x) for x in op.d], s=[g(x) for x in op.s], b=g(op.b))
    return d


def ty_name(v):
    return PRIMS[v] if v < len(PRIMS) else "Other"


def brand_name(v):
    return "()" if v == UNIT else f"Brand{v}"


def rust_ty(v):
    if v["kind"] == "p":
        return ty_name(v["t"])
    n = "".join
    return (f"Quantity<Scale<{', '.join(f'_{x}<{{{k}}}>' for x, k in zip(SCALES, v['s']))}>, "
            f"Dimension<{', '.join(f'_{x}<{{{k}}}>' for x, k in zip(DIMS, v['d']))}>, {ty_name(v['t'])}, {brand_name(v['b'])}>")


TRPATH = {"PartialEq": "core::cmp::PartialEq", "PartialOrd": "core::cmp::PartialOrd", "Sum": "core::iter::Sum", "Product": "core::iter::Product"}


def op_prog(tr, v, mode):
    a = rust_ty(v["A"])
    b = rust_ty(v["B"]) if "B" in v else None
    p = TRPATH.get(tr, f"core::ops::{tr}")
    bound = f"{p}<{b}>" if b else p
    body = f"type A = {a};\n"
    if mode == "wrong":
        # the exact result type: the assertion must fail to compile
        e = exact(tr, v)
        if e is None:
            return None
        return {"body": body + f"fn f<X: {p}{'<' + b + ', ' if b else '<'}Output = {e}>>() {{}}\n", "call": "f::<A>();", "expect": "fail", "also": f"fn g<X: {bound}>() {{}}\n", "alsocall": "g::<A>();"}
    return {"body": body + f"fn f<X: {bound}>() {{}}\n", "call": "f::<A>();", "expect": "fail" if mode == "absent" else "pass", "also": "", "alsocall": ""}


def exact(tr, v):
    A, B = v["A"], v.get("B")
    q = dict(A if A["kind"] == "q" else B)
    if tr in ("Mul", "Div") and B:
        s = 1 if tr == "Mul" else -1
        if A["kind"] == B["kind"] == "q":
            q["d"] = [x + s * y for x, y in zip(A["d"], B["d"])]
            q["s"] = [x + s * y for x, y in zip(A["s"], B["s"])]
        elif B["kind"] == "q" and s < 0:
            q["d"], q["s"] = [-x for x in B["d"]], [-x for x in B["s"]]
    if any(x < I16[0] or x > I16[1] for x in q["d"] + q["s"]):
        return None
    return rust_ty(q)


def conv_prog(tr, v):
    a, b = rust_ty(v["A"]), rust_ty(v["B"])
    if tr in ("From", "Into"):
        bound, call = f"core::convert::Into<{b}>", a
    elif tr in ("TryFrom", "TryInto"):
        bound, call = f"core::convert::TryInto<{b}>", a
    elif tr in ("Deref", "DerefMut"):
        bound, call = f"core::ops::{tr}", a
    elif tr in ("AsRef", "AsMut"):
        bound, call = f"core::convert::{tr}<{b}>", a
    elif tr in ("Borrow", "BorrowMut"):
        bound, call = f"core::borrow::{tr}<{b}>", a
    else:
        return None
    return {"body": f"type A = {a};\nfn f<X: {bound}>() {{}}\n", "call": "f::<A>();", "expect": "pass", "also": "", "alsocall": ""}


def fn_prog(f, i, v):
    a, b = rust_ty(v["A"]), rust_ty(v["B"])
    if i is None:
        return {"body": f"fn f(x: {a}) -> {b} {{ whippyunits{f.get('m', '')}::{f['n']}(x) }}\n", "call": "let _ = f;", "expect": "pass", "also": "", "alsocall": ""}
    return {"body": f"fn f(x: {a}) -> {b} {{ x.{f['n']}() }}\n", "call": "let _ = f;", "expect": "pass", "also": "", "alsocall": ""}


def compiles(cfg, src):
    """does this program compile against the current tree?"""
    d = os.path.join(R.BUILD, f"tyreplay-{cfg or 'default'}")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    feat = ', features = ["cge"]' if cfg else ""
    open(os.path.join(d, "Cargo.toml"), "w").write(f'[package]\nname = "tyreplay"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nwhippyunits = {{ path = "/repo"{feat} }}\n[workspace]\n')
    import shutil
    shutil.copy(os.path.join(R.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    head = "#![allow(dead_code, non_camel_case_types, unused_imports)]\n"
    if cfg:
        head += "#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\n"
    brands = sorted(set(re.findall(r"Brand\d+", src)))
    pre = "use whippyunits::quantity::*;\n" + "".join(f"#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)] struct {b};\n" for b in brands) + "struct Other;\n"
    open(os.path.join(d, "src/main.rs"), "w").write(head + pre + src)
    env = R.cargo_env(os.path.join(R.BUILD, "tyreplay-target"), "nightly" if cfg else "stable")
    r = R.sh(["cargo", "check", "--offline", "--quiet"], env, cwd=d)
    return r.returncode == 0, r.stdout


_CACHE = {}


def run_cfg(a):
    cfg, tier = a
    c = Checker(cfg, tier)
    c.run()
    c.notes = sorted(c.sol.notes)
    for v in c.viol:
        v.setdefault("cfg", cfg)
    return {k: getattr(c, k) for k in ("cfg", "viol", "detail", "problems", "incomplete", "models", "n", "nsat", "nreach", "solver_s", "notes")}


def check_all(tier):
    import concurrent.futures as cf
    build_typex()
    with cf.ThreadPoolExecutor(4) as p:
        for f in [p.submit(expand, k, c) for c in ("", "cge") for k in ("whippyunits", "whippyunits-core")]:
            f.result()
    with cf.ProcessPoolExecutor(2) as p:
        return list(p.map(run_cfg, [("", tier), ("cge", tier)]))


def judge(pid, tier):
    cs = check_all(tier)
    out = {"violations": [], "problems": [], "incomplete": [], "queries": 0, "obligations": 0, "replayed": 0, "solver_s": 0.0, "samples": [], "detail": []}
    for c in cs:
        name = c["cfg"] or "default"
        mine = [d for d in c["detail"] if pid in d["props"]]
        out["queries"] += c["n"]
        out["solver_s"] += c["solver_s"]
        out["obligations"] += len(mine)
        out["incomplete"] += c["incomplete"]
        if len(c["problems"]) > 20:
            out["problems"] += c["problems"][:3]
        else:
            out["incomplete"] += c["problems"]
        summ = {}
        for d in mine:
            k = (d["impl"].split(":")[0], d["must_not"], d["result"])
            summ[k] = summ.get(k, 0) + 1
        out["detail"] += [{"config": name, "operator": k[0], "must_not": k[1], "result": k[2], "obligations": n} for k, n in summ.items()]
        out["detail"].append({"config": name, "reachable_impls": c["nreach"], "assumed": c["notes"][:20]})
        if len(mine) < 20:
            out["problems"].append(f"{name}: only {len(mine)} obligations extracted for {pid}")
        done = {}
        for v in c["viol"]:
            if pid not in v["props"]:
                continue
            k = (v["where"].split(":")[1], v["label"])
            if done.get(k, 0) >= 2 or sum(done.values()) >= 12:
                continue
            done[k] = done.get(k, 0) + 1
            pr = v["prog"]
            if pr is None:
                if v.get("detail"):
                    out["violations"].append({"where": v["where"], "label": v["label"], "detail": v["detail"], "replayed": True, "inputs": []})
                else:
                    out["incomplete"].append(f"{v['where']}: '{v['label']}' satisfiable, no program to confirm it: {v['vals']}")
                continue
            real, log = confirm(c["cfg"], pr)
            out["replayed"] += 1
            if real:
                out["violations"].append({"where": v["where"], "label": v["label"], "detail": f"{pr['body'].strip()} // {'compiles' if pr['expect'] == 'pass' else 'does not compile'}", "inputs": [f"{k}={x}" for k, x in v["vals"].items()], "replayed": True, "out": log[-1500:]})
            else:
                out["incomplete"].append(f"{v['where']}: '{v['label']}' satisfiable in the encoding but the program does not confirm it: {v['vals']} {log[-300:]}")
    if tier == "thorough":
        for c in cs:
            out["detail"].append(validate(c, out))
    out["samples"] = [{k: str(x)[:160] for k, x in d.items()} for c in cs for d in c["detail"] if pid in d["props"]][:12]
    return out


def confirm(cfg, pr):
    ok, log = compiles(cfg, pr["body"] + "fn main() { " + pr["call"] + " }\n")
    real = ok == (pr["expect"] == "pass")
    if real and pr.get("also"):
        real, _ = compiles(cfg, pr["body"].split("fn f<")[0] + pr["also"] + "fn main() { " + pr["alsocall"] + " }\n")
    return real, log


def validate(c, out):
    """solver models of accepted operations, with the result type the encoding gives them, must compile: guards the encoding itself"""
    n = 0
    src, calls = "", ""
    for tr, v, ty in c["models"]:
        a, b = rust_ty(v["A"]), rust_ty(v["B"])
        src += f"fn f{n}<X: core::ops::{tr}<{b}, Output = {ty}>>() {{}}\n"
        calls += f"f{n}::<{a}>(); "
        n += 1
    ok, log = compiles(c["cfg"], src + "fn main() { " + calls + " }\n")
    if not ok:
        out["incomplete"].append(f"{c['cfg'] or 'default'}: the compiler disagrees with the encoding of accepted operations: {log[-800:]}")
    return {"config": c["cfg"] or "default", "encoding_validated_against_rustc": n, "agree": ok}


def main():
    if sys.argv[1] == "setup":
        build_typex()
        for cfg in ("", "cge"):
            for k in ("whippyunits", "whippyunits-core"):
                expand(k, cfg)
            compiles(cfg, "fn main() {}\n")
        return
    if sys.argv[1] == "dev":
        t = time.time()
        for c in check_all("quick"):
            print(c["cfg"] or "default", "reach", c["nreach"], c["problems"][:5], "queries", c["n"], "sat", c["nsat"], "solver %.1f" % c["solver_s"], "wall %.1f" % (time.time() - t))
            for v in c["viol"][:40]:
                print("  SAT", v["props"], v["where"][:200], v["label"], str(v["vals"])[:300])
            for n in c["notes"][:20]:
                print("  note", n[:200])
            print(c["incomplete"][:3], len(c["models"]))
        return
    print(json.dumps(judge(sys.argv[1], sys.argv[2])))


if __name__ == "__main__":
    try:
        main()
    except R.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
