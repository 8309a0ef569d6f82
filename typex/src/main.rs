//! typex FILE: reads macro-expanded Rust and prints its impls, structs, aliases and functions as JSON.
use quote::ToTokens;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use syn::*;

fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn expr(e: &Expr) -> Value {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => json!({"lit": i.base10_digits()}),
            _ => json!({"other": text(e)}),
        },
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => json!({"neg": expr(&u.expr)}),
            _ => json!({"other": text(e)}),
        },
        Expr::Binary(b) => json!({"bin": text(&b.op), "a": expr(&b.left), "b": expr(&b.right)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Cast(c) => json!({"cast": expr(&c.expr)}),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => expr(e),
            _ => json!({"other": text(e)}),
        },
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => json!({"name": p.path.segments[0].ident.to_string()}),
        _ => json!({"other": text(e)}),
    }
}
fn args(a: &PathArguments) -> Value {
    let mut v = vec![];
    match a {
        PathArguments::None => {}
        PathArguments::AngleBracketed(ab) => {
            for x in &ab.args {
                v.push(match x {
                    GenericArgument::Lifetime(_) => continue,
                    GenericArgument::Type(t) => json!({"ty": ty(t)}),
                    GenericArgument::Const(e) => json!({"cx": expr(e)}),
                    GenericArgument::AssocType(a) => json!({"eq": a.ident.to_string(), "ty": ty(&a.ty)}),
                    o => json!({"other": text(o)}),
                });
            }
        }
        PathArguments::Parenthesized(p) => {
            for t in &p.inputs {
                v.push(json!({"ty": ty(t)}));
            }
        }
    }
    Value::Array(v)
}
fn path(p: &Path) -> Value {
    let mut segs: Vec<Value> = p.segments.iter().map(|s| json!(s.ident.to_string())).collect();
    if segs.len() == 1 {
        // a name brought in by `use path::orig as name` in the enclosing module
        if let Some(o) = SCOPE.with(|s| s.borrow().last().and_then(|m| m.get(segs[0].as_str().unwrap()).cloned())) {
            segs = vec![json!(o)];
        }
    }
    let last = p.segments.last().unwrap();
    json!({"p": segs, "a": args(&last.arguments)})
}
fn ty(t: &Type) -> Value {
    match t {
        Type::Path(tp) => {
            if let Some(q) = &tp.qself {
                // <S as Tr<..>>::Name
                let n = tp.path.segments.len();
                let name = tp.path.segments[n - 1].ident.to_string();
                if q.as_token.is_some() && q.position == n - 1 {
                    let tr = Path { leading_colon: None, segments: tp.path.segments.iter().take(n - 1).cloned().collect() };
                    return json!({"proj": name, "self": ty(&q.ty), "tr": path(&tr)});
                }
                return json!({"proj": name, "self": ty(&q.ty), "tr": Value::Null});
            }
            path(&tp.path)
        }
        Type::Reference(r) => json!({"ref": r.mutability.is_some(), "t": ty(&r.elem)}),
        Type::Tuple(t) => json!({"tup": t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Array(a) => json!({"arr": ty(&a.elem), "n": expr(&a.len)}),
        Type::Slice(a) => json!({"sl": ty(&a.elem)}),
        Type::ImplTrait(i) => json!({"impl": i.bounds.iter().map(bound).collect::<Vec<_>>()}),
        o => json!({"other": text(o)}),
    }
}
fn bound(b: &TypeParamBound) -> Value {
    match b {
        TypeParamBound::Trait(t) => {
            let mut v = path(&t.path);
            if matches!(t.modifier, TraitBoundModifier::Maybe(_)) {
                v["maybe"] = json!(true);
            }
            v
        }
        o => json!({"other": text(o)}),
    }
}
fn generics(g: &Generics) -> (Value, Value) {
    let mut ps = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) => ps.push(json!({"k": "type", "n": t.ident.to_string(), "b": t.bounds.iter().map(bound).collect::<Vec<_>>(), "d": t.default.as_ref().map(ty)})),
            GenericParam::Const(c) => ps.push(json!({"k": "const", "n": c.ident.to_string(), "t": ty(&c.ty), "d": c.default.as_ref().map(expr)})),
            GenericParam::Lifetime(_) => {}
        }
    }
    let mut ws = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            match p {
                WherePredicate::Type(t) => ws.push(json!({"t": ty(&t.bounded_ty), "b": t.bounds.iter().map(bound).collect::<Vec<_>>()})),
                _ => {}
            }
        }
    }
    (Value::Array(ps), Value::Array(ws))
}
fn attr_doc_hidden(_a: &[Attribute]) -> bool {
    false
}
fn sig(s: &Signature, vis: &str) -> Value {
    let (g, w) = generics(&s.generics);
    let mut ins = vec![];
    for i in &s.inputs {
        match i {
            FnArg::Receiver(r) => ins.push(ty(&r.ty)),
            FnArg::Typed(t) => ins.push(ty(&t.ty)),
        }
    }
    let out = match &s.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => ty(t),
    };
    json!({"n": s.ident.to_string(), "g": g, "w": w, "in": ins, "out": out, "vis": vis})
}
thread_local! {
    static SCOPE: std::cell::RefCell<Vec<std::collections::HashMap<String, String>>> = Default::default();
}
struct Out {
    impls: Vec<Value>,
    structs: Map<String, Value>,
    aliases: Map<String, Value>,
    fns: Vec<Value>,
    traits: Vec<Value>,
    consts: Vec<Value>,
}
fn use_tree(t: &UseTree, o: &mut std::collections::HashMap<String, String>) {
    match t {
        UseTree::Path(p) => use_tree(&p.tree, o),
        UseTree::Group(g) => g.items.iter().for_each(|x| use_tree(x, o)),
        UseTree::Rename(r) => {
            if r.rename != "_" {
                o.insert(r.rename.to_string(), r.ident.to_string());
            }
        }
        _ => {}
    }
}
fn block(b: &Block, m: &str, o: &mut Out) {
    let mut names = SCOPE.with(|s| s.borrow().last().cloned()).unwrap_or_default();
    for s in &b.stmts {
        if let Stmt::Item(Item::Use(u)) = s {
            use_tree(&u.tree, &mut names)
        }
    }
    SCOPE.with(|s| s.borrow_mut().push(names));
    block_in(b, m, o);
    SCOPE.with(|s| s.borrow_mut().pop());
}
fn block_in(b: &Block, m: &str, o: &mut Out) {
    for s in &b.stmts {
        match s {
            Stmt::Item(i) => items(std::slice::from_ref(i), m, o),
            Stmt::Expr(e, _) => bexpr(e, m, o),
            Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    bexpr(&i.expr, m, o)
                }
            }
            _ => {}
        }
    }
}
fn bexpr(e: &Expr, m: &str, o: &mut Out) {
    match e {
        Expr::Block(b) => block(&b.block, m, o),
        Expr::Unsafe(b) => block(&b.block, m, o),
        _ => {}
    }
}
fn scoped(is: &[Item], mut names: HashMap<String, String>, m: &str, o: &mut Out) {
    for i in is {
        if let Item::Use(u) = i {
            use_tree(&u.tree, &mut names)
        }
    }
    SCOPE.with(|s| s.borrow_mut().push(names));
    items(is, m, o);
    SCOPE.with(|s| s.borrow_mut().pop());
}
fn items(is: &[Item], m: &str, o: &mut Out) {
    for i in is {
        match i {
            Item::Mod(x) => {
                if let Some((_, c)) = &x.content {
                    let mm = format!("{m}::{}", x.ident);
                    scoped(c, HashMap::new(), &mm, o)
                }
            }
            Item::Struct(s) => {
                let (g, _) = generics(&s.generics);
                let fs: Vec<Value> = s.fields.iter().map(|f| json!({"n": f.ident.as_ref().map(|x| x.to_string()), "t": ty(&f.ty), "pub": matches!(f.vis, Visibility::Public(_))})).collect();
                o.structs.insert(s.ident.to_string(), json!({"g": g, "m": m, "f": fs}));
            }
            Item::Type(t) => {
                let (g, _) = generics(&t.generics);
                o.aliases.insert(t.ident.to_string(), json!({"g": g, "t": ty(&t.ty), "m": m}));
            }
            Item::Const(c) => {
                o.consts.push(json!({"n": c.ident.to_string(), "m": m, "t": ty(&c.ty), "e": expr(&c.expr)}));
                bexpr(&c.expr, m, o)
            }
            Item::Fn(f) => {
                let mut v = sig(&f.sig, &text(&f.vis));
                v["m"] = json!(m);
                o.fns.push(v);
                block(&f.block, m, o);
            }
            Item::Trait(t) => {
                let (g, w) = generics(&t.generics);
                let mut fs = vec![];
                let mut asc = vec![];
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) => fs.push(sig(&f.sig, "pub")),
                        TraitItem::Type(a) => asc.push(json!(a.ident.to_string())),
                        _ => {}
                    }
                }
                let _ = attr_doc_hidden(&t.attrs);
                o.traits.push(json!({"n": t.ident.to_string(), "m": m, "g": g, "w": w, "sup": t.supertraits.iter().map(bound).collect::<Vec<_>>(), "f": fs, "assoc": asc}));
            }
            Item::Impl(x) => {
                let (g, w) = generics(&x.generics);
                let tr = x.trait_.as_ref().map(|(neg, p, _)| {
                    let mut v = path(p);
                    v["neg"] = json!(neg.is_some());
                    v
                });
                let mut asc = Map::new();
                let mut fs = vec![];
                for it in &x.items {
                    match it {
                        ImplItem::Type(t) => {
                            asc.insert(t.ident.to_string(), ty(&t.ty));
                        }
                        ImplItem::Fn(f) => {
                            fs.push(sig(&f.sig, &text(&f.vis)));
                            block(&f.block, m, o);
                        }
                        _ => {}
                    }
                }
                o.impls.push(json!({"m": m, "g": g, "w": w, "tr": tr, "self": ty(&x.self_ty), "assoc": asc, "f": fs}));
            }
            _ => {}
        }
    }
}
fn main() {
    let f = std::env::args().nth(1).expect("file");
    let s = std::fs::read_to_string(f).unwrap();
    // the parser recurses deeply on generated code
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let file = parse_file(&s).unwrap_or_else(|e| {
                let l = e.span().start();
                eprintln!("parse error at {}:{}: {e}", l.line, l.column);
                std::process::exit(3)
            });
            let mut o = Out { impls: vec![], structs: Map::new(), aliases: Map::new(), fns: vec![], traits: vec![], consts: vec![] };
            scoped(&file.items, HashMap::new(), "", &mut o);
            println!("{}", json!({"impls": o.impls, "structs": o.structs, "aliases": o.aliases, "fns": o.fns, "traits": o.traits, "consts": o.consts}));
        })
        .unwrap()
        .join()
        .unwrap();
}
