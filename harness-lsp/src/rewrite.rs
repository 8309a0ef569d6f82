//! C22: rewriting of quantity types in compiler output and editor text.
use crate::sym::*;
use whippyunits::print::prettyprint::pretty_print_quantity_type;
use whippyunits_core::dimension_exponents::DynDimensionExponents;
use whippyunits_core::scale_exponents::ScaleExponents;
use whippyunits_lsp_proxy::hover_processor::HoverProcessor;
use whippyunits_lsp_proxy::inlay_hint_processor::InlayHintProcessor;
use whippyunits_lsp_proxy::unit_formatter::UnitFormatter;
use whippyunits_lsp_proxy::DisplayConfig;
use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;

pub fn cfg(verbose: bool, raw: bool) -> DisplayConfig {
    DisplayConfig { verbose, unicode: true, include_raw: raw }
}
fn text_of(b: Vec<u8>) -> Option<String> {
    String::from_utf8(b).ok()
}
pub fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut same = true;
    for i in 0..a.len() {
        same &= a[i] == b[i];
    }
    same
}
/// a filler character: any ASCII character (control characters included) or one of three others
pub fn filler(s: &mut String, n: usize) {
    for _ in 0..n {
        let c: u8 = any("filler");
        assume(c < 128);
        s.push(c as char);
    }
}
pub fn wide(s: &mut String) {
    match below("wide", 4) {
        0 => s.push('é'),
        1 => s.push('─'),
        2 => s.push('🦀'),
        _ => {}
    }
}

/// an exponent as text; i16::MIN stands for "_"
pub fn put_exp(s: &mut String, e: i16) {
    if e == i16::MIN {
        s.push('_');
        return;
    }
    let mut a = e as i32;
    if a < 0 {
        s.push('-');
        a = -a;
    }
    if a >= 100 {
        s.push((b'0' + (a / 100) as u8) as char);
    }
    if a >= 10 {
        s.push((b'0' + (a / 10 % 10) as u8) as char);
    }
    s.push((b'0' + (a % 10) as u8) as char);
}
#[derive(Clone, Copy)]
pub struct Ty {
    pub d: [i16; 8],
    pub s: [i16; 4],
    pub t: &'static str,
    pub brand: Option<&'static str>,
    /// 0 everything written out, 1 trailing zero parameters left out as rustc does, 2 zero parameters written without a value
    pub style: u64,
}
const DN: [&str; 8] = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"];
const SN: [&str; 4] = ["_2", "_3", "_5", "_Pi"];
fn put_group(s: &mut String, name: &str, names: &[&str], e: &[i16], style: u64) {
    s.push_str(name);
    let mut n = e.len();
    if style == 1 {
        while n > 0 && e[n - 1] == 0 {
            n -= 1;
        }
        if n == 0 {
            return;
        }
    }
    s.push('<');
    for i in 0..n {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(names[i]);
        if style == 2 && e[i] == 0 {
            continue;
        }
        s.push('<');
        put_exp(s, e[i]);
        s.push('>');
    }
    s.push('>');
}
pub fn put_type(s: &mut String, t: &Ty) {
    s.push_str("Quantity<");
    put_group(s, "Scale", &SN, &t.s, t.style);
    s.push_str(", ");
    put_group(s, "Dimension", &DN, &t.d, t.style);
    s.push_str(", ");
    s.push_str(t.t);
    if let Some(b) = t.brand {
        s.push_str(", ");
        s.push_str(b);
    }
    s.push('>');
}
/// what should stand in its place
pub fn put_want(s: &mut String, t: &Ty, verbose: bool) {
    let unknown = t.d == [i16::MIN; 8] && t.s == [i16::MIN; 4];
    let one = t.d == [0; 8] && t.s == [0; 4];
    if unknown || one {
        s.push_str(if unknown { "Quantity<?, " } else { "Quantity<1, " });
        s.push_str(t.t);
        if let Some(b) = t.brand {
            if b != "()" {
                s.push_str(", ");
                s.push_str(b);
            }
        }
        s.push('>');
        return;
    }
    let p = pretty_print_quantity_type(DynDimensionExponents(t.d), ScaleExponents(t.s), t.t, verbose, false, t.brand);
    check(p != "?", "a partly known type has a unit");
    s.push_str(&p);
}
fn small(name: &'static str, r: u8) -> i16 {
    let b: u8 = any(name);
    assume(b <= 2 * r);
    b as i16 - r as i16
}
/// scale exponents outside the powers of ten are printed as a decimal number: one path per value
fn fixed(name: &'static str, r: u8) -> i16 {
    concretize(small(name, r) as u64) as i16
}
fn unknown_or(name: &'static str, r: u8) -> i16 {
    let b: u8 = any(name);
    assume(b <= 2 * r + 1);
    let b = concretize(b as u64) as i16;
    if b == 2 * r as i16 + 1 {
        i16::MIN
    } else {
        b - r as i16
    }
}
/// the family of types a job ranges over
pub fn pick_type(kind: u64, style: u64) -> Ty {
    let mut t = Ty { d: [0; 8], s: [0; 4], t: "f64", brand: None, style };
    match kind {
        // one dimension, one power of ten
        0 => {
            let i = concretize(below("which", 8) as u64) as usize;
            t.d[i] = small("exp", 2);
            let p = small("ten", 3);
            t.s[0] = p;
            t.s[2] = p;
        }
        // two dimensions, long exponents
        1 => {
            t.d[1] = small("length", 13);
            t.d[2] = 0 - (flag("per-second") as i16);
            t.t = "i32";
        }
        // any scale exponent
        2 => {
            t.d[0] = 1;
            t.d[1] = 2;
            t.d[2] = -2;
            let i = concretize(below("which", 4) as u64) as usize;
            t.s[i] = fixed("scale", 12);
            t.brand = Some("Site");
        }
        // unknown parameters
        3 => {
            let i = concretize(below("which", 8) as u64) as usize;
            t.d[i] = unknown_or("exp", 1);
            t.d[(i + 3) % 8] = unknown_or("exp2", 0);
            let j = concretize(below("scale", 4) as u64) as usize;
            t.s[j] = unknown_or("sc", 1);
            t.t = "f32";
        }
        // all unknown
        4 => {
            t.d = [i16::MIN; 8];
            if flag("dim-known") {
                t.d[3] = 0;
            }
            t.s = [i16::MIN; 4];
            if flag("scale-known") {
                t.s[3] = 0;
            }
            t.brand = if flag("brand") { Some("()") } else { None };
        }
        // three-digit exponents
        5 => {
            t.d[5] = fixed("amount", 1) * 111;
            t.s[1] = fixed("three", 1) * 150;
            t.s[3] = fixed("pi", 1) * 10;
        }
        _ => {
            t.d[1] = 1;
            t.s[0] = 3;
            t.s[2] = 3;
        }
    }
    t
}

/// A compiler message line with one complete type between arbitrary text.
pub fn h_line() {
    let (kind, style, pre, post, verbose) = (param(0), param(1), param(2) as usize, param(3) as usize, param(4) == 1);
    let t = pick_type(kind, style);
    let mut s = String::new();
    filler(&mut s, pre);
    if param(5) == 1 {
        wide(&mut s);
    }
    let mut want = s.clone();
    put_type(&mut s, &t);
    put_want(&mut want, &t, verbose);
    let mut tail = String::new();
    if param(5) == 1 {
        wide(&mut tail);
    }
    filler(&mut tail, post);
    s.push_str(&tail);
    want.push_str(&tail);
    let f = UnitFormatter::new();
    let got = f.format_types(&s, &cfg(verbose, false));
    check(eq(&got, &want), "only the type is replaced, by its unit");
    let mut p = RustcPrettyPrinter::with_config(cfg(verbose, false));
    match p.process_line(&s) {
        Ok(got) => check(eq(&got, &want), "compiler output: only the type is replaced"),
        Err(_) => check(false, "rewriting does not fail"),
    }
    witness(got.len() > 12, "replaced");
}

/// Two types (one nested in another generic) and text between.
pub fn h_two() {
    let (a, b) = (pick_type(param(0), 0), pick_type(param(1), 1));
    let mut s = String::from("expected `Option<");
    put_type(&mut s, &a);
    let mut want = String::from("expected `Option<");
    put_want(&mut want, &a, false);
    let mut mid = String::from(">`, ");
    filler(&mut mid, param(2) as usize);
    wide(&mut mid);
    s.push_str(&mid);
    want.push_str(&mid);
    put_type(&mut s, &b);
    put_want(&mut want, &b, false);
    let got = UnitFormatter::new().format_types(&s, &cfg(false, false));
    check(eq(&got, &want), "both types are replaced and nothing else");
    let raw = UnitFormatter::new().format_types(&s, &cfg(false, true));
    check(raw.starts_with(&want) && raw.ends_with(&s), "raw text is appended unchanged");
    witness(true, "two");
}

/// Text with no complete quantity type.
pub fn h_plain() {
    let mut v: Vec<u8> = Vec::new();
    let n = param(1) as usize;
    let prefix: &str = match param(0) {
        0 => "",
        1 => "Quantity",
        2 => "Quantity<Scale",
        3 => "Quantity<Scale<_2<1>>, Dimension<_M<1",
        4 => "Quantity<Scale<_2<1>>, Dimension<_M<a>>, T",
        5 => "Quantity<Scale, Dimension<_, _L<1>>, f64",
        6 => "Quantity<Scale<...>, Dimension<_L<1>>, f64",
        7 => "impl<A> Mul for",
        8 => "impl<A> Add for Quantity<",
        9 => "Quantity<Scale<é, _2<1",
        _ => ": Quantité<Scale<_2<1",
    };
    v.extend_from_slice(prefix.as_bytes());
    for _ in 0..n {
        v.push(any::<u8>("byte"));
    }
    match param(2) {
        1 => v.extend_from_slice(b">, Dimension<_L<1>>, f64> "),
        2 => v.extend_from_slice("é> for f64".as_bytes()),
        3 => v.extend_from_slice(b"\nQuantity<"),
        _ => {}
    }
    let Some(s) = text_of(v) else {
        witness(true, "not text");
        return;
    };
    let f = UnitFormatter::new();
    let got = f.format_types(&s, &cfg(false, param(3) == 1));
    let mut p = RustcPrettyPrinter::new();
    match p.process_rustc_output(&s) {
        Ok(g) => {
            if param(2) != 1 {
                check(eq(&g, &s), "compiler output without a type comes back unchanged")
            }
        }
        Err(_) => check(false, "rewriting does not fail"),
    }
    if param(2) != 1 {
        check(eq(&got, &s), "text without a type comes back unchanged");
    }
    let h = HoverProcessor::new(cfg(false, param(3) == 1));
    if let Some(c) = h.extract_hover_content(&hover_value(&s)) {
        let c = h.improve_hover_content(c);
        check(kept(&c) , "a hover is still a hover");
    } else {
        check(false, "a hover is recognised");
    }
    let _ = f.extract_raw_type_from_hover(&s);
    let i = InlayHintProcessor::new();
    let pruned = i.prune_inlay_hint_exponents(&s);
    check(pruned.len() <= s.len(), "pruning never grows");
    witness(true, "plain");
}
fn kept(c: &whippyunits_lsp_proxy::lsp_structures::HoverContent) -> bool {
    matches!(&c.contents, whippyunits_lsp_proxy::lsp_structures::HoverContents::Single(i) if i.kind.as_deref() == Some("markdown"))
}
pub fn hover_value(s: &str) -> serde_json::Value {
    let mut item = serde_json::Map::new();
    item.insert("kind".into(), "markdown".into());
    item.insert("value".into(), s.into());
    let mut m = serde_json::Map::new();
    m.insert("contents".into(), serde_json::Value::Object(item));
    serde_json::Value::Object(m)
}
fn hover_text(c: &whippyunits_lsp_proxy::lsp_structures::HoverContent) -> &str {
    match &c.contents {
        whippyunits_lsp_proxy::lsp_structures::HoverContents::Single(i) => &i.value,
        whippyunits_lsp_proxy::lsp_structures::HoverContents::Multiple(v) => &v[0].value,
    }
}

/// A hover: markdown with one or two code blocks.
pub fn h_hover() {
    let t = pick_type(param(0), param(1));
    let layout = param(2);
    let (head, mid, end) = match layout {
        0 => ("\n```rust\nlet x: ", "\n```\n\n---\n\nsize = 8", ""),
        1 => ("```rust\nmy::module\n```\n\n```rust\nfield: ", "\n```", ""),
        2 => ("```rust\n    let mut é: ", " = 3.0  \n```\n", ""),
        3 => ("let x: ", "", ""),
        4 => ("```rust\nfn f(a: ", ", b: f64) -> f64", "```\n---\nΘ"),
        _ => ("", "", ""),
    };
    let mut s = String::from(head);
    let mut want = String::from(head);
    put_type(&mut s, &t);
    put_want(&mut want, &t, false);
    let mut tail = String::from(mid);
    filler(&mut tail, param(3) as usize);
    tail.push_str(end);
    s.push_str(&tail);
    want.push_str(&tail);
    let h = HoverProcessor::new(cfg(false, false));
    let Some(c) = h.extract_hover_content(&hover_value(&s)) else {
        check(false, "a hover is recognised");
        return;
    };
    let c = h.improve_hover_content(c);
    check(eq(hover_text(&c), &want), "only the type is replaced in a hover");
    witness(true, "hover");
}

/// An inlay hint label: the type split into parts.
pub fn h_hint() {
    let t = pick_type(param(0), 0);
    let mut full = String::new();
    put_type(&mut full, &t);
    let params = &full["Quantity".len()..];
    // split the parameters into parts at up to two places, as the server does at type names
    let cut = match param(1) {
        0 => params.len(),
        1 => params.find("Dimension").unwrap_or(1),
        _ => 1,
    };
    let part = |s: &str| {
        let mut m = serde_json::Map::new();
        m.insert("value".into(), s.into());
        serde_json::Value::Object(m)
    };
    let mut lead = String::from(": ");
    filler(&mut lead, param(2) as usize);
    assume(lead != "Quantity");
    let mut label = vec![part(&lead), part("Quantity"), part(&params[..cut])];
    if cut < params.len() {
        label.push(part(&params[cut..]));
    }
    let mut tail = String::from(">");
    filler(&mut tail, param(2) as usize);
    label.push(part(&tail));
    label[1]["location"] = "there".into();
    let i = InlayHintProcessor::with_config(cfg(false, false));
    check(i.contains_whippyunits_type(&label), "the type is found");
    if i.convert_whippyunits_hint(&mut label).is_err() {
        check(false, "rewriting does not fail");
        return;
    }
    check(label.len() == 3, "the type's parts become one");
    if label.len() != 3 {
        return;
    }
    check(label[0] == part(&lead), "text before the type is kept");
    check(label[2] == part(&tail), "text after the type is kept");
    check(label[1]["location"] == "there", "the link is kept");
    let mut want = String::new();
    put_want(&mut want, &t, false);
    match label[1]["value"].as_str() {
        Some(g) => check(eq(g, &without_ones(&want)), "the label names the type's unit"),
        None => check(false, "the label names the type's unit"),
    }
    witness(true, "hint");
}
/// the text without those exponents that are exactly one
fn without_ones(s: &str) -> String {
    let sup = |c: char| "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c);
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for i in 0..v.len() {
        let alone = v[i] == '¹' && !(i > 0 && sup(v[i - 1])) && !(i + 1 < v.len() && sup(v[i + 1]));
        if !alone {
            o.push(v[i]);
        }
    }
    o
}
