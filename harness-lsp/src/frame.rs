//! C20: message framing and pass-through of the language-server proxy.
use crate::sym::*;
use crate::mock::{Sink, Source, World, WORLD};
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};

/// the proxy's binary with stand-ins for its streams and the server process
mod proxy_bin {
    #![allow(unused_imports, dead_code)]
    include!(concat!(env!("OUT_DIR"), "/proxy_main.rs"));
    pub async fn entry() -> std::result::Result<(), anyhow::Error> {
        main().await
    }
}

fn noop(_: *const ()) {}
fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(core::ptr::null(), &VT)
}
static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
/// Run the proxy over the given streams until it has nothing left to do;
/// returns what it wrote to the editor and to the server.
fn run_proxy(editor: Source, server: Source, short: bool) -> (Vec<u8>, Vec<u8>) {
    let sink = || Sink { got: Vec::new(), short };
    WORLD.set(Some(World { source: [editor, server, Source::silent()], sink: [sink(), sink()], progress: false }));
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(proxy_bin::entry());
    loop {
        WORLD.with_borrow_mut(|w| w.as_mut().unwrap().progress = false);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            check(r.is_ok(), "the proxy ends regularly");
            break;
        }
        if !WORLD.with_borrow(|w| w.as_ref().unwrap().progress) {
            break;
        }
    }
    drop(f);
    let w = WORLD.take().unwrap();
    let [a, b] = w.sink;
    (a.got, b.got)
}

fn put_num(v: &mut Vec<u8>, n: usize) {
    if n >= 10 {
        v.push(b'0' + (n / 10) as u8);
    }
    v.push(b'0' + (n % 10) as u8);
}
fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = b"Content-Length: ".to_vec();
    put_num(&mut v, body.len());
    v.extend_from_slice(b"\r\n\r\n");
    v.extend_from_slice(body);
    v
}
/// the same message with a second header line, as the protocol allows
fn frame2(body: &[u8]) -> Vec<u8> {
    let mut v = b"Content-Length: ".to_vec();
    put_num(&mut v, body.len());
    v.extend_from_slice(b"\r\nContent-Type: x\r\n\r\n");
    v.extend_from_slice(body);
    v
}
fn body(len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(any::<u8>("byte"));
    }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i];
    }
    eq
}

/// Two messages with symbolic bodies of the given lengths in one direction,
/// and one in the other, delivered in up to three pieces.
pub fn h_frame() {
    let (l1, l2, ncuts, typed, to_server) = (param(0) as usize, param(1) as usize, param(2), param(3) == 1, param(4) == 1);
    let b1 = body(l1);
    let b2 = body(l2);
    let ok1 = core::str::from_utf8(&b1).is_ok();
    let ok2 = core::str::from_utf8(&b2).is_ok();
    let f1 = frame(&b1);
    let f2 = frame(&b2);
    let first = if typed { frame2(&b1) } else { f1.clone() };
    let mut data = first.clone();
    data.extend_from_slice(&f2);
    let n = data.len();
    let mut cuts = [n; 3];
    for i in 0..ncuts as usize {
        let c = below("cut", n + 1);
        if i > 0 {
            assume(c >= cuts[i - 1]);
        }
        cuts[i] = concretize(c as u64) as usize;
    }
    let slow = [ncuts > 0, ncuts > 0 && flag("slow"), true, false];
    let eof = ncuts == 1 && flag("end");
    let stream = Source { data, pos: 0, cuts, slow, waited: false, eof };
    let back = frame(b"[]");
    let mut other = Source::silent();
    other.data = back.clone();
    let (one, two) = if to_server {
        let (e, s) = run_proxy(stream, other, ncuts == 1 && flag("short"));
        (s, e)
    } else {
        run_proxy(other, stream, ncuts == 1 && flag("short"))
    };
    // header lines other than the length may be kept or dropped
    let mut want = Vec::new();
    let mut bare = Vec::new();
    if ok1 {
        want.extend_from_slice(&first);
        bare.extend_from_slice(&f1);
        if ok2 {
            want.extend_from_slice(&f2);
            bare.extend_from_slice(&f2);
        }
    }
    if typed && one.len() != want.len() {
        want = bare;
    }
    if ok1 && ok2 {
        check(same(&one, &want), "every message arrives complete, once and in order");
    } else {
        // bytes that are no text are refused by design; what came before stands
        check(one.len() >= want.len() && same(&one[..want.len()], &want), "messages before a malformed one arrive");
        witness(true, "refused");
    }
    if ok1 && ok2 {
        // when the stream ends the proxy stops, so the other direction may be cut short
        check(same(&two, &back) || (eof && two.is_empty()), "the other direction is not disturbed");
        witness(!two.is_empty(), "both");
    }
    witness(ok1 && ok2, "end");
}

/// A stream that ends inside a message yields the messages before it and no part of it.
pub fn h_truncated() {
    let l = param(0) as usize;
    let mut b = body(l);
    for c in b.iter_mut() {
        assume(*c < 128);
    }
    b.push(b'}');
    let f = frame(&b);
    let n = below("end", f.len());
    let n = concretize(n as u64) as usize;
    let before = frame(b"{}");
    let c = below("cut", f.len() + before.len());
    let c = concretize(c as u64) as usize;
    let mut data = before.clone();
    data.extend_from_slice(&f[..n]);
    let stream = Source { data, pos: 0, cuts: [c, c, c], slow: [true, false, false, true], waited: false, eof: flag("end") };
    let (got, _) = run_proxy(Source::silent(), stream, false);
    check(same(&got, &before), "an incomplete message is held back");
    witness(true, "held back");
}


fn config() -> DisplayConfig {
    DisplayConfig { verbose: false, unicode: true, include_raw: false }
}
fn framed(body: &str) -> String {
    format!("Content-Length: {}\r\n\r\n{}", body.len(), body)
}
const TYPE: &str = "Quantity<Scale<_2<0>, _3<0>, _5<0>, _Pi<0>>, Dimension<_M<0>, _L<2>, _T<0>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>, f64>";
const NAME: &str = "Quantity<";

/// Messages the proxy has no reason to rewrite: arbitrary bodies (valid JSON or
/// not, with and without the words it looks for) and messages that mention a
/// quantity type outside a hover or an inlay hint.
pub fn h_pass() {
    let (kind, n) = (param(0), param(1) as usize);
    let mut hole = String::new();
    if kind < 10 {
        // arbitrary UTF-8
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(any::<u8>("byte"));
        }
        match String::from_utf8(v) {
            Ok(x) => hole = x,
            Err(_) => return,
        }
    } else {
        // text inside a JSON string
        for _ in 0..n {
            let c: u8 = any("char");
            assume((c >= 32) & (c < 127) & (c != b'"') & (c != b'\\'));
            hole.push(c as char);
        }
    }
    let body = match kind {
        0 => hole,
        1 => format!("{{\"id\":1,\"result\":\"Quantity{}\"}}", hole),
        2 => format!("{{{}\"jsonrpc\":\"2.0\",\"result\":{{\"contents\":{{\"value\":\"{}\"}}}}", hole, TYPE),
        3 => format!("Quantity Scale Dimension {}", hole),
        10 => format!("{{ \"jsonrpc\":\"2.0\", \"method\":\"textDocument/publishDiagnostics\",\"params\":{{\"z\":1.50,\"a\":\"{} {}\"}}}}", hole, TYPE),
        11 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":[{{\"label\":\"{}\",\"kind\":5}}]}}\n", "\"q\"", TYPE),
        12 => format!("{{\"jsonrpc\":\"2.0\",\"id\":7,\"error\":{{\"code\":-32600,\"message\":\"{}{}\"}}}}", TYPE, hole),
        13 => format!("{{\"jsonrpc\":\"2.0\",\"id\":7,\"result\":[{{\"position\":{{\"line\":1,\"character\":2}},\"label\":[{{\"value\":\": {}\"}}],\"data\":1.0}}]}}", hole),
        14 => format!("{{\"jsonrpc\":\"2.0\",\"id\":7,\"result\":{{\"contents\":{{\"kind\":\"markdown\",\"value\":\"Quantity<{}>\"}}}}}}", hole),
        _ => String::new(),
    };
    if kind == 11 {
        assume(n == 0);
    }
    let message = framed(&body);
    let proxy = LspProxy::with_config(config());
    match proxy.process_incoming(&message) {
        Ok(o) => check(same(o.as_bytes(), message.as_bytes()), "a message the proxy does not rewrite is forwarded unchanged"),
        Err(_) => check(false, "a message the proxy does not rewrite is forwarded unchanged"),
    }
    match proxy.process_outgoing(&message) {
        Ok(o) => check(same(o.as_bytes(), message.as_bytes()), "an outgoing message is forwarded unchanged"),
        Err(_) => check(false, "an outgoing message is forwarded unchanged"),
    }
    witness(true, "passed");
}

/// Messages the proxy rewrites: the header counts the bytes of the new body,
/// and every other field is as the server sent it.
pub fn h_rewritten() {
    let (kind, n) = (param(0), param(1) as usize);
    let mut hole = String::new();
    for _ in 0..n {
        let c: u8 = any("char");
        assume((c >= 32) & (c < 127) & (c != b'"') & (c != b'\\') & (c != b'`'));
        hole.push(c as char);
    }
    if flag("wide") {
        hole.push('µ');
    }
    // the unit shown in place of the type is C22's subject; here it is taken from the formatter
    let shown = whippyunits_lsp_proxy::unit_formatter::UnitFormatter::new().format_types(TYPE, &config());
    check(shown.starts_with(NAME) && shown != TYPE, "the type is replaced");
    let (body, want) = match kind {
        0 => {
            let f = |t: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":42,\"result\":{{\"contents\":{{\"kind\":\"markdown\",\"value\":\"{}```rust\\nlet x: {}\\n```\"}},\"range\":{{\"start\":{{\"line\":1,\"character\":2}},\"end\":{{\"line\":1,\"character\":3}}}},\"actions\":[{{\"commands\":[1.5,null]}}]}}}}", hole, t);
            (f(TYPE), f(&shown))
        }
        1 => {
            let f = |t: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":\"{}\",\"result\":{{\"contents\":[{{\"language\":\"rust\",\"value\":\"x: {}\"}},{{\"kind\":\"plaintext\",\"value\":\"doc\"}}]}}}}", hole, t);
            (f(TYPE), f(&shown))
        }
        2 => {
            // two hints, one of them with a quantity type in parts
            let rest = &TYPE["Quantity".len()..];
            let hint = |label: &str| format!("{{\"position\":{{\"line\":3,\"character\":9}},\"label\":[{}],\"kind\":1,\"paddingLeft\":false,\"data\":{{\"file_id\":0,\"hash\":\"18446744073709551615\"}}}}", label);
            let other = hint(&format!("{{\"value\":\": {}\"}}", hole));
            let a = hint(&format!("{{\"value\":\": \"}},{{\"value\":\"Quantity\",\"location\":{{\"uri\":\"file:///q.rs\"}}}},{{\"value\":\"{}\"}},{{\"value\":\"{}\"}}", rest, hole));
            let b = hint(&format!("{{\"value\":\": \"}},{{\"value\":\"{}\",\"location\":{{\"uri\":\"file:///q.rs\"}}}},{{\"value\":\"{}\"}}", shown, hole));
            let f = |h: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":5,\"result\":[{},{},{}]}}", other, h, other);
            (f(&a), f(&b))
        }
        _ => {
            // a resolved hint
            let rest = &TYPE["Quantity".len()..];
            let f = |label: &str, edits: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":5,\"result\":{{\"position\":{{\"line\":3,\"character\":9}},\"label\":[{{\"value\":\": \"}},{}],\"tooltip\":\"{}\"{}}}}}", label, hole, edits);
            let a = f(&format!("{{\"value\":\"Quantity\"}},{{\"value\":\"{}\"}}", rest), "");
            let b = f(&format!("{{\"value\":\"{}\"}}", shown), ",\"textEdits\":[{\"range\":{\"start\":{\"line\":3,\"character\":9},\"end\":{\"line\":3,\"character\":9}},\"newText\":\": unit!(m^2)\"}]");
            (a, b)
        }
    };
    let proxy = LspProxy::with_config(config());
    let Ok(o) = proxy.process_incoming(&framed(&body)) else {
        check(false, "rewriting does not fail");
        return;
    };
    let Some(at) = o.find("\r\n\r\n") else {
        check(false, "a rewritten message is framed");
        return;
    };
    let b = &o[at + 4..];
    check(same(o.as_bytes(), framed(b).as_bytes()), "the header gives the length of the body in bytes");
    let got: Result<serde_json::Value, _> = serde_json::from_str(b);
    let expected: Result<serde_json::Value, _> = serde_json::from_str(&want);
    match (got, expected) {
        (Ok(g), Ok(e)) => {
            #[cfg(feature = "native")]
            if std::env::var("DUMP").is_ok() {
                println!("got  {}\nwant {}", g, e);
            }
            check(g == e, "only the type is rewritten")
        }
        _ => check(false, "a rewritten body is JSON"),
    }
    witness(true, "rewritten");
}
