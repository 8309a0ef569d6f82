//! `llsym --selftest`: builds random expressions through the simplifying
//! constructors and compares them, under random assignments, with direct
//! evaluation of the operation that was asked for.
use crate::expr::*;
use std::collections::HashMap;

pub fn run(n: u64) {
    let mut s = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    const K: usize = 6;
    let mut bad = 0;
    for round in 0..n {
        let mut c = Ctx::new();
        let mut models: Vec<Model> = (0..K).map(|_| Model::default()).collect();
        let mut pool: Vec<(E, [u128; K])> = vec![];
        for (i, w) in [8u16, 8, 16, 16, 32, 64, 1].iter().enumerate() {
            let v = c.var(format!("v{i}"), *w);
            let mut vals = [0u128; K];
            for k in 0..K {
                let r = match rnd() % 4 {
                    0 => rnd() as u128,
                    1 => (rnd() % 4) as u128,
                    2 => (0u128).wrapping_sub((rnd() % 4) as u128),
                    _ => 1u128 << (rnd() % 64),
                } & mask(*w);
                models[k].insert(i as u32, r);
                vals[k] = r;
            }
            pool.push((v, vals));
        }
        for _ in 0..3 {
            let w = [8, 16, 32, 64][(rnd() % 4) as usize];
            let v = match rnd() % 3 {
                0 => rnd() as u128,
                1 => (rnd() % 8) as u128,
                _ => (0u128).wrapping_sub((rnd() % 8) as u128),
            } & mask(w);
            let e = c.konst(v, w);
            pool.push((e, [v; K]));
        }
        for _ in 0..60 {
            let a = pool[(rnd() as usize) % pool.len()];
            let wa = c.w(a.0);
            let same: Vec<_> = pool.iter().filter(|p| c.w(p.0) == wa).cloned().collect();
            let mut b = same[(rnd() as usize) % same.len()];
            if rnd() % 3 == 0 {
                let v = (if rnd() % 2 == 0 { rnd() % 9 } else { (rnd() % 9).wrapping_neg() }) as u128 & mask(wa);
                b = (c.konst(v, wa), [v; K]);
            }
            let op = rnd() % 21;
            let sx = |v: u128| sext128(v, wa);
            let m = mask(wa);
            let mut vals = [0u128; K];
            let e;
            let nm;
            macro_rules! bin {
                ($f:ident, $g:expr) => {{
                    nm = stringify!($f);
                    e = c.$f(a.0, b.0);
                    for k in 0..K {
                        let (x, y): (u128, u128) = (a.1[k], b.1[k]);
                        let g: u128 = $g(x, y);
                        vals[k] = g;
                    }
                }};
            }
            match op {
                0 => bin!(add, |x: u128, y| x.wrapping_add(y) & m),
                1 => bin!(sub, |x: u128, y| x.wrapping_sub(y) & m),
                2 => bin!(mul, |x: u128, y| x.wrapping_mul(y) & m),
                3 => bin!(and, |x: u128, y| x & y),
                4 => bin!(or, |x: u128, y| x | y),
                5 => bin!(xor, |x: u128, y| x ^ y),
                6 => bin!(eq, |x: u128, y| (x == y) as u128),
                7 => bin!(ult, |x: u128, y| (x < y) as u128),
                8 => bin!(ule, |x: u128, y| (x <= y) as u128),
                9 => bin!(slt, |x: u128, y| (sx(x) < sx(y)) as u128),
                10 => bin!(sle, |x: u128, y| (sx(x) <= sx(y)) as u128),
                11 | 12 | 13 | 14 if wa > 1 => {
                    let nz = b.1.iter().all(|y| *y != 0);
                    if !nz {
                        continue;
                    }
                    if b.1.iter().zip(a.1.iter()).any(|(y, x)| sx(*y) == -1 && *x == (m >> 1) + 1) {
                        continue;
                    }
                    match op {
                        11 => bin!(udiv, |x: u128, y| x / y),
                        12 => bin!(urem, |x: u128, y| x % y),
                        13 => bin!(sdiv, |x: u128, y| (sx(x).wrapping_div(sx(y)) as u128) & m),
                        _ => bin!(srem, |x: u128, y| (sx(x).wrapping_rem(sx(y)) as u128) & m),
                    }
                }
                15 | 16 => {
                    let w2 = [16u16, 32, 64, 128][(rnd() % 4) as usize];
                    if w2 <= wa {
                        continue;
                    }
                    if op == 15 {
                        nm = "zext";
                        e = c.zext(a.0, w2);
                        vals = a.1;
                    } else {
                        nm = "sext";
                        e = c.sext(a.0, w2);
                        for k in 0..K {
                            vals[k] = sx(a.1[k]) as u128 & mask(w2);
                        }
                    }
                    if w2 > 64 {
                        // wide only as operands of comparisons
                        let q = pool.iter().filter(|p| c.w(p.0) == wa).next().cloned().unwrap();
                        let e2 = c.sext(q.0, w2);
                        let r = c.slt(e, e2);
                        for k in 0..K {
                            let want = (sext128(vals[k], w2) < sext128(q.1[k], wa)) as u128;
                            let got = c.eval(r, &models[k], &mut HashMap::default());
                            if got != want {
                                bad += 1;
                                println!("MISMATCH wide slt round {round}");
                            }
                        }
                        continue;
                    }
                }
                17 => {
                    if wa <= 8 {
                        continue;
                    }
                    let w2 = 8u16;
                    let lo = ((rnd() % (wa as u64 / 8)) * 8) as u16;
                    nm = "extract";
                    e = c.extract(a.0, lo, w2);
                    for k in 0..K {
                        vals[k] = (a.1[k] >> lo) & mask(w2);
                    }
                }
                18 => {
                    if wa > 32 || wa == 1 {
                        continue;
                    }
                    nm = "concat";
                    e = c.concat(a.0, b.0);
                    for k in 0..K {
                        vals[k] = a.1[k] << wa | b.1[k];
                    }
                }
                19 => {
                    let cs: Vec<_> = pool.iter().filter(|p| c.w(p.0) == 1).cloned().collect();
                    let q = cs[(rnd() as usize) % cs.len()];
                    nm = "ite";
                    e = c.ite(q.0, a.0, b.0);
                    for k in 0..K {
                        vals[k] = if q.1[k] == 1 { a.1[k] } else { b.1[k] };
                    }
                }
                20 => {
                    if wa == 1 {
                        continue;
                    }
                    let sh = (rnd() % wa as u64) as u128;
                    let kk = c.konst(sh, wa);
                    let which = rnd() % 3;
                    nm = ["shl", "lshr", "ashr"][which as usize];
                    e = match which {
                        0 => c.shl(a.0, kk),
                        1 => c.lshr(a.0, kk),
                        _ => c.ashr(a.0, kk),
                    };
                    for k in 0..K {
                        let x = a.1[k];
                        vals[k] = match which {
                            0 => (x << sh) & m,
                            1 => x >> sh,
                            _ => (sx(x) >> sh) as u128 & m,
                        };
                    }
                }
                _ => continue,
            }
            for k in 0..K {
                let got = c.eval(e, &models[k], &mut HashMap::default());
                if got != vals[k] {
                    bad += 1;
                    println!("MISMATCH {nm} round {round}: {:x} {:x} -> {:x}, node says {:x}", a.1[k], b.1[k], vals[k], got);
                }
                let r = c.range(e);
                let w = c.w(e);
                if w <= 64 && w > 1 {
                    let v = sext128(vals[k], w);
                    if v < r.0 || v > r.1 {
                        bad += 1;
                        println!("RANGE {nm} round {round}: {v} not in {r:?}");
                    }
                    let u = c.urange(e);
                    if (vals[k] as i128) < u.0 || (vals[k] as i128) > u.1 {
                        bad += 1;
                        println!("URANGE {nm} round {round}");
                    }
                }
            }
            for (o, f) in [(0u8, 0), (1, 1), (2, 2)] {
                let _ = f;
                for sg in [true, false] {
                    if wa > 1 && wa <= 32 && c.no_overflow(o, a.0, b.0, sg) {
                        for k in 0..K {
                            let (x, y) = if sg { (sx(a.1[k]), sx(b.1[k])) } else { (a.1[k] as i128, b.1[k] as i128) };
                            let v = [x + y, x - y, x * y][o as usize];
                            let ok = if sg { sext128(v as u128 & m, wa) == v } else { v >= 0 && v <= m as i128 };
                            if !ok {
                                bad += 1;
                                println!("OVERFLOW op {o} signed {sg} round {round}");
                            }
                        }
                    }
                }
            }
            pool.push((e, vals));
        }
        if bad > 20 {
            break;
        }
    }
    println!("selftest rounds={n} bad={bad}");
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
