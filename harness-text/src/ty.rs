//! Types to read into and to format: every dimension of the oracle table, the dimensionless one and
//! one with eight different exponents, each coherent (even index) and at another scale (odd index).
use crate::scale::*;
use serde::de::value::{Error as DeError, MapDeserializer};
use serde::Deserialize;
use whippyunits::quantity::*;
use whippyunits::serialization::*;

pub struct Ty {
    pub d: [i16; 8],
    pub s: [i16; 4],
    pub read: fn(f64, &str) -> Option<f64>,
    pub core: fn(f64, &str) -> Option<f64>,
    pub show: fn(f64, &str, Option<usize>) -> String,
    pub ser: fn(f64) -> Option<(f64, String)>,
    pub de: fn(Vec<(&'static str, crate::round::Val)>) -> Option<f64>,
    pub json: fn(f64) -> Option<String>,
}
impl Ty {
    /// the type's unit in coherent units
    pub fn si(&self) -> f64 {
        POW2[(self.s[0] + 200) as usize] * POW3[(self.s[1] + 200) as usize] * POW5[(self.s[2] + 200) as usize] * POWPI[(self.s[3] + 40) as usize]
    }
}
pub struct Brand;
macro_rules! ty {
    ($b:ty; $m:literal $l:literal $t:literal $i:literal $k:literal $n:literal $j:literal $a:literal; $p2:literal $p3:literal $p5:literal $pi:literal) => {{
        type Q<B> = Quantity<Scale<_2<$p2>, _3<$p3>, _5<$p5>, _Pi<$pi>>, Dimension<_M<$m>, _L<$l>, _T<$t>, _I<$i>, _Θ<$k>, _N<$n>, _J<$j>, _A<$a>>, f64, B>;
        fn read(v: f64, u: &str) -> Option<f64> {
            deserialize_core_quantity::<$m, $l, $t, $i, $k, $n, $j, $a, $p2, $p3, $p5, $pi, f64>(v, u).ok().map(|q| q.unsafe_value)
        }
        fn core(v: f64, u: &str) -> Option<f64> {
            deserialize_core::<$m, $l, $t, $i, $k, $n, $j, $a, $p2, $p3, $p5, $pi>(v, u).ok()
        }
        fn show(v: f64, u: &str, p: Option<usize>) -> String {
            let q = Q::<$b>::new(v);
            match p {
                Some(p) => format!("{:.p$}", q.fmt(u), p = p),
                None => format!("{}", q.fmt(u)),
            }
        }
        fn ser(v: f64) -> Option<(f64, String)> {
            crate::round::capture(&Q::<$b>::new(v))
        }
        fn de(e: Vec<(&'static str, crate::round::Val)>) -> Option<f64> {
            Q::<$b>::deserialize(MapDeserializer::<_, DeError>::new(e.into_iter())).ok().map(|q| q.unsafe_value)
        }
        fn json(v: f64) -> Option<String> {
            serialize_to_json(&Q::<()>::new(v)).ok()
        }
        Ty { d: [$m, $l, $t, $i, $k, $n, $j, $a], s: [$p2, $p3, $p5, $pi], read, core, show, ser, de, json }
    }};
}
pub static TYPES: &[Ty] = &[
    ty!((); 1 0 0 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 0 0 0 0 0 0 0; 3 0 3 0),
    ty!((); 0 1 0 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 1 0 0 0 0 0 0; -3 0 -3 0),
    ty!((); 0 0 1 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 1 0 0 0 0 0; 2 1 1 0),
    ty!((); 0 0 0 1 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 0 1 0 0 0 0; 0 -2 1 0),
    ty!((); 0 0 0 0 1 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 0 0 1 0 0 0; -2 -2 -1 1),
    ty!((); 0 0 0 0 0 1 0 0; 0 0 0 0),
    ty!(Brand; 0 0 0 0 0 1 0 0; 6 0 6 0),
    ty!((); 0 0 0 0 0 0 1 0; 0 0 0 0),
    ty!(Brand; 0 0 0 0 0 0 1 0; -6 0 -6 0),
    ty!((); 0 0 0 0 0 0 0 1; 0 0 0 0),
    ty!(Brand; 0 0 0 0 0 0 0 1; 1 2 -3 -1),
    ty!((); 0 2 0 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 2 0 0 0 0 0 0; 3 0 3 0),
    ty!((); 0 3 0 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 3 0 0 0 0 0 0; -3 0 -3 0),
    ty!((); 0 0 -1 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 -1 0 0 0 0 0; 2 1 1 0),
    ty!((); 1 1 -2 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 1 -2 0 0 0 0 0; 0 -2 1 0),
    ty!((); 1 2 -2 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -2 0 0 0 0 0; -2 -2 -1 1),
    ty!((); 1 2 -3 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -3 0 0 0 0 0; 6 0 6 0),
    ty!((); 1 -1 -2 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 -1 -2 0 0 0 0 0; -6 0 -6 0),
    ty!((); 0 0 1 1 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 1 1 0 0 0 0; 1 2 -3 -1),
    ty!((); 1 2 -3 -1 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -3 -1 0 0 0 0; 3 0 3 0),
    ty!((); -1 -2 4 2 0 0 0 0; 0 0 0 0),
    ty!(Brand; -1 -2 4 2 0 0 0 0; -3 0 -3 0),
    ty!((); 1 2 -3 -2 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -3 -2 0 0 0 0; 2 1 1 0),
    ty!((); -1 -2 3 2 0 0 0 0; 0 0 0 0),
    ty!(Brand; -1 -2 3 2 0 0 0 0; 0 -2 1 0),
    ty!((); 1 2 -2 -2 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -2 -2 0 0 0 0; -2 -2 -1 1),
    ty!((); 1 0 -2 -1 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 0 -2 -1 0 0 0 0; 6 0 6 0),
    ty!((); 1 2 -2 -1 0 0 0 0; 0 0 0 0),
    ty!(Brand; 1 2 -2 -1 0 0 0 0; -6 0 -6 0),
    ty!((); 0 -2 0 0 0 0 1 0; 0 0 0 0),
    ty!(Brand; 0 -2 0 0 0 0 1 0; 1 2 -3 -1),
    ty!((); 0 2 -1 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 2 -1 0 0 0 0 0; 3 0 3 0),
    ty!((); 0 0 0 0 0 0 0 0; 0 0 0 0),
    ty!(Brand; 0 0 0 0 0 0 0 0; -3 0 -3 0),
    ty!((); 1 2 -3 -4 5 -6 7 -8; 0 0 0 0),
    ty!(Brand; 1 2 -3 -4 5 -6 7 -8; 2 1 1 0),
    ty!((); 0 0 -1 0 0 0 0 1; 0 0 0 0),
    ty!(Brand; 0 0 -1 0 0 0 0 1; -1 0 -2 1),
];
