//! Workload generators: shapes, values.
use crate::core::Rng;
use crate::refm::Rt;

pub type Sh = [u32; 3];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// integers -4..=4: f32 arithmetic on them is exact in any order
    Int,
    /// mostly zero, some small integers
    Sparse,
    /// uniform in [-1, 1]
    Unit,
    /// random sign and mantissa, exponent -12..=12
    Wide,
    /// uniform, times one power of two for the whole tensor, from 2^-40 to 2^30
    Scaled,
    /// any f32, biased to special values; only for bit-exact operations
    Special,
}
impl Class {
    pub fn exact(self) -> bool {
        matches!(self, Class::Int | Class::Sparse)
    }
}
pub fn numeric_class(r: &mut Rng) -> Class {
    *r.pick(&[Class::Int, Class::Int, Class::Int, Class::Int, Class::Sparse, Class::Sparse, Class::Unit, Class::Unit, Class::Wide, Class::Scaled])
}
/// For chains of layers: magnitudes stay far from overflow.
pub fn chain_class(r: &mut Rng) -> Class {
    *r.pick(&[Class::Int, Class::Int, Class::Sparse, Class::Unit])
}
pub const SPECIALS: [f32; 14] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    1e-45,
    -1e-45,
    f32::EPSILON,
    16777217.0,
];
pub fn value(r: &mut Rng, c: Class) -> f32 {
    match c {
        Class::Int => r.irange(-4, 4) as f32,
        Class::Sparse => {
            if r.chance(3, 4) {
                0.0
            } else {
                r.irange(-3, 3) as f32
            }
        }
        Class::Unit => (r.unit() * 2.0 - 1.0) as f32,
        Class::Wide => {
            let m = 1.0 + r.unit();
            let e = r.irange(-12, 12);
            let s = if r.chance(1, 2) { 1.0 } else { -1.0 };
            (s * m * 2f64.powi(e)) as f32
        }
        Class::Scaled => scaled(r, 1)[0],
        Class::Special => match r.below(4) {
            0 => *r.pick(&SPECIALS),
            1 => f32::from_bits(r.u64() as u32),
            2 => r.irange(-3, 3) as f32,
            _ => (r.unit() * 2.0 - 1.0) as f32,
        },
    }
}
fn scaled(r: &mut Rng, n: usize) -> Vec<f32> {
    let s = 2f64.powi(*r.pick(&[-40, -34, -30, -27, -24, -20, -16, 16, 20, 24, 30]));
    (0..n).map(|_| ((r.unit() * 2.0 - 1.0) * s) as f32).collect()
}
pub fn values(r: &mut Rng, c: Class, n: usize) -> Vec<f32> {
    if c == Class::Scaled {
        return scaled(r, n);
    }
    (0..n).map(|_| value(r, c)).collect()
}
/// n different values, in random order
pub fn distinct(r: &mut Rng, n: usize) -> Vec<f32> {
    let mut v: Vec<f32> = (0..n).map(|i| i as f32 + 1.0).collect();
    r.shuffle(&mut v);
    v
}
pub fn size(s: Sh) -> usize {
    s[0] as usize * s[1] as usize * s[2] as usize
}
pub fn rt(r: &mut Rng, c: Class, s: Sh) -> Rt {
    let v = values(r, c, size(s));
    Rt { s, v }
}
/// Leftover content a destination tensor may hold before an operation.
pub fn garbage(r: &mut Rng, s: Sh) -> Rt {
    match r.below(4) {
        0 => rt(r, Class::Special, s),
        1 => Rt { s, v: distinct(r, size(s)) },
        2 => Rt { s, v: vec![f32::NAN; size(s)] },
        _ => rt(r, Class::Wide, s),
    }
}
pub fn dim(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=2 => 1,
        3..=5 => r.range(2, 3),
        6..=8 => r.range(2, 6),
        _ => r.range(5, 14),
    }
}
pub fn shape(r: &mut Rng) -> Sh {
    [dim(r), dim(r), dim(r)]
}
/// A shape different from s (same cell count, one dimension off, permuted, ...).
pub fn other_shape(r: &mut Rng, s: Sh) -> Sh {
    // dimensions that agree in their lowest bits
    if !cfg!(miri) && r.chance(1, 80) && size(s) > 0 && size(s) < 4000 {
        let mut o = s;
        let d = r.below(3) as usize;
        let others = size(s) / s[d] as usize;
        o[d] += if others <= 4 && r.chance(1, 4) { 65536 } else { 256 };
        if others <= 100 {
            return o;
        }
    }
    for _ in 0..50 {
        let mut o = s;
        match r.below(6) {
            0 => o.swap(0, 1),
            1 => o.swap(1, 2),
            2 => o.rotate_left(1),
            3 => {
                // same number of cells, other arrangement
                let n = size(s) as u32;
                o = *r.pick(&[[n, 1, 1], [1, n, 1], [1, 1, n]]);
            }
            4 => {
                let d = r.below(3) as usize;
                o[d] = if o[d] > 1 && r.chance(1, 2) { o[d] - 1 } else { o[d] + r.range(1, 2) };
            }
            _ => {
                let d = r.below(3) as usize;
                o[d] *= 2;
            }
        }
        if o != s {
            return o;
        }
    }
    [s[0] + 1, s[1], s[2]]
}
/// Sliding-window geometry along one axis: (input, window, stride, output).
pub fn axis(r: &mut Rng) -> (u32, u32) {
    // (window, out count); stride is shared between axes
    let w = match r.below(8) {
        0 | 1 => 1,
        2..=5 => r.range(2, 3),
        6 => r.range(4, 6),
        _ => r.range(7, 11),
    };
    let o = match r.below(8) {
        0 | 1 => 1,
        2..=4 => r.range(2, 3),
        5 | 6 => r.range(3, 6),
        _ => r.range(7, 12),
    };
    (w, o)
}
pub struct Geo {
    pub win: Sh,
    pub inp: Sh,
    pub out: [u32; 2],
    pub stride: u32,
}
/// Strides for windows with a single position along both axes, where any stride fits.
pub fn any_stride(r: &mut Rng) -> u32 {
    *r.pick(&[11, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 1 << 24, 1 << 31, u32::MAX])
}
/// Unusual proportions: deep inputs, long windows, many positions, wide strides.
fn odd_geometry(r: &mut Rng) -> Geo {
    let mut win = [r.range(1, 2), r.range(1, 2), r.range(1, 2)];
    let mut out = [r.range(1, 2), r.range(1, 2)];
    let mut stride = r.range(1, 3);
    let ax = r.below(2) as usize;
    match r.below(4) {
        0 => win[2] = r.range(5, 70),
        1 => win[ax] = r.range(12, 140),
        2 => out[ax] = r.range(13, 140),
        _ => {
            stride = r.range(10, 300);
            out = [1, 1];
            out[ax] = r.range(2, 3);
        }
    }
    let inp = [(out[0] - 1) * stride + win[0], (out[1] - 1) * stride + win[1], win[2]];
    Geo { win, inp, out, stride }
}
pub fn geometry(r: &mut Rng, max_depth: u32) -> Geo {
    if !cfg!(miri) && r.chance(1, 16) {
        return odd_geometry(r);
    }
    let stride = match r.below(8) {
        0..=2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => r.range(4, 5),
        _ => r.range(6, 9),
    };
    let (wi, oi) = axis(r);
    let (wj, oj) = axis(r);
    let d = r.range(1, max_depth);
    let (mut ii, mut ij) = ((oi - 1) * stride + wi, (oj - 1) * stride + wj);
    let (mut oi, mut oj) = (oi, oj);
    // keep the work bounded
    if ii * ij > 900 {
        if r.chance(1, 2) {
            ii = wi;
            oi = 1;
        } else {
            ij = wj;
            oj = 1;
        }
    }
    // a window that covers the whole input fits at any stride
    let stride = if oi == 1 && oj == 1 && r.chance(1, 3) { any_stride(r) } else { stride };
    Geo { win: [wi, wj, d], inp: [ii, ij, d], out: [oi, oj], stride }
}
pub fn name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "layer".into(),
        2 => format!("fc_{}", r.below(1000)),
        3 => "λ-слой-層-🧠\u{0}\n".into(),
        4 => "x".repeat(r.range(1, 600) as usize),
        _ => (0..r.range(1, 12)).map(|_| char::from_u32(r.range(32, 0x2fff)).unwrap_or('?')).collect(),
    }
}
