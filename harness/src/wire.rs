//! Independent encoder/decoder of the file format (bincode 1.x default: little endian, 64-bit
//! lengths, 32-bit variant tags), as the original version of the library writes it.
use crate::core::*;
use crate::gen::*;
use crate::monitor::{Kind, Spec};
use crate::refm::Rt;

#[derive(Clone, Debug, PartialEq)]
pub struct WTensor {
    pub strides: [u32; 3],
    pub shape: Sh,
    pub data: Vec<f32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WLayer {
    pub tag: u32,
    pub fields: Vec<(u32, Vec<u8>)>,
}
pub fn u32s(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes())
}
pub fn u64s(o: &mut Vec<u8>, v: u64) {
    o.extend(v.to_le_bytes())
}
pub fn shape_bytes(s: Sh) -> Vec<u8> {
    let mut o = vec![];
    s.iter().for_each(|x| u32s(&mut o, *x));
    o
}
pub fn string_bytes(s: &str) -> Vec<u8> {
    let mut o = vec![];
    u64s(&mut o, s.len() as u64);
    o.extend(s.as_bytes());
    o
}
pub fn wt(t: &Rt) -> WTensor {
    WTensor { strides: [1, t.s[0], t.s[0] * t.s[1]], shape: t.s, data: t.v.clone() }
}
pub fn tensor_bytes(t: &WTensor) -> Vec<u8> {
    let mut o = vec![];
    t.strides.iter().for_each(|x| u32s(&mut o, *x));
    t.shape.iter().for_each(|x| u32s(&mut o, *x));
    u64s(&mut o, t.data.len() as u64);
    t.data.iter().for_each(|x| o.extend(x.to_bits().to_le_bytes()));
    o
}
pub fn tensors_bytes(v: &[WTensor]) -> Vec<u8> {
    let mut o = vec![];
    u64s(&mut o, v.len() as u64);
    v.iter().for_each(|t| o.extend(tensor_bytes(t)));
    o
}
/// Field keys per layer tag: conv 0 (Kernels, Biases, InputShape, Stride, Name), fc 1 (Weights,
/// Bias, Name), pool 2 (InputShape, MaskShape, Stride, Name), softmax 3 (Shape, Name).
pub fn layer_of(s: &Spec) -> WLayer {
    match &s.kind {
        Kind::Conv { stride, kernels, biases, .. } => WLayer {
            tag: 0,
            fields: vec![
                (0, tensors_bytes(&kernels.iter().map(wt).collect::<Vec<_>>())),
                (1, tensors_bytes(&biases.iter().map(|b| wt(&Rt { s: [1, 1, 1], v: vec![*b] })).collect::<Vec<_>>())),
                (2, shape_bytes(s.inp)),
                (3, stride.to_le_bytes().to_vec()),
                (4, string_bytes(&s.name)),
            ],
        },
        Kind::Fc { w, b } => {
            WLayer { tag: 1, fields: vec![(0, tensor_bytes(&wt(w))), (1, tensor_bytes(&wt(b))), (2, string_bytes(&s.name))] }
        }
        Kind::Pool { win, stride } => WLayer {
            tag: 2,
            fields: vec![
                (0, shape_bytes(s.inp)),
                (1, shape_bytes(*win)),
                (2, stride.to_le_bytes().to_vec()),
                (3, string_bytes(&s.name)),
            ],
        },
        Kind::Soft => WLayer { tag: 3, fields: vec![(0, shape_bytes(s.inp)), (1, string_bytes(&s.name))] },
    }
}
pub fn network_bytes(v: &[WLayer]) -> Vec<u8> {
    let mut o = vec![];
    u64s(&mut o, v.len() as u64);
    for l in v {
        u32s(&mut o, l.tag);
        u64s(&mut o, l.fields.len() as u64);
        for (k, b) in &l.fields {
            u32s(&mut o, *k);
            u64s(&mut o, b.len() as u64);
            o.extend(b);
        }
    }
    o
}
pub fn shuffle_fields(r: &mut Rng, v: &mut [WLayer]) {
    v.iter_mut().for_each(|l| r.shuffle(&mut l.fields));
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > self.0.len() as u64 {
            return None;
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Some(a)
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn sh(&mut self) -> Option<Sh> {
        Some([self.u32()?, self.u32()?, self.u32()?])
    }
    pub fn tensor(&mut self) -> Option<WTensor> {
        let strides = self.sh()?;
        let shape = self.sh()?;
        let n = self.u64()?;
        if n > self.0.len() as u64 / 4 {
            return None;
        }
        let data = self.take(n * 4)?.chunks(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect();
        Some(WTensor { strides, shape, data })
    }
    pub fn tensors(&mut self) -> Option<Vec<WTensor>> {
        let n = self.u64()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.tensor()?);
        }
        Some(v)
    }
    pub fn string(&mut self) -> Option<String> {
        let n = self.u64()?;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
}
pub fn decode_network(b: &[u8]) -> Option<(Vec<WLayer>, usize)> {
    let mut r = Rd(b);
    let n = r.u64()?;
    let mut v = vec![];
    for _ in 0..n {
        let tag = r.u32()?;
        if tag > 3 {
            return None;
        }
        let keys = [5u32, 3, 4, 2][tag as usize];
        let m = r.u64()?;
        let mut fields = vec![];
        for _ in 0..m {
            let k = r.u32()?;
            if k >= keys {
                return None;
            }
            let n = r.u64()?;
            fields.push((k, r.take(n)?.to_vec()));
        }
        v.push(WLayer { tag, fields });
    }
    Some((v, r.0.len()))
}
#[derive(Debug)]
pub enum Class2 {
    /// a proper network file
    Good(Vec<Spec>),
    /// must be refused
    Bad(&'static str),
    /// oddities on which only the universal promises are checked (no panic, no partial effect)
    Grey(&'static str),
    /// would need unreasonable memory: not run
    Huge,
}
fn vol(s: Sh) -> u128 {
    s[0] as u128 * s[1] as u128 * s[2] as u128
}
fn fine_tensor(t: &WTensor) -> Result<(), Class2> {
    let n = vol(t.shape);
    if n != t.data.len() as u128 {
        return Err(Class2::Bad("tensor data does not match its shape"));
    }
    if n == 0 {
        return Err(Class2::Grey("empty tensor"));
    }
    if t.strides != [1, t.shape[0], t.shape[0] * t.shape[1]] {
        return Err(Class2::Bad("tensor strides do not match its shape"));
    }
    Ok(())
}
fn rtof(t: &WTensor) -> Rt {
    Rt { s: t.shape, v: t.data.clone() }
}
const LIMIT: u128 = 1 << 20;
pub fn classify_layer(l: &WLayer) -> Result<Spec, Class2> {
    let keys = [5u32, 3, 4, 2][l.tag as usize];
    let mut f: Vec<&[u8]> = vec![];
    for k in 0..keys {
        let all: Vec<_> = l.fields.iter().filter(|x| x.0 == k).collect();
        if all.is_empty() {
            return Err(Class2::Bad("missing field"));
        }
        if all.len() > 1 {
            return Err(Class2::Grey("duplicate field"));
        }
        f.push(&all[0].1);
    }
    let b = |s| Class2::Bad(s);
    let mut spare = 0;
    let spec = match l.tag {
        0 => {
            let mut r0 = Rd(f[0]);
            let ks = r0.tensors().ok_or(b("kernels do not decode"))?;
            let mut r1 = Rd(f[1]);
            let bs = r1.tensors().ok_or(b("biases do not decode"))?;
            let mut r2 = Rd(f[2]);
            let inp = r2.sh().ok_or(b("input shape does not decode"))?;
            let mut r3 = Rd(f[3]);
            let stride = r3.u32().ok_or(b("stride does not decode"))?;
            let mut r4 = Rd(f[4]);
            let name = r4.string().ok_or(b("name does not decode"))?;
            spare += r0.0.len() + r1.0.len() + r2.0.len() + r3.0.len() + r4.0.len();
            for t in ks.iter().chain(&bs) {
                fine_tensor(t)?;
            }
            if ks.is_empty() {
                return Err(b("no kernels"));
            }
            let k = ks[0].shape;
            if ks.iter().any(|x| x.shape != k) {
                return Err(b("kernels of different shapes"));
            }
            if bs.len() != ks.len() || bs.iter().any(|x| x.shape != [1, 1, 1]) {
                return Err(b("biases do not match kernels"));
            }
            if vol(inp) == 0 {
                return Err(if inp[0] == 0 || inp[1] == 0 { b("empty input") } else { Class2::Grey("no depth") });
            }
            let out = windows(inp, k, stride)?;
            if k[2] != inp[2] {
                return Err(b("kernel depth"));
            }
            let out = [out[0], out[1], ks.len() as u32];
            if vol(inp) > u32::MAX as u128 || vol(out) > u32::MAX as u128 {
                return Err(b("too large"));
            }
            if vol(inp) > LIMIT || vol(out) * vol(k) > LIMIT * 64 || vol(out) > LIMIT {
                return Err(Class2::Huge);
            }
            Spec {
                kind: Kind::Conv { ks: k, stride, kernels: ks.iter().map(rtof).collect(), biases: bs.iter().map(|x| x.data[0]).collect() },
                name,
                inp,
                out,
                exact: false,
            }
        }
        1 => {
            let mut r0 = Rd(f[0]);
            let w = r0.tensor().ok_or(b("weights do not decode"))?;
            let mut r1 = Rd(f[1]);
            let bi = r1.tensor().ok_or(b("bias does not decode"))?;
            let mut r2 = Rd(f[2]);
            let name = r2.string().ok_or(b("name does not decode"))?;
            spare += r0.0.len() + r1.0.len() + r2.0.len();
            fine_tensor(&w)?;
            fine_tensor(&bi)?;
            if bi.shape != [w.shape[0], 1, w.shape[2]] {
                return Err(b("bias does not match weights"));
            }
            Spec {
                inp: [w.shape[1], 1, w.shape[2]],
                out: bi.shape,
                kind: Kind::Fc { w: rtof(&w), b: rtof(&bi) },
                name,
                exact: false,
            }
        }
        2 => {
            let mut r0 = Rd(f[0]);
            let inp = r0.sh().ok_or(b("input shape does not decode"))?;
            let mut r1 = Rd(f[1]);
            let win = r1.sh().ok_or(b("mask does not decode"))?;
            let mut r2 = Rd(f[2]);
            let stride = r2.u32().ok_or(b("stride does not decode"))?;
            let mut r3 = Rd(f[3]);
            let name = r3.string().ok_or(b("name does not decode"))?;
            spare += r0.0.len() + r1.0.len() + r2.0.len() + r3.0.len();
            if vol(inp) == 0 {
                return Err(if inp[0] == 0 || inp[1] == 0 { b("empty input") } else { Class2::Grey("no depth") });
            }
            let out = windows(inp, win, stride)?;
            let out = [out[0], out[1], inp[2]];
            if vol(inp) > u32::MAX as u128 {
                return Err(b("too large"));
            }
            if vol(inp) > LIMIT || vol(out) * win[0] as u128 * win[1] as u128 > LIMIT * 64 {
                return Err(Class2::Huge);
            }
            if win[2] != 1 {
                return Err(Class2::Grey("deep mask"));
            }
            Spec { kind: Kind::Pool { win, stride }, name, inp, out, exact: false }
        }
        _ => {
            let mut r0 = Rd(f[0]);
            let inp = r0.sh().ok_or(b("shape does not decode"))?;
            let mut r1 = Rd(f[1]);
            let name = r1.string().ok_or(b("name does not decode"))?;
            spare += r0.0.len() + r1.0.len();
            if inp[0] as u64 * inp[1] as u64 > u32::MAX as u64 || vol(inp) > u32::MAX as u128 {
                return Err(b("too large"));
            }
            if vol(inp) == 0 {
                return Err(Class2::Grey("empty"));
            }
            if vol(inp) > LIMIT {
                return Err(Class2::Huge);
            }
            Spec { kind: Kind::Soft, name, inp, out: inp, exact: false }
        }
    };
    if spare > 0 {
        return Err(Class2::Grey("trailing bytes in a field"));
    }
    Ok(spec)
}
fn windows(inp: Sh, win: Sh, stride: u32) -> Result<[u32; 2], Class2> {
    if stride == 0 || win[0] == 0 || win[1] == 0 {
        return Err(Class2::Bad("empty window or zero stride"));
    }
    if win[0] > inp[0] || win[1] > inp[1] {
        return Err(Class2::Bad("window larger than input"));
    }
    if (inp[0] - win[0]) % stride != 0 || (inp[1] - win[1]) % stride != 0 {
        return Err(Class2::Bad("window does not step to the border"));
    }
    Ok([(inp[0] - win[0]) / stride + 1, (inp[1] - win[1]) / stride + 1])
}
/// Judges arbitrary bytes as a network file to be loaded into an empty network.
pub fn classify(b: &[u8]) -> Class2 {
    let (layers, rest) = match decode_network(b) {
        Some(x) => x,
        None => return Class2::Bad("does not decode"),
    };
    let mut specs: Vec<Spec> = vec![];
    // Refusal or grey of a later layer matters only if memory stays reasonable on the way.
    let mut grey = None;
    let mut bad = None;
    for l in &layers {
        match classify_layer(l) {
            Ok(s) => {
                if let Some(p) = specs.last() {
                    if p.out != s.inp {
                        bad.get_or_insert("layers do not chain");
                    }
                }
                specs.push(s);
            }
            Err(Class2::Huge) => return Class2::Huge,
            Err(Class2::Grey(g)) => {
                grey.get_or_insert(g);
            }
            Err(Class2::Bad(m)) => {
                bad.get_or_insert(m);
            }
            Err(Class2::Good(_)) => unreachable!(),
        }
    }
    if let Some(g) = grey {
        return Class2::Grey(g);
    }
    if let Some(m) = bad {
        return Class2::Bad(m);
    }
    if rest > 0 {
        return Class2::Grey("trailing bytes");
    }
    Class2::Good(specs)
}
