//! Layer descriptions, recording layers, and the model checks of one layer's passes.
#![allow(dead_code)]
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Kind {
    Conv { ks: Sh, stride: u32, kernels: Vec<Rt>, biases: Vec<f32> },
    Fc { w: Rt, b: Rt },
    Pool { win: Sh, stride: u32 },
    Soft,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub name: String,
    pub inp: Sh,
    pub out: Sh,
    pub exact: bool,
}
pub type DynLayer = Box<dyn Layer>;

impl Spec {
    pub fn kind_name(&self) -> &'static str {
        match self.kind {
            Kind::Conv { .. } => "conv",
            Kind::Fc { .. } => "fc",
            Kind::Pool { .. } => "pool",
            Kind::Soft => "softmax",
        }
    }
    pub fn show(&self) -> String {
        match &self.kind {
            Kind::Conv { ks, stride, .. } => format!("conv{:?}->{:?} k{ks:?} s{stride}", self.inp, self.out),
            Kind::Fc { .. } => format!("fc{:?}->{:?}", self.inp, self.out),
            Kind::Pool { win, stride } => format!("pool{:?}->{:?} w{win:?} s{stride}", self.inp, self.out),
            Kind::Soft => format!("softmax{:?}", self.inp),
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_str(&self.show());
        match &self.kind {
            Kind::Conv { kernels, biases, .. } => {
                for k in kernels {
                    h = mix(h ^ k.hash());
                }
                h = mix(h ^ hash_f32(biases));
            }
            Kind::Fc { w, b } => h = mix(h ^ w.hash() ^ b.hash().rotate_left(7)),
            _ => {}
        }
        h
    }
    pub fn conv(&self) -> Result<ConvolutionalLayer, &'static str> {
        match &self.kind {
            Kind::Conv { stride, kernels, biases, .. } => {
                let mut l = ConvolutionalLayer::empty();
                l.fill_from_state(
                    kernels.iter().map(|k| k.tensor()).collect(),
                    biases.iter().map(|b| Rt { s: [1, 1, 1], v: vec![*b] }.tensor()).collect(),
                    tshape(self.inp),
                    *stride,
                    &self.name,
                )?;
                Ok(l)
            }
            _ => unreachable!(),
        }
    }
    pub fn fc(&self) -> Result<FullyConnectedLayer, &'static str> {
        match &self.kind {
            Kind::Fc { w, b } => {
                let mut l = FullyConnectedLayer::empty();
                l.fill_from_state(w.tensor(), b.tensor(), &self.name)?;
                Ok(l)
            }
            _ => unreachable!(),
        }
    }
    pub fn pool(&self) -> Result<MaxPoolLayer, &'static str> {
        match &self.kind {
            Kind::Pool { win, stride } => MaxPoolLayer::new(tshape(*win), tshape(self.inp), *stride, &self.name),
            _ => unreachable!(),
        }
    }
    pub fn soft(&self) -> Result<SoftmaxLayer, &'static str> {
        SoftmaxLayer::new(tshape(self.inp), &self.name)
    }
    /// An (inference-mode) layer object.
    pub fn build(&self) -> R<DynLayer> {
        let r: Result<DynLayer, &'static str> = match self.kind {
            Kind::Conv { .. } => self.conv().map(|l| Box::new(l) as DynLayer),
            Kind::Fc { .. } => self.fc().map(|l| Box::new(l) as DynLayer),
            Kind::Pool { .. } => self.pool().map(|l| Box::new(l) as DynLayer),
            Kind::Soft => self.soft().map(|l| Box::new(l) as DynLayer),
        };
        r.map_err(|e| format!("constructing a valid layer ({}) failed: {e}", self.show()))
    }
    pub fn empty_of(kind: &str) -> DynLayer {
        match kind {
            "conv" => Box::new(ConvolutionalLayer::empty()),
            "fc" => Box::new(FullyConnectedLayer::empty()),
            "pool" => Box::new(MaxPoolLayer::empty()),
            _ => Box::new(SoftmaxLayer::empty()),
        }
    }
    /// Adds the real layer to a network, as a user would.
    pub fn add(&self, net: &mut Network) -> R<Result<(), &'static str>> {
        let why = |e: &str| format!("constructing a valid layer ({}) failed: {e}", self.show());
        Ok(match self.kind {
            Kind::Conv { .. } => net.add_layer(self.conv().map_err(|e| why(e))?),
            Kind::Fc { .. } => net.add_layer(self.fc().map_err(|e| why(e))?),
            Kind::Pool { .. } => net.add_layer(self.pool().map_err(|e| why(e))?),
            Kind::Soft => net.add_layer(self.soft().map_err(|e| why(e))?),
        })
    }
    /// Does the model's forward arithmetic stay exact on this input?
    pub fn exact_on(&self, input: &Rt) -> bool {
        self.exact && input.v.iter().all(|x| x.fract() == 0.0 && x.abs() < 65536.0)
    }
    /// Judges one forward pass.
    pub fn check_forward(&self, input: &Rt, out: &Rt) -> R {
        let what = format!("forward of {}", self.show());
        ensure!(out.s == self.out, "{what}: output has shape {:?}", out.s);
        let exact = self.exact_on(input);
        match &self.kind {
            Kind::Conv { stride, kernels, biases, .. } => {
                let n = (self.out[0] * self.out[1]) as usize;
                for (c, k) in kernels.iter().enumerate() {
                    let mut want = conv(input, k, *stride, self.out[0], self.out[1]);
                    for a in &mut want {
                        a.add(biases[c] as f64);
                    }
                    let ch = Rt { s: [self.out[0], self.out[1], 1], v: out.v[c * n..(c + 1) * n].to_vec() };
                    check_cells(&format!("{what}, channel {c}"), &ch, &want, exact, true)?;
                }
                Ok(())
            }
            Kind::Fc { w, b } => {
                let (_, mut want) = matmul(w, false, input, false);
                for (a, b) in want.iter_mut().zip(&b.v) {
                    a.add(*b as f64);
                }
                check_cells(&what, out, &want, exact, true)
            }
            Kind::Pool { win, stride } => check_pool(&what, input, *win, *stride, out),
            Kind::Soft => check_softmax(&what, input, out),
        }
    }
    fn masked(&self, out: &Rt, g: &Rt) -> Rt {
        Rt { s: g.s, v: out.v.iter().zip(&g.v).map(|(o, g)| if *o > 0.0 { *g } else { 0.0 }).collect() }
    }
    /// Judges the outgoing gradient of one backward pass, given what the last training-mode
    /// forward pass took and produced.
    pub fn check_backward(&self, input: &Rt, out: &Rt, g: &Rt, outg: &Rt) -> R {
        let what = format!("input gradient of {}", self.show());
        ensure!(outg.s == self.inp, "{what}: outgoing gradient has shape {:?}", outg.s);
        let exact = self.exact && g.v.iter().all(|x| x.fract() == 0.0 && x.abs() < 65536.0);
        match &self.kind {
            Kind::Conv { stride, kernels, .. } => {
                let want = conv_input_grad(&self.masked(out, g), kernels, *stride, self.inp);
                check_cells(&what, outg, &want, exact, false)
            }
            Kind::Fc { w, .. } => {
                let (_, want) = matmul(w, true, &self.masked(out, g), false);
                check_cells(&what, outg, &want, exact, false)
            }
            Kind::Pool { win, stride } => {
                // Windows with a single maximal cell determine their target; of tied windows any
                // maximal cell may be the target, which bounds each cell from both sides.
                let mut fixed = vec![Acc::default(); size(self.inp)];
                let mut lo = vec![0f64; size(self.inp)];
                let mut hi = vec![0f64; size(self.inp)];
                let mut ties = 0;
                for c in 0..out.s[2] {
                    for y in 0..out.s[1] {
                        for x in 0..out.s[0] {
                            let (_, ps) = window_max(input, *win, *stride, x, y, c);
                            let gv = g.at(x, y, c) as f64;
                            if ps.len() == 1 {
                                fixed[ps[0]].add(gv);
                            } else {
                                ties += 1;
                                for p in ps {
                                    lo[p] += gv.min(0.0);
                                    hi[p] += gv.max(0.0);
                                }
                            }
                        }
                    }
                }
                for (p, a) in outg.v.iter().enumerate() {
                    let t = fixed[p].tol(exact) + (hi[p] - lo[p]) * 1e-6;
                    let (l, h) = (fixed[p].val + lo[p] - t, fixed[p].val + hi[p] + t);
                    ensure!(
                        (*a as f64) >= l && (*a as f64) <= h,
                        "{what}: cell {:?} is {a:?}, its windows deliver between {l} and {h}",
                        unpos(self.inp, p)
                    );
                }
                let mut total = Acc::default();
                g.v.iter().for_each(|x| total.add(*x as f64));
                let got: f64 = outg.v.iter().map(|x| *x as f64).sum();
                let t = if exact { 0.0 } else { total.abs * 1e-5 + 1e-30 };
                ensure!((got - total.val).abs() <= t, "{what}: delivers {got} in total of {} received ({ties} tied windows)", total.val);
                Ok(())
            }
            Kind::Soft => check_cells(&what, outg, &softmax_grad(out, g), false, false),
        }
    }
    /// Expected change of the parameter gradients by one backward pass, in hook order.
    pub fn param_grad(&self, input: &Rt, out: &Rt, g: &Rt) -> Vec<(Sh, Vec<Acc>)> {
        let m = self.masked(out, g);
        match &self.kind {
            Kind::Conv { ks, stride, kernels, .. } => {
                let mut v = vec![];
                for c in 0..kernels.len() {
                    v.push((*ks, conv_kernel_grad(&m, input, *stride, *ks, c as u32)));
                }
                let n = (self.out[0] * self.out[1]) as usize;
                for c in 0..kernels.len() {
                    let mut a = Acc::default();
                    m.v[c * n..(c + 1) * n].iter().for_each(|x| a.add(*x as f64));
                    v.push(([1, 1, 1], vec![a]));
                }
                v
            }
            Kind::Fc { w, b } => {
                let (s, wg) = matmul(&m, false, input, true);
                assert_eq!(s, w.s);
                let bg = m
                    .v
                    .iter()
                    .map(|x| {
                        let mut a = Acc::default();
                        a.add(*x as f64);
                        a
                    })
                    .collect();
                vec![(w.s, wg), (b.s, bg)]
            }
            _ => vec![],
        }
    }
    pub fn param_shapes(&self) -> Vec<Sh> {
        match &self.kind {
            Kind::Conv { ks, kernels, .. } => {
                let n = kernels.len();
                vec![*ks; n].into_iter().chain(vec![[1, 1, 1]; n]).collect()
            }
            Kind::Fc { w, b } => vec![w.s, b.s],
            _ => vec![],
        }
    }
    pub fn has_params(&self) -> bool {
        matches!(self.kind, Kind::Conv { .. } | Kind::Fc { .. })
    }
}

/// Now and then a layer of a realistic size.
fn sizeable(r: &mut Rng) -> bool {
    !cfg!(miri) && r.chance(1, 120)
}
/// Between lo and hi, every order of magnitude equally often.
fn log_range(r: &mut Rng, lo: u32, hi: u32) -> u32 {
    let (a, b) = ((lo as f64).ln(), (hi as f64 + 1.0).ln());
    (((a + (b - a) * r.unit()).exp()) as u32).clamp(lo, hi)
}
/// Windows, inputs and positions of realistic sizes: at most `work` products of cells.
fn sizeable_geometry(r: &mut Rng, max_depth: u32, work: usize) -> Geo {
    loop {
        let stride = if r.chance(1, 2) { 1 } else { log_range(r, 1, 40) };
        let win = [log_range(r, 1, 300), log_range(r, 1, 300), log_range(r, 1, max_depth)];
        let out = [log_range(r, 1, 1500), log_range(r, 1, 1500)];
        let inp = [(out[0] - 1) * stride + win[0], (out[1] - 1) * stride + win[1], win[2]];
        let products = size(win) as u64 * out[0] as u64 * out[1] as u64;
        let cells = inp[0] as u64 * inp[1] as u64 * inp[2] as u64;
        if products <= work as u64 && cells <= 20000 && products.max(cells) > 500 {
            return Geo { win, inp, out, stride };
        }
    }
}
pub fn conv_spec(r: &mut Rng, c: Class, max_depth: u32) -> Spec {
    if sizeable(r) {
        let g = sizeable_geometry(r, 100, 60000);
        let most = (60000 / (size(g.win) as u32 * g.out[0] * g.out[1])).clamp(1, 150);
        let depth = log_range(r, 1, most);
        return Spec {
            kind: Kind::Conv {
                ks: g.win,
                stride: g.stride,
                kernels: (0..depth).map(|_| rt(r, c, g.win)).collect(),
                biases: values(r, c, depth as usize),
            },
            name: name(r),
            inp: g.inp,
            out: [g.out[0], g.out[1], depth],
            exact: c.exact(),
        };
    }
    let g = geometry(r, max_depth);
    let mut depth = if r.chance(1, 6) { r.range(4, 7) } else { r.range(1, 3) };
    if !cfg!(miri) && r.chance(1, 16) && size(g.win) * (g.out[0] * g.out[1]) as usize <= 600 {
        depth = r.range(8, 140);
    }
    Spec {
        kind: Kind::Conv {
            ks: g.win,
            stride: g.stride,
            kernels: (0..depth).map(|_| rt(r, c, g.win)).collect(),
            biases: values(r, c, depth as usize),
        },
        name: name(r),
        inp: g.inp,
        out: [g.out[0], g.out[1], depth],
        exact: c.exact(),
    }
}
pub fn pool_spec(r: &mut Rng) -> Spec {
    let g = if sizeable(r) { sizeable_geometry(r, 300, 40000) } else { geometry(r, 4) };
    let mut win = g.win;
    win[2] = 1;
    Spec {
        kind: Kind::Pool { win, stride: g.stride },
        name: name(r),
        inp: g.inp,
        out: [g.out[0], g.out[1], g.inp[2]],
        exact: true,
    }
}
pub fn fc_spec_for(r: &mut Rng, c: Class, inp: u32, dk: u32) -> Spec {
    let out = match r.below(6) {
        0 => 1,
        1 if !cfg!(miri) && inp < 100 && r.chance(1, 5) => r.range(20, 280),
        1 => r.range(8, 20),
        _ => r.range(2, 6),
    };
    Spec {
        kind: Kind::Fc { w: rt(r, c, [out, inp, dk]), b: rt(r, c, [out, 1, dk]) },
        name: name(r),
        inp: [inp, 1, dk],
        out: [out, 1, dk],
        exact: c.exact(),
    }
}
pub fn fc_spec(r: &mut Rng, c: Class) -> Spec {
    if sizeable(r) {
        let (i, o, dk) = loop {
            let (i, o, dk) = (log_range(r, 1, 5000), log_range(r, 1, 5000), log_range(r, 1, 60));
            let n = i as u64 * o as u64 * dk as u64;
            if n > 1500 && n <= 60000 {
                break (i, o, dk);
            }
        };
        return Spec {
            kind: Kind::Fc { w: rt(r, c, [o, i, dk]), b: rt(r, c, [o, 1, dk]) },
            name: name(r),
            inp: [i, 1, dk],
            out: [o, 1, dk],
            exact: c.exact(),
        };
    }
    let i = match r.below(6) {
        0 => 1,
        1 if !cfg!(miri) && r.chance(1, 5) => r.range(40, 280),
        1 => r.range(8, 40),
        _ => r.range(2, 7),
    };
    let dk = match r.below(40) {
        0 if !cfg!(miri) && i < 20 => r.range(5, 40),
        1..=9 => r.range(2, 4),
        _ => 1,
    };
    fc_spec_for(r, c, i, dk)
}
pub fn soft_spec(r: &mut Rng) -> Spec {
    let s = if sizeable(r) {
        loop {
            let s = [log_range(r, 1, 20000), log_range(r, 1, 1000), log_range(r, 1, 1000)];
            if size(s) > 500 && size(s) <= 20000 {
                break s;
            }
        }
    } else if r.chance(1, 2) {
        [r.range(1, 12), 1, 1]
    } else {
        shape(r)
    };
    Spec { kind: Kind::Soft, name: name(r), inp: s, out: s, exact: false }
}
pub fn any_spec(r: &mut Rng, c: Class) -> Spec {
    match r.below(4) {
        0 => conv_spec(r, c, 3),
        1 => pool_spec(r),
        2 => fc_spec(r, c),
        _ => soft_spec(r),
    }
}
/// A layer that fits an input of shape s.
pub fn next_spec(r: &mut Rng, c: Class, s: Sh) -> Spec {
    for _ in 0..20 {
        match r.below(10) {
            0..=3 => {
                // convolution (sometimes collapsing the j axis so a dense layer can follow)
                let mut stride = if r.chance(1, 8) { r.range(4, 9) } else { r.range(1, 3) };
                let ki = r.range(1, s[0].min(5));
                let kj = if r.chance(1, 3) { s[1] } else { r.range(1, s[1].min(5)) };
                if (s[0] - ki) % stride != 0 || (s[1] - kj) % stride != 0 {
                    continue;
                }
                if ki == s[0] && kj == s[1] && r.chance(1, 3) {
                    stride = any_stride(r);
                }
                let d = if !cfg!(miri) && r.chance(1, 20) { r.range(4, 12) } else { r.range(1, 3) };
                let ks = [ki, kj, s[2]];
                return Spec {
                    kind: Kind::Conv {
                        ks,
                        stride,
                        kernels: (0..d).map(|_| rt(r, c, ks)).collect(),
                        biases: values(r, c, d as usize),
                    },
                    name: name(r),
                    inp: s,
                    out: [(s[0] - ki) / stride + 1, (s[1] - kj) / stride + 1, d],
                    exact: c.exact(),
                };
            }
            4 | 5 => {
                let mut stride = if r.chance(1, 8) { r.range(4, 9) } else { r.range(1, 3) };
                let ki = r.range(1, s[0].min(4));
                let kj = r.range(1, s[1].min(4));
                if (s[0] - ki) % stride != 0 || (s[1] - kj) % stride != 0 {
                    continue;
                }
                if ki == s[0] && kj == s[1] && r.chance(1, 3) {
                    stride = any_stride(r);
                }
                return Spec {
                    kind: Kind::Pool { win: [ki, kj, 1], stride },
                    name: name(r),
                    inp: s,
                    out: [(s[0] - ki) / stride + 1, (s[1] - kj) / stride + 1, s[2]],
                    exact: true,
                };
            }
            6..=8 => {
                if s[1] == 1 {
                    return fc_spec_for(r, c, s[0], s[2]);
                }
            }
            _ => return Spec { kind: Kind::Soft, name: name(r), inp: s, out: s, exact: false },
        }
    }
    Spec { kind: Kind::Soft, name: name(r), inp: s, out: s, exact: false }
}
/// A layer that hands its input on, each cell somewhere, nearly unchanged (so that long chains
/// neither overflow nor die out).
fn passing_spec(r: &mut Rng, c: Class, s: Sh) -> Spec {
    let small = |r: &mut Rng, n: u32| -> Vec<f32> { (0..n).map(|_| if r.chance(1, 4) { 1.0 } else { 0.0 }).collect() };
    match r.below(6) {
        0 => Spec { kind: Kind::Soft, name: name(r), inp: s, out: s, exact: false },
        1 => {
            let stride = if s[0] == 1 && s[1] == 1 { any_stride(r) } else { 1 };
            Spec { kind: Kind::Pool { win: [1, 1, 1], stride }, name: name(r), inp: s, out: s, exact: true }
        }
        2 | 3 if s[1] == 1 => {
            let mut w = Rt::zero([s[0], s[0], s[2]]);
            for k in 0..s[2] {
                for i in 0..s[0] {
                    let j = r.range(0, s[0] - 1);
                    w.v[pos(w.s, i, j, k)] = 1.0;
                }
            }
            let b = Rt { s, v: small(r, size(s) as u32) };
            Spec { kind: Kind::Fc { w, b }, name: name(r), inp: s, out: s, exact: c.exact() }
        }
        _ => {
            let ks = [1, 1, s[2]];
            let kernels = (0..s[2])
                .map(|_| {
                    let mut k = Rt::zero(ks);
                    k.v[r.below(s[2] as u64) as usize] = 1.0;
                    k
                })
                .collect();
            Spec { kind: Kind::Conv { ks, stride: 1, kernels, biases: small(r, s[2]) }, name: name(r), inp: s, out: s, exact: c.exact() }
        }
    }
}
/// A chain of up to 24 layers.
fn long_chain(r: &mut Rng, c: Class) -> Vec<Spec> {
    let n = r.range(7, 24);
    let mut s = match r.below(3) {
        0 => [r.range(1, 9), 1, r.range(1, 2)],
        1 => [r.range(3, 9), r.range(3, 9), r.range(1, 3)],
        _ => [r.range(1, 7), r.range(1, 7), r.range(1, 3)],
    };
    let mut v = vec![];
    let mut free = 4;
    for _ in 0..n {
        let l = if free > 0 && r.chance(1, 4) {
            free -= 1;
            next_spec(r, c, s)
        } else {
            passing_spec(r, c, s)
        };
        s = l.out;
        v.push(l);
    }
    v
}
/// A chain of more layers than a byte can number, over a handful of cells.
pub fn deep_chain(r: &mut Rng, c: Class) -> Vec<Spec> {
    let n = r.range(250, 330);
    let mut s = [r.range(1, 3), 1, r.range(1, 2)];
    let mut v: Vec<Spec> = vec![];
    for i in 0..n {
        let mut l = if i < 2 && r.chance(1, 2) { next_spec(r, c, s) } else { passing_spec(r, c, s) };
        if size(l.out) > 9 {
            l = passing_spec(r, c, s);
        }
        s = l.out;
        v.push(l);
    }
    v
}
/// A chain of layers that fit each other.
pub fn chain(r: &mut Rng, c: Class, max_layers: u32) -> Vec<Spec> {
    if !cfg!(miri) && max_layers >= 4 {
        if r.chance(1, 14) {
            return long_chain(r, c);
        }
        if r.chance(1, 400) {
            return deep_chain(r, c);
        }
    }
    let n = r.range(1, max_layers);
    let mut s = match r.below(3) {
        0 | 1 if !cfg!(miri) && max_layers >= 4 && r.chance(1, 60) => match r.below(3) {
            0 => [log_range(r, 20, 2000), 1, r.range(1, 2)],
            1 => [log_range(r, 10, 200), log_range(r, 1, 12), r.range(1, 2)],
            _ => [log_range(r, 8, 40), log_range(r, 8, 40), r.range(1, 2)],
        },
        0 => [r.range(1, 9), 1, r.range(1, 2)],
        1 => [r.range(3, 9), r.range(3, 9), r.range(1, 3)],
        _ => [r.range(1, 7), r.range(1, 7), r.range(1, 3)],
    };
    let mut v = vec![];
    for _ in 0..n {
        let l = next_spec(r, c, s);
        s = l.out;
        v.push(l);
    }
    v
}
pub fn chain_show(v: &[Spec]) -> String {
    v.iter().map(|s| s.show()).collect::<Vec<_>>().join(" | ")
}
pub fn chain_hash(v: &[Spec]) -> u64 {
    v.iter().fold(7, |h, s| mix(h ^ s.hash()))
}
pub fn build_net(v: &[Spec], mode: NetworkRunState) -> R<Network> {
    let mut net = Network::new(mode);
    for s in v {
        s.add(&mut net)?.map_err(|e| format!("adding a fitting layer ({}) failed: {e}", s.show()))?;
    }
    Ok(net)
}
pub fn rand_mode(r: &mut Rng) -> NetworkRunState {
    if r.chance(1, 2) {
        NetworkRunState::Training
    } else {
        NetworkRunState::Inference
    }
}

/// What a recording layer saw.
#[derive(Clone, Debug)]
pub enum Ev {
    Fwd { id: usize, input: Rt, out: Rt, ok: bool },
    Bwd { id: usize, input: Rt, output: Rt, inc: Rt, outg: Rt, ok: bool },
    Switch { id: usize, training: bool },
    Clear { id: usize },
    Save { id: usize },
}
pub type Log = Rc<RefCell<Vec<Ev>>>;
pub fn new_log() -> Log {
    Rc::new(RefCell::new(vec![]))
}
/// A user-defined layer that records every call and otherwise delegates to a built-in one.
pub struct Monitored {
    pub inner: DynLayer,
    pub id: usize,
    pub log: Log,
    /// forward / backward calls until this layer reports a failure
    pub fail_fwd: Rc<Cell<i64>>,
    pub fail_bwd: Rc<Cell<i64>>,
}
pub const INJECTED: &str = "injected layer failure";
impl Layer for Monitored {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        let left = self.fail_fwd.get();
        self.fail_fwd.set(left - 1);
        let r = if left == 0 { Err(INJECTED) } else { self.inner.forward(input, output) };
        self.log.borrow_mut().push(Ev::Fwd { id: self.id, input: Rt::of(input), out: Rt::of(output), ok: r.is_ok() });
        r
    }
    fn backward(&mut self, input: &Tensor, output: &Tensor, inc: &Tensor, outg: &mut Tensor) -> Result<(), &'static str> {
        let left = self.fail_bwd.get();
        self.fail_bwd.set(left - 1);
        let r = if left == 0 { Err(INJECTED) } else { self.inner.backward(input, output, inc, outg) };
        self.log.borrow_mut().push(Ev::Bwd {
            id: self.id,
            input: Rt::of(input),
            output: Rt::of(output),
            inc: Rt::of(inc),
            outg: Rt::of(outg),
            ok: r.is_ok(),
        });
        r
    }
    fn clear_gradients(&mut self) {
        self.inner.clear_gradients();
        self.log.borrow_mut().push(Ev::Clear { id: self.id });
    }
    fn switch_to_training(&mut self) {
        self.inner.switch_to_training();
        self.log.borrow_mut().push(Ev::Switch { id: self.id, training: true });
    }
    fn switch_to_inference(&mut self) {
        self.inner.switch_to_inference();
        self.log.borrow_mut().push(Ev::Switch { id: self.id, training: false });
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.get_output_shape()
    }
    fn get_name(&self) -> String {
        self.inner.get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.log.borrow_mut().push(Ev::Save { id: self.id });
        self.inner.get_serialized()
    }
    #[cfg(rn_hooks)]
    fn hook_parameter_gradients(&self) -> Vec<Tensor> {
        self.inner.hook_parameter_gradients()
    }
    fn load_from_serialized(&mut self, d: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.load_from_serialized(d)
    }
}
pub struct Tap {
    pub fail_fwd: Rc<Cell<i64>>,
    pub fail_bwd: Rc<Cell<i64>>,
}
pub fn add_monitored(net: &mut Network, s: &Spec, id: usize, log: &Log) -> R<Result<Tap, &'static str>> {
    let tap = Tap { fail_fwd: Rc::new(Cell::new(-1)), fail_bwd: Rc::new(Cell::new(-1)) };
    let m = Monitored { inner: s.build()?, id, log: log.clone(), fail_fwd: tap.fail_fwd.clone(), fail_bwd: tap.fail_bwd.clone() };
    Ok(net.add_layer(m).map(|_| tap))
}
pub fn build_monitored(v: &[Spec], mode: NetworkRunState, log: &Log) -> R<(Network, Vec<Tap>)> {
    let mut net = Network::new(mode);
    let mut taps = vec![];
    for (i, s) in v.iter().enumerate() {
        taps.push(add_monitored(&mut net, s, i, log)?.map_err(|e| format!("adding a fitting layer ({}) failed: {e}", s.show()))?);
    }
    Ok((net, taps))
}
/// The serialized parameters of a layer, as sorted (key, bytes) pairs with the kind tag in front.
pub fn dump(l: &dyn Layer) -> Vec<(u32, Vec<u8>)> {
    dump_serial(&l.get_serialized())
}
pub fn dump_serial(s: &SerializedLayer) -> Vec<(u32, Vec<u8>)> {
    use rusty_network::layer::convolutional::ConvolutionalSerialKeys as CK;
    use rusty_network::layer::fully_connected::FullyConnectedSerialKeys as FK;
    use rusty_network::layer::max_pool::MaxPoolSerialKeys as MK;
    use rusty_network::layer::softmax::SoftMaxSerialKeys as SK;
    let mut v: Vec<(u32, Vec<u8>)> = match s {
        SerializedLayer::SerialConvolutionalLayer(m) => m
            .iter()
            .map(|(k, b)| {
                (
                    match k {
                        CK::Kernels => 0,
                        CK::Biases => 1,
                        CK::InputShape => 2,
                        CK::Stride => 3,
                        CK::Name => 4,
                    },
                    b.clone(),
                )
            })
            .collect(),
        SerializedLayer::SerialFullyConnectedLayer(m) => m
            .iter()
            .map(|(k, b)| {
                (
                    match k {
                        FK::Weights => 10,
                        FK::Bias => 11,
                        FK::Name => 12,
                    },
                    b.clone(),
                )
            })
            .collect(),
        SerializedLayer::SerialMaxPoolLayer(m) => m
            .iter()
            .map(|(k, b)| {
                (
                    match k {
                        MK::InputShape => 20,
                        MK::MaskShape => 21,
                        MK::Stride => 22,
                        MK::Name => 23,
                    },
                    b.clone(),
                )
            })
            .collect(),
        SerializedLayer::SerialSoftMaxLayer(m) => m
            .iter()
            .map(|(k, b)| {
                (
                    match k {
                        SK::Shape => 30,
                        SK::Name => 31,
                    },
                    b.clone(),
                )
            })
            .collect(),
    };
    v.sort();
    v
}
pub fn dump_net(net: &Network) -> Vec<Vec<(u32, Vec<u8>)>> {
    net.get_layers().iter().map(|l| dump(l.as_ref())).collect()
}
