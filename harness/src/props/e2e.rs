//! C27: whole networks against an f64 model of the whole network, forward and backward, with
//! propagated error bounds. The model never looks at what the layers produced.
use super::files::{path, rm};
use super::layers::grads;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

/// A value the network must have computed to within e.
#[derive(Clone, Copy, Default, Debug)]
struct E {
    v: f64,
    e: f64,
}
fn e(v: f32) -> E {
    E { v: v as f64, e: 0.0 }
}
/// A sum of products evaluated in f32 in any order.
#[derive(Clone, Copy)]
struct Sum {
    v: f64,
    prop: f64,
    abs: f64,
    n: f64,
    whole: bool,
}
const ZERO: Sum = Sum { v: 0.0, prop: 0.0, abs: 0.0, n: 0.0, whole: true };
impl Sum {
    fn mul(&mut self, a: E, b: E) {
        let (p, m) = (a.v * b.v, (a.v.abs() + a.e) * (b.v.abs() + b.e));
        self.v += p;
        self.prop += m - p.abs();
        self.abs += m;
        self.n += 1.0;
        self.whole &= a.e == 0.0 && b.e == 0.0 && a.v.fract() == 0.0 && b.v.fract() == 0.0;
    }
    fn add(&mut self, a: E) {
        self.mul(a, E { v: 1.0, e: 0.0 });
    }
    fn join(&mut self, o: &Sum) {
        self.v += o.v;
        self.prop += o.prop;
        self.abs += o.abs;
        self.n += o.n + 1.0;
        self.whole &= o.whole;
    }
    fn done(&self) -> E {
        if self.whole && self.abs < 16777216.0 {
            return E { v: self.v, e: 0.0 };
        }
        E { v: self.v, e: self.prop * 1.000001 + (self.n + 4.0) * 6.0e-8 * self.abs + (self.n + 2.0) * 3e-45 }
    }
}
struct Et {
    s: Sh,
    v: Vec<E>,
}
impl Et {
    fn of(r: &Rt) -> Et {
        Et { s: r.s, v: r.v.iter().map(|x| e(*x)).collect() }
    }
    fn at(&self, i: u32, j: u32, k: u32) -> E {
        self.v[pos(self.s, i, j, k)]
    }
}
/// What the model knows about one forward pass.
struct Pass {
    states: Vec<Et>,
    /// per layer: ReLU factor, or None where rounding could decide either way
    mask: Vec<Vec<Option<bool>>>,
    /// per layer: where each pooled cell came from; ties between dead cells are resolved arbitrarily
    origin: Vec<Vec<Option<usize>>>,
}
fn forward(ch: &[Spec], x: &Rt) -> Pass {
    let mut p = Pass { states: vec![Et::of(x)], mask: vec![], origin: vec![] };
    for (n, s) in ch.iter().enumerate() {
        let i = p.states.last().unwrap();
        let mut o = Vec::with_capacity(size(s.out));
        let (mut mask, mut origin) = (vec![], vec![]);
        let mut relu = |t: &Sum, o: &mut Vec<E>| {
            let t = t.done();
            if t.v + t.e <= 0.0 {
                mask.push(Some(false));
                o.push(E { v: 0.0, e: 0.0 });
            } else {
                mask.push(if t.v - t.e > 0.0 { Some(true) } else { None });
                o.push(E { v: t.v.max(0.0), e: t.e });
            }
        };
        match &s.kind {
            Kind::Conv { ks, stride, kernels, biases } => {
                for (c, ker) in kernels.iter().enumerate() {
                    for y in 0..s.out[1] {
                        for x in 0..s.out[0] {
                            let mut t = ZERO;
                            for k in 0..ks[2] {
                                for b in 0..ks[1] {
                                    for a in 0..ks[0] {
                                        t.mul(i.at(x * stride + a, y * stride + b, k), e(ker.at(a, b, k)));
                                    }
                                }
                            }
                            t.add(e(biases[c]));
                            relu(&t, &mut o);
                        }
                    }
                }
            }
            Kind::Fc { w, b } => {
                for k in 0..s.out[2] {
                    for r in 0..s.out[0] {
                        let mut t = ZERO;
                        for q in 0..s.inp[0] {
                            t.mul(i.at(q, 0, k), e(w.at(r, q, k)));
                        }
                        t.add(e(b.at(r, 0, k)));
                        relu(&t, &mut o);
                    }
                }
            }
            Kind::Pool { win, stride } => {
                let after_relu = n > 0 && ch[n - 1].has_params();
                for c in 0..s.out[2] {
                    for y in 0..s.out[1] {
                        for x in 0..s.out[0] {
                            let cells: Vec<usize> = (0..win[1])
                                .flat_map(|b| (0..win[0]).map(move |a| (a, b)))
                                .map(|(a, b)| pos(i.s, x * stride + a, y * stride + b, c))
                                .collect();
                            let best = *cells.iter().max_by(|a, b| i.v[**a].v.total_cmp(&i.v[**b].v)).unwrap();
                            let m = E { v: i.v[best].v, e: cells.iter().map(|q| i.v[*q].e).fold(0.0, f64::max) };
                            let rivals = cells.iter().filter(|q| **q != best && i.v[**q].v + i.v[**q].e >= i.v[best].v - i.v[best].e).count();
                            // a gradient sent to a cell that a ReLU just cut off goes nowhere
                            let dead = after_relu && cells.iter().all(|q| i.v[*q].v == 0.0 && i.v[*q].e == 0.0);
                            origin.push(if rivals == 0 || dead { Some(best) } else { None });
                            o.push(m);
                        }
                    }
                }
            }
            Kind::Soft => {
                let m = i.v.iter().map(|x| x.v).fold(f64::NEG_INFINITY, f64::max);
                let err = i.v.iter().map(|x| x.e).fold(0.0, f64::max);
                let z: f64 = i.v.iter().map(|x| (x.v - m).exp()).sum();
                let n = i.v.len() as f64;
                for x in &i.v {
                    let w = (x.v - m).exp() / z;
                    let d = (x.v - m).abs().min(200.0);
                    // rounding of x - max itself is relative to that difference
                    let rel = n * 6e-8 + (d + 16.0) * 2.0e-7 + (2.0 * err).exp_m1().min(1e9);
                    o.push(E { v: w, e: w * rel + 1e-37 });
                }
            }
        }
        p.mask.push(mask);
        p.origin.push(origin);
        p.states.push(Et { s: s.out, v: o });
    }
    p
}
type Params = Vec<Vec<Vec<Sum>>>;
fn no_grads(ch: &[Spec]) -> Params {
    ch.iter().map(|s| s.param_shapes().iter().map(|h| vec![ZERO; size(*h)]).collect()).collect()
}
/// Adds this pass's derivative to `acc`; gives the input gradient, or None where the derivative
/// hinges on a decision that rounding could take either way.
fn backward(ch: &[Spec], p: &Pass, g: &Rt, acc: &mut Params) -> Option<Et> {
    let mut g = Et::of(g);
    for (n, s) in ch.iter().enumerate().rev() {
        let i = &p.states[n];
        if s.has_params() {
            for (q, m) in p.mask[n].iter().enumerate() {
                match m {
                    Some(true) => {}
                    Some(false) => g.v[q] = E::default(),
                    None if g.v[q].v == 0.0 && g.v[q].e == 0.0 => {}
                    None => return None,
                }
            }
        }
        let mut o = vec![ZERO; size(s.inp)];
        let out: Vec<E>;
        match &s.kind {
            Kind::Conv { ks, stride, kernels, .. } => {
                for (c, ker) in kernels.iter().enumerate() {
                    for y in 0..s.out[1] {
                        for x in 0..s.out[0] {
                            let gv = g.at(x, y, c as u32);
                            acc[n][kernels.len() + c][0].add(gv);
                            for k in 0..ks[2] {
                                for b in 0..ks[1] {
                                    for a in 0..ks[0] {
                                        let q = pos(s.inp, x * stride + a, y * stride + b, k);
                                        o[q].mul(gv, e(ker.at(a, b, k)));
                                        acc[n][c][pos(*ks, a, b, k)].mul(gv, i.v[q]);
                                    }
                                }
                            }
                        }
                    }
                }
                out = o.iter().map(|t| t.done()).collect();
            }
            Kind::Fc { w, .. } => {
                for k in 0..s.out[2] {
                    for r in 0..s.out[0] {
                        let gv = g.at(r, 0, k);
                        acc[n][1][pos(s.out, r, 0, k)].add(gv);
                        for q in 0..s.inp[0] {
                            o[pos(s.inp, q, 0, k)].mul(gv, e(w.at(r, q, k)));
                            acc[n][0][pos(w.s, r, q, k)].mul(gv, i.at(q, 0, k));
                        }
                    }
                }
                out = o.iter().map(|t| t.done()).collect();
            }
            Kind::Pool { .. } => {
                for (q, src) in p.origin[n].iter().enumerate() {
                    match src {
                        Some(t) => o[*t].add(g.v[q]),
                        None if g.v[q].v == 0.0 && g.v[q].e == 0.0 => {}
                        None => return None,
                    }
                }
                out = o.iter().map(|t| t.done()).collect();
            }
            Kind::Soft => {
                let y = &p.states[n + 1];
                let mut dot = ZERO;
                for (a, b) in y.v.iter().zip(&g.v) {
                    dot.mul(*a, *b);
                }
                let d = dot.done();
                // the same derivative written as y*g - y*<y,g>, or through the full Jacobian
                out = y
                    .v
                    .iter()
                    .zip(&g.v)
                    .map(|(y, g)| {
                        let w = E { v: g.v - d.v, e: g.e + d.e };
                        let v = y.v * w.v;
                        let mag = (y.v + y.e) * (g.v.abs() + g.e + dot.abs);
                        E { v, e: (y.v + y.e) * (w.v.abs() + w.e) - v.abs() + (dot.n + 8.0) * 1.2e-7 * mag + 1e-37 }
                    })
                    .collect();
            }
        }
        g = Et { s: s.inp, v: out };
    }
    Some(g)
}
fn judge(what: &str, t: &Rt, w: &[E]) -> R<u64> {
    ensure!(t.v.len() == w.len(), "{what}: {} cells, the model has {}", t.v.len(), w.len());
    for (p, (a, m)) in t.v.iter().zip(w).enumerate() {
        ensure!((*a as f64 - m.v).abs() <= m.e, "{what}: cell {:?} is {a:?}, the model of the whole network says {:?} +- {:e}", unpos(t.s, p), m.v, m.e);
    }
    Ok(w.iter().filter(|m| m.e == 0.0).count() as u64)
}

/// A user-defined layer in front: hands its input on, and keeps the gradient that reaches it.
pub struct Front {
    pub s: Sh,
    pub mode: NetworkRunState,
    pub seen: Rc<RefCell<Option<Rt>>>,
}
impl Layer for Front {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        *output = input.clone();
        Ok(())
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, inc: &Tensor, outg: &mut Tensor) -> Result<(), &'static str> {
        *self.seen.borrow_mut() = Some(Rt::of(inc));
        *outg = inc.clone();
        Ok(())
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.mode = NetworkRunState::Training;
    }
    fn switch_to_inference(&mut self) {
        self.mode = NetworkRunState::Inference;
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.mode
    }
    fn get_input_shape(&self) -> TensorShape {
        tshape(self.s)
    }
    fn get_output_shape(&self) -> TensorShape {
        tshape(self.s)
    }
    fn get_name(&self) -> String {
        "front".into()
    }
    fn get_serialized(&self) -> SerializedLayer {
        unreachable!()
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("not a stored kind")
    }
}

fn conv_of(r: &mut Rng, c: Class, s: Sh, k: [u32; 2], stride: u32, d: u32) -> Spec {
    let ks = [k[0], k[1], s[2]];
    Spec {
        kind: Kind::Conv { ks, stride, kernels: (0..d).map(|_| rt(r, c, ks)).collect(), biases: values(r, c, d as usize) },
        name: name(r),
        inp: s,
        out: [(s[0] - k[0]) / stride + 1, (s[1] - k[1]) / stride + 1, d],
        exact: c.exact(),
    }
}
fn pool_of(r: &mut Rng, s: Sh, w: u32, stride: u32) -> Spec {
    Spec {
        kind: Kind::Pool { win: [w, w, 1], stride },
        name: name(r),
        inp: s,
        out: [(s[0] - w) / stride + 1, (s[1] - w) / stride + 1, s[2]],
        exact: true,
    }
}
/// An image classifier: convolution, pooling, convolution to one row, dense layers, softmax.
fn classifier(r: &mut Rng, c: Class) -> Vec<Spec> {
    let depth = r.range(1, 3);
    let k = r.range(2, 4);
    let (pw, ps) = *r.pick(&[(2, 2), (3, 2), (3, 3), (2, 1), (2, 3)]);
    let (pi, pj) = (r.range(2, 4), r.range(2, 4));
    let s0 = [(pi - 1) * ps + pw + k - 1, (pj - 1) * ps + pw + k - 1, depth];
    let d1 = r.range(1, 4);
    let a = conv_of(r, c, s0, [k, k], 1, d1);
    let b = pool_of(r, a.out, pw, ps);
    let d2 = r.range(1, 4);
    let ki = r.range(1, b.out[0]);
    let v = conv_of(r, c, b.out, [ki, b.out[1]], 1, d2);
    let mut ch = vec![a, b, v];
    for _ in 0..r.range(1, 2) {
        let s = ch.last().unwrap().out;
        ch.push(fc_spec_for(r, c, s[0], s[2]));
    }
    if r.chance(3, 4) {
        let s = ch.last().unwrap().out;
        ch.push(Spec { kind: Kind::Soft, name: name(r), inp: s, out: s, exact: false });
    }
    ch
}
/// Dense layers only, many of them.
fn deep(r: &mut Rng, c: Class) -> Vec<Spec> {
    let dk = r.range(1, 2);
    let mut ch: Vec<Spec> = vec![];
    let mut w = r.range(2, 6);
    for _ in 0..r.range(6, 14) {
        let s = fc_spec_for(r, c, w, dk);
        w = s.out[0].min(8);
        let s = if s.out[0] > 8 {
            Spec { kind: Kind::Fc { w: rt(r, c, [w, s.inp[0], dk]), b: rt(r, c, [w, 1, dk]) }, out: [w, 1, dk], ..s }
        } else {
            s
        };
        ch.push(s);
    }
    ch
}

fn session(c: &mut Case, scratch: &std::path::Path, cl: Class, ch: Vec<Spec>, steps: u32) -> R {
    let probe = c.rng.chance(1, 2);
    let seen = Rc::new(RefCell::new(None));
    let mut mode = rand_mode(&mut c.rng);
    let mut net = Network::new(mode);
    let off = probe as usize;
    if probe {
        net.add_layer(Front { s: ch[0].inp, mode: NetworkRunState::Inference, seen: seen.clone() }).map_err(|e| format!("adding a first layer failed: {e}"))?;
    }
    for s in &ch {
        s.add(&mut net)?.map_err(|e| format!("adding a fitting layer ({}) failed: {e}", s.show()))?;
    }
    let out = ch.last().unwrap().out;
    let mut hist = String::from(if mode == NetworkRunState::Training { "t" } else { "i" });
    let mut acc = no_grads(&ch);
    // None: some gradient since the last clearing hinged on rounding
    let mut known = true;
    let mut last: Option<Pass> = None;
    for _ in 0..steps {
        match c.op(20, 4) {
            0 => {
                net.switch_to_inference();
                mode = NetworkRunState::Inference;
                hist.push('I');
                last = None;
            }
            1 | 2 => {
                net.switch_to_training();
                mode = NetworkRunState::Training;
                hist.push('T');
                last = None;
                acc = no_grads(&ch);
                known = true;
            }
            3 if !probe => {
                // through a file into another network
                let p = path(scratch, c, "e2e");
                net.save_to_file(&p).map_err(|e| format!("saving failed: {e} (history {hist})"))?;
                mode = rand_mode(&mut c.rng);
                net = Network::new(mode);
                let r = net.load_from_file(&p).map_err(|e| format!("loading failed: {e} (history {hist})"));
                rm(&p);
                r?;
                hist.push_str(if mode == NetworkRunState::Training { "St" } else { "Si" });
                last = None;
                acc = no_grads(&ch);
                known = true;
                c.count("reloaded", 1);
            }
            4 => {
                let w = other_shape(&mut c.rng, ch[0].inp);
                ensure!(net.infer(&Rt::zero(w).tensor()).is_err(), "infer accepted an input of shape {w:?} (history {hist})");
                hist.push('x');
            }
            5..=11 => {
                let x = rt(&mut c.rng, cl, ch[0].inp);
                c.key(x.hash());
                net.infer(&x.tensor()).map_err(|e| format!("infer refused: {e} (history {hist})"))?;
                hist.push('f');
                let p = forward(&ch, &x);
                for (n, st) in p.states.iter().enumerate() {
                    let t = net.get_intermediate_state(n + off).map_err(|e| format!("state {n}: {e}"))?;
                    let t = Rt::of(t);
                    ensure!(t.s == st.s, "state {n} has shape {:?}, should have {:?} (history {hist})", t.s, st.s);
                    let ex = judge(&format!("state {n} (history {hist})"), &t, &st.v)?;
                    c.count("state_cells_judged", t.v.len() as u64);
                    c.count("state_cells_judged_exactly", ex);
                }
                let o = Rt::of(net.get_output().map_err(|e| format!("no output: {e}"))?);
                ensure!(o.s == out, "the output has shape {:?}", o.s);
                judge(&format!("output (history {hist})"), &o, &p.states.last().unwrap().v)?;
                c.count("infers_judged", 1);
                if o.v.iter().any(|v| *v != 0.0) {
                    c.nontrivial();
                }
                last = Some(p);
            }
            _ => {
                let Some(p) = (if mode == NetworkRunState::Training { last.as_ref() } else { None }) else { continue };
                let g = rt(&mut c.rng, cl, out);
                c.key(g.hash());
                *seen.borrow_mut() = None;
                net.backward(&g.tensor()).map_err(|e| format!("backward refused: {e} (history {hist})"))?;
                hist.push('b');
                match backward(&ch, p, &g, &mut acc) {
                    None => {
                        known = false;
                        c.count("undetermined_backwards", 1);
                    }
                    Some(w) => {
                        if probe {
                            let got = seen.borrow().clone();
                            let Some(got) = got else { bad!("backward did not reach the first layer (history {hist})") };
                            ensure!(got.s == ch[0].inp, "the input gradient has shape {:?}", got.s);
                            judge(&format!("input gradient (history {hist})"), &got, &w.v)?;
                            c.count("input_gradients_judged", 1);
                            if got.v.iter().any(|v| *v != 0.0) {
                                c.count("nonzero_input_gradients", 1);
                            }
                        }
                    }
                }
            }
        }
        if mode == NetworkRunState::Training && known && cfg!(rn_hooks) {
            for (n, s) in ch.iter().enumerate() {
                if !s.has_params() {
                    continue;
                }
                let got = grads(net.get_layers()[n + off].as_ref());
                ensure!(got.len() == acc[n].len(), "layer {n} has {} parameter gradients, should have {}", got.len(), acc[n].len());
                for (q, (t, w)) in got.iter().zip(&acc[n]).enumerate() {
                    let w: Vec<E> = w.iter().map(|t| t.done()).collect();
                    judge(&format!("gradient of parameter {q} of layer {n} {} (history {hist})", s.show()), t, &w)?;
                    c.count("parameter_gradients_judged", 1);
                    if t.v.iter().any(|v| *v != 0.0) {
                        c.count("nonzero_parameter_gradients", 1);
                        if hist.matches('b').count() > 1 {
                            c.count("accumulated_parameter_gradients", 1);
                        }
                    }
                }
            }
        }
    }
    c.describe(format!("{}{} {cl:?} history {hist}", if probe { "probe | " } else { "" }, chain_show(&ch)));
    c.see("networks", chain_hash(&ch));
    c.see("histories", hash_str(&hist));
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a whole network's states and output were compared with the f64 model of the whole network, with a non-zero output");
    ctx.assume("error bounds are propagated through the model; a gradient that hinges on a ReLU or maximum closer than its error bound, or on a tie, is not judged (counted as undetermined_backwards)");
    ctx.assume("parameter gradients are read through the cfg(rn_hooks) accessor; the input gradient through a user-defined first layer");
    let dir = ctx.scratch.clone();
    ctx.family("chains", 6000, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 5);
        let n = c.steps(4, 14);
        session(c, &dir, cl, ch, n)
    });
    ctx.family("classifiers", 2500, |c| {
        let cl = *c.rng.pick(&[Class::Unit, Class::Unit, Class::Sparse, Class::Int]);
        let ch = classifier(&mut c.rng, cl);
        let n = c.steps(4, 14);
        session(c, &dir, cl, ch, n)
    });
    ctx.family("deep", 1000, |c| {
        let cl = *c.rng.pick(&[Class::Unit, Class::Sparse]);
        let ch = deep(&mut c.rng, cl);
        let n = c.steps(4, 14);
        session(c, &dir, cl, ch, n)
    });
    // many samples accumulate into one gradient
    ctx.family("batches", 500, |c| {
        let cl = *c.rng.pick(&[Class::Unit, Class::Sparse, Class::Int]);
        let ch = if c.rng.chance(1, 2) { chain(&mut c.rng, cl, 3) } else { classifier(&mut c.rng, cl) };
        session(c, &dir, cl, ch, 60)
    });
    ctx.require("infers_judged", 5000);
    ctx.require("state_cells_judged_exactly", 10000);
    if cfg!(rn_hooks) {
        ctx.require("nonzero_parameter_gradients", 2000);
        ctx.require("accumulated_parameter_gradients", 1000);
    }
    ctx.require("nonzero_input_gradients", 500);
    ctx.require("reloaded", 200);
}
