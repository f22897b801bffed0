//! C08-C10: gradients.
use super::layers::*;
use super::tensors::fits;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use rusty_network::layer::Layer;
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

/// Incoming gradients, including ones that single out a few outputs.
fn gradient(r: &mut Rng, cl: Class, s: Sh) -> Rt {
    match r.below(4) {
        0 => {
            let mut t = Rt::zero(s);
            for _ in 0..r.range(1, 2) {
                let p = match r.below(3) {
                    0 => t.v.len() - 1,
                    _ => r.below(t.v.len() as u64) as usize,
                };
                t.v[p] = r.irange(1, 3) as f32;
            }
            t
        }
        1 => Rt { s, v: (0..size(s)).map(|p| (p % 50) as f32 + 1.0).collect() },
        _ => rt(r, cl, s),
    }
}
/// One training-mode layer driven through a random history; every backward pass is judged.
fn passes(c: &mut Case, s: &Spec, cl: Class, input: &dyn Fn(&mut Rng) -> Rt) -> R {
    let mut l = s.build()?;
    let mut log = String::new();
    if c.rng.chance(1, 3) {
        // something else before training starts
        let mut o = garbage(&mut c.rng, s.out).tensor();
        let x = input(&mut c.rng).tensor();
        let r = l.forward(&x, &mut o);
        ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
        log += "f";
    }
    l.switch_to_training();
    log += "T";
    let big = size(s.inp) + size(s.out) > 4000;
    for _ in 0..if big { c.rng.range(1, 3) } else { c.steps(1, 3) } {
        if c.op(6, 1) == 0 {
            l.switch_to_inference();
            l.switch_to_training();
            log += "IT";
        }
        // several forwards: only the last one counts
        let n = if c.rng.chance(1, 4) { 2 } else { 1 };
        let mut x = input(&mut c.rng);
        let mut xt = x.tensor();
        let mut out = garbage(&mut c.rng, s.out).tensor();
        for m in 0..n {
            if m > 0 {
                x = input(&mut c.rng);
                xt = x.tensor();
            }
            let r = l.forward(&xt, &mut out);
            ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
            log += "f";
        }
        let y = Rt::of(&out);
        for _ in 0..c.rng.range(1, 3) {
            if c.rng.chance(1, 4) {
                l.clear_gradients();
                log += "c";
            }
            let g = gradient(&mut c.rng, cl, s.out);
            let gt = g.tensor();
            let mut og = garbage(&mut c.rng, s.inp).tensor();
            log += "b";
            let r = l.backward(&xt, &out, &gt, &mut og);
            ensure!(r.is_ok(), "backward of {} refused: {r:?} (history {log})", s.show());
            s.check_backward(&x, &y, &g, &Rt::of(&og)).map_err(|e| format!("{e} (history {log})"))?;
            ensure!(Rt::of(&gt).same_bits(&g), "backward of {} changed the incoming gradient", s.show());
            ensure!(Rt::of(&xt).same_bits(&x), "backward of {} changed the input", s.show());
            ensure!(Rt::of(&out).same_bits(&y), "backward of {} changed the output", s.show());
            c.count("backwards_judged", 1);
            c.count("cells_judged", size(s.inp) as u64);
            c.key(g.hash() ^ x.hash().rotate_left(5));
            if g.v.iter().any(|v| *v != 0.0) && Rt::of(&og).v.iter().any(|v| *v != 0.0) {
                c.nontrivial();
                c.count("nonzero_gradients", 1);
            }
        }
    }
    c.describe(format!("{} {cl:?} history {log}", s.show()));
    c.see("histories", hash_str(&log));
    c.see("layers", s.hash());
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a backward pass with non-zero incoming and outgoing gradient was compared with the derivative in every input cell");
    ctx.assume("values are small integers (compared exactly) or arbitrary reals (compared within the rounding bound of any summation order)");
    ctx.family("operation", 5000, |c| {
        let cl = numeric_class(&mut c.rng);
        let g = geometry(&mut c.rng, 4);
        let n = c.rng.range(1, 4);
        let ks: Vec<Rt> = (0..n).map(|_| rt(&mut c.rng, cl, g.win)).collect();
        let inc = gradient(&mut c.rng, cl, [g.out[0], g.out[1], n]);
        let kt: Vec<Tensor> = ks.iter().map(|k| k.tensor()).collect();
        let it = inc.tensor();
        let mut og = garbage(&mut c.rng, g.inp).tensor();
        let what = format!("input gradient of convolution {:?} kernels {n} x {:?} stride {}", g.inp, g.win, g.stride);
        c.describe(format!("{what} {cl:?}"));
        c.key(inc.hash());
        let r = convolution_backprop_outgoing_gradient(&it, &kt, g.stride, &mut og);
        ensure!(r.is_ok(), "{what} refused: {r:?}");
        let want = conv_input_grad(&inc, &ks, g.stride, g.inp);
        check_cells(&what, &Rt::of(&og), &want, cl.exact(), false)?;
        ensure!(Rt::of(&it).same_bits(&inc), "{what} changed the incoming gradient");
        ensure!(kt.iter().zip(&ks).all(|(a, b)| Rt::of(a).same_bits(b)), "{what} changed a kernel");
        c.count("operations_judged", 1);
        c.see("geometries", hash_str(&format!("{:?}{:?}{}", g.inp, g.win, g.stride)));
        if want.iter().any(|a| a.val != 0.0) {
            c.nontrivial();
        }
        Ok(())
    });
    // every small one-axis geometry, one output at a time
    ctx.family_n("impulses", 8 * 8 * 8, |c| {
        let x = c.idx as u32;
        let (k, st, o) = (x % 8 + 1, x / 8 % 8 + 1, x / 64 + 1);
        for ax in 0..2usize {
            let mut win = [1, 1, 1];
            win[ax] = k;
            let mut inp = [1, 1, 1];
            inp[ax] = (o - 1) * st + k;
            let mut out = [1, 1, 1];
            out[ax] = o;
            let ker = Rt { s: win, v: (0..k).map(|p| (p + 1) as f32).collect() };
            for hot in 0..o {
                let mut inc = Rt::zero(out);
                inc.v[hot as usize] = 1.0;
                let mut og = garbage(&mut c.rng, inp).tensor();
                let r = convolution_backprop_outgoing_gradient(&inc.tensor(), &vec![ker.tensor()], st, &mut og);
                let what = format!("input gradient of convolution {inp:?} kernel {win:?} stride {st}, output {hot} only");
                ensure!(r.is_ok(), "{what} refused: {r:?}");
                check_cells(&what, &Rt::of(&og), &conv_input_grad(&inc, &[ker.clone()], st, inp), true, false)?;
                c.count("operations_judged", 1);
            }
        }
        c.describe(format!("kernel {k} stride {st} outputs {o}"));
        c.nontrivial();
        Ok(())
    });
    ctx.family("layer", 2500, |c| {
        let cl = numeric_class(&mut c.rng);
        let mut s = conv_spec(&mut c.rng, cl, 3);
        if c.rng.chance(1, 3) {
            // dead channels and outputs of exactly zero
            if let Kind::Conv { biases, kernels, .. } = &mut s.kind {
                let p = c.rng.below(biases.len() as u64) as usize;
                biases[p] = *c.rng.pick(&[-1e6, 0.0, 0.0]);
                if biases[p] == 0.0 {
                    kernels[p].v.iter_mut().for_each(|x| *x = 0.0);
                }
            }
        }
        let inp = s.inp;
        passes(c, &s, cl, &|r| rt(r, cl, inp))
    });
    ctx.family("large", 16, |c| {
        let (simg, sker, stride): (Sh, Sh, u32) = *c.rng.pick(&[
            ([66000, 1, 1], [3, 1, 1], 1),
            ([1, 66001, 1], [1, 2, 1], 1),
            ([4, 4, 20000], [2, 2, 20000], 2),
            ([300, 280, 1], [4, 5, 1], 1),
            ([70001, 2, 1], [1, 2, 1], 70000),
            ([70000, 1, 1], [70000, 1, 1], 1),
            ([1, 70000, 1], [1, 69998, 1], 1),
        ]);
        let n = c.rng.range(1, 2);
        let out = [fits(simg[0], sker[0], stride).unwrap(), fits(simg[1], sker[1], stride).unwrap(), n];
        let ks: Vec<Rt> = (0..n).map(|_| rt(&mut c.rng, Class::Int, sker)).collect();
        let s = Spec {
            kind: Kind::Conv { ks: sker, stride, kernels: ks, biases: vec![1.0; n as usize] },
            name: "large".into(),
            inp: simg,
            out,
            exact: true,
        };
        let mut l = s.build()?;
        l.switch_to_training();
        let x = rt(&mut c.rng, Class::Sparse, simg);
        let xt = x.tensor();
        let mut o = Rt::zero(out).tensor();
        let r = l.forward(&xt, &mut o);
        ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
        let g = rt(&mut c.rng, Class::Int, out);
        let mut og = garbage(&mut c.rng, simg).tensor();
        let r = l.backward(&xt, &o, &g.tensor(), &mut og);
        ensure!(r.is_ok(), "backward of {} refused: {r:?}", s.show());
        s.check_backward(&x, &Rt::of(&o), &g, &Rt::of(&og))?;
        c.describe(s.show());
        c.key(x.hash());
        c.nontrivial();
        Ok(())
    });
    ctx.require("operations_judged", 4000);
    ctx.require("backwards_judged", 2000);
    ctx.require("nonzero_gradients", 1000);
}

struct Expect {
    shapes: Vec<Sh>,
    acc: Vec<Vec<Acc>>,
}
impl Expect {
    fn zero(s: &Spec) -> Expect {
        let shapes = s.param_shapes();
        let acc = shapes.iter().map(|s| vec![Acc::default(); size(*s)]).collect();
        Expect { shapes, acc }
    }
    fn add(&mut self, s: &Spec, x: &Rt, y: &Rt, g: &Rt) {
        for (n, (sh, v)) in s.param_grad(x, y, g).into_iter().enumerate() {
            assert_eq!(sh, self.shapes[n]);
            for (a, b) in self.acc[n].iter_mut().zip(v) {
                a.val += b.val;
                a.abs += b.abs;
                a.n += b.n + 1;
            }
        }
    }
    fn check(&self, l: &dyn Layer, s: &Spec, exact: bool, log: &str) -> R<bool> {
        let got = grads(l);
        ensure!(got.len() == self.shapes.len(), "{}: {} parameter gradients, {} parameters (history {log})", s.show(), got.len(), self.shapes.len());
        let mut nonzero = false;
        for (n, g) in got.iter().enumerate() {
            ensure!(g.s == self.shapes[n], "{}: gradient of parameter {n} has shape {:?}, parameter {:?} (history {log})", s.show(), g.s, self.shapes[n]);
            check_cells(&format!("{}: gradient of parameter {n} (history {log})", s.show()), g, &self.acc[n], exact, false)?;
            nonzero |= g.v.iter().any(|x| *x != 0.0);
        }
        Ok(nonzero)
    }
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule("non-trivial: after a backward pass, every cell of every parameter gradient was compared with the accumulated derivative and some cell was non-zero");
    ctx.assume("the gradients are read through the cfg(rn_hooks) accessor hook_parameter_gradients, which clones the layers' gradient tensors (the crate has no public accessor)");
    assert!(cfg!(rn_hooks), "needs the hooks build");
    fn history(c: &mut Case, s: &Spec, cl: Class, steps: u32) -> R {
        let mut l = s.build()?;
        let mut log = String::new();
        let mut exp = Expect::zero(s);
        let mut live = false; // in training mode
        let mut last: Option<(Rt, Tensor, Tensor, Rt)> = None;
        for _ in 0..steps {
            match c.op(12, 3) {
                0 if live => {
                    l.switch_to_inference();
                    log += "I";
                    live = false;
                    last = None;
                }
                0 | 1 => {
                    l.switch_to_training();
                    log += "T";
                    live = true;
                    last = None;
                    exp = Expect::zero(s);
                }
                2 => {
                    l.clear_gradients();
                    log += "c";
                    exp = Expect::zero(s);
                }
                3..=6 => {
                    let x = rt(&mut c.rng, cl, s.inp);
                    let xt = x.tensor();
                    let mut o = garbage(&mut c.rng, s.out).tensor();
                    let r = l.forward(&xt, &mut o);
                    ensure!(r.is_ok(), "forward of {} refused: {r:?} (history {log})", s.show());
                    let y = Rt::of(&o);
                    c.key(x.hash());
                    last = if live { Some((x, xt, o, y)) } else { None };
                    log += "f";
                }
                7 if live => {
                    // a refused call accumulates nothing
                    let sh = other_shape(&mut c.rng, s.out);
                    let g = garbage(&mut c.rng, sh).tensor();
                    let mut og = Rt::zero(s.inp).tensor();
                    let r = l.backward(&Rt::zero(s.inp).tensor(), &Rt::zero(s.out).tensor(), &g, &mut og);
                    ensure!(r.is_err(), "backward of {} accepted a gradient of shape {sh:?}", s.show());
                    log += "x";
                }
                _ => {
                    if let Some((x, xt, o, y)) = &last {
                        let g = gradient(&mut c.rng, cl, s.out);
                        let mut og = garbage(&mut c.rng, s.inp).tensor();
                        let r = l.backward(xt, o, &g.tensor(), &mut og);
                        ensure!(r.is_ok(), "backward of {} refused: {r:?} (history {log})", s.show());
                        exp.add(s, x, y, &g);
                        log += "b";
                        c.key(g.hash());
                        c.count("backwards", 1);
                    }
                }
            }
            if live {
                let nz = exp.check(l.as_ref(), s, cl.exact(), &log)?;
                c.count("gradient_sets_judged", 1);
                if nz {
                    c.nontrivial();
                    c.count("nonzero_gradient_sets", 1);
                }
            }
        }
        c.describe(format!("{} {cl:?} history {log}", s.show()));
        c.see("histories", hash_str(&log));
        Ok(())
    }
    ctx.family("layers", 3500, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = if c.rng.chance(3, 5) { conv_spec(&mut c.rng, cl, 3) } else { fc_spec(&mut c.rng, cl) };
        let n = c.steps(6, 22);
        history(c, &s, cl, n)
    });
    // network passes: each layer's gradients from the tensors its backward was given
    ctx.family("networks", 1500, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 4);
        let log = new_log();
        let (mut net, _) = build_monitored(&ch, NetworkRunState::Training, &log)?;
        let mut exp: Vec<Expect> = ch.iter().map(Expect::zero).collect();
        let mut hist = String::new();
        let out = ch.last().unwrap().out;
        let mut ready = false;
        for _ in 0..c.steps(2, 8) {
            match c.op(8, 1) {
                0 => {
                    net.switch_to_inference();
                    net.switch_to_training();
                    hist += "IT";
                    ready = false;
                    exp = ch.iter().map(Expect::zero).collect();
                }
                1..=3 => {
                    let x = rt(&mut c.rng, cl, ch[0].inp);
                    c.key(x.hash());
                    net.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
                    hist += "f";
                    ready = true;
                }
                _ if ready => {
                    log.borrow_mut().clear();
                    let g = gradient(&mut c.rng, cl, out);
                    c.key(g.hash());
                    net.backward(&g.tensor()).map_err(|e| format!("backward refused: {e}"))?;
                    hist += "b";
                    for e in log.borrow().iter() {
                        if let Ev::Bwd { id, input, output, inc, .. } = e {
                            exp[*id].add(&ch[*id], input, output, inc);
                        }
                    }
                    c.count("backwards", 1);
                }
                _ => {}
            }
            let small = |t: &Rt| t.v.iter().all(|x| x.abs() < 1e4 && x.fract() == 0.0);
            for (n, s) in ch.iter().enumerate() {
                if !s.has_params() {
                    continue;
                }
                // integer gradients stay exact as long as they are small
                let exact = cl.exact()
                    && log.borrow().iter().all(|e| match e {
                        Ev::Bwd { input, inc, .. } => small(input) && small(inc),
                        _ => true,
                    })
                    && hist.matches('b').count() <= 1;
                let nz = exp[n].check(net.get_layers()[n].as_ref(), s, exact, &hist)?;
                c.count("gradient_sets_judged", 1);
                if nz {
                    c.nontrivial();
                    c.count("nonzero_gradient_sets", 1);
                }
            }
        }
        c.describe(format!("{} {cl:?} history {hist}", chain_show(&ch)));
        Ok(())
    });
    ctx.family("operation", 2500, |c| {
        let cl = numeric_class(&mut c.rng);
        let g = geometry(&mut c.rng, 3);
        let n = c.rng.range(1, 4);
        let ch = c.rng.range(0, n - 1);
        let inc = gradient(&mut c.rng, cl, [g.out[0], g.out[1], n]);
        let img = rt(&mut c.rng, cl, g.inp);
        let (it, mt) = (inc.tensor(), img.tensor());
        let mut kg = garbage(&mut c.rng, g.win).tensor();
        let what = format!("kernel gradient {:?} of convolution {:?} stride {} channel {ch} of {n}", g.win, g.inp, g.stride);
        c.describe(format!("{what} {cl:?}"));
        c.key(inc.hash() ^ img.hash());
        let r = convolution_backprop_kernel(&it, &mt, g.stride, ch, &mut kg);
        ensure!(r.is_ok(), "{what} refused: {r:?}");
        check_cells(&what, &Rt::of(&kg), &conv_kernel_grad(&inc, &img, g.stride, g.win, ch), cl.exact(), false)?;
        ensure!(Rt::of(&it).same_bits(&inc) && Rt::of(&mt).same_bits(&img), "{what} changed an operand");
        c.count("operations_judged", 1);
        c.nontrivial();
        Ok(())
    });
    ctx.family("large", 10, |c| {
        let cl = Class::Int;
        let s = match c.rng.below(5) {
            0 => fc_sized(&mut c.rng, 70000, 2, 1),
            1 => fc_sized(&mut c.rng, 2, 70000, 1),
            2 => conv_sized(&mut c.rng, [66000, 1, 1], [3, 1, 1], 1, 2),
            3 => conv_sized(&mut c.rng, [1, 66001, 1], [1, 2, 1], 1, 2),
            _ => conv_sized(&mut c.rng, [2, 2, 1], [2, 2, 1], 1, 300),
        };
        history(c, &s, cl, 8)
    });
    ctx.require("backwards", 3000);
    ctx.require("nonzero_gradient_sets", 3000);
    ctx.require("operations_judged", 1500);
}
pub fn fc_sized(r: &mut Rng, inp: u32, out: u32, dk: u32) -> Spec {
    Spec {
        kind: Kind::Fc { w: rt(r, Class::Int, [out, inp, dk]), b: rt(r, Class::Int, [out, 1, dk]) },
        name: "sized".into(),
        inp: [inp, 1, dk],
        out: [out, 1, dk],
        exact: true,
    }
}
pub fn conv_sized(r: &mut Rng, inp: Sh, ks: Sh, stride: u32, n: u32) -> Spec {
    Spec {
        kind: Kind::Conv {
            ks,
            stride,
            kernels: (0..n).map(|_| rt(r, Class::Int, ks)).collect(),
            biases: values(r, Class::Int, n as usize),
        },
        name: "sized".into(),
        inp,
        out: [fits(inp[0], ks[0], stride).unwrap(), fits(inp[1], ks[1], stride).unwrap(), n],
        exact: true,
    }
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a backward pass with non-zero incoming and outgoing gradient was compared with the transposed Jacobian in every input cell");
    ctx.family("dense", 2500, |c| {
        let cl = numeric_class(&mut c.rng);
        let mut s = fc_spec(&mut c.rng, cl);
        if c.rng.chance(1, 3) {
            // outputs of exactly zero
            if let Kind::Fc { w, b } = &mut s.kind {
                if c.rng.chance(1, 2) {
                    b.v.iter_mut().for_each(|x| *x = 0.0);
                }
                let row = c.rng.range(0, w.s[0] - 1);
                let keep = w.clone();
                for (p, x) in w.v.iter_mut().enumerate() {
                    if unpos(keep.s, p).0 == row {
                        *x = 0.0;
                    }
                }
            }
        }
        let inp = s.inp;
        passes(c, &s, cl, &|r| rt(r, cl, inp))
    });
    ctx.family("pooling", 2500, |c| {
        let s = pool_spec(&mut c.rng);
        let (inp, style) = (s.inp, c.rng.below(4));
        let cl = numeric_class(&mut c.rng);
        passes(c, &s, cl, &|r| match style {
            0 => Rt { s: inp, v: distinct(r, size(inp)) },
            1 => rt(r, Class::Sparse, inp),
            2 => rt(r, Class::Wide, inp),
            _ => rt(r, Class::Int, inp),
        })
    });
    // who received what: each output carries its own power of two
    ctx.family("pooling_delivery", 3000, |c| {
        let s = pool_spec(&mut c.rng);
        let (win, stride) = match &s.kind {
            Kind::Pool { win, stride } => (*win, *stride),
            _ => unreachable!(),
        };
        let mut l = s.build()?;
        l.switch_to_training();
        let cl = *c.rng.pick(&[Class::Int, Class::Sparse, Class::Unit]);
        let x = if c.rng.chance(1, 5) {
            Rt { s: s.inp, v: vec![f32::NEG_INFINITY; size(s.inp)] }
        } else {
            rt(&mut c.rng, cl, s.inp)
        };
        let xt = x.tensor();
        let mut o = garbage(&mut c.rng, s.out).tensor();
        let r = l.forward(&xt, &mut o);
        ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
        let n = size(s.out);
        let mut outs: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut outs);
        for part in outs.chunks(20).take(4) {
            let mut g = Rt::zero(s.out);
            for (b, p) in part.iter().enumerate() {
                g.v[*p] = (1u32 << b) as f32;
            }
            let mut og = garbage(&mut c.rng, s.inp).tensor();
            let r = l.backward(&xt, &o, &g.tensor(), &mut og);
            ensure!(r.is_ok(), "backward of {} refused: {r:?}", s.show());
            let og = Rt::of(&og);
            let mut seen = 0u64;
            for (p, v) in og.v.iter().enumerate() {
                ensure!(v.fract() == 0.0 && *v >= 0.0 && *v < (1u32 << 21) as f32, "{}: cell {:?} received {v:?}, no sum of the incoming powers of two", s.show(), unpos(s.inp, p));
                let bits = *v as u64;
                for (b, q) in part.iter().enumerate() {
                    if bits >> b & 1 == 1 {
                        ensure!(seen >> b & 1 == 0, "{}: the gradient of output {:?} was delivered twice", s.show(), unpos(s.out, *q));
                        seen |= 1 << b;
                        let (i, j, k) = unpos(s.out, *q);
                        let (m, ps) = window_max(&x, win, stride, i, j, k);
                        ensure!(
                            ps.contains(&p),
                            "{}: the gradient of output ({i},{j},{k}) went to cell {:?}, which does not hold its window's maximum {m:?}",
                            s.show(),
                            unpos(s.inp, p)
                        );
                        c.count("deliveries", 1);
                    }
                }
                ensure!(bits >> part.len() == 0, "{}: cell {:?} received {v:?}, more than was sent", s.show(), unpos(s.inp, p));
            }
            ensure!(seen == (1u64 << part.len()) - 1, "{}: only outputs {seen:b} of {} were delivered", s.show(), part.len());
        }
        c.describe(format!("{} {cl:?}", s.show()));
        c.key(x.hash());
        c.nontrivial();
        Ok(())
    });
    ctx.family("softmax", 2500, |c| {
        let s = soft_spec(&mut c.rng);
        let inp = s.inp;
        let cl = *c.rng.pick(&[Class::Int, Class::Unit, Class::Wide]);
        passes(c, &s, cl, &|r| {
            let tc = if r.chance(1, 2) { Class::Unit } else { Class::Int };
            let mut t = rt(r, tc, inp);
            let off = *r.pick(&[0.0f32, 0.0, 100.0, -1000.0]);
            t.v.iter_mut().for_each(|x| *x += off);
            t
        })
    });
    ctx.family("large", 16, |c| {
        let s = match c.rng.below(5) {
            0 => fc_sized(&mut c.rng, 70000, 2, 1),
            1 => fc_sized(&mut c.rng, 2, 70000, 1),
            2 => Spec { kind: Kind::Soft, name: "l".into(), inp: [40000, 2, 1], out: [40000, 2, 1], exact: false },
            3 => Spec { kind: Kind::Pool { win: [2, 2, 1], stride: 2 }, name: "l".into(), inp: [70000, 2, 1], out: [35000, 1, 1], exact: true },
            _ => Spec { kind: Kind::Pool { win: [1, 3, 1], stride: 1 }, name: "l".into(), inp: [2, 35002, 1], out: [2, 35000, 1], exact: true },
        };
        let inp = s.inp;
        passes(c, &s, Class::Int, &|r| rt(r, Class::Int, inp))
    });
    ctx.require("backwards_judged", 8000);
    ctx.require("nonzero_gradients", 4000);
    ctx.require("deliveries", 10000);
}
