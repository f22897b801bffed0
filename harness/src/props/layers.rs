//! C07 (construction), C21 (refusals), C24 (restoring serialized state).
use super::files::{judge_net, judge_works, net_snap};
use super::network::last;
use super::tensors::fits;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use crate::wire::{shape_bytes, tensor_bytes, tensors_bytes, wt};
use rusty_network::layer::convolutional::{ConvolutionalLayer, ConvolutionalSerialKeys};
use rusty_network::layer::fully_connected::{FullyConnectedLayer, FullyConnectedSerialKeys};
use rusty_network::layer::max_pool::{MaxPoolLayer, MaxPoolSerialKeys};
use rusty_network::layer::softmax::{SoftMaxSerialKeys, SoftmaxLayer};
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

pub fn training(l: &dyn Layer) -> bool {
    l.get_run_mode() == NetworkRunState::Training
}
/// Shapes, name, and one forward (and, in training mode, backward) pass against the model.
pub fn judge_layer(c: &mut Case, l: &mut dyn Layer, s: &Spec, cl: Class) -> R {
    let (i, o) = (unshape(l.get_input_shape()), unshape(l.get_output_shape()));
    ensure!(i == s.inp && o == s.out, "{}: reports shapes {i:?} -> {o:?}", s.show());
    ensure!(l.get_name() == s.name, "{}: name is {:?}, should be {:?}", s.show(), l.get_name(), s.name);
    let x = rt(&mut c.rng, cl, s.inp);
    let mut out = garbage(&mut c.rng, s.out).tensor();
    let xt = x.tensor();
    let r = l.forward(&xt, &mut out);
    ensure!(r.is_ok(), "{}: forward on tensors of its shapes failed: {r:?}", s.show());
    let y = Rt::of(&out);
    s.check_forward(&x, &y)?;
    c.count("forwards_judged", 1);
    if training(l) {
        let g = rt(&mut c.rng, cl, s.out);
        let mut og = garbage(&mut c.rng, s.inp).tensor();
        let r = l.backward(&xt, &out, &g.tensor(), &mut og);
        ensure!(r.is_ok(), "{}: backward on tensors of its shapes failed: {r:?}", s.show());
        s.check_backward(&x, &y, &g, &Rt::of(&og))?;
        c.count("backwards_judged", 1);
    }
    Ok(())
}
/// What a refused call must leave alone.
pub struct Snap {
    shapes: (Sh, Sh),
    name: String,
    mode: NetworkRunState,
    dump: Vec<(u32, Vec<u8>)>,
    grads: Vec<Rt>,
}
pub fn snap(l: &dyn Layer) -> Snap {
    Snap {
        shapes: (unshape(l.get_input_shape()), unshape(l.get_output_shape())),
        name: l.get_name(),
        mode: l.get_run_mode(),
        dump: dump(l),
        grads: grads(l),
    }
}
#[cfg(rn_hooks)]
pub fn grads(l: &dyn Layer) -> Vec<Rt> {
    l.hook_parameter_gradients().iter().map(Rt::of).collect()
}
#[cfg(not(rn_hooks))]
pub fn grads(_l: &dyn Layer) -> Vec<Rt> {
    vec![]
}
impl Snap {
    pub fn same(&self, l: &dyn Layer, what: &str) -> R {
        let n = snap(l);
        ensure!(n.shapes == self.shapes, "{what}: the layer's shapes changed from {:?} to {:?}", self.shapes, n.shapes);
        ensure!(n.name == self.name, "{what}: the layer's name changed from {:?} to {:?}", self.name, n.name);
        ensure!(n.mode == self.mode, "{what}: the layer's mode changed from {:?} to {:?}", self.mode, n.mode);
        ensure!(n.dump == self.dump, "{what}: the layer's serialized state changed");
        ensure!(
            n.grads.len() == self.grads.len() && n.grads.iter().zip(&self.grads).all(|(a, b)| a.same_bits(b)),
            "{what}: the layer's parameter gradients changed"
        );
        Ok(())
    }
}
fn mode_to(l: &mut dyn Layer, train: bool) {
    if train {
        l.switch_to_training()
    } else {
        l.switch_to_inference()
    }
}

fn axis_ok(simg: Sh, win: Sh, stride: u32) -> Option<[u32; 2]> {
    Some([fits(simg[0], win[0], stride)?, fits(simg[1], win[1], stride)?])
}
fn fits32(s: Sh) -> bool {
    s.iter().map(|x| *x as u128).product::<u128>() <= u32::MAX as u128
        && s[0] as u128 * s[1] as u128 <= u32::MAX as u128
}

/// Constructs (new and fill_from_state on an existing layer) and judges admission.
fn conv_case(c: &mut Case, simg: Sh, win: Sh, stride: u32, depth: u32) -> R {
    let out2 = axis_ok(simg, win, stride);
    let ok = depth >= 1 && win[2] == simg[2] && out2.is_some() && {
        let o = out2.unwrap();
        fits32(simg) && fits32([o[0], o[1], depth])
    };
    let what = format!("convolution input {simg:?} kernel {win:?} stride {stride} depth {depth}");
    let nm = name(&mut c.rng);
    let r = ConvolutionalLayer::new(tshape(win), tshape(simg), stride, depth, &nm);
    ensure!(r.is_ok() == ok, "{what}: new() returned {:?}, should {}", r.as_ref().err(), if ok { "succeed" } else { "fail" });
    c.count(if ok { "accepted" } else { "refused" }, 1);
    if ok {
        let o = out2.unwrap();
        let out = [o[0], o[1], depth];
        let mut l = r.ok().unwrap();
        ensure!(
            unshape(l.get_input_shape()) == simg && unshape(l.get_output_shape()) == out,
            "{what}: reports {:?} -> {:?}, should be {simg:?} -> {out:?}",
            unshape(l.get_input_shape()),
            unshape(l.get_output_shape())
        );
        ensure!(!training(&l), "{what}: a new layer starts in training mode");
        let work = size(out) as u128 * size(win) as u128;
        if size(simg) <= 1 << 16 && size(out) <= 1 << 16 && work <= 1 << 22 {
            let s = Spec {
                kind: Kind::Conv { ks: win, stride, kernels: vec![Rt::zero(win); depth as usize], biases: vec![0.0; depth as usize] },
                name: nm,
                inp: simg,
                out,
                exact: true,
            };
            for t in [false, true] {
                mode_to(&mut l, t);
                judge_layer(c, &mut l, &s, Class::Int)?;
            }
        }
    }
    Ok(())
}
fn conv_fill_case(c: &mut Case, simg: Sh, kernels: &[Rt], biases: &[Rt], stride: u32) -> R {
    let win = kernels.first().map(|k| k.s).unwrap_or([1, 1, 1]);
    let out2 = axis_ok(simg, win, stride);
    let ok = !kernels.is_empty()
        && kernels.iter().all(|k| k.s == win)
        && biases.len() == kernels.len()
        && biases.iter().all(|b| b.s == [1, 1, 1])
        && win[2] == simg[2]
        && out2.is_some()
        && fits32(simg)
        && fits32([out2.unwrap()[0], out2.unwrap()[1], kernels.len() as u32]);
    let what = format!(
        "filling a convolution with input {simg:?} kernels {:?} biases {:?} stride {stride}",
        kernels.iter().map(|k| k.s).collect::<Vec<_>>(),
        biases.iter().map(|k| k.s).collect::<Vec<_>>()
    );
    c.describe(what.clone());
    // into an empty or an existing layer, in either mode
    let mut old = None;
    let mut l = if c.rng.chance(1, 3) {
        ConvolutionalLayer::empty()
    } else {
        let s = conv_spec(&mut c.rng, Class::Int, 3);
        let l = s.conv().map_err(|e| format!("constructing a valid layer ({}) failed: {e}", s.show()))?;
        old = Some(s);
        l
    };
    let train = c.rng.chance(1, 2);
    mode_to(&mut l, train);
    let before = snap(&l);
    let nm = name(&mut c.rng);
    let r = l.fill_from_state(
        kernels.iter().map(|k| k.tensor()).collect(),
        biases.iter().map(|k| k.tensor()).collect(),
        tshape(simg),
        stride,
        &nm,
    );
    ensure!(r.is_ok() == ok, "{what}: returned {r:?}, should {}", if ok { "succeed" } else { "fail" });
    c.count(if ok { "accepted" } else { "refused" }, 1);
    ensure!(training(&l) == train, "{what}: changed the layer's mode");
    if ok {
        let o = out2.unwrap();
        let s = Spec {
            kind: Kind::Conv { ks: win, stride, kernels: kernels.to_vec(), biases: biases.iter().map(|b| b.v[0]).collect() },
            name: nm,
            inp: simg,
            out: [o[0], o[1], kernels.len() as u32],
            exact: true,
        };
        judge_layer(c, &mut l, &s, Class::Int)?;
        mode_to(&mut l, !train);
        judge_layer(c, &mut l, &s, Class::Int)?;
    } else {
        before.same(&l, &what)?;
        if let Some(s) = old {
            judge_layer(c, &mut l, &s, Class::Int)?;
        }
    }
    Ok(())
}
fn pool_case(c: &mut Case, simg: Sh, win: Sh, stride: u32) -> R {
    let out2 = axis_ok(simg, win, stride);
    let ok = out2.is_some() && fits32(simg);
    let what = format!("pooling input {simg:?} mask {win:?} stride {stride}");
    let nm = name(&mut c.rng);
    let r = MaxPoolLayer::new(tshape(win), tshape(simg), stride, &nm);
    ensure!(r.is_ok() == ok, "{what}: new() returned {:?}, should {}", r.as_ref().err(), if ok { "succeed" } else { "fail" });
    c.count(if ok { "accepted" } else { "refused" }, 1);
    // into an existing layer, too
    let old = pool_spec(&mut c.rng);
    let mut l2 = old.pool().map_err(|e| format!("constructing a valid layer ({}) failed: {e}", old.show()))?;
    let small = size3(simg) <= 1 << 16;
    let train = c.rng.chance(1, 2) && small;
    mode_to(&mut l2, train);
    let before = snap(&l2);
    let r2 = l2.fill_from_state(tshape(simg), tshape(win), stride, &nm);
    ensure!(r2.is_ok() == ok, "{what}: fill_from_state returned {r2:?}, should {}", if ok { "succeed" } else { "fail" });
    ensure!(training(&l2) == train, "{what}: fill_from_state changed the mode");
    if ok {
        let o = out2.unwrap();
        let out = [o[0], o[1], simg[2]];
        let s = Spec { kind: Kind::Pool { win, stride }, name: nm, inp: simg, out, exact: true };
        let mut l = r.ok().unwrap();
        for l in [&mut l, &mut l2] {
            ensure!(
                unshape(l.get_input_shape()) == simg && unshape(l.get_output_shape()) == out,
                "{what}: reports {:?} -> {:?}, should be {simg:?} -> {out:?}",
                unshape(l.get_input_shape()),
                unshape(l.get_output_shape())
            );
            if small && size3(out) * win[0] as u128 * (win[1] as u128) <= 1 << 22 {
                judge_layer(c, l, &s, Class::Int)?;
                let t = training(l);
                mode_to(l, !t);
                judge_layer(c, l, &s, Class::Int)?;
            }
        }
    } else {
        before.same(&l2, &what)?;
        judge_layer(c, &mut l2, &old, Class::Int)?;
    }
    Ok(())
}
fn size3(s: Sh) -> u128 {
    s.iter().map(|x| *x as u128).product()
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a constructor or fill was called and its verdict, the reported shapes and (if accepted and small) forward and backward in both modes were compared with the admission formula and the model");
    ctx.assume("layers too large to run within the sandbox's memory are judged on admission and reported shapes only; inputs with zero depth are not exercised");
    // one axis exhaustively (input 0..=6, window 0..=6, stride 0..=5), the other sampled
    ctx.family_n("axis", 7 * 7 * 6 * 2 * 2, |c| {
        let mut x = c.idx as u32;
        let mut take = |n: u32| {
            let r = x % n;
            x /= n;
            r
        };
        let (inp, win, stride, ax, kind) = (take(7), take(7), take(6), take(2) as usize, take(2));
        let (mut oi, mut ow) = (c.rng.range(1, 5), 1);
        if c.rng.chance(3, 4) {
            ow = c.rng.range(1, 3);
            oi = ow + stride * c.rng.range(0, 2);
        } else if c.rng.chance(1, 2) {
            ow = c.rng.range(0, 6);
        }
        let d = c.rng.range(1, 3);
        let mut simg = [oi, oi, d];
        let mut w = [ow, ow, d];
        simg[ax] = inp;
        w[ax] = win;
        if kind == 0 {
            if c.rng.chance(1, 8) {
                w[2] = c.rng.range(1, 4);
            }
            let depth = if c.rng.chance(1, 10) { 0 } else { c.rng.range(1, 3) };
            c.describe(format!("conv {simg:?} {w:?} {stride} {depth}"));
            conv_case(c, simg, w, stride, depth)?;
        } else {
            w[2] = 1;
            c.describe(format!("pool {simg:?} {w:?} {stride}"));
            pool_case(c, simg, w, stride)?;
        }
        c.nontrivial();
        Ok(())
    });
    ctx.family("conv_fill", 2500, |c| {
        let g = geometry(&mut c.rng, 3);
        let n = c.rng.range(1, 4) as usize;
        let (mut simg, mut stride) = (g.inp, g.stride);
        let mut ks: Vec<Rt> = (0..n).map(|_| rt(&mut c.rng, Class::Int, g.win)).collect();
        let mut bs: Vec<Rt> = (0..n).map(|_| rt(&mut c.rng, Class::Int, [1, 1, 1])).collect();
        let r = &mut c.rng;
        match r.below(9) {
            0 => {
                let p = r.below(n as u64) as usize;
                let o = other_shape(r, g.win);
                ks[p] = rt(r, Class::Int, o);
            }
            1 => {
                bs.pop();
            }
            2 => bs.push(rt(r, Class::Int, [1, 1, 1])),
            3 => {
                let p = r.below(n as u64) as usize;
                let o = *r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]);
                bs[p] = rt(r, Class::Int, o);
            }
            4 => {
                ks.clear();
                if r.chance(1, 2) {
                    bs.clear();
                }
            }
            5 => simg = other_shape(r, simg),
            6 => stride = r.range(0, 5),
            _ => {}
        }
        conv_fill_case(c, simg, &ks, &bs, stride)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("pool_fill", 1000, |c| {
        let g = geometry(&mut c.rng, 3);
        let (mut simg, mut win, mut stride) = (g.inp, [g.win[0], g.win[1], 1], g.stride);
        let r = &mut c.rng;
        match r.below(6) {
            0 => simg = other_shape(r, simg),
            1 => stride = r.range(0, 5),
            2 => win[r.below(2) as usize] += r.range(1, 9),
            _ => {}
        }
        c.describe(format!("{simg:?} {win:?} {stride}"));
        pool_case(c, simg, win, stride)?;
        c.nontrivial();
        Ok(())
    });
    // extreme numbers
    ctx.family("extremes", 2500, |c| {
        let x = |r: &mut Rng| {
            *r.pick(&[0u32, 1, 2, 3, 255, 256, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX])
        };
        let r = &mut c.rng;
        let mut simg = [x(r), x(r), *r.pick(&[1, 1, 2, 65536, u32::MAX])];
        if r.chance(1, 2) {
            let d = r.below(2) as usize;
            simg[d] = r.range(1, 3);
        }
        let stride = if r.chance(1, 2) { r.range(1, 2) } else { x(r) };
        let mut win = [0, 0, simg[2]];
        for d in 0..2 {
            win[d] = match r.below(5) {
                0 => simg[d],
                1 => simg[d].saturating_sub(stride),
                2 => x(r),
                3 => simg[d].saturating_add(1),
                _ => 1,
            };
        }
        if r.chance(1, 2) {
            win[2] = 1;
            c.describe(format!("pool {simg:?} {win:?} {stride}"));
            pool_case(c, simg, win, stride)?;
        } else {
            let depth = *r.pick(&[1, 1, 2, 3, 70000]);
            c.describe(format!("conv {simg:?} {win:?} {stride} {depth}"));
            // accepted ones allocate their kernels: keep to small ones
            let acc = win[2] == simg[2] && axis_ok(simg, win, stride).is_some() && fits32(simg);
            if acc && size3(win) * depth as u128 > 1 << 22 {
                return Ok(());
            }
            conv_case(c, simg, win, stride, depth)?;
        }
        c.nontrivial();
        Ok(())
    });
    ctx.family("dense", 1500, |c| {
        let r = &mut c.rng;
        let sw = [r.range(1, 6), r.range(1, 6), r.range(1, 3)];
        let mut sb = [sw[0], 1, sw[2]];
        match r.below(6) {
            0 => sb = other_shape(r, sb),
            1 => sb[0] = sw[1],
            2 => sb = [1, sw[0], sw[2]],
            _ => {}
        }
        let ok = sb == [sw[0], 1, sw[2]];
        let old = fc_spec(r, Class::Int);
        let mut l = old.fc().map_err(|e| format!("constructing a valid layer ({}) failed: {e}", old.show()))?;
        let train = r.chance(1, 2);
        mode_to(&mut l, train);
        let before = snap(&l);
        let (w, b) = (rt(r, Class::Int, sw), rt(r, Class::Int, sb));
        let nm = name(r);
        let what = format!("filling a dense layer with weights {sw:?} and bias {sb:?}");
        c.describe(what.clone());
        let res = l.fill_from_state(w.tensor(), b.tensor(), &nm);
        ensure!(res.is_ok() == ok, "{what}: returned {res:?}, should {}", if ok { "succeed" } else { "fail" });
        c.count(if ok { "accepted" } else { "refused" }, 1);
        if ok {
            let s = Spec { inp: [sw[1], 1, sw[2]], out: sb, kind: Kind::Fc { w, b }, name: nm, exact: true };
            ensure!(training(&l) == train, "{what}: changed the layer's mode");
            judge_layer(c, &mut l, &s, Class::Int)?;
            mode_to(&mut l, !train);
            judge_layer(c, &mut l, &s, Class::Int)?;
        } else {
            before.same(&l, &what)?;
            judge_layer(c, &mut l, &old, Class::Int)?;
        }
        // and the sized constructor
        let (i, o) = (c.rng.range(1, 9), c.rng.range(1, 9));
        let nm = name(&mut c.rng);
        let mut l = FullyConnectedLayer::new(i, o, &nm);
        let (wv, bv) = (c.rng.irange(-3, 3) as f32, c.rng.irange(-3, 3) as f32);
        let mut s = Spec {
            inp: [i, 1, 1],
            out: [o, 1, 1],
            kind: Kind::Fc { w: Rt::zero([o, i, 1]), b: Rt::zero([o, 1, 1]) },
            name: nm,
            exact: true,
        };
        judge_layer(c, &mut l, &s, Class::Int)?;
        l.fill_weights_with_value(wv);
        l.fill_bias_with_value(bv);
        if let Kind::Fc { w, b } = &mut s.kind {
            w.v.iter_mut().for_each(|x| *x = wv);
            b.v.iter_mut().for_each(|x| *x = bv);
        }
        mode_to(&mut l, train);
        judge_layer(c, &mut l, &s, Class::Int)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("softmax", 300, |c| {
        let s = soft_spec(&mut c.rng);
        c.describe(s.show());
        let mut l = s.soft().map_err(|e| format!("softmax layer {:?} refused: {e}", s.inp))?;
        judge_layer(c, &mut l, &s, Class::Unit)?;
        l.switch_to_training();
        judge_layer(c, &mut l, &s, Class::Unit)?;
        let s2 = soft_spec(&mut c.rng);
        let r = l.fill_from_state(tshape(s2.inp), &s2.name);
        ensure!(r.is_ok(), "refilling a softmax layer refused: {r:?}");
        judge_layer(c, &mut l, &s2, Class::Unit)?;
        c.nontrivial();
        Ok(())
    });
    ctx.require("accepted", 1500);
    ctx.require("refused", 1500);
    ctx.require("forwards_judged", 2000);
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a call with at least one wrongly shaped tensor was made; its verdict and every tensor and later result were judged");
    ctx.family("layers", 4000, |c| {
        let s = any_spec(&mut c.rng, Class::Int);
        let mut l = s.build()?;
        let mut twin = s.build()?;
        let train = c.rng.chance(1, 2);
        mode_to(l.as_mut(), train);
        mode_to(twin.as_mut(), train);
        // a proper forward first, so that a pending backward could be disturbed
        let x = rt(&mut c.rng, Class::Int, s.inp);
        let (xt, mut out, mut tout) = (x.tensor(), Rt::zero(s.out).tensor(), Rt::zero(s.out).tensor());
        let r = l.forward(&xt, &mut out);
        ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
        let _ = twin.forward(&xt, &mut tout);
        let mut log = String::new();
        for _ in 0..c.steps(1, 4) {
            let before = snap(l.as_ref());
            let r = &mut c.rng;
            let fwd = r.chance(1, 2);
            let mut sh = [s.inp, s.out, s.out, s.inp]; // input, output, incoming, outgoing
            let n = if r.chance(1, 4) { 2 } else { 1 };
            let lim = if fwd { 2 } else { 4 };
            for _ in 0..n {
                let w = r.below(lim) as usize;
                sh[w] = match r.below(8) {
                    0 if s.inp != sh[w] => s.inp,
                    1 if s.out != sh[w] => s.out,
                    _ => other_shape(r, sh[w]),
                };
            }
            let ts: Vec<Rt> = sh.iter().map(|s| garbage(r, *s)).collect();
            let mut tt: Vec<Tensor> = ts.iter().map(|t| t.tensor()).collect();
            // tensors the derivative does not depend on need not be checked by the layer
            let wrong = if fwd {
                sh[0] != s.inp || sh[1] != s.out
            } else {
                sh[2] != s.out
                    || sh[3] != s.inp
                    || match s.kind {
                        Kind::Conv { .. } | Kind::Fc { .. } => sh[0] != s.inp,
                        Kind::Soft => sh[1] != s.out,
                        Kind::Pool { .. } => false,
                    }
            };
            if !wrong {
                continue;
            }
            let what = format!(
                "{} of {} ({}) with input {:?} output {:?}{}",
                if fwd { "forward" } else { "backward" },
                s.show(),
                if train { "training" } else { "inference" },
                sh[0],
                sh[1],
                if fwd { String::new() } else { format!(" incoming {:?} outgoing {:?}", sh[2], sh[3]) }
            );
            log += &format!("{what}; ");
            let res = if fwd {
                let (a, b) = tt.split_at_mut(1);
                l.forward(&a[0], &mut b[0])
            } else {
                let (a, b) = tt.split_at_mut(3);
                l.backward(&a[0], &a[1], &a[2], &mut b[0])
            };
            ensure!(res.is_err(), "{what}: accepted");
            c.count(if fwd { "refused_forwards" } else { "refused_backwards" }, 1);
            for (t, m) in tt.iter().zip(&ts) {
                ensure!(Rt::of(t).same_bits(m), "{what}: refused but changed a tensor of shape {:?}", m.s);
            }
            before.same(l.as_ref(), &what)?;
        }
        c.describe(format!("{}: {log}", s.show()));
        if log.is_empty() {
            return Ok(());
        }
        // the pending backward is what it would have been
        if train {
            let g = rt(&mut c.rng, Class::Int, s.out).tensor();
            let (mut a, mut b) = (garbage(&mut c.rng, s.inp).tensor(), Rt::zero(s.inp).tensor());
            let (r1, r2) = (l.backward(&xt, &out, &g, &mut a), twin.backward(&xt, &out, &g, &mut b));
            ensure!(r1.is_ok() && r2.is_ok(), "backward of {} refused after a refused call: {r1:?} {r2:?}", s.show());
            ensure!(Rt::of(&a).same(&Rt::of(&b)), "{}: backward differs after refused calls ({log})", s.show());
        }
        judge_layer(c, l.as_mut(), &s, Class::Int)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("networks", 1500, |c| {
        let ch = chain(&mut c.rng, Class::Int, 4);
        let mode = rand_mode(&mut c.rng);
        let log = new_log();
        let (mut net, _) = build_monitored(&ch, mode, &log)?;
        let (inp, out) = (ch[0].inp, ch.last().unwrap().out);
        c.describe(chain_show(&ch));
        let x = rt(&mut c.rng, Class::Int, inp);
        let r = net.infer(&x.tensor());
        ensure!(r.is_ok(), "infer refused: {r:?}");
        let states = |net: &Network| -> Vec<Rt> { (0..=ch.len()).map(|i| Rt::of(net.get_intermediate_state(i).unwrap())).collect() };
        let st = states(&net);
        for _ in 0..3 {
            log.borrow_mut().clear();
            let fwd = c.rng.chance(1, 2);
            let sh = other_shape(&mut c.rng, if fwd { inp } else { out });
            let t = garbage(&mut c.rng, sh);
            let tt = t.tensor();
            let r = if fwd { net.infer(&tt) } else { net.backward(&tt) };
            let what = format!("{} on a network {inp:?} -> {out:?} with a tensor {sh:?}", if fwd { "infer" } else { "backward" });
            ensure!(r.is_err(), "{what}: accepted");
            ensure!(Rt::of(&tt).same_bits(&t), "{what}: changed the tensor passed in");
            ensure!(!log.borrow().iter().any(|e| matches!(e, Ev::Fwd { .. } | Ev::Bwd { .. })), "{what}: refused but called a layer");
            let now = states(&net);
            ensure!(now.iter().zip(&st).all(|(a, b)| a.same_bits(b)), "{what}: refused but changed an intermediate state");
            ensure!(net.get_intermediate_state(ch.len() + 1).is_err(), "state {} exists in a network of {} layers", ch.len() + 1, ch.len());
            c.count("refused_network_calls", 1);
        }
        let x2 = rt(&mut c.rng, Class::Int, inp);
        net.infer(&x2.tensor()).map_err(|e| format!("infer refused after refused calls: {e}"))?;
        let mut cur = x2;
        for (i, s) in ch.iter().enumerate() {
            let o = Rt::of(net.get_intermediate_state(i + 1).unwrap());
            s.check_forward(&cur, &o)?;
            cur = o;
        }
        if mode == NetworkRunState::Training {
            let g = rt(&mut c.rng, Class::Int, out);
            net.backward(&g.tensor()).map_err(|e| format!("backward refused after refused calls: {e}"))?;
        }
        c.nontrivial();
        Ok(())
    });
    // tensor operations on arbitrary combinations of shapes never panic
    ctx.family("operation_shapes", 12000, |c| {
        let r = &mut c.rng;
        let base = [r.range(1, 3), r.range(1, 3), r.range(1, 3)];
        let sh = |r: &mut Rng| -> Sh {
            match r.below(6) {
                0 | 1 => base,
                2 => other_shape(r, base),
                3 => [r.range(1, 5), r.range(1, 5), r.range(1, 4)],
                4 => [r.range(0, 3), r.range(0, 3), r.range(0, 2)],
                _ => *r.pick(&[[1, 1, 1], [0, 1, 1], [1, 0, 1], [1, 1, 0], [7, 1, 1], [1, 7, 1], [1, 1, 7]]),
            }
        };
        let t = |r: &mut Rng| {
            let s = sh(r);
            rt(r, Class::Special, s)
        };
        let (a, b, d, mut o) = (t(r), t(r), t(r), t(r).tensor());
        let (ta, tb, td) = (a.tensor(), b.tensor(), d.tensor());
        let stride = *r.pick(&[0, 1, 1, 1, 2, 3, u32::MAX, 1 << 31]);
        let ch = *r.pick(&[0, 0, 1, 2, u32::MAX]);
        let mask = tshape(if r.chance(1, 6) { [u32::MAX, 1, 1] } else { sh(r) });
        let mut list: Vec<u32> = (0..r.below(12)).map(|_| if r.chance(1, 8) { u32::MAX } else { r.range(0, 12) }).collect();
        let opn = r.below(18);
        let os = unshape(o.get_shape());
        let what = format!("operation {opn} on {:?} {:?} {:?} -> {os:?} stride {stride} channel {ch} mask {mask:?}", a.s, b.s, d.s);
        c.describe(what.clone());
        c.key(a.hash());
        // what does not agree in shape is not computed
        let (sa, sb) = (a.s, b.s);
        let agrees = match opn {
            0 | 4 => sa == sb && sa == os,
            1 | 3 | 5 | 14 => sa == os,
            6 => sb == os,
            7 => os == [sa[1], sa[0], sa[2]],
            8 => sa[0] == sb[0] && os == [sa[1], sb[1], sa[2]] && sb[2] == sa[2],
            9 => sa[1] == sb[1] && os == [sa[0], sb[0], sa[2]] && sb[2] == sa[2],
            10 => sa[1] == sb[0] && os == [sa[0], sb[1], sa[2]] && sb[2] == sa[2],
            _ => true,
        };
        let o_before = Rt::of(&o);
        let mut refused = None;
        let res = guarded(|| match opn {
            0 => Tensor::add(&ta, &tb, &mut o),
            1 => Tensor::add_to_self(&mut o, &ta),
            2 => drop(Tensor::add_from_index_list(&ta, &mut o, &list)),
            3 => Tensor::scale(&ta, 2.0, &mut o),
            4 => Tensor::multiply_elementwise(&ta, &tb, &mut o),
            5 => Tensor::multiply_elementwise_self(&mut o, &ta),
            6 => refused = Some(Tensor::relu_self_and_store_mask(&mut o, &mut tb.clone()).is_err()),
            7 => refused = Some(Tensor::transpose_ij(&ta, &mut o).is_err()),
            8 => refused = Some(Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut o).is_err()),
            9 => refused = Some(Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut o).is_err()),
            10 => Tensor::matrix_multiply(&ta, &tb, &mut o),
            11 => Tensor::matrix_multiply_add_relu(&ta, &tb, &td, &mut o),
            12 => Tensor::max_pool(&ta, &mask, stride, &mut o),
            13 => drop(Tensor::max_pool_track_origin(&ta, &mask, stride, &mut o, &mut list)),
            14 => Tensor::softmax(&ta, &mut o),
            15 => drop(convolution_bias(&ta, &tb, &td, stride, &mut o, ch).and(convolution_bias_relu(&ta, &tb, &td, stride, &mut o, ch))),
            16 => drop(convolution_backprop_outgoing_gradient(&ta, &vec![tb.clone(), td.clone()][..1 + (ch % 2) as usize].to_vec(), stride, &mut o)),
            _ => drop(convolution_backprop_kernel(&ta, &tb, stride, ch, &mut o)),
        });
        ensure!(res.is_ok(), "{what}: {}", res.unwrap_err());
        ensure!(unshape(o.get_shape()) == os, "{what}: the result's shape became {:?}", unshape(o.get_shape()));
        if !agrees {
            ensure!(refused != Some(false), "{what}: accepted though the shapes do not agree");
            ensure!(Rt::of(&o).same_bits(&o_before), "{what}: changed the destination though the shapes do not agree");
            c.count("disagreeing_operations", 1);
        }
        for (t, m) in [(&ta, &a), (&tb, &b), (&td, &d)] {
            ensure!(Rt::of(t).same_bits(m), "{what}: changed an operand");
        }
        c.count("operation_calls", 1);
        c.nontrivial();
        Ok(())
    });
    ctx.require("refused_forwards", 1000);
    ctx.require("refused_backwards", 1000);
    ctx.require("refused_network_calls", 1000);
    ctx.require("operation_calls", 5000);
    ctx.require("disagreeing_operations", 2000);
}

pub fn spec_layer(kind: u64, r: &mut Rng, cl: Class) -> Spec {
    match kind {
        0 => conv_spec(r, cl, 3),
        1 => pool_spec(r),
        2 => fc_spec(r, cl),
        _ => soft_spec(r),
    }
}
/// A copy of a serialized layer with one field changed.
fn edit(s: &SerializedLayer, field: usize, f: &dyn Fn(&mut Vec<u8>) -> bool) -> SerializedLayer {
    macro_rules! go {
        ($m:expr, $v:path, $keys:expr) => {{
            let mut h = std::collections::HashMap::new();
            let keys = $keys;
            for (n, k) in keys.into_iter().enumerate() {
                if let Some(b) = $m.get(&k) {
                    let mut b = b.clone();
                    if n != field || f(&mut b) {
                        h.insert(k, b);
                    }
                }
            }
            $v(h)
        }};
    }
    use ConvolutionalSerialKeys as CK;
    use FullyConnectedSerialKeys as FK;
    use MaxPoolSerialKeys as MK;
    use SoftMaxSerialKeys as SK;
    match s {
        SerializedLayer::SerialConvolutionalLayer(m) => {
            go!(m, SerializedLayer::SerialConvolutionalLayer, [CK::Kernels, CK::Biases, CK::InputShape, CK::Stride, CK::Name])
        }
        SerializedLayer::SerialFullyConnectedLayer(m) => {
            go!(m, SerializedLayer::SerialFullyConnectedLayer, [FK::Weights, FK::Bias, FK::Name])
        }
        SerializedLayer::SerialMaxPoolLayer(m) => {
            go!(m, SerializedLayer::SerialMaxPoolLayer, [MK::InputShape, MK::MaskShape, MK::Stride, MK::Name])
        }
        SerializedLayer::SerialSoftMaxLayer(m) => go!(m, SerializedLayer::SerialSoftMaxLayer, [SK::Shape, SK::Name]),
    }
}
/// A complete state whose parts do not fit together (or are no values of their kind).
fn misfit(r: &mut Rng, s: &Spec, ser: &SerializedLayer) -> (SerializedLayer, String) {
    let set = |f: usize, b: Vec<u8>| {
        edit(ser, f, &|x| {
            *x = b.clone();
            true
        })
    };
    let k = s.kind_name();
    let last = fields(s) - 1;
    let word = |x: u32| x.to_le_bytes().to_vec();
    let many = |v: &[Rt]| tensors_bytes(&v.iter().map(wt).collect::<Vec<_>>());
    if matches!(s.kind, Kind::Soft) || r.chance(1, 5) {
        let mut b = vec![3u8, 0, 0, 0, 0, 0, 0, 0, b'a'];
        b.extend(r.pick(&[[0xff, b'x'], [0xc3, 0x28], [0x80, 0x80]]));
        return (set(last, b), format!("a {k} layer whose name is not text"));
    }
    match &s.kind {
        Kind::Fc { b, .. } => {
            let o = other_shape(r, b.s);
            (set(1, tensor_bytes(&wt(&rt(r, Class::Int, o)))), format!("a {k} layer of bias {:?} with bias {o:?}", b.s))
        }
        Kind::Conv { ks, kernels, biases, .. } => {
            let mut bs: Vec<Rt> = biases.iter().map(|x| Rt { s: [1, 1, 1], v: vec![*x] }).collect();
            let mut ks2 = kernels.clone();
            let p = r.below(bs.len() as u64) as usize;
            match r.below(6) {
                0 => bs.push(rt(r, Class::Int, [1, 1, 1])),
                1 => {
                    bs.pop();
                }
                2 => {
                    let o = *r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]);
                    bs[p] = rt(r, Class::Int, o);
                }
                3 => return (set(3, word(0)), format!("a {k} layer with stride 0")),
                4 => return (set(2, shape_bytes([s.inp[0], s.inp[1], s.inp[2] + 1])), format!("a {k} layer with an image deeper than its kernels")),
                _ => {
                    let o = other_shape(r, *ks);
                    if ks2.len() > 1 {
                        ks2[p] = rt(r, Class::Int, o);
                    } else {
                        ks2.push(rt(r, Class::Int, *ks));
                    }
                    return (set(0, many(&ks2)), format!("a {k} layer with kernels that do not fit"));
                }
            }
            (set(1, many(&bs)), format!("a {k} layer with biases that do not fit"))
        }
        Kind::Pool { .. } => match r.below(3) {
            0 => (set(2, word(0)), format!("a {k} layer with stride 0")),
            1 => (set(1, shape_bytes([s.inp[0] + 1, 1, 1])), format!("a {k} layer with a window wider than its input")),
            _ => (set(1, shape_bytes([1, s.inp[1] + r.range(1, 9), 1])), format!("a {k} layer with a window higher than its input")),
        },
        Kind::Soft => unreachable!(),
    }
}
fn fields(s: &Spec) -> usize {
    match s.kind {
        Kind::Conv { .. } => 5,
        Kind::Fc { .. } => 3,
        Kind::Pool { .. } => 4,
        Kind::Soft => 2,
    }
}
/// The same layer but for one detail (or not even that).
fn nearly(r: &mut Rng, cl: Class, s: &Spec) -> Spec {
    let mut o = s.clone();
    let new = |r: &mut Rng, v: &mut [f32]| {
        let n = v.len();
        let p = r.below(n as u64) as usize;
        let fresh = values(r, cl, n);
        if r.chance(1, 2) {
            v[p] = fresh[p];
        } else {
            v.copy_from_slice(&fresh);
        }
    };
    match &mut o.kind {
        Kind::Fc { w, b } => match r.below(4) {
            0 => new(r, &mut b.v),
            1 => o.name.push('x'),
            2 if w.v.len() > 1 => w.v.rotate_left(1),
            _ => new(r, &mut w.v),
        },
        Kind::Conv { kernels, biases, .. } => match r.below(4) {
            0 => new(r, biases),
            1 => o.name.push('x'),
            2 => kernels.rotate_left(1),
            _ => {
                let k = r.below(kernels.len() as u64) as usize;
                new(r, &mut kernels[k].v);
            }
        },
        _ => o.name.push('x'),
    }
    o.exact = false;
    o
}
pub fn zero_grads(l: &dyn Layer, s: &Spec, what: &str) -> R {
    let g = grads(l);
    if training(l) && cfg!(rn_hooks) {
        let want = s.param_shapes();
        ensure!(
            g.iter().map(|t| t.s).collect::<Vec<_>>() == want,
            "{what}: parameter gradients have shapes {:?}, parameters {want:?}",
            g.iter().map(|t| t.s).collect::<Vec<_>>()
        );
        ensure!(g.iter().all(|t| t.v.iter().all(|x| *x == 0.0)), "{what}: parameter gradients are not zero");
    }
    Ok(())
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a serialized layer was loaded into (or refused by) a layer object, whose parameters, shapes, mode, forward, backward and gradients were then compared with the original's");
    ctx.family("restore", 3000, |c| {
        let cl = numeric_class(&mut c.rng);
        let kind = c.rng.below(4);
        let s = spec_layer(kind, &mut c.rng, cl);
        let mut orig = s.build()?;
        if c.rng.chance(1, 3) {
            orig.switch_to_training();
        }
        // a used or fresh target
        let mut target = Spec::empty_of(s.kind_name());
        let mut log = String::new();
        if c.rng.chance(2, 3) {
            let o = if c.rng.chance(1, 3) { nearly(&mut c.rng, cl, &s) } else { spec_layer(kind, &mut c.rng, cl) };
            target = o.build()?;
            log += &format!("held {}, ", o.show());
            if c.rng.chance(1, 2) {
                mode_to(target.as_mut(), true);
                judge_layer(c, target.as_mut(), &o, cl)?;
            }
        }
        let mut train = c.rng.chance(1, 2);
        if c.rng.chance(3, 4) {
            mode_to(target.as_mut(), train);
        } else {
            train = training(target.as_ref());
        }
        log += if train { "training" } else { "inference" };
        c.describe(format!("{} into an object that {log}", s.show()));
        c.key(s.hash());
        let before = dump(orig.as_ref());
        let ser = orig.get_serialized();
        let r = target.load_from_serialized(&ser);
        ensure!(r.is_ok(), "restoring {} ({log}) refused: {r:?}", s.show());
        ensure!(training(target.as_ref()) == train, "restoring {} changed the object's mode", s.show());
        ensure!(dump(target.as_ref()) == before, "the restored {} has another serialized state ({log})", s.show());
        ensure!(dump(orig.as_ref()) == before, "serializing {} changed it", s.show());
        ensure!(target.get_name() == s.name, "restored name is {:?}, was {:?}", target.get_name(), s.name);
        zero_grads(target.as_ref(), &s, &format!("restored {} ({log})", s.show()))?;
        mode_to(orig.as_mut(), train);
        for round in 0..2 {
            let x = rt(&mut c.rng, cl, s.inp).tensor();
            let (mut a, mut b) = (garbage(&mut c.rng, s.out).tensor(), garbage(&mut c.rng, s.out).tensor());
            let (r1, r2) = (orig.forward(&x, &mut a), target.forward(&x, &mut b));
            ensure!(r1.is_ok() && r2.is_ok(), "forward of {} after restoring: {r1:?} {r2:?} ({log})", s.show());
            ensure!(Rt::of(&a).same_bits(&Rt::of(&b)), "restored {} computes another result ({log})", s.show());
            let g = rt(&mut c.rng, cl, s.out).tensor();
            let (mut ga, mut gb) = (garbage(&mut c.rng, s.inp).tensor(), garbage(&mut c.rng, s.inp).tensor());
            let (r1, r2) = (orig.backward(&x, &a, &g, &mut ga), target.backward(&x, &a, &g, &mut gb));
            ensure!(r1.is_ok() == train && r2.is_ok() == train, "backward of {} after restoring: {r1:?} {r2:?} ({log})", s.show());
            if train {
                ensure!(Rt::of(&ga).same_bits(&Rt::of(&gb)), "restored {} computes another input gradient ({log})", s.show());
                let (pa, pb) = (grads(orig.as_ref()), grads(target.as_ref()));
                ensure!(
                    pa.len() == pb.len() && pa.iter().zip(&pb).all(|(x, y)| x.same_bits(y)),
                    "restored {} computes other parameter gradients in round {round} ({log})",
                    s.show()
                );
                c.count("backwards_compared", 1);
            }
            c.count("forwards_compared", 1);
        }
        mode_to(target.as_mut(), !train);
        judge_layer(c, target.as_mut(), &s, cl)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("refuse", 3000, |c| {
        let kind = c.rng.below(4);
        let own = spec_layer(kind, &mut c.rng, Class::Int);
        let mut l = own.build()?;
        let mut twin = own.build()?;
        let train = c.rng.chance(1, 2);
        mode_to(l.as_mut(), train);
        mode_to(twin.as_mut(), train);
        let x = rt(&mut c.rng, Class::Int, own.inp).tensor();
        let (mut a, mut b) = (Rt::zero(own.out).tensor(), Rt::zero(own.out).tensor());
        ensure!(l.forward(&x, &mut a).is_ok() && twin.forward(&x, &mut b).is_ok(), "forward of {} refused", own.show());
        let before = snap(l.as_ref());
        let (ser, what) = if c.rng.chance(1, 3) {
            let k2 = (kind + 1 + c.rng.below(3)) % 4;
            let s = spec_layer(k2, &mut c.rng, Class::Int);
            (s.build()?.get_serialized(), format!("a {} layer", s.kind_name()))
        } else {
            let s = spec_layer(kind, &mut c.rng, Class::Int);
            let f = c.rng.below(fields(&s) as u64) as usize;
            let ser = s.build()?.get_serialized();
            match c.rng.below(5) {
                3 | 4 => misfit(&mut c.rng, &s, &ser),
                0 | 1 => (edit(&ser, f, &|_| false), format!("a {} layer lacking field {f}", s.kind_name())),
                _ => {
                    let cut = c.rng.u64();
                    (
                        edit(&ser, f, &|b| {
                            let n = (cut % b.len() as u64) as usize;
                            b.truncate(n);
                            true
                        }),
                        format!("a {} layer with field {f} cut off", s.kind_name()),
                    )
                }
            }
        };
        let what = format!("loading {what} into {}", own.show());
        c.describe(what.clone());
        c.key(own.hash());
        let r = l.load_from_serialized(&ser);
        ensure!(r.is_err(), "{what}: accepted");
        before.same(l.as_ref(), &what)?;
        c.count("refused_loads", 1);
        if train {
            let g = rt(&mut c.rng, Class::Int, own.out).tensor();
            let (mut p, mut q) = (garbage(&mut c.rng, own.inp).tensor(), Rt::zero(own.inp).tensor());
            let (r1, r2) = (l.backward(&x, &a, &g, &mut p), twin.backward(&x, &a, &g, &mut q));
            ensure!(r1.is_ok() && r2.is_ok(), "{what}: backward afterwards: {r1:?} {r2:?}");
            ensure!(Rt::of(&p).same(&Rt::of(&q)), "{what}: refused, but the pending backward changed");
        }
        judge_layer(c, l.as_mut(), &own, Class::Int)?;
        c.nontrivial();
        Ok(())
    });
    // several objects restored from one state are independent of each other and of the original
    ctx.family("independent", 600, |c| {
        let s = spec_layer(2, &mut c.rng, Class::Int);
        let mut orig = s.fc().map_err(|e| e.to_string())?;
        let ser = orig.get_serialized();
        let mut a = FullyConnectedLayer::empty();
        let r = a.load_from_serialized(&ser);
        ensure!(r.is_ok(), "restoring refused: {r:?}");
        orig.fill_weights_with_value(9.0);
        orig.fill_bias_with_value(9.0);
        let mut b = FullyConnectedLayer::empty();
        let r = b.load_from_serialized(&ser);
        ensure!(r.is_ok(), "restoring refused: {r:?}");
        a.fill_bias_with_value(-3.0);
        c.describe(s.show());
        c.key(s.hash());
        judge_layer(c, &mut b, &s, Class::Int)?;
        let mut soft = SoftmaxLayer::empty();
        let s2 = soft_spec(&mut c.rng);
        let ser = s2.build()?.get_serialized();
        let r = soft.load_from_serialized(&ser);
        ensure!(r.is_ok(), "restoring refused: {r:?}");
        judge_layer(c, &mut soft, &s2, Class::Unit)?;
        c.nontrivial();
        Ok(())
    });
    // serialized layers added straight to a network
    ctx.family("assemble", 900, |c| {
        let cl = numeric_class(&mut c.rng);
        let mode = rand_mode(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 4);
        let mut net = Network::new(mode);
        c.describe(format!("adding the serialized layers of {} to a network in {mode:?}", chain_show(&ch)));
        c.key(chain_hash(&ch));
        let mut have: Vec<Spec> = vec![];
        for s in &ch {
            let mut orig = s.build()?;
            if c.rng.chance(1, 3) {
                orig.switch_to_training();
            }
            let ser = orig.get_serialized();
            // what does not fit first
            while c.rng.chance(2, 5) {
                let f = c.rng.below(fields(s) as u64) as usize;
                let (bad, why) = match c.rng.below(4) {
                    0 => misfit(&mut c.rng, s, &ser),
                    1 => (edit(&ser, f, &|_| false), format!("a {} layer lacking field {f}", s.kind_name())),
                    2 => {
                        let g = c.rng.below(fields(s) as u64) as usize;
                        (edit(&edit(&ser, f, &|_| false), g, &|_| false), format!("a {} layer lacking fields {f} and {g}", s.kind_name()))
                    }
                    _ => {
                        let k = c.rng.below(4);
                        let o = spec_layer(k, &mut c.rng, cl);
                        if have.is_empty() || o.inp == last(&have) {
                            continue;
                        }
                        (o.build()?.get_serialized(), format!("{}", o.show()))
                    }
                };
                let what = format!("adding {why} to a network of {}", chain_show(&have));
                if !have.is_empty() && c.rng.chance(1, 2) {
                    net.infer(&rt(&mut c.rng, cl, have[0].inp).tensor()).map_err(|e| format!("{what}: infer before refused: {e}"))?;
                }
                let before = net_snap(&net);
                let r = bad.add_to_network(&mut net);
                ensure!(r.is_err(), "{what}: accepted");
                before.same(&net, &what)?;
                c.count("refused_additions", 1);
            }
            let r = ser.add_to_network(&mut net);
            ensure!(r.is_ok(), "adding the serialized {} to a network of {}: {r:?}", s.show(), chain_show(&have));
            have.push(s.clone());
            let what = format!("network of serialized {}", chain_show(&have));
            judge_net(&net, &have, mode, &what)?;
            // the network's layer is a copy: the original goes its own way
            orig.clear_gradients();
            c.count("additions", 1);
        }
        judge_works(c, &mut net, &have, cl, "network of serialized layers")?;
        if c.rng.chance(1, 2) {
            // and its layers serialize and are added again
            let mode2 = rand_mode(&mut c.rng);
            let mut second = Network::new(mode2);
            for l in net.get_layers() {
                let r = l.get_serialized().add_to_network(&mut second);
                ensure!(r.is_ok(), "adding a network's serialized layers to another: {r:?}");
            }
            judge_net(&second, &have, mode2, "network made of another's serialized layers")?;
            judge_works(c, &mut second, &have, cl, "network made of another's serialized layers")?;
        }
        c.nontrivial();
        Ok(())
    });
    ctx.require("forwards_compared", 2000);
    ctx.require("backwards_compared", 500);
    ctx.require("refused_loads", 1500);
    ctx.require("additions", 1500);
    ctx.require("refused_additions", 500);
}
