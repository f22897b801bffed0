//! C11-C16: the network as a composition of layers.
use super::e2e::Front;
use super::layers::*;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

pub const TRAIN: NetworkRunState = NetworkRunState::Training;
pub const INFER: NetworkRunState = NetworkRunState::Inference;

pub fn switch(net: &mut Network, m: NetworkRunState) {
    if m == TRAIN {
        net.switch_to_training()
    } else {
        net.switch_to_inference()
    }
}
pub fn states(net: &Network, n: usize) -> R<Vec<Rt>> {
    (0..=n)
        .map(|i| net.get_intermediate_state(i).map(Rt::of).map_err(|e| format!("intermediate state {i} of a network of {n} layers: {e}")))
        .collect()
}
pub fn last(v: &[Spec]) -> Sh {
    v.last().unwrap().out
}

/// Judges the recorded trace of one infer.
fn judge_infer(c: &mut Case, ev: &[Ev], ch: &[Spec], x: &Rt, net: &Network, model: bool) -> R {
    let st = states(net, ch.len())?;
    ensure!(st[0].same_bits(x), "intermediate state 0 is {}, the input was {}", st[0].show(), x.show());
    let mut n = 0;
    for e in ev {
        if let Ev::Fwd { id, input, out, ok } = e {
            ensure!(*id == n, "forward calls out of order: layer {id} was called as number {n}");
            ensure!(*ok, "layer {id} failed but infer succeeded");
            ensure!(input.same_bits(&st[n]), "layer {n} was given {}, but state {n} is {}", input.show(), st[n].show());
            ensure!(out.same_bits(&st[n + 1]), "layer {n} produced {}, but state {} is {}", out.show(), n + 1, st[n + 1].show());
            n += 1;
            c.count("forward_events", 1);
        }
        ensure!(!matches!(e, Ev::Bwd { .. }), "infer called a backward pass");
    }
    ensure!(n == ch.len(), "infer called {n} layers of {}", ch.len());
    for (i, s) in ch.iter().enumerate().filter(|_| model) {
        s.check_forward(&st[i], &st[i + 1]).map_err(|e| format!("state {} is not layer {i} applied to state {i}: {e}", i + 1))?;
    }
    let o = net.get_output().map_err(|e| format!("get_output after infer: {e}"))?;
    ensure!(Rt::of(o).same_bits(&st[ch.len()]), "get_output differs from the last state");
    for i in [ch.len() + 1, ch.len() + 2, usize::MAX, usize::MAX / 2] {
        ensure!(net.get_intermediate_state(i).is_err(), "intermediate state {i} exists in a network of {} layers", ch.len());
    }
    Ok(())
}
/// Judges the recorded trace of one successful backward.
fn judge_backward(c: &mut Case, ev: &[Ev], ch: &[Spec], st: &[Rt], g: &Rt, model: bool) -> R {
    let mut n = ch.len();
    let mut expect = g.clone();
    for e in ev {
        if let Ev::Bwd { id, input, output, inc, outg, ok } = e {
            ensure!(n > 0, "backward called more layers than there are ({id} in addition)");
            n -= 1;
            ensure!(*id == n, "backward calls out of order: layer {id} was called instead of {n}");
            ensure!(*ok, "layer {id} failed but backward succeeded");
            ensure!(input.same_bits(&st[n]), "backward of layer {n} was given the input {}, the latest infer gave it {}", input.show(), st[n].show());
            ensure!(output.same_bits(&st[n + 1]), "backward of layer {n} was given the output {}, the latest infer produced {}", output.show(), st[n + 1].show());
            ensure!(inc.same_bits(&expect), "layer {n} was given the gradient {}, should be {}", inc.show(), expect.show());
            if model {
                ch[n].check_backward(input, output, inc, outg)?;
            }
            expect = outg.clone();
            c.count("backward_events", 1);
        }
        ensure!(!matches!(e, Ev::Fwd { .. }), "backward called a forward pass");
    }
    ensure!(n == 0, "backward called only the layers from {n} on");
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a backward pass of a network of at least two layers was recorded and its trace judged, or a refused one was shown to call no layer");
    ctx.family("histories", 4000, |c| {
        let cl = chain_class(&mut c.rng);
        let mut ch = chain(&mut c.rng, cl, 5);
        let log = new_log();
        let mut mode = rand_mode(&mut c.rng);
        let (mut net, mut taps) = build_monitored(&ch, mode, &log)?;
        let mut hist = String::new();
        // the input of the latest infer, if it succeeded in the present training period
        let mut st: Option<Vec<Rt>> = None;
        for _ in 0..c.steps(4, 14) {
            log.borrow_mut().clear();
            match c.op(12, 1) {
                0 => {
                    mode = rand_mode(&mut c.rng);
                    switch(&mut net, mode);
                    hist += if mode == TRAIN { "T" } else { "I" };
                    st = None;
                }
                1..=3 => {
                    let x = rt(&mut c.rng, cl, ch[0].inp);
                    net.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
                    hist += "f";
                    c.key(x.hash());
                    st = Some(states(&net, ch.len())?);
                }
                4 => {
                    // refused: wrong shape
                    let sh = other_shape(&mut c.rng, last(&ch));
                    let r = net.backward(&garbage(&mut c.rng, sh).tensor());
                    ensure!(r.is_err(), "backward accepted a gradient of shape {sh:?}, the output has {:?}", last(&ch));
                    ensure!(log.borrow().is_empty(), "a refused backward called a layer");
                    hist += "x";
                    c.count("refusals", 1);
                }
                5 if ch.len() < 7 => {
                    let s = next_spec(&mut c.rng, cl, last(&ch));
                    let t = add_monitored(&mut net, &s, ch.len(), &log)?.map_err(|e| format!("adding a fitting layer refused: {e}"))?;
                    taps.push(t);
                    ch.push(s);
                    hist += "a";
                    st = None;
                }
                6 if st.is_some() && mode == TRAIN => {
                    // a layer fails: its error comes out, no earlier layer is called
                    let p = c.rng.below(ch.len() as u64) as usize;
                    taps[p].fail_bwd.set(0);
                    let g = rt(&mut c.rng, cl, last(&ch));
                    let r = net.backward(&g.tensor());
                    taps[p].fail_bwd.set(-1);
                    ensure!(r == Err(INJECTED), "layer {p} failed but backward returned {r:?}");
                    let ids: Vec<usize> = log.borrow().iter().filter_map(|e| if let Ev::Bwd { id, .. } = e { Some(*id) } else { None }).collect();
                    let want: Vec<usize> = (p..ch.len()).rev().collect();
                    ensure!(ids == want, "layer {p} failed; backward called layers {ids:?}, should have called {want:?}");
                    hist += "!";
                    c.count("failing_layers", 1);
                }
                _ => {
                    let special = c.rng.chance(1, 8);
                    let g = rt(&mut c.rng, if special { Class::Special } else { cl }, last(&ch));
                    let gt = g.tensor();
                    if mode == INFER {
                        let r = net.backward(&gt);
                        ensure!(r.is_err(), "backward accepted in inference mode (history {hist})");
                        ensure!(log.borrow().is_empty(), "a refused backward called a layer");
                        hist += "x";
                        c.count("refusals", 1);
                    } else if let Some(st) = &st {
                        let r = net.backward(&gt);
                        hist += "b";
                        ensure!(r.is_ok(), "backward refused: {r:?} (history {hist})");
                        judge_backward(c, &log.borrow(), &ch, st, &g, !special).map_err(|e| format!("{e} (network {}, history {hist})", chain_show(&ch)))?;
                        ensure!(Rt::of(&gt).same_bits(&g), "backward changed the gradient passed in");
                        c.key(g.hash());
                        c.count("backwards", 1);
                        if ch.len() > 1 {
                            c.nontrivial();
                        }
                    }
                }
            }
        }
        c.describe(format!("{} {cl:?} history {hist}", chain_show(&ch)));
        c.see("networks", chain_hash(&ch));
        c.see("histories", hash_str(&hist));
        Ok(())
    });
    ctx.family("empty", 50, |c| {
        let mode = rand_mode(&mut c.rng);
        let mut net = Network::new(mode);
        for _ in 0..c.rng.range(0, 3) {
            let m = rand_mode(&mut c.rng);
            switch(&mut net, m);
        }
        let s = if c.rng.chance(1, 2) { [0, 0, 0] } else { shape(&mut c.rng) };
        c.describe(format!("{mode:?} gradient {s:?}"));
        let r = net.backward(&garbage(&mut c.rng, s).tensor());
        ensure!(r.is_err(), "backward accepted by an empty network");
        c.count("refusals", 1);
        c.nontrivial();
        Ok(())
    });
    // a backward pass after every one of more than 65 536 inferences
    ctx.family_n("endurance", if ctx.tier == "thorough" { 400 } else { 40 }, |c| endurance(c, true));
    ctx.require("endurance_calls", 600_000);
    ctx.require("backwards", 3000);
    ctx.require("backward_events", 8000);
    ctx.require("refusals", 1000);
    ctx.require("failing_layers", 200);
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule("non-trivial: forward results of both modes on the same input were compared with each other (exactly, for small integers) and with the model");
    fn close(s: &Spec, x: &Rt, a: &Rt, b: &Rt) -> R {
        if s.exact_on(x) && s.kind_name() != "softmax" {
            let big = a.v.iter().any(|v| v.abs() > 1e6);
            if !big {
                ensure!(a.same(b), "{}: forward gives {} and {} in different modes", s.show(), a.show(), b.show());
            }
        }
        Ok(())
    }
    ctx.family("layers", 3500, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = any_spec(&mut c.rng, cl);
        let mut l = s.build()?;
        let d = dump(l.as_ref());
        let xs: Vec<Rt> = (0..2).map(|_| rt(&mut c.rng, cl, s.inp)).collect();
        let mut base: Vec<Option<Rt>> = vec![None, None];
        let mut log = String::new();
        let mut modes = [0u64; 2];
        for n in 0..c.steps(4, 9) {
            match c.rng.below(3) {
                0 => {
                    l.switch_to_training();
                    log += "T";
                }
                1 => {
                    l.switch_to_inference();
                    log += "I";
                }
                _ if n == 1 => {
                    let t = training(l.as_ref());
                    if t {
                        l.switch_to_inference()
                    } else {
                        l.switch_to_training()
                    }
                    log += "S";
                }
                _ => {}
            }
            ensure!(dump(l.as_ref()) == d, "{}: switching modes changed the parameters (history {log})", s.show());
            ensure!(l.get_name() == s.name, "{}: switching modes changed the name (history {log})", s.show());
            ensure!(
                unshape(l.get_input_shape()) == s.inp && unshape(l.get_output_shape()) == s.out,
                "{}: switching modes changed the shapes (history {log})",
                s.show()
            );
            let p = c.rng.below(2) as usize;
            let xt = xs[p].tensor();
            let mut o = garbage(&mut c.rng, s.out).tensor();
            let r = l.forward(&xt, &mut o);
            ensure!(r.is_ok(), "forward of {} refused: {r:?} (history {log})", s.show());
            log += "f";
            modes[training(l.as_ref()) as usize] += 1;
            let y = Rt::of(&o);
            s.check_forward(&xs[p], &y).map_err(|e| format!("{e} (history {log})"))?;
            match &base[p] {
                None => base[p] = Some(y),
                Some(b) => {
                    close(&s, &xs[p], b, &y).map_err(|e| format!("{e} (history {log})"))?;
                    c.count("comparisons", 1);
                }
            }
            if training(l.as_ref()) && c.rng.chance(1, 3) {
                let g = rt(&mut c.rng, cl, s.out).tensor();
                let mut og = garbage(&mut c.rng, s.inp).tensor();
                let r = l.backward(&xt, &o, &g, &mut og);
                ensure!(r.is_ok(), "backward of {} refused: {r:?}", s.show());
                if c.rng.chance(1, 2) {
                    l.clear_gradients();
                }
                log += "b";
            }
        }
        if modes[0] > 0 && modes[1] > 0 {
            c.nontrivial();
            c.count("both_modes", 1);
        }
        c.describe(format!("{} {cl:?} history {log}", s.show()));
        c.key(xs[0].hash());
        Ok(())
    });
    ctx.family("networks", 2500, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 5);
        let m0 = rand_mode(&mut c.rng);
        let mut net = build_net(&ch, m0)?;
        let d = dump_net(&net);
        let x = rt(&mut c.rng, cl, ch[0].inp);
        let xt = x.tensor();
        let mut base: Option<Vec<Rt>> = None;
        let mut log = String::new();
        for n in 0..c.rng.range(2, 5) {
            if n > 0 {
                let m = if n == 1 {
                    if m0 == TRAIN {
                        INFER
                    } else {
                        TRAIN
                    }
                } else {
                    rand_mode(&mut c.rng)
                };
                switch(&mut net, m);
                log += if m == TRAIN { "T" } else { "I" };
            }
            ensure!(dump_net(&net) == d, "switching modes changed a parameter, name or shape ({log})");
            ensure!(unshape(net.get_input_shape()) == ch[0].inp && unshape(net.get_output_shape()) == last(&ch), "switching modes changed the network's shapes");
            net.infer(&xt).map_err(|e| format!("infer refused: {e} ({log})"))?;
            log += "f";
            let st = states(&net, ch.len())?;
            for (i, s) in ch.iter().enumerate() {
                s.check_forward(&st[i], &st[i + 1]).map_err(|e| format!("{e} (history {log})"))?;
            }
            if let Some(b) = &base {
                for (i, s) in ch.iter().enumerate() {
                    // as long as everything so far is exact, both modes agree exactly
                    if s.kind_name() == "softmax" || !s.exact_on(&b[i]) {
                        break;
                    }
                    close(s, &b[i], &b[i + 1], &st[i + 1]).map_err(|e| format!("layer {i}: {e} (history {log})"))?;
                    c.count("comparisons", 1);
                }
                // and any mode approximately
                let (a, z) = (&b[ch.len()], &st[ch.len()]);
                for (p, q) in a.v.iter().zip(&z.v) {
                    let top = b.iter().flat_map(|t| t.v.iter()).fold(1.0f32, |m, v| m.max(v.abs()));
                    ensure!((p - q).abs() <= 1e-3 * top, "network output changes from {p:?} to {q:?} between modes (history {log})");
                }
            } else {
                base = Some(st);
            }
            if net.get_run_state() == TRAIN && c.rng.chance(1, 2) {
                let g = rt(&mut c.rng, cl, last(&ch));
                net.backward(&g.tensor()).map_err(|e| format!("backward refused: {e}"))?;
                log += "b";
            }
        }
        c.describe(format!("{} {cl:?} {m0:?} history {log}", chain_show(&ch)));
        c.key(x.hash());
        c.nontrivial();
        c.count("both_modes", 1);
        Ok(())
    });
    // infinities, NaN and overflow-free extremes: sums of such terms do not depend on the order of evaluation
    ctx.family("unusual", 1500, |c| {
        let mut s = any_spec(&mut c.rng, Class::Int);
        let odd = |r: &mut Rng, nan: bool| -> f32 {
            match r.below(10) {
                0 => f32::INFINITY,
                1 => f32::NEG_INFINITY,
                2 if nan => f32::NAN,
                3 => -0.0,
                4 => 1e-40,
                _ => r.irange(-4, 4) as f32,
            }
        };
        let wild = c.rng.chance(1, 2);
        let nan = s.kind_name() != "pool";
        match &mut s.kind {
            Kind::Conv { kernels, biases, .. } if wild => {
                for v in kernels.iter_mut().flat_map(|k| k.v.iter_mut()).chain(biases.iter_mut()) {
                    if c.rng.chance(1, 8) {
                        *v = odd(&mut c.rng, true);
                    }
                }
            }
            Kind::Fc { w, b } if wild => {
                for v in w.v.iter_mut().chain(b.v.iter_mut()) {
                    if c.rng.chance(1, 8) {
                        *v = odd(&mut c.rng, true);
                    }
                }
            }
            _ => {}
        }
        let mut x = rt(&mut c.rng, Class::Int, s.inp);
        let den = *c.rng.pick(&[2, 4, 12, 40]);
        for v in x.v.iter_mut() {
            if c.rng.chance(1, den) {
                *v = odd(&mut c.rng, nan);
            }
        }
        let (mut a, mut b) = (s.build()?, s.build()?);
        b.switch_to_training();
        let xt = x.tensor();
        let mut oa = garbage(&mut c.rng, s.out).tensor();
        let mut ob = garbage(&mut c.rng, s.out).tensor();
        c.describe(format!("{} on {}", s.show(), x.show()));
        let (ra, rb) = (a.forward(&xt, &mut oa), b.forward(&xt, &mut ob));
        ensure!(ra.is_ok() && rb.is_ok(), "forward of {} refused: {ra:?} {rb:?}", s.show());
        let (oa, ob) = (Rt::of(&oa), Rt::of(&ob));
        for (p, (u, v)) in oa.v.iter().zip(&ob.v).enumerate() {
            let ok = same_num(*u, *v) || (u.is_finite() && v.is_finite() && (u - v).abs() <= 1e-4 * (1.0 + u.abs()));
            ensure!(ok, "forward of {}: cell {p} is {u:?} in inference mode and {v:?} in training mode", s.show());
        }
        c.count("unusual_comparisons", 1);
        if x.v.iter().any(|v| !v.is_finite()) {
            c.nontrivial();
        }
        Ok(())
    });
    ctx.require("comparisons", 4000);
    ctx.require("both_modes", 3000);
    ctx.require("unusual_comparisons", 1000);
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule("non-trivial: an infer of a network with at least one layer was recorded and its trace and all its states were judged");
    ctx.family("traces", 5000, |c| {
        let cl = chain_class(&mut c.rng);
        let mut ch = chain(&mut c.rng, cl, 6);
        let log = new_log();
        let mode = rand_mode(&mut c.rng);
        let (mut net, mut taps) = build_monitored(&ch, mode, &log)?;
        let mut hist = String::new();
        for _ in 0..c.steps(1, 5) {
            log.borrow_mut().clear();
            match c.op(8, 1) {
                0 => {
                    let m = rand_mode(&mut c.rng);
                    switch(&mut net, m);
                    hist += "S";
                }
                1 if ch.len() < 8 => {
                    let s = next_spec(&mut c.rng, cl, last(&ch));
                    let t = add_monitored(&mut net, &s, ch.len(), &log)?.map_err(|e| format!("adding a fitting layer refused: {e}"))?;
                    taps.push(t);
                    ch.push(s);
                    hist += "a";
                }
                2 => {
                    let p = c.rng.below(ch.len() as u64) as usize;
                    taps[p].fail_fwd.set(0);
                    let r = net.infer(&rt(&mut c.rng, cl, ch[0].inp).tensor());
                    taps[p].fail_fwd.set(-1);
                    ensure!(r == Err(INJECTED), "layer {p} failed but infer returned {r:?}");
                    let ids: Vec<usize> = log.borrow().iter().filter_map(|e| if let Ev::Fwd { id, .. } = e { Some(*id) } else { None }).collect();
                    ensure!(ids == (0..=p).collect::<Vec<_>>(), "layer {p} failed; infer called layers {ids:?}");
                    hist += "!";
                    c.count("failing_layers", 1);
                }
                3 => {
                    let sh = other_shape(&mut c.rng, ch[0].inp);
                    let r = net.infer(&garbage(&mut c.rng, sh).tensor());
                    ensure!(r.is_err(), "infer accepted an input of shape {sh:?}, should be {:?}", ch[0].inp);
                    ensure!(log.borrow().is_empty(), "a refused infer called a layer");
                    hist += "x";
                    c.count("refusals", 1);
                }
                _ => {
                    // arbitrary bit patterns too: what the layers make of them is not judged, that they get them is
                    let special = c.rng.chance(1, 8);
                    let x = rt(&mut c.rng, if special { Class::Special } else { cl }, ch[0].inp);
                    let xt = x.tensor();
                    let r = net.infer(&xt);
                    hist += "f";
                    ensure!(r.is_ok(), "infer refused: {r:?} (history {hist})");
                    ensure!(Rt::of(&xt).same_bits(&x), "infer changed its input tensor");
                    judge_infer(c, &log.borrow(), &ch, &x, &net, !special).map_err(|e| format!("{e} (network {}, history {hist})", chain_show(&ch)))?;
                    c.key(x.hash());
                    c.count("infers", 1);
                    c.nontrivial();
                }
            }
        }
        c.describe(format!("{} {cl:?} {mode:?} history {hist}", chain_show(&ch)));
        c.see("networks", chain_hash(&ch));
        Ok(())
    });
    ctx.family("empty", 60, |c| {
        let mode = rand_mode(&mut c.rng);
        let mut net = Network::new(mode);
        for _ in 0..c.rng.range(0, 3) {
            let m = rand_mode(&mut c.rng);
            switch(&mut net, m);
        }
        let s = if c.rng.chance(1, 2) { [0, 0, 0] } else { shape(&mut c.rng) };
        c.describe(format!("{mode:?} input {s:?}"));
        ensure!(net.infer(&garbage(&mut c.rng, s).tensor()).is_err(), "infer accepted by an empty network");
        ensure!(net.get_output().is_err(), "an empty network has an output");
        for i in [0, 1, 2, usize::MAX] {
            ensure!(net.get_intermediate_state(i).is_err(), "an empty network has an intermediate state {i}");
        }
        c.count("refusals", 1);
        c.nontrivial();
        Ok(())
    });
    ctx.require("infers", 4000);
    ctx.require("forward_events", 10000);
    ctx.require("failing_layers", 300);
    ctx.require("refusals", 300);
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule("non-trivial: after a history of at least one earlier call, infer was compared bit for bit with a freshly built twin, and the serialized parameters with those at construction");
    let dir = ctx.scratch.clone();
    ctx.family("histories", 3500, |c| {
        let cl = chain_class(&mut c.rng);
        let mut ch = chain(&mut c.rng, cl, 4);
        let mut mode = rand_mode(&mut c.rng);
        let mut net = build_net(&ch, mode)?;
        let mut hist = String::new();
        let file = dir.join(format!("c14-{}-{}", c.family, c.idx)).to_string_lossy().to_string();
        let mut prev: Option<(Rt, Rt)> = None;
        for _ in 0..c.steps(3, 14) {
            let d = dump_net(&net);
            let mut added = false;
            match c.op(14, 2) {
                0 | 1 => {
                    mode = rand_mode(&mut c.rng);
                    switch(&mut net, mode);
                    hist += if mode == TRAIN { "T" } else { "I" };
                    prev = None;
                }
                2 | 3 => {
                    let g = rt(&mut c.rng, cl, last(&ch));
                    let gt = g.tensor();
                    let _ = net.backward(&gt);
                    ensure!(Rt::of(&gt).same_bits(&g), "backward changed the gradient passed in (history {hist})");
                    hist += "b";
                }
                4 => {
                    let sh = other_shape(&mut c.rng, ch[0].inp);
                    let _ = net.infer(&garbage(&mut c.rng, sh).tensor());
                    hist += "x";
                }
                5 => {
                    let sh = other_shape(&mut c.rng, last(&ch));
                    let _ = net.backward(&garbage(&mut c.rng, sh).tensor());
                    hist += "y";
                }
                6 => {
                    net.save_to_file(&file).map_err(|e| format!("saving failed: {e}"))?;
                    hist += "s";
                }
                7 if ch.len() < 7 => {
                    let s = next_spec(&mut c.rng, cl, last(&ch));
                    s.add(&mut net)?.map_err(|e| format!("adding a fitting layer refused: {e}"))?;
                    ch.push(s);
                    added = true;
                    hist += "a";
                    prev = None;
                }
                8 => {
                    let s = any_spec(&mut c.rng, cl);
                    if s.inp != last(&ch) {
                        ensure!(s.add(&mut net)?.is_err(), "a layer that does not fit was accepted");
                        hist += "z";
                    }
                }
                9 => {
                    let r = net.load_from_file(&(file.clone() + ".none"));
                    ensure!(r.is_err(), "loading a missing file succeeded");
                    hist += "l";
                }
                _ => {
                    let x = match (&prev, c.rng.below(4)) {
                        (Some((x, _)), 0) => x.clone(),
                        (_, 1) => {
                            let mut x = rt(&mut c.rng, cl, ch[0].inp);
                            // one special cell
                            let p = c.rng.below(x.v.len() as u64) as usize;
                            x.v[p] = *c.rng.pick(&SPECIALS);
                            x
                        }
                        _ => rt(&mut c.rng, cl, ch[0].inp),
                    };
                    let xt = x.tensor();
                    net.infer(&xt).map_err(|e| format!("infer refused: {e} (history {hist})"))?;
                    hist += "f";
                    ensure!(Rt::of(&xt).same_bits(&x), "infer changed its input tensor (history {hist})");
                    let y = Rt::of(net.get_output().map_err(|e| e.to_string())?);
                    let mut twin = build_net(&ch, mode)?;
                    twin.infer(&xt).map_err(|e| format!("infer of a fresh network refused: {e}"))?;
                    let (a, b) = (states(&net, ch.len())?, states(&twin, ch.len())?);
                    for (i, (p, q)) in a.iter().zip(&b).enumerate() {
                        let same = p.s == q.s && p.v.iter().zip(&q.v).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
                        ensure!(same, "after history {hist} ({mode:?}) of {}: state {i} is {}, a fresh network computes {}", chain_show(&ch), p.show(), q.show());
                    }
                    c.count("twin_comparisons", 1);
                    if hist.len() > 1 {
                        c.nontrivial();
                    }
                    c.key(x.hash());
                    prev = Some((x, y));
                }
            }
            let now = dump_net(&net);
            ensure!(now[..d.len()] == d[..] && now.len() == d.len() + added as usize, "a call changed the network's parameters (history {hist})");
            ensure!(net.get_run_state() == mode, "the mode is not the one requested last (history {hist})");
        }
        let _ = std::fs::remove_file(&file);
        c.describe(format!("{} {cl:?} history {hist}", chain_show(&ch)));
        c.see("histories", hash_str(&hist));
        Ok(())
    });
    // what single layers compute does not depend on their past or on leftovers in the output tensor
    ctx.family("layers", 2500, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = any_spec(&mut c.rng, cl);
        let mut l = s.build()?;
        let d = dump(l.as_ref());
        let mut hist = String::new();
        for _ in 0..c.steps(2, 10) {
            match c.op(6, 3) {
                0 => {
                    l.switch_to_training();
                    hist += "T"
                }
                1 => {
                    l.switch_to_inference();
                    hist += "I"
                }
                2 => {
                    l.clear_gradients();
                    hist += "c"
                }
                _ => {
                    let x = rt(&mut c.rng, cl, s.inp);
                    let xt = x.tensor();
                    let (mut a, mut b) = (garbage(&mut c.rng, s.out).tensor(), Rt::zero(s.out).tensor());
                    let mut twin = s.build()?;
                    if training(l.as_ref()) {
                        twin.switch_to_training();
                    }
                    let (r1, r2) = (l.forward(&xt, &mut a), twin.forward(&xt, &mut b));
                    ensure!(r1.is_ok() && r2.is_ok(), "forward of {} refused: {r1:?} {r2:?}", s.show());
                    hist += "f";
                    ensure!(Rt::of(&a).same_bits(&Rt::of(&b)), "after history {hist}, {} computes {}, a fresh layer {}", s.show(), Rt::of(&a).show(), Rt::of(&b).show());
                    if training(l.as_ref()) {
                        let g = rt(&mut c.rng, cl, s.out);
                        let gt = g.tensor();
                        let (mut p, mut q) = (garbage(&mut c.rng, s.inp).tensor(), Rt::zero(s.inp).tensor());
                        let (r1, r2) = (l.backward(&xt, &a, &gt, &mut p), twin.backward(&xt, &b, &gt, &mut q));
                        ensure!(r1.is_ok() && r2.is_ok(), "backward of {} refused: {r1:?} {r2:?}", s.show());
                        hist += "b";
                        ensure!(Rt::of(&p).same_bits(&Rt::of(&q)), "after history {hist}, {} back-propagates {}, a fresh layer {}", s.show(), Rt::of(&p).show(), Rt::of(&q).show());
                    }
                    c.count("twin_comparisons", 1);
                    c.nontrivial();
                    c.key(x.hash());
                }
            }
            ensure!(dump(l.as_ref()) == d, "a call changed the parameters of {} (history {hist})", s.show());
        }
        c.describe(format!("{} {cl:?} history {hist}", s.show()));
        Ok(())
    });
    // more calls than a two-byte counter holds, every result compared with that of the first call
    ctx.family("endurance", 20, |c| endurance(c, false));
    ctx.require("twin_comparisons", 8000);
    ctx.require("endurance_calls", 10_000_000);
}

/// One network under more than 65 536 calls, each answer compared with a fresh network's.
/// `turns`: every inference is followed by a backward pass.
fn endurance(c: &mut Case, turns: bool) -> R {
    let cl = chain_class(&mut c.rng);
    let small = |s: &Spec| size(s.inp) * size(s.out) <= 150;
    let mut ch = chain(&mut c.rng, cl, 2);
    for _ in 0..400 {
        if ch.iter().all(small) {
            break;
        }
        ch = chain(&mut c.rng, cl, 2);
    }
    if !ch.iter().all(small) {
        return Ok(());
    }
    c.describe(format!("endurance {cl:?} {}", chain_show(&ch)));
    let off = (turns || c.rng.chance(1, 2)) as usize;
    let seen: Rc<RefCell<Option<Rt>>> = Rc::new(RefCell::new(None));
    let mut mode = if turns { TRAIN } else { rand_mode(&mut c.rng) };
    let mut net = Network::new(mode);
    if off == 1 {
        net.add_layer(Front { s: ch[0].inp, mode: INFER, seen: seen.clone() }).map_err(|e| format!("adding a first layer failed: {e}"))?;
    }
    for s in &ch {
        s.add(&mut net)?.map_err(|e| format!("adding a fitting layer refused: {e}"))?;
    }
    // what fresh networks answer to three inputs and three gradients
    let xs: Vec<Rt> = (0..3).map(|_| rt(&mut c.rng, cl, ch[0].inp)).collect();
    let gs: Vec<Rt> = (0..3).map(|_| rt(&mut c.rng, cl, last(&ch))).collect();
    let mut outs: Vec<[Rt; 2]> = vec![];
    let mut ins: Vec<Vec<Rt>> = vec![];
    for x in &xs {
        let mut o: Vec<Rt> = vec![];
        for m in [INFER, TRAIN] {
            let mut t = build_net(&ch, m)?;
            t.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
            o.push(Rt::of(t.get_output().map_err(|e| e.to_string())?));
        }
        outs.push([o[0].clone(), o[1].clone()]);
        let mut row = vec![];
        for g in &gs {
            let (sn, mut t): (Rc<RefCell<Option<Rt>>>, _) = (Rc::new(RefCell::new(None)), Network::new(TRAIN));
            t.add_layer(Front { s: ch[0].inp, mode: INFER, seen: sn.clone() }).map_err(|e| format!("adding a first layer failed: {e}"))?;
            for s in &ch {
                s.add(&mut t)?.map_err(|e| format!("adding a fitting layer refused: {e}"))?;
            }
            t.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
            t.backward(&g.tensor()).map_err(|e| format!("backward refused: {e}"))?;
            let w: Option<Rt> = sn.borrow().clone();
            row.push(w.ok_or("backward did not reach the first layer")?);
        }
        ins.push(row);
    }
    let (xt, gt): (Vec<_>, Vec<_>) = (xs.iter().map(|x| x.tensor()).collect(), gs.iter().map(|g| g.tensor()).collect());
    let same = |a: &Rt, b: &Rt| a.s == b.s && a.v.iter().zip(&b.v).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
    // mostly infers, mostly backwards, both, mode switches too, or one after the other
    let style = if turns { 4 } else { c.rng.below(4) };
    let mut at: Option<usize> = None;
    let n = if cfg!(miri) { 300 } else { c.rng.range(66_000, 69_000) * (1 + turns as u32) };
    for step in 0..n {
        let k = match style {
            0 => 0,
            1 => 1,
            2 => c.rng.below(2),
            4 => (step % 2) as u64,
            _ => c.rng.below(3),
        };
        if k == 1 && mode == TRAIN && at.is_some() {
            let q = c.rng.below(3) as usize;
            *seen.borrow_mut() = None;
            net.backward(&gt[q]).map_err(|e| format!("backward number {step} refused: {e}"))?;
            if off == 1 {
                let w: Option<Rt> = seen.borrow().clone();
                let w = w.ok_or("backward did not reach the first layer")?;
                let want = &ins[at.unwrap()][q];
                ensure!(same(&w, want), "call {step}: the gradient at the input is {}, a fresh network's {}", w.show(), want.show());
            }
        } else if k == 2 || (k == 1 && mode != TRAIN) {
            mode = if mode == TRAIN { INFER } else { TRAIN };
            switch(&mut net, mode);
            at = None;
        } else {
            let p = c.rng.below(3) as usize;
            net.infer(&xt[p]).map_err(|e| format!("infer number {step} refused: {e}"))?;
            let y = Rt::of(net.get_output().map_err(|e| e.to_string())?);
            let want = &outs[p][(mode == TRAIN) as usize];
            ensure!(same(&y, want), "call {step} ({mode:?}): the output is {}, a fresh network's {}", y.show(), want.show());
            at = Some(p);
        }
    }
    let d: Vec<_> = net.get_layers()[off..].iter().map(|l| dump(l.as_ref())).collect();
    ensure!(d == dump_net(&build_net(&ch, mode)?), "the parameters changed within {n} calls");
    c.count("endurance_calls", n as u64);
    c.nontrivial();
    c.key(xs[0].hash());
    Ok(())
}

fn coherent(net: &Network, mode: NetworkRunState, hist: &str) -> R {
    ensure!(net.get_run_state() == mode, "the network reports {:?}, requested was {mode:?} (history {hist})", net.get_run_state());
    for (i, l) in net.get_layers().iter().enumerate() {
        ensure!(l.get_run_mode() == mode, "layer {i} of a {mode:?} network reports {:?} (history {hist})", l.get_run_mode());
    }
    Ok(())
}
pub fn c15(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a history with at least one mode request on a network with layers, with the modes of network and all layers compared after every call");
    let dir = ctx.scratch.clone();
    ctx.family("histories", 3500, |c| {
        let mut mode = rand_mode(&mut c.rng);
        let mut net = Network::new(mode);
        let mut hist = if mode == TRAIN { "t".to_string() } else { "i".into() };
        let mut ch: Vec<Spec> = vec![];
        let log = new_log();
        let file = dir.join(format!("c15-{}", c.idx)).to_string_lossy().to_string();
        let mut limit = if c.rng.chance(1, 10) { 24 } else { 6 };
        if !cfg!(miri) && c.rng.chance(1, 150) {
            // start from more layers than a byte can number
            limit = 400;
            for s in deep_chain(&mut c.rng, Class::Int) {
                let mut l = s.build()?;
                if c.rng.chance(1, 2) {
                    l.switch_to_training();
                }
                let m = Monitored { inner: l, id: ch.len(), log: log.clone(), fail_fwd: Rc::new((-1).into()), fail_bwd: Rc::new((-1).into()) };
                net.add_layer(m).map_err(|e| format!("adding a fitting layer refused: {e}"))?;
                ch.push(s);
                coherent(&net, mode, &hist)?;
            }
            hist += "D";
        }
        for _ in 0..c.steps(4, 16) {
            match c.rng.below(11) {
                0..=2 => {
                    mode = rand_mode(&mut c.rng);
                    switch(&mut net, mode);
                    hist += if mode == TRAIN { "T" } else { "I" };
                    if !ch.is_empty() {
                        c.nontrivial();
                    }
                }
                3 | 4 if ch.len() < limit => {
                    let s = if ch.is_empty() { chain(&mut c.rng, Class::Int, 1).pop().unwrap() } else { next_spec(&mut c.rng, Class::Int, last(&ch)) };
                    // handed over in either mode
                    let mut l = s.build()?;
                    if c.rng.chance(1, 2) {
                        l.switch_to_training();
                    }
                    let m = Monitored { inner: l, id: ch.len(), log: log.clone(), fail_fwd: Rc::new((-1).into()), fail_bwd: Rc::new((-1).into()) };
                    net.add_layer(m).map_err(|e| format!("adding a fitting layer refused: {e}"))?;
                    ch.push(s);
                    hist += "a";
                }
                5 if !ch.is_empty() => {
                    let s = any_spec(&mut c.rng, Class::Int);
                    if s.inp != last(&ch) {
                        let r = s.add(&mut net)?;
                        ensure!(r.is_err(), "a layer that does not fit was accepted");
                        hist += "z";
                    }
                }
                6 if ch.len() < limit => {
                    // append a file written by a network in another mode, or one that does not fit
                    let s = if ch.is_empty() || c.rng.chance(1, 4) {
                        chain(&mut c.rng, Class::Int, 2)
                    } else {
                        let a = next_spec(&mut c.rng, Class::Int, last(&ch));
                        let b = next_spec(&mut c.rng, Class::Int, a.out);
                        vec![a, b]
                    };
                    let m = rand_mode(&mut c.rng);
                    build_net(&s, m)?.save_to_file(&file).map_err(|e| format!("saving failed: {e}"))?;
                    let fits = ch.is_empty() || last(&ch) == s[0].inp;
                    let r = net.load_from_file(&file);
                    ensure!(r.is_ok() == fits, "loading {} into a network ending in {:?} gave {:?}", chain_show(&s), ch.last().map(|l| l.out), r.err().map(|e| e.to_string()));
                    if fits {
                        ch.extend(s);
                    }
                    hist += "l";
                }
                _ => {
                    if ch.is_empty() {
                        ensure!(net.backward(&Tensor::empty()).is_err(), "backward accepted by an empty network");
                    } else {
                        let x = rt(&mut c.rng, Class::Int, ch[0].inp).tensor();
                        net.infer(&x).map_err(|e| format!("infer refused: {e} (history {hist})"))?;
                        let r = net.backward(&rt(&mut c.rng, Class::Int, last(&ch)).tensor());
                        hist += "b";
                        ensure!(r.is_ok() == (mode == TRAIN), "backward in {mode:?} mode gave {r:?} (history {hist})");
                        c.count("backward_verdicts", 1);
                    }
                }
            }
            ensure!(net.get_layers().len() == ch.len(), "the network has {} layers, {} were added", net.get_layers().len(), ch.len());
            coherent(&net, mode, &hist)?;
            c.count("mode_comparisons", 1 + ch.len() as u64);
        }
        let _ = std::fs::remove_file(&file);
        c.describe(format!("{} history {hist}", chain_show(&ch)));
        c.see("histories", hash_str(&hist));
        Ok(())
    });
    ctx.family("layers", 2500, |c| {
        let s = any_spec(&mut c.rng, Class::Int);
        let mut l = s.build()?;
        let mut mode = INFER;
        let mut hist = String::new();
        ensure!(l.get_run_mode() == INFER, "a new layer {} reports {:?}", s.show(), l.get_run_mode());
        for _ in 0..c.steps(3, 9) {
            match c.rng.below(5) {
                0 => {
                    l.switch_to_training();
                    mode = TRAIN;
                    hist += "T";
                }
                1 => {
                    l.switch_to_inference();
                    mode = INFER;
                    hist += "I";
                }
                2 => {
                    l.clear_gradients();
                    hist += "c";
                }
                _ => {
                    let x = rt(&mut c.rng, Class::Int, s.inp).tensor();
                    let mut o = Rt::zero(s.out).tensor();
                    let r = l.forward(&x, &mut o);
                    ensure!(r.is_ok(), "forward of {} refused: {r:?} (history {hist})", s.show());
                    let g = rt(&mut c.rng, Class::Int, s.out).tensor();
                    let gar = garbage(&mut c.rng, s.inp);
                    let mut og = gar.tensor();
                    let r = l.backward(&x, &o, &g, &mut og);
                    hist += "b";
                    ensure!(r.is_ok() == (mode == TRAIN), "backward of {} in {mode:?} mode gave {r:?} (history {hist})", s.show());
                    if mode == INFER {
                        ensure!(Rt::of(&og).same_bits(&gar), "backward of {} refused in inference mode but changed the outgoing gradient", s.show());
                    }
                    c.count("backward_verdicts", 1);
                    c.nontrivial();
                }
            }
            ensure!(l.get_run_mode() == mode, "{} reports {:?}, requested was {mode:?} (history {hist})", s.show(), l.get_run_mode());
            c.count("mode_comparisons", 1);
        }
        c.describe(format!("{} history {hist}", s.show()));
        Ok(())
    });
    ctx.require("backward_verdicts", 4000);
    ctx.require("mode_comparisons", 20000);
}

/// A user-defined layer with arbitrary shapes: writes a constant.
struct Probe {
    inp: Sh,
    out: Sh,
    name: String,
    mode: NetworkRunState,
    calls: Rc<RefCell<u64>>,
}
impl Layer for Probe {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        *self.calls.borrow_mut() += 1;
        let s: f32 = Rt::of(input).v.iter().sum();
        output.fill_with_value(s + 1.0);
        Ok(())
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, _: &Tensor, og: &mut Tensor) -> Result<(), &'static str> {
        og.fill_with_value(1.0);
        Ok(())
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.mode = TRAIN
    }
    fn switch_to_inference(&mut self) {
        self.mode = INFER
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.mode
    }
    fn get_input_shape(&self) -> TensorShape {
        tshape(self.inp)
    }
    fn get_output_shape(&self) -> TensorShape {
        tshape(self.out)
    }
    fn get_name(&self) -> String {
        self.name.clone()
    }
    fn get_serialized(&self) -> SerializedLayer {
        Spec { kind: Kind::Soft, name: self.name.clone(), inp: self.inp, out: self.inp, exact: false }.build().unwrap().get_serialized()
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("a probe is not restorable")
    }
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule("non-trivial: add_layer was called on a network with at least one layer, its verdict compared with shape equality and the network's whole visible state judged afterwards");
    ctx.family("admission", 5000, |c| {
        let mode = rand_mode(&mut c.rng);
        let mut net = Network::new(mode);
        let calls = Rc::new(RefCell::new(0));
        // model: (input shape, output shape, name)
        let mut model: Vec<(Sh, Sh, String)> = vec![];
        let mut hist = String::new();
        for _ in 0..if c.rng.chance(1, 2000) { 300 } else { c.rng.range(3, 12) } {
            let cur = model.last().map(|m| m.1);
            let before = if model.is_empty() { vec![] } else { states(&net, model.len())? };
            let r = &mut c.rng;
            let inp = match cur {
                Some(s) if r.chance(1, 2) => s,
                Some(s) => match r.below(4) {
                    0 => model[0].0,
                    _ => other_shape(r, s),
                },
                None => shape(r),
            };
            let fits = cur.is_none() || cur == Some(inp);
            let (res, out, nm);
            if r.chance(1, 2) {
                // a built-in layer taking that shape
                let s = next_spec(r, Class::Int, inp);
                out = s.out;
                nm = s.name.clone();
                res = s.add(&mut net)?;
            } else {
                out = if r.chance(1, 2) { other_shape(r, inp) } else { shape(r) };
                nm = name(r);
                res = net.add_layer(Probe { inp, out, name: nm.clone(), mode: rand_mode(r), calls: calls.clone() });
            }
            hist += &format!("{inp:?}->{out:?}{} ", if fits { "" } else { "!" });
            ensure!(res.is_ok() == fits, "adding a layer {inp:?} -> {out:?} to a network {:?} gave {res:?}", model.iter().map(|m| (m.0, m.1)).collect::<Vec<_>>());
            if fits {
                model.push((inp, out, nm));
                c.count("accepted", 1);
            } else {
                c.count("refused", 1);
                c.nontrivial();
            }
            if model.len() > 1 {
                c.nontrivial();
            }
            // visible state
            ensure!(
                unshape(net.get_input_shape()) == model[0].0 && unshape(net.get_output_shape()) == model.last().unwrap().1,
                "network {hist}: reports {:?} -> {:?}",
                unshape(net.get_input_shape()),
                unshape(net.get_output_shape())
            );
            ensure!(net.get_layers().len() == model.len(), "network {hist}: {} layers, should be {}", net.get_layers().len(), model.len());
            for (l, m) in net.get_layers().iter().zip(&model) {
                ensure!(
                    l.get_name() == m.2 && unshape(l.get_input_shape()) == m.0 && unshape(l.get_output_shape()) == m.1,
                    "network {hist}: a layer is not the one added in its place ({:?} instead of {:?})",
                    l.get_name(),
                    m.2
                );
                ensure!(l.get_run_mode() == mode, "network {hist}: a layer is not in the network's mode");
            }
            let st = states(&net, model.len())?;
            ensure!(net.get_intermediate_state(model.len() + 1).is_err(), "network {hist}: has a state too many");
            if !fits {
                ensure!(st.iter().zip(&before).all(|(a, b)| a.same_bits(b)), "a refused layer changed an intermediate state ({hist})");
            }
            for (i, s) in st.iter().enumerate() {
                let want = if i == 0 { model[0].0 } else { model[i - 1].1 };
                ensure!(s.s == want, "network {hist}: state {i} has shape {:?}, should be {want:?}", s.s);
            }
            if c.rng.chance(1, 2) {
                let x = rt(&mut c.rng, Class::Int, model[0].0).tensor();
                let probes = *calls.borrow();
                net.infer(&x).map_err(|e| format!("infer refused: {e} ({hist})"))?;
                let one = states(&net, model.len())?;
                net.infer(&x).map_err(|e| format!("infer refused: {e} ({hist})"))?;
                let two = states(&net, model.len())?;
                ensure!(one.iter().zip(&two).all(|(a, b)| a.same_bits(b)), "two infers of one input differ ({hist})");
                ensure!(*calls.borrow() - probes <= 2 * model.len() as u64, "infer called a refused layer ({hist})");
                if mode == TRAIN {
                    let g = rt(&mut c.rng, Class::Int, model.last().unwrap().1).tensor();
                    net.backward(&g).map_err(|e| format!("backward refused: {e} ({hist})"))?;
                }
            }
        }
        c.describe(hist.clone());
        c.see("shape_histories", hash_str(&hist));
        Ok(())
    });
    // refusals in the middle of use do not change results
    ctx.family("results", 1500, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 4);
        let mode = rand_mode(&mut c.rng);
        let log = new_log();
        let (mut net, _) = build_monitored(&ch, mode, &log)?;
        let x = rt(&mut c.rng, cl, ch[0].inp);
        net.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
        let st = states(&net, ch.len())?;
        let d = dump_net(&net);
        for _ in 0..3 {
            let sh = other_shape(&mut c.rng, last(&ch));
            let s = next_spec(&mut c.rng, cl, sh);
            let r = s.add(&mut net)?;
            ensure!(r.is_err(), "a layer {} was accepted after {}", s.show(), chain_show(&ch));
            c.count("refused", 1);
        }
        let now = states(&net, ch.len())?;
        ensure!(now.iter().zip(&st).all(|(a, b)| a.same_bits(b)), "a refused layer changed an intermediate state");
        ensure!(dump_net(&net) == d, "a refused layer changed the network's layers");
        ensure!(unshape(net.get_input_shape()) == ch[0].inp && unshape(net.get_output_shape()) == last(&ch), "a refused layer changed the network's shapes");
        ensure!(Rt::of(net.get_output().map_err(|e| e.to_string())?).same_bits(st.last().unwrap()), "a refused layer changed the output");
        if mode == TRAIN {
            log.borrow_mut().clear();
            let g = rt(&mut c.rng, cl, last(&ch));
            net.backward(&g.tensor()).map_err(|e| format!("backward refused after a refused layer: {e}"))?;
            judge_backward(c, &log.borrow(), &ch, &st, &g, true)?;
        }
        net.infer(&x.tensor()).map_err(|e| format!("infer refused: {e}"))?;
        let again = states(&net, ch.len())?;
        ensure!(again.iter().zip(&st).all(|(a, b)| a.same_bits(b)), "results changed after a refused layer");
        c.describe(chain_show(&ch));
        c.key(x.hash());
        c.nontrivial();
        Ok(())
    });
    ctx.require("accepted", 5000);
    ctx.require("refused", 5000);
}
