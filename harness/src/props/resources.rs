//! C28: repeated use accumulates no memory, open files or stray files.
use super::files::{get, put};
use crate::core::*;
use crate::gen::*;
use crate::heap;
use crate::monitor::*;
use crate::refm::*;
use crate::wire::{layer_of, network_bytes};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorIndex;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;
use std::path::Path;

fn open_files() -> R<Vec<String>> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd") {
        let e = e.expect("harness: /proc/self/fd");
        if let Ok(t) = std::fs::read_link(e.path()) {
            let t = t.to_string_lossy().to_string();
            if !t.ends_with("/fd") {
                v.push(t);
            }
        }
    }
    v.sort();
    Ok(v)
}
fn listing(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .expect("harness: scratch directory")
        .map(|e| e.expect("harness: scratch directory").file_name().to_string_lossy().to_string())
        .collect();
    v.sort();
    v
}
const CYCLES: usize = 72;
/// Live heap after each repetition of `cycle`; judged over the last ones against earlier ones.
fn steady(c: &mut Case, what: &str, mut cycle: impl FnMut() -> R) -> R {
    let mut bytes = [0i64; CYCLES];
    let mut blocks = [0i64; CYCLES];
    let a0 = heap::live().2;
    for n in 0..CYCLES {
        cycle()?;
        let l = heap::live();
        bytes[n] = l.0;
        blocks[n] = l.1;
    }
    c.count("cycles_measured", CYCLES as u64);
    c.count("allocations_seen", (heap::live().2 - a0) as u64);
    for (name, v) in [("bytes", &bytes), ("blocks", &blocks)] {
        let (early, late) = (v[4..20].iter().max().unwrap(), v[52..72].iter().max().unwrap());
        ensure!(
            late <= early,
            "{what}: the live heap keeps growing: {} {name} after 1 repetition, {} after 20, {} after 40, {} after {CYCLES}",
            0,
            v[19] - v[0],
            v[39] - v[0],
            v[CYCLES - 1] - v[0]
        );
    }
    Ok(())
}
/// Runs `life` (which builds, uses and drops things) twice more after a warm-up: nothing may stay.
fn released(c: &mut Case, what: &str, mut life: impl FnMut() -> R) -> R {
    life()?;
    life()?;
    let a = heap::live();
    life()?;
    life()?;
    let b = heap::live();
    ensure!(
        b.0 <= a.0 && b.1 <= a.1,
        "{what}: two lifetimes leave {} bytes in {} blocks on the heap after everything was dropped",
        b.0 - a.0,
        b.1 - a.1
    );
    c.count("lifetimes_measured", 2);
    Ok(())
}
#[derive(Clone)]
enum Op {
    Infer(Tensor),
    Backward(Tensor),
    Train,
    InferMode,
    BadInfer(Tensor),
    BadBackward(Tensor),
    BadLayer(Spec),
    Save,
    SaveNowhere,
    Load,
    LoadBadHere,
    LoadCutHere,
    Look,
}
fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Infer(_) => "infer",
        Op::Backward(_) => "backward",
        Op::Train => "to_training",
        Op::InferMode => "to_inference",
        Op::BadInfer(_) => "bad_infer",
        Op::BadBackward(_) => "bad_backward",
        Op::BadLayer(_) => "bad_layer",
        Op::Save => "save",
        Op::SaveNowhere => "save_nowhere",
        Op::Load => "load_elsewhere",
        Op::LoadBadHere => "load_unfitting_here",
        Op::LoadCutHere => "load_cut_here",
        Op::Look => "look",
    }
}
struct Paths {
    own: String,
    missing: String,
    unfit: String,
    cut: String,
    out: String,
}
/// New values in place of the old ones, in the same allocation sizes.
fn renew(r: &mut Rng, cl: Class, t: &mut Tensor) {
    let n = t.total_items() as usize;
    t.fill_with_vec(values(r, cl, n)).expect("harness: refilling");
}
/// Every repetition brings tensors and file names that were never seen before.
fn renew_op(r: &mut Rng, cl: Class, o: &mut Op) {
    match o {
        Op::Infer(t) | Op::Backward(t) | Op::BadInfer(t) | Op::BadBackward(t) => renew(r, cl, t),
        Op::BadLayer(s) => s.name = format!("l{:016x}", r.u64()),
        _ => {}
    }
}
/// The path as it is, or a name never used before, which then stands for it during `f`.
fn under_new_name<T>(r: Option<&mut Rng>, p: &str, back: bool, f: impl FnOnce(&String) -> T) -> T {
    let Some(r) = r else { return f(&p.to_string()) };
    let q = format!("{p}.{:016x}", r.u64());
    if !back {
        std::fs::rename(p, &q).expect("harness: renaming");
    }
    let x = f(&q);
    std::fs::rename(&q, p).expect("harness: renaming");
    x
}
fn apply(net: &mut Network, o: &Op, p: &Paths, mut fresh: Option<&mut Rng>) -> R {
    match o {
        Op::Infer(t) => {
            net.infer(t).map_err(|e| format!("infer refused: {e}"))?;
        }
        Op::Backward(t) => {
            let _ = net.backward(t);
        }
        Op::Train => net.switch_to_training(),
        Op::InferMode => net.switch_to_inference(),
        Op::BadInfer(t) => ensure!(net.infer(t).is_err(), "infer accepted a wrongly shaped tensor"),
        Op::BadBackward(t) => ensure!(net.backward(t).is_err(), "backward accepted a wrongly shaped tensor"),
        Op::BadLayer(s) => {
            let r = s.add(net)?;
            ensure!(r.is_err(), "a layer that does not fit was accepted");
        }
        Op::Save => under_new_name(fresh, &p.out, true, |q| net.save_to_file(q).map_err(|e| format!("saving failed: {e}")))?,
        Op::SaveNowhere => {
            let q = format!("{}.{:016x}", p.missing, fresh.as_mut().map_or(0, |r| r.u64()));
            ensure!(net.save_to_file(&q).is_err(), "saving into a missing directory returned Ok");
        }
        Op::Load => {
            let mut n = Network::new(net.get_run_state());
            under_new_name(fresh, &p.own, false, |q| n.load_from_file(q).map_err(|e| format!("loading failed: {e}")))?;
        }
        Op::LoadBadHere => {
            let r = under_new_name(fresh, &p.unfit, false, |q| net.load_from_file(q).is_err());
            ensure!(r, "loading layers that do not fit returned Ok");
        }
        Op::LoadCutHere => {
            let r = under_new_name(fresh, &p.cut, false, |q| net.load_from_file(q).is_err());
            ensure!(r, "loading a truncated file returned Ok");
        }
        Op::Look => {
            let _ = net.get_output().map(|t| t.get_norm());
            let _ = net.get_intermediate_state(1).map(|t| t.get_shape());
            let _ = net.get_intermediate_state(99).is_err();
            let _ = net.get_layers().iter().map(|l| (l.get_name(), l.get_serialized(), l.get_run_mode() == NetworkRunState::Training)).count();
        }
    }
    Ok(())
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a sequence of calls that allocates was repeated 72 times and the live heap was read after every repetition, or objects were built, used and dropped and the heap compared");
    ctx.assume("the heap is counted by the harness's global allocator in a single-threaded run; open files by /proc/self/fd");
    if !cfg!(rn_faults) {
        ctx.insufficient.push("needs the plain build".into());
        return;
    }
    ctx.threads = 1;
    heap::start();
    let dir = ctx.scratch.clone();
    ctx.family("networks", 60, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 5);
        let (inp, out) = (ch[0].inp, ch.last().unwrap().out);
        let mode = rand_mode(&mut c.rng);
        let home = dir.join(format!("n{}", c.idx));
        std::fs::create_dir_all(&home).expect("harness: scratch directory");
        let f = |n: &str| home.join(n).to_string_lossy().to_string();
        let p = Paths { own: f("own"), missing: f("missing/x"), unfit: f("unfit"), cut: f("cut"), out: f("out") };
        let first = build_net(&ch, mode)?;
        first.save_to_file(&p.own).map_err(|e| format!("saving failed: {e}"))?;
        let bytes = get(&p.own)?;
        put(&p.cut, &bytes[..c.rng.below(bytes.len() as u64) as usize]);
        // layers that fit, then one that does not
        let mut more = vec![];
        let mut s = out;
        for _ in 0..c.rng.range(0, 2) {
            let n = next_spec(&mut c.rng, cl, s);
            s = n.out;
            more.push(n);
        }
        let wrong = other_shape(&mut c.rng, s);
        let wrong = Spec { kind: Kind::Soft, name: "wrong".into(), inp: wrong, out: wrong, exact: false };
        more.push(wrong.clone());
        put(&p.unfit, &network_bytes(&more.iter().map(layer_of).collect::<Vec<_>>()));
        drop(first);
        let bad = |r: &mut Rng, s: Sh| {
            let o = other_shape(r, s);
            rt(r, cl, o).tensor()
        };
        let mut ops = vec![];
        for _ in 0..c.rng.range(3, 10) {
            let r = &mut c.rng;
            ops.push(match r.below(20) {
                0..=5 => Op::Infer(rt(r, cl, inp).tensor()),
                6..=9 => Op::Backward(rt(r, cl, out).tensor()),
                10 | 11 => Op::Train,
                12 => Op::InferMode,
                13 => Op::BadInfer(bad(r, inp)),
                14 => Op::BadBackward(bad(r, out)),
                15 => {
                    let w = other_shape(r, out);
                    Op::BadLayer(Spec { kind: Kind::Soft, name: name(r), inp: w, out: w, exact: false })
                }
                16 => r.pick(&[Op::Save, Op::Save, Op::SaveNowhere]).clone(),
                17 => Op::Load,
                18 => r.pick(&[Op::LoadBadHere, Op::LoadCutHere]).clone(),
                _ => Op::Look,
            });
        }
        let names: Vec<&'static str> = ops.iter().map(op_name).collect();
        let vary = c.rng.chance(1, 2);
        let mut r = Rng::new(c.rng.u64());
        let how = if vary { "with ever new values" } else { "with the same values" };
        let what = format!("repeating {} {how} on a network ({mode:?}) of {}", names.join(", "), chain_show(&ch));
        for n in &names {
            c.count(&format!("op:{n}"), 1);
        }
        c.describe(what.clone());
        let files = open_files()?;
        let mut net = build_net(&ch, mode)?;
        steady(c, &what, || {
            for o in &mut ops {
                if vary {
                    renew_op(&mut r, cl, o);
                }
                apply(&mut net, o, &p, vary.then_some(&mut r))?;
            }
            Ok(())
        })?;
        drop(net);
        released(c, &format!("building a network, {}", &what), || {
            let mut net = build_net(&ch, mode)?;
            for o in &mut ops {
                if vary {
                    renew_op(&mut r, cl, o);
                }
                apply(&mut net, o, &p, vary.then_some(&mut r))?;
            }
            Ok(())
        })?;
        ensure!(open_files()? == files, "{what}: files left open: {:?}", open_files()?.iter().filter(|f| !files.contains(f)).collect::<Vec<_>>());
        let mut want = vec!["cut", "own", "unfit"];
        if names.contains(&"save") {
            want.insert(1, "out");
        }
        ensure!(listing(&home) == want, "{what}: the directory holds {:?}, only {want:?} were asked for", listing(&home));
        ensure!(get(&p.own)? == bytes, "{what}: changed a file that was only read");
        std::fs::remove_dir_all(&home).expect("harness: scratch directory");
        c.see("op_sequences", hash_str(&names.join(" ")));
        c.nontrivial();
        Ok(())
    });
    ctx.family("layers", 60, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = any_spec(&mut c.rng, cl);
        // another configuration of the same kind, to restore and refill from
        let o = loop {
            let o = any_spec(&mut c.rng, cl);
            if o.kind_name() == s.kind_name() {
                break o;
            }
        };
        let mut x = rt(&mut c.rng, cl, s.inp).tensor();
        let mut g = rt(&mut c.rng, cl, s.out).tensor();
        let vary = c.rng.chance(1, 2);
        let mut r = Rng::new(c.rng.u64());
        let (sx, so) = (s.build()?.get_serialized(), o.build()?.get_serialized());
        let foreign = {
            let f = if s.kind_name() == "softmax" { "pool" } else { "softmax" };
            loop {
                let t = any_spec(&mut c.rng, cl);
                if t.kind_name() == f {
                    break t.build()?.get_serialized();
                }
            }
        };
        let acts: Vec<u64> = (0..c.rng.range(3, 10)).map(|_| c.rng.below(10)).collect();
        let how = if vary { "with ever new values" } else { "with the same values" };
        let what = format!("repeating {acts:?} {how} on {}", s.show());
        c.describe(what.clone());
        let mut run = |l: &mut DynLayer| -> R {
            let mut y = Tensor::new(tshape(s.out));
            let mut d = Tensor::new(tshape(s.inp));
            for a in &acts {
                if vary {
                    renew(&mut r, cl, &mut x);
                    renew(&mut r, cl, &mut g);
                }
                match a {
                    0 | 1 => l.forward(&x, &mut y).map_err(|e| format!("forward refused: {e}"))?,
                    2 | 3 => {
                        l.switch_to_training();
                        l.forward(&x, &mut y).map_err(|e| format!("forward refused: {e}"))?;
                        l.backward(&x, &y, &g, &mut d).map_err(|e| format!("backward refused: {e}"))?;
                    }
                    4 => l.switch_to_training(),
                    5 => l.switch_to_inference(),
                    6 => l.clear_gradients(),
                    7 => {
                        l.load_from_serialized(&so).map_err(|e| format!("restoring refused: {e}"))?;
                        l.load_from_serialized(&sx).map_err(|e| format!("restoring refused: {e}"))?;
                    }
                    8 => ensure!(l.load_from_serialized(&foreign).is_err(), "restoring another kind's state returned Ok"),
                    _ => {
                        let _ = (l.get_serialized(), l.get_name(), l.get_run_mode() == NetworkRunState::Training);
                        let mut small = Tensor::empty();
                        let _ = l.forward(&x, &mut small);
                    }
                }
            }
            Ok(())
        };
        let mut l = s.build()?;
        steady(c, &what, || run(&mut l))?;
        drop(l);
        released(c, &format!("building a layer, {what}"), || {
            let mut l = s.build()?;
            run(&mut l)
        })?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("tensors", 60, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = shape(&mut c.rng);
        let (x, y) = (rt(&mut c.rng, cl, s), rt(&mut c.rng, cl, s));
        let vary = c.rng.chance(1, 2);
        let mut rv = Rng::new(c.rng.u64());
        let sq = [s[1], s[0], s[2]];
        let sp = conv_spec(&mut c.rng, cl, 2);
        let (ks, bs, stride) = match &sp.kind {
            Kind::Conv { kernels, biases, stride, .. } => {
                (kernels.iter().map(|k| k.tensor()).collect::<Vec<_>>(), biases.iter().map(|b| Rt { s: [1, 1, 1], v: vec![*b] }.tensor()).collect::<Vec<_>>(), *stride)
            }
            _ => unreachable!(),
        };
        let mut img = rt(&mut c.rng, cl, sp.inp).tensor();
        let home = dir.join(format!("t{}", c.idx));
        std::fs::create_dir_all(&home).expect("harness: scratch directory");
        let f = home.join("t").to_string_lossy().to_string();
        let cut = home.join("cut").to_string_lossy().to_string();
        x.tensor().save_to_file(&f).map_err(|e| format!("saving failed: {e}"))?;
        let b = get(&f)?;
        put(&cut, &b[..c.rng.below(b.len() as u64) as usize]);
        let none = home.join("no/t").to_string_lossy().to_string();
        let acts: Vec<u64> = (0..c.rng.range(3, 12)).map(|_| c.rng.below(18)).collect();
        let how = if vary { "with ever new values" } else { "with the same values" };
        let what = format!("repeating tensor operations {acts:?} {how} on {s:?}");
        c.describe(what.clone());
        let mut run = |t: &mut Tensor, u: &mut Tensor, w: &mut Tensor, o: &mut Tensor| -> R {
            for a in &acts {
                if vary {
                    renew(&mut rv, cl, t);
                    renew(&mut rv, cl, u);
                    renew(&mut rv, cl, &mut img);
                }
                match a {
                    0 => t.fill_with_vec(x.v.clone()).map_err(|e| e.to_string())?,
                    1 => ensure!(t.fill_with_vec(vec![0.0; x.v.len() + 1]).is_err(), "a vector of the wrong length was accepted"),
                    2 => Tensor::add(t, u, w),
                    3 => Tensor::add_to_self(w, u),
                    4 => {
                        let _ = Tensor::dot(t, u);
                        let _ = t.get_norm();
                    }
                    5 => {
                        let mut r = Tensor::new(tshape(sq));
                        Tensor::transpose_ij(t, &mut r).map_err(|e| e.to_string())?;
                        let mut m = Tensor::new(tshape([s[0], s[0], s[2]]));
                        Tensor::matrix_multiply(t, &r, &mut m);
                    }
                    6 => {
                        let mut m = Tensor::new(tshape([s[1], s[1], s[2]]));
                        Tensor::matrix_multiply_transpose_first(t, u, &mut m).map_err(|e| e.to_string())?;
                        let mut m = Tensor::new(tshape([s[0], s[0], s[2]]));
                        Tensor::matrix_multiply_transpose_second(t, u, &mut m).map_err(|e| e.to_string())?;
                    }
                    7 => Tensor::softmax(t, w),
                    8 => Tensor::relu_self_and_store_mask(w, u).map_err(|e| e.to_string())?,
                    9 => {
                        let one = tshape([1, 1, 1]);
                        Tensor::max_pool(t, &one, 1, w);
                        let mut ids = vec![0u32; x.v.len()];
                        let _ = Tensor::max_pool_track_origin(t, &one, 1, w, &mut ids);
                    }
                    10 => {
                        for (n, (k, b)) in ks.iter().zip(&bs).enumerate() {
                            convolution_bias(&img, k, b, stride, o, n as u32).map_err(|e| e.to_string())?;
                            convolution_bias_relu(&img, k, b, stride, o, n as u32).map_err(|e| e.to_string())?;
                            let mut kg = Tensor::new(k.get_shape());
                            convolution_backprop_kernel(o, &img, stride, n as u32, &mut kg).map_err(|e| e.to_string())?;
                        }
                        let mut ig = Tensor::new(img.get_shape());
                        convolution_backprop_outgoing_gradient(o, &ks, stride, &mut ig).map_err(|e| e.to_string())?;
                    }
                    11 => {
                        under_new_name(vary.then_some(&mut rv), &f, true, |q| t.save_to_file(q).map_err(|e| format!("saving failed: {e}")))?;
                        *t = under_new_name(vary.then_some(&mut rv), &f, false, |q| Tensor::from_file(q).map_err(|e| format!("loading failed: {e}")))?;
                    }
                    12 => ensure!(Tensor::from_file(&cut).is_err() && Tensor::from_file(&none).is_err(), "a truncated or missing file was accepted"),
                    13 => ensure!(t.save_to_file(&none).is_err(), "saving into a missing directory returned Ok"),
                    14 => {
                        t.fill_with_uniform(-1.0, 1.0);
                        u.fill_with_gaussian(0.0, 1.0);
                        w.fill_with_value(2.0);
                    }
                    15 => {
                        Tensor::scale(t, 0.5, w);
                        Tensor::scale_self(w, 2.0);
                        Tensor::multiply_elementwise(t, u, w);
                        Tensor::multiply_elementwise_self(w, u);
                        let at = TensorIndex::zero();
                        w.set_item(&at, t.get_item(&at));
                        w.set_item(&TensorIndex { i: s[0], j: 0, k: 0 }, 1.0);
                    }
                    16 => {
                        let n = x.v.len() as u32;
                        Tensor::add_from_index_list(t, w, &(0..n).rev().collect()).map_err(|e| e.to_string())?;
                        ensure!(Tensor::add_from_index_list(t, u, &vec![n; 1]).is_err(), "an index past the end was accepted");
                        let mut m = Tensor::new(tshape([s[0], s[0], s[2]]));
                        ensure!(Tensor::matrix_multiply_transpose_first(t, w, &mut m).is_err() || s[0] == s[1], "a product of the wrong shape was accepted");
                    }
                    _ => {
                        let z = t.clone();
                        ensure!(z == *t || Rt::of(t).v.iter().any(|v| v.is_nan()), "a clone differs");
                        *w = u.clone();
                    }
                }
            }
            Ok(())
        };
        let files = open_files()?;
        let make = || (x.tensor(), y.tensor(), Rt::zero(s).tensor(), Rt::zero(sp.out).tensor());
        let (mut t, mut u, mut w, mut o) = make();
        steady(c, &what, || run(&mut t, &mut u, &mut w, &mut o))?;
        drop((t, u, w, o));
        released(c, &format!("making tensors, {what}"), || {
            let (mut t, mut u, mut w, mut o) = make();
            run(&mut t, &mut u, &mut w, &mut o)
        })?;
        ensure!(open_files()? == files, "{what}: files left open: {:?}", open_files()?.iter().filter(|f| !files.contains(f)).collect::<Vec<_>>());
        ensure!(listing(&home) == ["cut", "t"], "{what}: the directory holds {:?}", listing(&home));
        std::fs::remove_dir_all(&home).expect("harness: scratch directory");
        c.nontrivial();
        Ok(())
    });
    ctx.require("cycles_measured", 10000);
    ctx.require("allocations_seen", 100000);
    ctx.require("op_sequences", 100);
}
