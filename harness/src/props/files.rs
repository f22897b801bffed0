//! C17, C18 (round trips), C19 (damaged files), C23 (stable format).
use super::layers::*;
use super::network::*;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use crate::wire::*;
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::Tensor;
use std::path::{Path, PathBuf};

pub fn path(dir: &Path, c: &Case, tag: &str) -> String {
    let n = format!("{}-{}-{tag}", c.family, c.idx);
    let d = dir.to_string_lossy();
    let h = mix(c.idx.wrapping_mul(0x9e37_79b9).wrapping_add(hash_str(&n)));
    // file names are names, not words: nothing in them is to be trimmed, split, decoded or normalised
    match h % 48 {
        0 => format!("{d}/ {n}"),
        1 => format!("{d}/{n} "),
        2 => format!("{d}/{n}\n"),
        3 => format!("{d}/.{n}"),
        4 => format!("{d}//{n}"),
        5 => format!("{d}/./{n}"),
        6 => format!("{d}/{n}."),
        7 => format!("{d}/{n}.tar.gz"),
        8 => format!("{d}/{n}~"),
        9 => format!("{d}/{n}%41%2f"),
        10 => format!("{d}/\u{fc}\u{308}-{n}-\u{2603}"),
        11 => format!("{d}/{n}{}", "y".repeat(190 - n.len().min(190))),
        12 => format!("{d}/{n}\\a"),
        13 => format!("{d}/\"{n}\""),
        14 => format!("{d}/-{n}"),
        15 => format!("{d}/{n}\t"),
        16 => format!("{d}/{}", n.to_uppercase()),
        17 => format!("{d}/{n}*?[a]$HOME"),
        18 => format!("{d}/{n}:1;#"),
        19 => format!("{d}/{n}.tmp"),
        _ => format!("{d}/{n}"),
    }
}
pub fn rm(p: &str) {
    let _ = std::fs::remove_file(p);
}
pub fn put(p: &str, b: &[u8]) {
    std::fs::write(p, b).expect("harness could not write a scratch file");
}
pub fn get(p: &str) -> R<Vec<u8>> {
    std::fs::read(p).map_err(|e| format!("after a save that reported success, the file {p:?} cannot be read: {e}"))
}
/// Bit-identical, except that any NaN equals any NaN (computed NaNs carry no promised payload).
fn same_but_nan(a: &Rt, b: &Rt) -> bool {
    a.s == b.s && a.v.len() == b.v.len() && a.v.iter().zip(&b.v).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
/// Serialized content of a network, computed by the independent encoder.
pub fn want_dump(v: &[Spec]) -> Vec<Vec<(u32, Vec<u8>)>> {
    v.iter()
        .map(|s| {
            let l = layer_of(s);
            let mut f: Vec<_> = l.fields.into_iter().map(|(k, b)| (k + 10 * l.tag, b)).collect();
            f.sort();
            f
        })
        .collect()
}
/// Bytes of a network file decode to exactly these layers.
pub fn judge_bytes(b: &[u8], ch: &[Spec]) -> R {
    let (layers, rest) = decode_network(b).ok_or("the file is not in the library's format")?;
    ensure!(rest == 0, "the file has {rest} bytes too many");
    let got: Vec<_> = layers
        .into_iter()
        .map(|l| {
            let mut f: Vec<_> = l.fields.into_iter().map(|(k, b)| (k + 10 * l.tag, b)).collect();
            f.sort();
            f
        })
        .collect();
    let want = want_dump(ch);
    ensure!(got.len() == want.len(), "the file holds {} layers, the network {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let keys = |v: &Vec<(u32, Vec<u8>)>| v.iter().map(|x| x.0).collect::<Vec<_>>();
        ensure!(keys(g) == keys(w), "layer {i} has fields {:?} in the file, should have {:?}", keys(g), keys(w));
        for (x, y) in g.iter().zip(w) {
            ensure!(x.1 == y.1, "layer {i} ({}): field {} differs in the file (length {} / {})", ch[i].show(), x.0, x.1.len(), y.1.len());
        }
    }
    Ok(())
}
/// Layers, names, shapes and parameters of a network.
pub fn judge_net(net: &Network, ch: &[Spec], mode: NetworkRunState, what: &str) -> R {
    let ls = net.get_layers();
    ensure!(ls.len() == ch.len(), "{what}: {} layers, should be {}", ls.len(), ch.len());
    let (i, o) = (unshape(net.get_input_shape()), unshape(net.get_output_shape()));
    if !ch.is_empty() {
        ensure!(i == ch[0].inp && o == last(ch), "{what}: network shapes {i:?} -> {o:?}, should be {:?} -> {:?}", ch[0].inp, last(ch));
    }
    ensure!(net.get_run_state() == mode, "{what}: network mode is {:?}", net.get_run_state());
    let (d, w) = (dump_net(net), want_dump(ch));
    for (n, (l, s)) in ls.iter().zip(ch).enumerate() {
        ensure!(l.get_name() == s.name, "{what}: layer {n} is called {:?}, should be {:?}", l.get_name(), s.name);
        ensure!(
            unshape(l.get_input_shape()) == s.inp && unshape(l.get_output_shape()) == s.out,
            "{what}: layer {n} has shapes {:?} -> {:?}, should be {}",
            unshape(l.get_input_shape()),
            unshape(l.get_output_shape()),
            s.show()
        );
        ensure!(l.get_run_mode() == mode, "{what}: layer {n} is in {:?}", l.get_run_mode());
        ensure!(d[n] == w[n], "{what}: layer {n} ({}) has other parameters", s.show());
    }
    Ok(())
}
fn net_grads(net: &Network) -> Vec<Rt> {
    net.get_layers().iter().flat_map(|l| grads(l.as_ref())).collect()
}
/// Everything observable about a network that a call must leave alone.
pub struct NetSnap {
    dump: Vec<Vec<(u32, Vec<u8>)>>,
    shapes: (Sh, Sh),
    mode: NetworkRunState,
    modes: Vec<NetworkRunState>,
    states: Vec<Rt>,
    grads: Vec<Rt>,
}
pub fn net_snap(net: &Network) -> NetSnap {
    let mut st = vec![];
    while let Ok(t) = net.get_intermediate_state(st.len()) {
        st.push(Rt::of(t));
    }
    NetSnap {
        dump: dump_net(net),
        shapes: (unshape(net.get_input_shape()), unshape(net.get_output_shape())),
        mode: net.get_run_state(),
        modes: net.get_layers().iter().map(|l| l.get_run_mode()).collect(),
        states: st,
        grads: net_grads(net),
    }
}
impl NetSnap {
    pub fn same(&self, net: &Network, what: &str) -> R {
        let n = net_snap(net);
        ensure!(n.dump.len() == self.dump.len(), "{what}: the network now has {} layers, had {}", n.dump.len(), self.dump.len());
        ensure!(n.dump == self.dump, "{what}: the network's layers or parameters changed");
        ensure!(n.shapes == self.shapes, "{what}: the network's shapes changed from {:?} to {:?}", self.shapes, n.shapes);
        ensure!(n.mode == self.mode && n.modes == self.modes, "{what}: modes changed");
        ensure!(n.states.len() == self.states.len(), "{what}: {} intermediate states, had {}", n.states.len(), self.states.len());
        ensure!(n.states.iter().zip(&self.states).all(|(a, b)| a.same_bits(b)), "{what}: the intermediate states changed");
        ensure!(n.grads.len() == self.grads.len() && n.grads.iter().zip(&self.grads).all(|(a, b)| a.same_bits(b)), "{what}: parameter gradients changed");
        Ok(())
    }
}
/// Runs infer (and backward) on both, in one mode and then the other, and compares everything
/// observable, bit for bit. (Across modes, results only agree up to rounding.)
fn same_behaviour(c: &mut Case, a: &mut Network, b: &mut Network, ch: &[Spec], cl: Class, what: &str) -> R {
    let mode = b.get_run_state();
    let other = if mode == TRAIN { NetworkRunState::Inference } else { TRAIN };
    if a.get_run_state() != mode {
        switch(a, mode);
    }
    for step in 0..3 {
        if step == 2 {
            switch(a, other);
            switch(b, other);
        }
        let x = rt(&mut c.rng, cl, ch[0].inp).tensor();
        a.infer(&x).map_err(|e| format!("{what}: infer of the original refused: {e}"))?;
        b.infer(&x).map_err(|e| format!("{what}: infer of the loaded network refused: {e}"))?;
        for (i, (p, q)) in states(a, ch.len())?.iter().zip(&states(b, ch.len())?).enumerate() {
            ensure!(same_but_nan(p, q), "{what}: state {i} is {} in the original, {} in the loaded network", p.show(), q.show());
        }
        c.count("inferences_compared", 1);
        if a.get_run_state() == TRAIN && b.get_run_state() == TRAIN {
            let g = rt(&mut c.rng, cl, last(ch)).tensor();
            a.backward(&g).map_err(|e| format!("{what}: backward of the original refused: {e}"))?;
            b.backward(&g).map_err(|e| format!("{what}: backward of the loaded network refused: {e}"))?;
            let (p, q) = (net_grads(a), net_grads(b));
            ensure!(p.len() == q.len() && p.iter().zip(&q).all(|(x, y)| same_but_nan(x, y)), "{what}: parameter gradients differ");
            c.count("gradients_compared", 1);
        }
    }
    switch(b, mode);
    Ok(())
}
/// The network works: one inference (and backward pass) against the model.
pub fn judge_works(c: &mut Case, net: &mut Network, ch: &[Spec], cl: Class, what: &str) -> R {
    if ch.is_empty() {
        return Ok(());
    }
    let x = rt(&mut c.rng, cl, ch[0].inp);
    net.infer(&x.tensor()).map_err(|e| format!("{what}: infer refused: {e}"))?;
    let st = states(net, ch.len())?;
    for (i, s) in ch.iter().enumerate() {
        if st[i].v.iter().chain(&st[i + 1].v).all(|x| x.is_finite() && x.abs() < 1e12) && finite_params(s) {
            s.check_forward(&st[i], &st[i + 1]).map_err(|e| format!("{what}: {e}"))?;
        }
    }
    if net.get_run_state() == TRAIN {
        net.backward(&rt(&mut c.rng, cl, last(ch)).tensor()).map_err(|e| format!("{what}: backward refused: {e}"))?;
    }
    c.count("networks_used_afterwards", 1);
    Ok(())
}
fn finite_params(s: &Spec) -> bool {
    let ok = |x: &f32| x.is_finite() && x.abs() < 1e8;
    match &s.kind {
        Kind::Conv { kernels, biases, .. } => kernels.iter().all(|k| k.v.iter().all(ok)) && biases.iter().all(ok),
        Kind::Fc { w, b } => w.v.iter().chain(&b.v).all(ok),
        _ => true,
    }
}
/// A chain whose parameters have any bit pattern.
fn file_chain(r: &mut Rng, max: u32) -> (Vec<Spec>, Class) {
    let cl = if r.chance(1, 3) { Class::Special } else { chain_class(r) };
    (chain(r, cl, max), cl)
}
/// Leftover content of the path a file is saved to.
fn leftover(r: &mut Rng, p: &str, n: usize) -> &'static str {
    match r.below(5) {
        0 => {
            put(p, &vec![0xAA; n + r.range(1, 5000) as usize]);
            "over a longer file"
        }
        1 => {
            put(p, &vec![0x55; r.range(0, 40) as usize]);
            "over a shorter file"
        }
        2 => {
            put(p, &vec![1; n]);
            "over a file of that length"
        }
        _ => "to a new path",
    }
}

/// Relative paths mean what they mean at the time of the call: `save` stores two things under paths of
/// the same file name (the first, then the second), what it returns reads the first back.
fn in_changing_directories(
    ctx: &mut Ctx,
    dir: &Path,
    save: impl Fn(&mut Case, &str, &str) -> R<Box<dyn FnOnce(&mut Case) -> R>> + Sync,
) {
    if cfg!(miri) {
        return;
    }
    let (threads, home) = (ctx.threads, std::env::current_dir().expect("harness: current directory"));
    ctx.threads = 1;
    let dir = std::fs::canonicalize(dir).expect("harness: scratch directory");
    std::env::set_current_dir(&dir).expect("harness: scratch directory");
    ctx.family("relative_paths", 10, |c| {
        let base = dir.join(format!("rel{}", c.idx));
        let go = |d: &Path| {
            std::fs::create_dir_all(d).expect("harness: scratch directory");
            std::env::set_current_dir(d).expect("harness: scratch directory");
        };
        let (a, b) = (base.join("a"), base.join("b"));
        go(&b);
        go(&a);
        let f = ["f", "f.bin", "..f", "~", "f f"][c.rng.below(5) as usize];
        let kind = c.rng.below(5);
        let (first, second) = match kind {
            0 => (f.to_string(), format!("../b/{f}")),
            1 => (format!("./{f}"), b.join(f).to_string_lossy().to_string()),
            2 => (format!("../a/{f}"), format!("../{f}")),
            3 => (a.join(f).to_string_lossy().to_string(), format!("../{f}")),
            _ => (f.to_string(), format!("{f}.x")),
        };
        c.describe(format!("saved as {first:?}, another as {second:?}, then read"));
        let r = save(c, &first, &second);
        let r = r.and_then(|check| {
            let there = |p: &str| base.join("a").join(p).is_file();
            ensure!(there(&first) && there(&second), "saved as {first:?} and {second:?} in a directory, but not both files are there");
            match c.rng.below(3) {
                // from a directory where another file has that name (absolute paths stay what they are)
                0 if kind == 0 => {
                    std::fs::remove_file(b.join(f)).expect("harness: removing");
                    std::fs::rename(a.join(f), b.join(f)).expect("harness: moving");
                    go(&b);
                }
                // the directory moved
                1 if kind == 0 || kind == 1 || kind == 4 => {
                    std::fs::rename(&a, base.join("c")).expect("harness: moving");
                    std::fs::create_dir(&a).expect("harness: scratch directory");
                }
                _ => {}
            }
            check(c)
        });
        std::env::set_current_dir(&dir).expect("harness: scratch directory");
        std::fs::remove_dir_all(&base).expect("harness: scratch directory");
        c.count("relative_paths_checked", 1);
        c.nontrivial();
        r
    });
    std::env::set_current_dir(home).expect("harness: current directory");
    ctx.threads = threads;
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a network of at least one layer was saved, loaded into another network, and compared with the original in parameters (bit for bit), names, shapes, inference and gradients; or a load was refused because it does not fit");
    let dir = ctx.scratch.clone();
    ctx.family("roundtrip", 2500, |c| {
        let (ch, cl) = file_chain(&mut c.rng, 6);
        let (m1, m2) = (rand_mode(&mut c.rng), rand_mode(&mut c.rng));
        let mut net = build_net(&ch, m1)?;
        let used = c.rng.chance(1, 2);
        if used {
            net.infer(&rt(&mut c.rng, cl, ch[0].inp).tensor()).map_err(|e| format!("infer refused: {e}"))?;
            if m1 == TRAIN {
                net.backward(&rt(&mut c.rng, cl, last(&ch)).tensor()).map_err(|e| format!("backward refused: {e}"))?;
            }
        }
        let before = net_snap(&net);
        let mut p = path(&dir, c, "net");
        if c.rng.chance(1, 8) {
            p += " λ☃ x.bin";
        }
        let over = leftover(&mut c.rng, &p, 800);
        let what = format!("{} {cl:?} saved {over} in {m1:?}, loaded in {m2:?}", chain_show(&ch));
        c.describe(what.clone());
        c.key(chain_hash(&ch));
        net.save_to_file(&p).map_err(|e| format!("{what}: saving failed: {e}"))?;
        before.same(&net, &format!("{what}: after saving"))?;
        let mut other = Network::new(m2);
        let late = c.rng.chance(1, 4);
        if late {
            other.switch_to_training();
            switch(&mut other, m2);
        }
        other.load_from_file(&p).map_err(|e| format!("{what}: loading failed: {e}"))?;
        judge_net(&other, &ch, m2, &what)?;
        if m1 == TRAIN && m2 == TRAIN && used {
            // the loaded network starts with zero gradients; so does a fresh original
            net = build_net(&ch, m1)?;
        }
        same_behaviour(c, &mut net, &mut other, &ch, cl, &what)?;
        // and once more from the copy, over the same path
        other.save_to_file(&p).map_err(|e| format!("{what}: saving the copy failed: {e}"))?;
        let mut third = Network::new(m1);
        third.load_from_file(&p).map_err(|e| format!("{what}: loading the copy's file failed: {e}"))?;
        judge_net(&third, &ch, m1, &format!("{what} (second generation)"))?;
        if let Some(m) = [TRAIN, INFER].get(c.rng.below(3) as usize) {
            switch(&mut third, *m);
            switch(&mut net, *m);
            same_behaviour(c, &mut build_net(&ch, *m)?, &mut third, &ch, cl, &format!("{what} (second generation, switched)"))?;
        }
        rm(&p);
        c.nontrivial();
        c.see("networks", chain_hash(&ch));
        Ok(())
    });
    in_changing_directories(ctx, &dir, |c, p, q| {
        let (a, b) = (chain(&mut c.rng, Class::Int, 2), chain(&mut c.rng, Class::Int, 2));
        c.key(chain_hash(&a));
        for (ch, p) in [(&a, p), (&b, q)] {
            build_net(ch, INFER)?.save_to_file(&p.to_string()).map_err(|e| format!("saving to {p:?} failed: {e}"))?;
        }
        let p = p.to_string();
        Ok(Box::new(move |_: &mut Case| {
            let mut n = Network::new(INFER);
            n.load_from_file(&p).map_err(|e| format!("loading {p:?} failed: {e}"))?;
            judge_net(&n, &a, INFER, &format!("loaded from {p:?}"))
        }))
    });
    ctx.family("append", 1500, |c| {
        let cl = chain_class(&mut c.rng);
        let mut a = chain(&mut c.rng, cl, 3);
        let mode = rand_mode(&mut c.rng);
        let mut net = build_net(&a, mode)?;
        let p = path(&dir, c, "net");
        let mut hist = chain_show(&a);
        for _ in 0..c.rng.range(1, 3) {
            let fit = c.rng.chance(2, 3);
            let mut b = vec![];
            if c.rng.chance(1, 12) {
                // a file of no layers changes nothing
            } else if fit {
                let mut s = last(&a);
                for _ in 0..c.rng.range(1, 3) {
                    let l = next_spec(&mut c.rng, cl, s);
                    s = l.out;
                    b.push(l);
                }
            } else {
                b = chain(&mut c.rng, cl, 3);
            }
            build_net(&b, rand_mode(&mut c.rng))?.save_to_file(&p).map_err(|e| format!("saving failed: {e}"))?;
            if c.rng.chance(1, 2) {
                net.infer(&rt(&mut c.rng, cl, a[0].inp).tensor()).map_err(|e| format!("infer refused: {e}"))?;
            }
            let before = net_snap(&net);
            let r = net.load_from_file(&p);
            let fits = b.is_empty() || b[0].inp == last(&a);
            hist += &format!(" + {}", chain_show(&b));
            ensure!(r.is_ok() == fits, "loading {} behind {} returned {r:?}", chain_show(&b), chain_show(&a));
            if fits {
                a.extend(b);
                c.count("appended", 1);
            } else {
                before.same(&net, &format!("refused load ({hist})"))?;
                c.count("refused", 1);
            }
            judge_net(&net, &a, mode, &hist)?;
            judge_works(c, &mut net, &a, cl, &hist)?;
        }
        rm(&p);
        c.describe(hist);
        c.key(chain_hash(&a));
        c.nontrivial();
        Ok(())
    });
    ctx.family("large", 40, |c| {
        let cl = Class::Unit;
        let ch = match c.rng.below(6) {
            0 => vec![super::grads::fc_sized(&mut c.rng, 300, 260, 1)],
            1 => vec![super::grads::conv_sized(&mut c.rng, [12, 12, 8], [5, 5, 8], 1, 70)],
            2 => vec![super::grads::fc_sized(&mut c.rng, 70000, 1, 1), super::grads::fc_sized(&mut c.rng, 1, 300, 1)],
            3 => {
                // more than 255 layers
                (0..c.rng.range(257, 320))
                    .map(|i| {
                        let mut s = if i % 3 == 0 { fc_spec_for(&mut c.rng, Class::Unit, 3, 1) } else { soft_spec(&mut c.rng) };
                        s.inp = [3, 1, 1];
                        s.out = [3, 1, 1];
                        if i % 3 == 0 {
                            s = super::grads::fc_sized(&mut c.rng, 3, 3, 1);
                        }
                        s.name = format!("layer {i}");
                        s
                    })
                    .collect()
            }
            4 => {
                let mut s = super::grads::fc_sized(&mut c.rng, 3, 2, 1);
                s.name = "ä".repeat(c.rng.range(30000, 80000) as usize);
                vec![s]
            }
            _ => vec![super::grads::conv_sized(&mut c.rng, [3, 3, 1], [2, 2, 1], 1, 260)],
        };
        let p = path(&dir, c, "net");
        let m2 = rand_mode(&mut c.rng);
        c.describe(format!("{} layers, {:?} -> {:?}, {m2:?}", ch.len(), ch[0].inp, last(&ch)));
        c.key(chain_hash(&ch));
        let what = format!("network of {} layers ({})", ch.len(), ch[0].show());
        let mut net = build_net(&ch, m2)?;
        net.save_to_file(&p).map_err(|e| format!("{what}: saving failed: {e}"))?;
        judge_bytes(&get(&p)?, &ch).map_err(|e| format!("{what}: {e}"))?;
        let mut other = Network::new(m2);
        other.load_from_file(&p).map_err(|e| format!("{what}: loading failed: {e}"))?;
        rm(&p);
        judge_net(&other, &ch, m2, &what)?;
        same_behaviour(c, &mut net, &mut other, &ch, cl, &what)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("empty", 20, |c| {
        let p = path(&dir, c, "net");
        let (m1, m2) = (rand_mode(&mut c.rng), rand_mode(&mut c.rng));
        let over = leftover(&mut c.rng, &p, 8);
        c.describe(format!("empty network {m1:?} {m2:?} {over}"));
        Network::new(m1).save_to_file(&p).map_err(|e| format!("saving an empty network failed: {e}"))?;
        let mut net = Network::new(m2);
        net.load_from_file(&p).map_err(|e| format!("loading an empty network failed: {e}"))?;
        rm(&p);
        ensure!(net.get_layers().is_empty(), "an empty network came back with layers");
        ensure!(net.get_run_state() == m2, "loading changed the mode");
        let s = fc_spec(&mut c.rng, Class::Int);
        s.add(&mut net)?.map_err(|e| format!("adding a layer afterwards failed: {e}"))?;
        judge_works(c, &mut net, &[s], Class::Int, "network loaded from an empty file")?;
        Ok(())
    });
    ctx.require("inferences_compared", 3000);
    ctx.require("gradients_compared", 1000);
    ctx.require("appended", 500);
    ctx.require("refused", 200);
}

/// A tensor read back: shape, every bit, and that it behaves like an ordinary tensor.
fn judge_tensor(c: &mut Case, t: &Tensor, m: &Rt, what: &str) -> R {
    use rusty_network::tensor::helper::TensorIndex;
    let got = Rt::of(t);
    ensure!(got.s == m.s, "{what}: shape is {:?}, was {:?}", got.s, m.s);
    if let Some(p) = got.v.iter().zip(&m.v).position(|(a, b)| a.to_bits() != b.to_bits()) {
        bad!("{what}: cell {:?} is {:?} ({:#010x}), was {:?} ({:#010x})", unpos(m.s, p), got.v[p], got.v[p].to_bits(), m.v[p], m.v[p].to_bits());
    }
    ensure!(got.v.len() == m.v.len() && t.total_items() as usize == m.v.len(), "{what}: {} cells", t.total_items());
    // fully usable
    let mut u = t.clone();
    let mut w = m.clone();
    if size(m.s) > 0 {
        let (i, j, k) = (c.rng.range(0, m.s[0] - 1), c.rng.range(0, m.s[1] - 1), c.rng.range(0, m.s[2] - 1));
        u.set_item(&TensorIndex { i, j, k }, 42.0);
        w.v[pos(m.s, i, j, k)] = 42.0;
    }
    ensure!(Rt::of(&u).same_bits(&w), "{what}: writing a cell of the tensor read back went wrong");
    ensure!(u.get_item(&TensorIndex { i: m.s[0], j: 0, k: 0 }) == 0.0, "{what}: reads outside are not 0");
    let r = u.fill_with_vec(m.v.clone());
    ensure!(r.is_ok() && Rt::of(&u).same_bits(m), "{what}: cannot be filled");
    if !m.v.iter().any(|x| x.is_nan()) {
        ensure!(*t == m.tensor(), "{what}: does not equal the original tensor");
        let mut s = Tensor::new(t.get_shape());
        Tensor::add(t, &m.tensor(), &mut s);
        let twice = Rt { s: m.s, v: m.v.iter().map(|x| x + x).collect() };
        ensure!(Rt::of(&s).same(&twice), "{what}: adding the tensor read back went wrong");
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a tensor was saved (half of the time over an existing file), read back and compared bit for bit");
    let dir = ctx.scratch.clone();
    let check = |c: &mut Case, m: &Rt, p: &str, over: &str| -> R {
        let what = format!("tensor {} saved {over}", m.show());
        let t = m.tensor();
        t.save_to_file(&p.to_string()).map_err(|e| format!("{what}: saving failed: {e}"))?;
        ensure!(Rt::of(&t).same_bits(m), "{what}: saving changed the tensor");
        let u = Tensor::from_file(&p.to_string()).map_err(|e| format!("{what}: reading failed: {e}"))?;
        judge_tensor(c, &u, m, &what)?;
        let b = get(p)?;
        ensure!(b.len() == 32 + 4 * m.v.len(), "{what}: the file has {} bytes, the format needs {}", b.len(), 32 + 4 * m.v.len());
        c.count("roundtrips", 1);
        c.count("cells_compared", m.v.len() as u64);
        c.nontrivial();
        Ok(())
    };
    ctx.family("roundtrip", 8000, |c| {
        let mut s = shape(&mut c.rng);
        if c.rng.chance(1, 40) {
            // a tensor without cells
            s[c.rng.below(3) as usize] = 0;
            c.count("tensors_without_cells", 1);
        }
        let s = s;
        let cl = *c.rng.pick(&[Class::Special, Class::Special, Class::Int, Class::Wide, Class::Sparse]);
        let m = rt(&mut c.rng, cl, s);
        let p = path(&dir, c, "t");
        let over = leftover(&mut c.rng, &p, 32 + 4 * m.v.len());
        c.describe(format!("{s:?} {cl:?} {over}"));
        c.key(m.hash());
        check(c, &m, &p, over)?;
        // saved again to the same path: a smaller or larger one replaces it entirely
        let s2 = shape(&mut c.rng);
        let m2 = rt(&mut c.rng, cl, s2);
        check(c, &m2, &p, "over another tensor's file")?;
        rm(&p);
        c.see("shapes", hash_str(&format!("{s:?}")));
        Ok(())
    });
    in_changing_directories(ctx, &dir, |c, p, q| {
        let sa = shape(&mut c.rng);
        let sb = shape(&mut c.rng);
        let (a, b) = (rt(&mut c.rng, Class::Special, sa), rt(&mut c.rng, Class::Special, sb));
        c.key(a.hash());
        for (m, p) in [(&a, p), (&b, q)] {
            m.tensor().save_to_file(&p.to_string()).map_err(|e| format!("saving to {p:?} failed: {e}"))?;
        }
        let p = p.to_string();
        Ok(Box::new(move |_: &mut Case| {
            let t = Tensor::from_file(&p).map_err(|e| format!("reading {p:?} failed: {e}"))?;
            ensure!(Rt::of(&t).same_bits(&a), "{p:?}: {} was read back, {} was saved", Rt::of(&t).show(), a.show());
            Ok(())
        }))
    });
    ctx.family("large", 60, |c| {
        let s = *c.rng.pick(&[[70000, 1, 1], [1, 66000, 1], [1, 1, 65537], [300, 300, 1], [64, 64, 65], [256, 256, 1], [255, 257, 1], [1, 300, 300], [40, 40, 40]]);
        let m = rt(&mut c.rng, Class::Special, s);
        let p = path(&dir, c, "t");
        c.describe(format!("{s:?}"));
        c.key(m.hash());
        check(c, &m, &p, "to a new path")?;
        rm(&p);
        Ok(())
    });
    // every special value, in every position of a small tensor
    ctx.family_n("bits", 300, |c| {
        let mut bits = vec![];
        for _ in 0..512 {
            bits.push(match c.rng.below(3) {
                0 => f32::from_bits(0x7f800000 | (c.rng.u64() as u32 & 0x807fffff)), // NaNs with payload, infinities
                1 => f32::from_bits(c.rng.u64() as u32 & 0x807fffff),               // denormals
                _ => f32::from_bits(c.rng.u64() as u32),
            });
        }
        let m = Rt { s: [8, 8, 8], v: bits };
        let p = path(&dir, c, "t");
        c.describe("512 cells of NaN payloads, denormals and random bits".into());
        c.key(m.hash());
        check(c, &m, &p, "to a new path")?;
        rm(&p);
        Ok(())
    });
    ctx.require("roundtrips", 10000);
    ctx.require("shapes", 200);
}

fn damage(r: &mut Rng, b: &[u8]) -> (Vec<u8>, String) {
    let mut v = b.to_vec();
    let mut what = String::new();
    for _ in 0..if r.chance(3, 4) { 1 } else { r.range(2, 4) } {
        if v.is_empty() {
            break;
        }
        let n = v.len() as u64;
        let at = if r.chance(1, 3) { r.below(n.min(64)) } else { r.below(n) } as usize;
        match r.below(8) {
            0 => {
                let bit = r.below(8);
                v[at] ^= 1 << bit;
                what += &format!("flip bit {bit} of byte {at}; ");
            }
            1 => {
                v[at] = *r.pick(&[0, 1, 2, 3, 0xff, 0x7f, 0x80]);
                what += &format!("byte {at}={}; ", v[at]);
            }
            2 => {
                let k = r.range(1, 12) as usize;
                v.drain(at..(at + k).min(n as usize));
                what += &format!("drop {k} bytes at {at}; ");
            }
            3 => {
                let k = r.range(1, 12) as usize;
                let ins: Vec<u8> = (0..k).map(|_| r.u64() as u8).collect();
                v.splice(at..at, ins);
                what += &format!("insert {k} bytes at {at}; ");
            }
            4 => {
                let x = *r.pick(&[0u32, 1, 2, 3, 7, 100, u32::MAX, 0x80000000, 0x10000]);
                for (i, y) in x.to_le_bytes().iter().enumerate() {
                    if at + i < v.len() {
                        v[at + i] = *y;
                    }
                }
                what += &format!("u32 at {at}={x}; ");
            }
            5 => {
                let a = r.below(n) as usize;
                let k = r.range(1, 40).min((n as usize - a.max(at)) as u32) as usize;
                let s = v[a..a + k].to_vec();
                v[at..at + k].copy_from_slice(&s);
                what += &format!("copy {k} bytes from {a} to {at}; ");
            }
            6 => {
                let k = (at + r.range(1, 30) as usize).min(n as usize);
                for x in &mut v[at..k] {
                    *x = 0;
                }
                what += &format!("zero {at}..{k}; ");
            }
            _ => {
                // one number up or down
                if at + 4 <= v.len() {
                    let x = u32::from_le_bytes(v[at..at + 4].try_into().unwrap());
                    let d = *r.pick(&[1u32, u32::MAX, 2, 256]);
                    v[at..at + 4].copy_from_slice(&x.wrapping_add(d).to_le_bytes());
                    what += &format!("u32 at {at}+={}; ", d as i32);
                }
            }
        }
    }
    (v, what)
}
/// Loads bytes into a network (empty or not) and judges what happened.
fn judge_load(c: &mut Case, p: &str, bytes: &[u8], base: &[Spec], cl: Class, what: &str) -> R {
    let mode = rand_mode(&mut c.rng);
    let class = classify(bytes);
    let label = match &class {
        Class2::Huge => {
            c.count("class:huge (not run)", 1);
            return Ok(());
        }
        Class2::Good(_) => "valid",
        Class2::Bad(m) => *m,
        Class2::Grey(m) => *m,
    };
    c.count(&format!("class:{}{label}", if matches!(class, Class2::Grey(_)) { "odd: " } else { "" }), 1);
    put(p, bytes);
    let mut net = build_net(base, mode)?;
    let what = format!("{what}; loaded in {mode:?} into [{}]", chain_show(base));
    if !base.is_empty() {
        net.infer(&rt(&mut c.rng, cl, base[0].inp).tensor()).map_err(|e| format!("infer refused: {e}"))?;
    }
    let before = net_snap(&net);
    let r = match guarded(|| net.load_from_file(&p.to_string())) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(m) => bad!("{what}: loading {m}"),
    };
    if let Err(_) = &r {
        before.same(&net, &format!("{what}: refused ({label})"))?;
        if mode == TRAIN && !base.is_empty() {
            net.backward(&rt(&mut c.rng, cl, last(base)).tensor()).map_err(|e| format!("{what}: refused, then backward failed: {e}"))?;
        }
        judge_works(c, &mut net, base, cl, &format!("{what}: refused, afterwards"))?;
        c.count("refused_loads", 1);
    }
    match class {
        Class2::Bad(m) => {
            ensure!(r.is_err(), "{what}: accepted although {m}");
            c.nontrivial();
        }
        Class2::Good(specs) => {
            let fits = base.is_empty() || specs.is_empty() || specs[0].inp == last(base);
            ensure!(r.is_ok() == fits, "{what}: a {} file returned {r:?}", if fits { "valid" } else { "non-fitting" });
            if fits {
                let mut all = base.to_vec();
                all.extend(specs);
                judge_net(&net, &all, mode, &what)?;
                judge_works(c, &mut net, &all, cl, &what)?;
                c.count("accepted_loads", 1);
            }
        }
        Class2::Grey(_) => {
            if r.is_ok() {
                // odd but accepted: usable without panic
                let s = net.get_input_shape();
                let u = guarded(|| {
                    let _ = net.infer(&Tensor::new(s));
                    net.switch_to_training();
                    let _ = net.infer(&Tensor::new(s));
                    let _ = net.backward(&Tensor::new(net.get_output_shape()));
                });
                if let Err(m) = u {
                    bad!("{what}: accepted, then using the network {m}");
                }
            }
        }
        Class2::Huge => unreachable!(),
    }
    Ok(())
}
fn some_base(r: &mut Rng, b: &[Spec], cl: Class) -> Vec<Spec> {
    // sometimes a base the file's first layer fits behind
    match r.below(4) {
        0 if !b.is_empty() => vec![Spec { kind: Kind::Soft, name: "base".into(), inp: b[0].inp, out: b[0].inp, exact: false }],
        1 => chain(r, cl, 2),
        _ => vec![],
    }
}
/// A structural change to a decoded network file.
fn craft(r: &mut Rng, v: &mut Vec<WLayer>) -> String {
    let at = r.below(v.len() as u64) as usize;
    let layers = v.len();
    let l = &mut v[at];
    let nf = l.fields.len() as u64;
    let f = r.below(nf) as usize;
    let small = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 3, 4, 5, 7, 9, 100, 70000, u32::MAX]);
    match r.below(16) {
        0 => {
            let k = l.fields.remove(f).0;
            format!("layer {at} lacks field {k}")
        }
        1 => {
            let x = l.fields[f].clone();
            l.fields.push(x);
            format!("layer {at} has a field twice")
        }
        2 => {
            l.tag = r.below(5) as u32;
            format!("layer {at} tagged {}", l.tag)
        }
        3 => {
            l.fields[f].0 = r.below(7) as u32;
            format!("layer {at}: field {f} relabelled {}", l.fields[f].0)
        }
        4 => {
            let (a, b) = (r.below(nf) as usize, r.below(nf) as usize);
            let t = l.fields[a].1.clone();
            l.fields[a].1 = l.fields[b].1.clone();
            l.fields[b].1 = t;
            format!("layer {at}: contents of fields {a} and {b} exchanged")
        }
        5 => {
            let n = l.fields[f].1.len() as u64;
            let k = r.below(n + 1) as usize;
            l.fields[f].1.truncate(k);
            format!("layer {at}: field {f} cut to {k} of {n} bytes")
        }
        6 => {
            let x = r.u64() as u8;
            l.fields[f].1.push(x);
            format!("layer {at}: field {f} with a byte more")
        }
        7 => {
            let i = r.below(v.len() as u64 + 1) as usize;
            let x = v[at].clone();
            v.insert(i, x);
            format!("layer {at} also at {i}")
        }
        8 if layers > 1 => {
            let j = r.below(v.len() as u64) as usize;
            v.swap(at, j);
            format!("layers {at} and {j} exchanged")
        }
        9 if layers > 1 => {
            v.remove(at);
            format!("layer {at} removed")
        }
        10 | 11 if l.tag < 2 => {
            // both tensor fields changed together, so that they agree with each other
            let field = |k| l.fields.iter().position(|x| x.0 == k);
            let (w, b) = match (field(0), field(1)) {
                (Some(w), Some(b)) => (w, b),
                _ => return format!("layer {at} unchanged"),
            };
            if l.tag == 0 {
                let mut ks = Rd(&l.fields[w].1).tensors().unwrap();
                let mut bs = Rd(&l.fields[b].1).tensors().unwrap();
                let what = match r.below(5) {
                    0 => {
                        ks.clear();
                        bs.clear();
                        "no kernels and no biases".to_string()
                    }
                    1 => {
                        let n = r.below(ks.len() as u64) as usize;
                        ks.truncate(n);
                        bs.truncate(n);
                        format!("only {n} kernels and biases")
                    }
                    2 => {
                        let (k, x) = (ks[0].clone(), bs[0].clone());
                        ks.push(k);
                        bs.push(x);
                        "one kernel and bias more".to_string()
                    }
                    3 => {
                        let s = if r.chance(1, 3) { [0, ks[0].shape[1], ks[0].shape[2]] } else { other_shape(r, ks[0].shape) };
                        ks = ks.iter().map(|_| wt(&rt(r, Class::Int, s))).collect();
                        format!("all kernels {s:?}")
                    }
                    _ => {
                        let s = other_shape(r, [1, 1, 1]);
                        bs = bs.iter().map(|_| wt(&rt(r, Class::Int, s))).collect();
                        format!("all biases {s:?}")
                    }
                };
                l.fields[w].1 = tensors_bytes(&ks);
                l.fields[b].1 = tensors_bytes(&bs);
                format!("layer {at}: {what}")
            } else {
                let old = Rd(&l.fields[w].1).tensor().unwrap().shape;
                let s = if r.chance(1, 3) {
                    let mut s = old;
                    s[r.below(3) as usize] = 0;
                    s
                } else {
                    other_shape(r, old)
                };
                l.fields[w].1 = tensor_bytes(&wt(&rt(r, Class::Int, s)));
                l.fields[b].1 = tensor_bytes(&wt(&rt(r, Class::Int, [s[0], 1, s[2]])));
                format!("layer {at}: weights {s:?} with a bias to match")
            }
        }
        _ => {
            // rewrite one number or tensor with full knowledge of the structure
            let tag = l.tag;
            let key = l.fields[f].0;
            let b = &mut l.fields[f].1;
            let tensor_list = tag == 0 && key < 2;
            let tensor = tag == 1 && key < 2;
            if tensor_list || tensor {
                let mut ts = if tensor_list { Rd(b).tensors().unwrap() } else { vec![Rd(b).tensor().unwrap()] };
                let n = r.below(ts.len() as u64) as usize;
                let t = &mut ts[n];
                let what = match r.below(7) {
                    0 => {
                        t.shape[r.below(3) as usize] = small(r);
                        "shape"
                    }
                    1 => {
                        t.strides[r.below(3) as usize] = small(r);
                        "strides"
                    }
                    2 => {
                        t.data.push(1.0);
                        "one value more"
                    }
                    3 => {
                        t.data.pop();
                        "one value less"
                    }
                    4 => {
                        // consistently another shape
                        let s = other_shape(r, t.shape);
                        *t = wt(&rt(r, Class::Int, s));
                        "another tensor"
                    }
                    5 => {
                        t.shape.rotate_left(1);
                        t.strides = [1, t.shape[0], t.shape[0] * t.shape[1]];
                        "rotated shape"
                    }
                    _ => {
                        if tensor_list && r.chance(1, 2) {
                            let x = ts[n].clone();
                            ts.push(x);
                            "one tensor more"
                        } else if tensor_list {
                            ts.remove(n);
                            "one tensor less"
                        } else {
                            // product matches modulo 2^32 only
                            t.shape = [65536, 65536, 1];
                            t.data.clear();
                            "shape that wraps around"
                        }
                    }
                };
                *b = if tensor_list { tensors_bytes(&ts) } else { tensor_bytes(&ts[0]) };
                format!("layer {at}: field {key}, tensor {n}: {what}")
            } else if (tag == 0 && key == 4) || (tag == 1 && key == 2) || (tag == 2 && key == 3) || (tag == 3 && key == 1) {
                if r.chance(1, 2) {
                    *b = string_bytes("");
                    b[0] = 3;
                    b.extend([0xff, 0xfe, 0x41]);
                    format!("layer {at}: name not UTF-8")
                } else {
                    let x = name(r);
                    *b = string_bytes(&x);
                    format!("layer {at}: name {x:?}")
                }
            } else if b.len() >= 4 {
                let p = r.below(b.len() as u64 / 4) as usize * 4;
                let x = small(r);
                b[p..p + 4].copy_from_slice(&x.to_le_bytes());
                format!("layer {at}: field {key}, number {} = {x}", p / 4)
            } else {
                format!("layer {at} unchanged")
            }
        }
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a file that an independent decoder judges broken was offered for loading, refused, and the network (or nothing) compared with its state before; files still valid after the damage must load as that decoder reads them");
    let dir = ctx.scratch.clone();
    // every truncation point of a network file
    ctx.family("truncate", 150, |c| {
        let (ch, _) = file_chain(&mut c.rng, 3);
        let base = some_base(&mut c.rng, &ch, Class::Int);
        let p = path(&dir, c, "net");
        build_net(&ch, INFER)?.save_to_file(&p).map_err(|e| format!("saving failed: {e}"))?;
        let full = get(&p)?;
        c.describe(format!("{} ({} bytes) into [{}]", chain_show(&ch), full.len(), chain_show(&base)));
        c.key(chain_hash(&ch));
        let mode = rand_mode(&mut c.rng);
        let mut net = build_net(&base, mode)?;
        if !base.is_empty() {
            net.infer(&rt(&mut c.rng, Class::Int, base[0].inp).tensor()).map_err(|e| format!("infer refused: {e}"))?;
        }
        let before = net_snap(&net);
        let step = (full.len() / 1500).max(1);
        for n in 0..full.len() {
            if n % step != 0 && full.len() - n > 200 && n > 200 {
                continue;
            }
            put(&p, &full[..n]);
            match guarded(|| net.load_from_file(&p.clone()).map_err(|e| e.to_string())) {
                Err(m) => bad!("loading the first {n} of {} bytes {m}", full.len()),
                Ok(Ok(())) => bad!("the first {n} of {} bytes of a network file were accepted", full.len()),
                Ok(Err(_)) => {}
            }
            if n % 16 == 0 {
                before.same(&net, &format!("refused load of {n} of {} bytes", full.len()))?;
            }
            c.count("truncations", 1);
        }
        before.same(&net, "refused loads of cut-off files")?;
        judge_works(c, &mut net, &base, Class::Int, "after refused loads of cut-off files")?;
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.family("truncate_tensor", 150, |c| {
        let s = shape(&mut c.rng);
        let m = rt(&mut c.rng, Class::Special, s);
        let p = path(&dir, c, "t");
        m.tensor().save_to_file(&p).map_err(|e| format!("saving failed: {e}"))?;
        let full = get(&p)?;
        c.describe(format!("{s:?}, {} bytes", full.len()));
        c.key(m.hash());
        for n in 0..full.len() {
            put(&p, &full[..n]);
            match guarded(|| Tensor::from_file(&p.clone()).map_err(|e| e.to_string())) {
                Err(e) => bad!("reading the first {n} of {} bytes {e}", full.len()),
                Ok(Ok(t)) => bad!("the first {n} of {} bytes of a tensor file were accepted as {}", full.len(), Rt::of(&t).show()),
                Ok(Err(_)) => {}
            }
            c.count("truncations", 1);
        }
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.family("damage", 12000, |c| {
        let (ch, _) = file_chain(&mut c.rng, 3);
        let mut ls: Vec<WLayer> = ch.iter().map(layer_of).collect();
        shuffle_fields(&mut c.rng, &mut ls);
        let (b, what) = damage(&mut c.rng, &network_bytes(&ls));
        let base = some_base(&mut c.rng, &ch, Class::Int);
        let what = format!("{}: {what}", chain_show(&ch));
        c.describe(what.clone());
        c.key(fnv(&b));
        let p = path(&dir, c, "net");
        judge_load(c, &p, &b, &base, Class::Int, &what)?;
        rm(&p);
        Ok(())
    });
    ctx.family("craft", 20000, |c| {
        let (ch, _) = file_chain(&mut c.rng, 4);
        let mut ls: Vec<WLayer> = ch.iter().map(layer_of).collect();
        let what = craft(&mut c.rng, &mut ls);
        shuffle_fields(&mut c.rng, &mut ls);
        let base = some_base(&mut c.rng, &ch, Class::Int);
        let what = format!("{}: {what}", chain_show(&ch));
        c.describe(what.clone());
        let b = network_bytes(&ls);
        c.key(fnv(&b));
        let p = path(&dir, c, "net");
        judge_load(c, &p, &b, &base, Class::Int, &what)?;
        rm(&p);
        Ok(())
    });
    ctx.family("damage_tensor", 8000, |c| {
        let s = shape(&mut c.rng);
        let m = rt(&mut c.rng, Class::Special, s);
        let p = path(&dir, c, "t");
        let mut w = wt(&m);
        let (b, what) = if c.rng.chance(1, 2) {
            damage(&mut c.rng, &tensor_bytes(&w))
        } else {
            let what = match c.rng.below(6) {
                0 => {
                    w.shape[c.rng.below(3) as usize] = *c.rng.pick(&[0, 1, 2, 3, 65536, u32::MAX]);
                    "shape"
                }
                1 => {
                    w.strides[c.rng.below(3) as usize] = *c.rng.pick(&[0, 1, 2, 3, 65536, u32::MAX]);
                    "strides"
                }
                2 => {
                    w.data.push(1.0);
                    "a value more"
                }
                3 => {
                    w.data.pop();
                    "a value less"
                }
                4 => {
                    w.shape = *c.rng.pick(&[[65536, 65536, 1], [65536, 1, 65536], [1 << 31, 2, 1], [u32::MAX, u32::MAX, u32::MAX]]);
                    w.data.clear();
                    if c.rng.chance(1, 2) {
                        w.shape[2] = w.shape[2].max(1);
                        w.strides = [1, w.shape[0], w.shape[0].wrapping_mul(w.shape[1])];
                    }
                    "a shape that wraps around"
                }
                _ => {
                    w.shape.rotate_left(1);
                    "a permuted shape"
                }
            };
            (tensor_bytes(&w), what.to_string())
        };
        put(&p, &b);
        let what = format!("tensor {s:?}: {what}");
        c.describe(what.clone());
        c.key(fnv(&b));
        let got = match guarded(|| Tensor::from_file(&p.clone()).map_err(|e| e.to_string())) {
            Ok(r) => r,
            Err(m) => bad!("{what}: reading {m}"),
        };
        rm(&p);
        let mut rd = Rd(&b);
        let dec = rd.tensor();
        let rest = rd.0.len();
        let fine = dec.as_ref().map(|t| {
            let n: u128 = t.shape.iter().map(|x| *x as u128).product();
            if n != t.data.len() as u128 {
                return Err("its data does not match its shape");
            }
            if n > 0 && t.strides != [1, t.shape[0], t.shape[0] * t.shape[1]] {
                return Err("its strides do not match its shape");
            }
            Ok(n)
        });
        match (fine, got) {
            (None, Ok(_)) => bad!("{what}: accepted although it does not decode"),
            (Some(Err(m)), Ok(_)) => bad!("{what}: accepted although {m}"),
            (None, Err(_)) | (Some(Err(_)), Err(_)) => {
                c.count("refused_tensors", 1);
                c.nontrivial();
            }
            (Some(Ok(n)), Ok(t)) => {
                if n > 0 {
                    let d = dec.unwrap();
                    judge_tensor(c, &t, &Rt { s: d.shape, v: d.data }, &what)?;
                    c.count("accepted_tensors", 1);
                }
            }
            (Some(Ok(n)), Err(e)) => ensure!(n == 0 || rest > 0, "{what}: still valid, but refused: {e}"),
        }
        Ok(())
    });
    ctx.family("not_files", 1500, |c| {
        let p = path(&dir, c, "x");
        let what = match c.rng.below(5) {
            0 => {
                // random bytes (an all-zero prefix would be an empty network)
                let n = c.rng.range(1, 300);
                let mut b: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
                if c.rng.chance(1, 2) && b.len() >= 8 {
                    b[0] = 1;
                    b[1..8].fill(0);
                }
                c.key(fnv(&b));
                judge_load(c, &p, &b, &[], Class::Int, "random bytes")?;
                put(&p, &b);
                let r = guarded(|| Tensor::from_file(&p.clone()).is_ok());
                if let Err(m) = r {
                    bad!("reading a tensor from random bytes {m}");
                }
                c.describe(format!("{n} random bytes"));
                rm(&p);
                return Ok(());
            }
            1 => "no such file",
            2 => {
                std::fs::create_dir_all(&p).unwrap();
                "a directory"
            }
            3 => {
                put(&p, b"");
                "an empty file"
            }
            _ => {
                put(&p, b"{\"layers\": [1, 2, 3]}\n");
                "a text file"
            }
        };
        c.describe(what.into());
        let base = some_base(&mut c.rng, &[], Class::Int);
        let mut net = build_net(&base, rand_mode(&mut c.rng))?;
        let before = net_snap(&net);
        match guarded(|| net.load_from_file(&p.clone()).is_ok()) {
            Ok(ok) => ensure!(!ok, "loading {what} as a network succeeded"),
            Err(m) => bad!("loading {what} as a network {m}"),
        }
        before.same(&net, &format!("refused load of {what}"))?;
        judge_works(c, &mut net, &base, Class::Int, "afterwards")?;
        match guarded(|| Tensor::from_file(&p.clone()).is_ok()) {
            Ok(ok) => ensure!(!ok, "reading {what} as a tensor succeeded"),
            Err(m) => bad!("reading {what} as a tensor {m}"),
        }
        if std::path::Path::new(&p).is_dir() {
            std::fs::remove_dir(&p).unwrap();
        } else {
            rm(&p);
        }
        c.count("refused_loads", 1);
        c.nontrivial();
        Ok(())
    });
    super::faults::read_faults(ctx);
    ctx.require("truncations", 20000);
    ctx.require("refused_loads", 8000);
    ctx.require("accepted_loads", 1000);
    ctx.require("refused_tensors", 2000);
    ctx.require("class:layers do not chain", 100);
    ctx.require("class:missing field", 100);
}

pub fn golden_dir() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../golden"))
}
pub fn c23(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a file written by the original version was loaded and its layers, parameters and results compared with the archive, or a file written now was decoded by an independent implementation of the original format and compared field by field");
    let dir = ctx.scratch.clone();
    let mut files: Vec<PathBuf> = std::fs::read_dir(golden_dir()).expect("no golden archive").map(|e| e.unwrap().path()).collect();
    files.sort();
    let nets: Vec<PathBuf> = files.iter().filter(|p| p.extension().map_or(false, |e| e == "net")).cloned().collect();
    let tens: Vec<PathBuf> = files.iter().filter(|p| p.extension().map_or(false, |e| e == "tensor")).cloned().collect();
    assert!(nets.len() >= 20 && tens.len() >= 10, "golden archive incomplete");
    // archived networks: <n>.net with <n>.net.in / <n>.net.out, the input and the output the original computed
    ctx.family_n("archived_networks", nets.len() as u64, |c| {
        let f = &nets[c.idx as usize];
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        let b = std::fs::read(f).unwrap();
        let specs = match classify(&b) {
            Class2::Good(s) => s,
            o => panic!("archived {n} is {o:?}"),
        };
        c.describe(format!("{n}: {}", cut(&chain_show(&specs), 200)));
        let io = |e: &str| {
            let b = std::fs::read(format!("{}.{e}", f.display())).unwrap();
            let t = Rd(&b).tensor().unwrap();
            Rt { s: t.shape, v: t.data }
        };
        for mode in [INFER, TRAIN] {
            let mut net = Network::new(mode);
            net.load_from_file(&f.to_string_lossy().to_string()).map_err(|e| format!("archived {n}: loading failed: {e}"))?;
            judge_net(&net, &specs, mode, &format!("archived {n}"))?;
            if specs.is_empty() {
                continue;
            }
            let (x, y) = (io("in"), io("out"));
            net.infer(&x.tensor()).map_err(|e| format!("archived {n}: infer refused: {e}"))?;
            let got = Rt::of(net.get_output().map_err(|e| e.to_string())?);
            ensure!(got.s == y.s, "archived {n}: output shape {:?}, was {:?}", got.s, y.s);
            for (p, (a, b)) in got.v.iter().zip(&y.v).enumerate() {
                ensure!(same_num(*a, *b) || (a - b).abs() <= 1e-5 * (1.0 + b.abs()), "archived {n}: output cell {p} is {a:?}, the original computed {b:?}");
            }
            c.count("archived_results_compared", 1);
            judge_works(c, &mut net, &specs, Class::Int, &format!("archived {n}"))?;
            // writing it again gives the same content
            let p = path(&dir, c, "again");
            net.save_to_file(&p).map_err(|e| format!("archived {n}: saving again failed: {e}"))?;
            judge_bytes(&get(&p)?, &specs).map_err(|e| format!("archived {n}, saved again: {e}"))?;
            rm(&p);
        }
        c.nontrivial();
        Ok(())
    });
    ctx.family_n("archived_tensors", tens.len() as u64, |c| {
        let f = &tens[c.idx as usize];
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        let b = std::fs::read(f).unwrap();
        let t = Rd(&b).tensor().expect("archived tensor decodes");
        let m = Rt { s: t.shape, v: t.data };
        c.describe(format!("{n}: {:?}", m.s));
        let u = Tensor::from_file(&f.to_string_lossy().to_string()).map_err(|e| format!("archived {n}: reading failed: {e}"))?;
        judge_tensor(c, &u, &m, &format!("archived {n}"))?;
        let p = path(&dir, c, "again");
        u.save_to_file(&p).map_err(|e| format!("archived {n}: saving again failed: {e}"))?;
        ensure!(get(&p)? == b, "archived {n}: saving it again gives other bytes");
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.family("written_networks", 2500, |c| {
        let (ch, cl) = file_chain(&mut c.rng, 6);
        let p = path(&dir, c, "net");
        let over = leftover(&mut c.rng, &p, 700);
        c.describe(format!("{} {cl:?} {over}", chain_show(&ch)));
        c.key(chain_hash(&ch));
        build_net(&ch, rand_mode(&mut c.rng))?.save_to_file(&p).map_err(|e| format!("saving failed: {e}"))?;
        judge_bytes(&get(&p)?, &ch).map_err(|e| format!("{} saved {over}: {e}", chain_show(&ch)))?;
        c.count("files_decoded", 1);
        // the original's writer puts the fields of a layer in any order
        let mut ls: Vec<WLayer> = ch.iter().map(layer_of).collect();
        shuffle_fields(&mut c.rng, &mut ls);
        put(&p, &network_bytes(&ls));
        let m = rand_mode(&mut c.rng);
        let mut net = Network::new(m);
        net.load_from_file(&p).map_err(|e| format!("a file in the original format ({}) was refused: {e}", chain_show(&ch)))?;
        judge_net(&net, &ch, m, "network loaded from a file in the original format")?;
        judge_works(c, &mut net, &ch, cl, "network loaded from a file in the original format")?;
        c.count("files_encoded", 1);
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.family("written_tensors", 4000, |c| {
        let s = shape(&mut c.rng);
        let m = rt(&mut c.rng, Class::Special, s);
        let p = path(&dir, c, "t");
        c.describe(format!("{s:?}"));
        c.key(m.hash());
        let want = tensor_bytes(&wt(&m));
        m.tensor().save_to_file(&p).map_err(|e| format!("saving failed: {e}"))?;
        ensure!(get(&p)? == want, "a tensor of shape {s:?} is not written in the original format");
        put(&p, &want);
        let t = Tensor::from_file(&p).map_err(|e| format!("a tensor file in the original format was refused: {e}"))?;
        judge_tensor(c, &t, &m, "tensor in the original format")?;
        rm(&p);
        c.count("files_decoded", 1);
        c.nontrivial();
        Ok(())
    });
    ctx.require("archived_results_compared", 20);
    ctx.require("files_decoded", 5000);
    ctx.require("files_encoded", 2000);
}
