//! C25 (memory safety, run under sanitizers) and C26 (independent instances, threads).
use super::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use super::files::judge_net;
use network::*;
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

fn idx(r: &mut Rng, s: Sh) -> TensorIndex {
    let mut f = |d: u32| match r.below(6) {
        0 => d,
        1 => d + 1,
        2 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 1 << 20]),
        _ => r.range(0, d.max(1) - 1),
    };
    TensorIndex { i: f(s[0]), j: f(s[1]), k: f(s[2]) }
}
/// Hostile arguments to every public operation. Results are judged by other properties; here a
/// refusal, a result or a panic are all fine: only the sanitizer watching the process decides.
fn hostile(c: &mut Case) -> R {
    fn shp(r: &mut Rng) -> Sh {
        let mut f = || match r.below(12) {
            0 => 0,
            1..=5 => r.range(1, 2),
            6..=9 => r.range(2, 5),
            _ => r.range(5, 9),
        };
        [f(), f(), f()]
    }
    let r = &mut c.rng;
    let cl = *r.pick(&[Class::Int, Class::Special, Class::Unit]);
    let base = shp(r);
    let mut shapes = vec![base];
    for _ in 0..5 {
        let s = match r.below(5) {
            0 | 1 => base,
            2 => other_shape(r, base),
            3 => [base[1], base[0], base[2]],
            _ => shp(r),
        };
        shapes.push(s);
    }
    let mut t: Vec<Tensor> = shapes.iter().map(|s| rt(r, cl, *s).tensor()).collect();
    let op = r.below(26);
    let (si, st) = (*r.pick(&shapes), r.range(0, 4));
    let ix = idx(r, shapes[0]);
    let n = size(shapes[0]);
    let vlen = match r.below(4) {
        0 => n,
        1 => n + r.range(1, 9) as usize,
        2 => n.saturating_sub(1),
        _ => r.range(0, 40) as usize,
    };
    let m = size(shapes[1]) as u32;
    let mut list: Vec<u32> = (0..vlen)
        .map(|_| match r.below(8) {
            0 => m,
            1 => m.wrapping_add(r.range(0, 1000)),
            2 => u32::MAX - r.range(0, 3),
            _ => r.range(0, m.max(1) - 1),
        })
        .collect();
    let special = value(r, Class::Special);
    let chan = r.range(0, 6);
    let sh = |s: Sh| TensorShape { di: s[0], dj: s[1], dk: s[2] };
    c.describe(format!("operation {op} on {shapes:?}, index ({},{},{}), {vlen} list items, stride {st}", ix.i, ix.j, ix.k));
    let res = guarded(|| {
        let (a, rest) = t.split_at_mut(1);
        let (b, rest) = rest.split_at_mut(1);
        let (d, rest) = rest.split_at_mut(1);
        let (a, b, d, e) = (&mut a[0], &mut b[0], &mut d[0], &mut rest[0]);
        match op {
            0 => {
                a.set_item(&ix, special);
                let _ = a.get_item(&ix);
            }
            1 => {
                let _ = a.fill_with_vec(vec![special; vlen]);
                let _ = a.get_item(&ix);
            }
            2 => Tensor::add(a, b, d),
            3 => Tensor::add_to_self(a, b),
            4 => {
                let _ = Tensor::add_from_index_list(a, b, &list);
            }
            5 => Tensor::scale(a, special, b),
            6 => {
                Tensor::multiply_elementwise(a, b, d);
                Tensor::multiply_elementwise_self(a, b);
            }
            7 => {
                let _ = Tensor::relu_self_and_store_mask(a, b);
            }
            8 => {
                let _ = Tensor::transpose_ij(a, b);
            }
            9 => Tensor::matrix_multiply(a, b, d),
            10 => {
                let _ = Tensor::matrix_multiply_transpose_first(a, b, d);
            }
            11 => {
                let _ = Tensor::matrix_multiply_transpose_second(a, b, d);
            }
            12 => Tensor::matrix_multiply_add_relu(a, b, e, d),
            13 => Tensor::max_pool(a, &sh(si), st, b),
            14 => {
                let _ = Tensor::max_pool_track_origin(a, &sh(si), st, b, &mut list);
            }
            15 => Tensor::softmax(a, b),
            16 => {
                let _ = convolution_bias(a, b, e, st, d, chan);
            }
            17 => {
                let _ = convolution_bias_relu(a, b, e, st, d, chan);
            }
            18 => {
                let ks = vec![b.clone(); chan as usize];
                let _ = convolution_backprop_outgoing_gradient(a, &ks, st, d);
            }
            19 => {
                let _ = convolution_backprop_kernel(a, b, st, chan, d);
            }
            20 => {
                let _ = Tensor::dot(a, b);
                let _ = a.get_norm();
            }
            21 => {
                let _ = *a == *b;
                let f = a.clone();
                *a = Tensor::new(b.get_shape());
                let _ = f.get_item(&ix);
            }
            22 => {
                a.fill_with_uniform(-1.0, 1.0);
                b.fill_with_gaussian(0.0, 1.0);
                a.fill_with_value(special);
                Tensor::scale_self(b, special);
            }
            _ => {
                let _ = a.total_items();
                a.set_item(&TensorIndex { i: ix.i, j: ix.j, k: ix.k }, 1.0);
                let _ = a.get_item(&ix);
            }
        }
        // read everything: uninitialised or freed cells would be noticed here
        [a.get_norm(), b.get_norm(), d.get_norm(), e.get_norm()].iter().sum::<f32>()
    });
    c.count("hostile_calls", 1);
    c.see("operations", op);
    c.key(hash_str(&format!("{shapes:?}{op}")));
    if let Ok(x) = res {
        if x == 1234.5678 {
            c.count("never", 1);
        }
        c.nontrivial();
    }
    Ok(())
}
/// Layers and networks called with any shapes, in any order.
fn hostile_layers(c: &mut Case) -> R {
    let cl = *c.rng.pick(&[Class::Int, Class::Special, Class::Unit]);
    let small = c.rng.chance(1, 2);
    let s = if small { layers::spec_layer(c.idx % 4, &mut c.rng, cl) } else { any_spec(&mut c.rng, cl) };
    let mut l = s.build()?;
    let mut hist = String::new();
    for _ in 0..c.steps(2, 8) {
        let r = &mut c.rng;
        let mut sh = |x: Sh| if r.chance(3, 4) { x } else { other_shape(r, x) };
        let (i, o, g, og) = (sh(s.inp), sh(s.out), sh(s.out), sh(s.inp));
        let op = r.below(7);
        let x = rt(r, cl, i).tensor();
        let mut y = rt(r, cl, o).tensor();
        let g = rt(r, cl, g).tensor();
        let mut og = rt(r, cl, og).tensor();
        let other = layers::spec_layer(c.idx % 4, &mut c.rng, cl);
        hist += ["f", "b", "T", "I", "c", "L", "f"][op as usize];
        let _ = guarded(|| {
            match op {
                1 => {
                    let _ = l.backward(&x, &y, &g, &mut og);
                }
                2 => l.switch_to_training(),
                3 => l.switch_to_inference(),
                4 => l.clear_gradients(),
                5 => {
                    if let Ok(o) = other.build() {
                        let _ = l.load_from_serialized(&o.get_serialized());
                    }
                }
                _ => {
                    let _ = l.forward(&x, &mut y);
                }
            }
            og.get_norm() + y.get_norm()
        });
        c.count("hostile_calls", 1);
    }
    c.describe(format!("{} {hist}", s.show()));
    c.key(s.hash());
    c.nontrivial();
    Ok(())
}
/// A network called in any order, moved about in between, and read as a whole after every call.
fn hostile_networks(c: &mut Case, dir: &std::path::Path) -> R {
    let cl = *c.rng.pick(&[Class::Int, Class::Unit]);
    let mut ch: Vec<Spec> = vec![];
    let mut nets = vec![Network::new(rand_mode(&mut c.rng))];
    let mut hist = String::new();
    let file = super::files::path(dir, c, "h");
    for _ in 0..c.steps(4, 20) {
        let r = &mut c.rng;
        let op = r.below(if cfg!(miri) { 9 } else { 11 });
        let inp = ch.first().map_or([1, 1, 1], |s| s.inp);
        let out = ch.last().map_or([1, 1, 1], |s| s.out);
        let mut sh = |x: Sh| if r.chance(5, 6) { x } else { other_shape(r, x) };
        let (xs, gs) = (sh(inp), sh(out));
        let (x, g) = (rt(r, cl, xs).tensor(), rt(r, cl, gs).tensor());
        let fits = ch.is_empty() || r.chance(5, 6);
        let s = match ch.is_empty() {
            true => {
                let first = [r.range(1, 4), r.range(1, 2), r.range(1, 2)];
                next_spec(r, cl, first)
            }
            false if fits => next_spec(r, cl, out),
            false => any_spec(r, cl),
        };
        let fits = ch.is_empty() || s.inp == out;
        let small = size(s.inp) * size(s.out) < 3000;
        let at = r.below(nets.len() as u64) as usize;
        let m = rand_mode(r);
        hist += ["f", "f", "b", "b", "a", "a", "s", "m", "r", "l", "l"][op as usize];
        let mut added = false;
        let done = guarded(|| {
            let n = &mut nets[at];
            match op {
                0 | 1 => {
                    let _ = n.infer(&x);
                }
                2 | 3 => {
                    let _ = n.backward(&g);
                }
                4 | 5 => {
                    if small && at == 0 && ch.len() < 12 {
                        added = s.add(n)?.is_ok() && fits;
                    }
                }
                6 => super::network::switch(n, m),
                7 => {
                    // move it: what is kept of it by address is stale now
                    let mut boxed = Box::new(Network::new(m));
                    std::mem::swap(&mut *boxed, n);
                    nets.insert(at, *boxed);
                    nets.remove(at + 1);
                    if nets.len() < 3 {
                        nets.push(Network::new(m));
                    }
                }
                8 => {
                    for l in n.get_layers() {
                        let _ = (l.get_name(), l.get_input_shape(), l.get_output_shape(), l.get_run_mode(), l.get_serialized());
                    }
                }
                _ => {
                    let _ = n.save_to_file(&file);
                    if op == 10 {
                        if let Ok(b) = std::fs::read(&file) {
                            super::files::put(&file, &b[..b.len() - b.len() / 3]);
                        }
                    }
                    let mut other = Network::new(m);
                    let _ = other.load_from_file(&file);
                    let _ = other.infer(&x);
                    let _ = other.get_output().map(|o| o.get_norm());
                }
            }
            let mut sum = 0.0f32;
            for n in &nets {
                if let Ok(o) = n.get_output() {
                    sum += o.get_norm() + o.clone().get_norm();
                }
                let mut i = 0;
                while let Ok(t) = n.get_intermediate_state(i) {
                    sum += t.get_norm();
                    i += 1;
                }
            }
            Ok::<f32, String>(sum)
        });
        if added {
            ch.push(s);
        }
        if let Ok(Ok(x)) = done {
            if x == 1234.5678 {
                c.count("never", 1);
            }
        }
        c.count("hostile_calls", 1);
        c.count("network_calls", 1);
    }
    super::files::rm(&file);
    c.describe(format!("{} {hist}", chain_show(&ch)));
    c.key(chain_hash(&ch) ^ hash_str(&hist));
    c.nontrivial();
    Ok(())
}
pub fn c25(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a call with valid or hostile arguments returned under the sanitizer, and every cell of the tensors involved was read afterwards");
    ctx.assume("only reports of the sanitizers (AddressSanitizer, MemorySanitizer, Miri) decide this property; wrong results or panics are judged by the other checks");
    let more = if cfg!(miri) { 3 } else { 1 };
    ctx.family("hostile", 60000 * more, hostile);
    ctx.family("hostile_layers", 6000 * more, hostile_layers);
    let dir = ctx.scratch.clone();
    ctx.family("hostile_networks", 3000 * more, |c| hostile_networks(c, &dir));
    // the other checks' workloads, reduced; their verdicts do not count here
    if ctx.only.is_none() || !ctx.only.as_ref().unwrap().0.starts_with("hostile") {
        let (scale, v, h, ins, rule, asm) =
            (ctx.scale, std::mem::take(&mut ctx.stats.violations), std::mem::take(&mut ctx.stats.harness_errors), std::mem::take(&mut ctx.insufficient), ctx.rule.clone(), ctx.assumptions.clone());
        ctx.scale = scale * 0.03;
        for f in [
            tensors::c01, tensors::c02, tensors::c03, tensors::c04, tensors::c05, tensors::c06, layers::c07, grads::c08, grads::c09, grads::c10, network::c11, network::c12,
            network::c13, network::c14, network::c15, network::c16, layers::c21, layers::c24, helpers::c29,
        ] {
            f(ctx);
        }
        if !cfg!(miri) {
            for f in [files::c17, files::c18, files::c19, files::c23, e2e::c27] {
                f(ctx);
            }
        }
        c26(ctx);
        ctx.scale = scale;
        ctx.stats.violations = v;
        ctx.stats.harness_errors = h;
        ctx.insufficient = ins;
        ctx.rule = rule;
        ctx.assumptions = asm;
    }
    ctx.require("hostile_calls", 50000);
    ctx.require("network_calls", 2000);
    ctx.require("operations", 20);
}

/// C30: the other checks' workloads, one case after the other, each judged only by what it did to the
/// process around it.
pub fn c30(ctx: &mut Ctx) {
    ctx.rule("non-trivial: the calls of a case returned and the process around them was compared with before");
    let rule = ctx.rule.clone();
    let asm = vec!["output and environment lookups are seen where they pass write, writev and getenv; one thread runs the cases".to_string()];
    ctx.assumptions = asm.clone();
    if !cfg!(rn_faults) {
        ctx.insufficient.push("needs the plain build".into());
        return;
    }
    ctx.threads = 1;
    ctx.surround = true;
    let (whole, scale) = (ctx.scale, ctx.scale * 0.005);
    ctx.scale = 0.05 * whole;
    ctx.family("hostile", 6000, hostile);
    ctx.family("hostile_layers", 2000, hostile_layers);
    let dir = ctx.scratch.clone();
    ctx.family("hostile_networks", 1500, |c| hostile_networks(c, &dir));
    // files that cannot be written or read
    ctx.family("bad_paths", 600, |c| {
        let cl = chain_class(&mut c.rng);
        let ch = chain(&mut c.rng, cl, 3);
        let mut net = build_net(&ch, rand_mode(&mut c.rng))?;
        let t = rt(&mut c.rng, cl, ch[0].inp).tensor();
        let home = dir.join(format!("p{}", c.idx));
        std::fs::create_dir_all(home.join("d")).expect("harness: scratch directory");
        std::fs::write(home.join("file"), b"abc").expect("harness: scratch directory");
        let f = |n: &str| home.join(n).to_string_lossy().to_string();
        for _ in 0..4 {
            let p = match c.rng.below(9) {
                0 => f("d"),
                1 => f("none/x"),
                2 => f("file/x"),
                3 => String::new(),
                4 => f("a\0b"),
                5 => f(&"n".repeat(300)),
                6 => f("d/"),
                7 => f("file"),
                _ => f("d/new"),
            };
            let r = match c.rng.below(4) {
                0 => net.save_to_file(&p).is_ok(),
                1 => net.load_from_file(&p).is_ok(),
                2 => t.save_to_file(&p).is_ok(),
                _ => Tensor::from_file(&p).is_ok(),
            };
            c.count(if r { "file_calls_accepted" } else { "file_calls_refused" }, 1);
        }
        c.key(chain_hash(&ch));
        c.describe(format!("saving and loading under bad names, {}", chain_show(&ch)));
        std::fs::remove_dir_all(&home).expect("harness: scratch directory");
        c.nontrivial();
        Ok(())
    });
    ctx.scale = scale;
    for f in [
        tensors::c01, tensors::c02, tensors::c03, tensors::c04, tensors::c05, tensors::c06, layers::c07, grads::c08, grads::c09, grads::c10, network::c11, network::c12,
        network::c13, network::c14, network::c15, network::c16, layers::c21, layers::c24, helpers::c29, files::c17, files::c18, files::c19, files::c23, e2e::c27,
        random::c22, c26,
    ] {
        f(ctx);
        // a workload may have chosen its own number of threads
        ctx.threads = 1;
        if !ctx.stats.violations.is_empty() {
            break;
        }
    }
    ctx.scale = whole;
    ctx.surround = false;
    ctx.insufficient.clear();
    ctx.rule = rule;
    ctx.assumptions = asm;
    // the watches were in place: they saw the harness's and the library's file writes
    ctx.stats.counts.insert("writes_seen".into(), crate::surround::WRITES.load(std::sync::atomic::Ordering::SeqCst));
    ctx.require("surroundings_compared", 10000);
    ctx.require("writes_seen", 1000);
    ctx.require("file_calls_refused", 500);
}

/// A scripted life of one network: what it computed at each step, in order.
#[derive(Clone)]
struct Life {
    ch: Vec<Spec>,
    mode: NetworkRunState,
    steps: Vec<Step>,
}
#[derive(Clone, Debug)]
enum Step {
    Infer(Rt),
    Backward(Rt),
    Switch(NetworkRunState),
    Clone,
    Serial,
    Tensor(Rt, Rt, u32),
}
struct Running {
    net: Network,
    hash: u64,
    /// an infer of this network, in this mode, has gone before
    ready: bool,
}
impl Life {
    fn gen(r: &mut Rng, ch: Vec<Spec>, cl: Class) -> Life {
        let mut steps = vec![];
        for _ in 0..r.range(4, 12) {
            steps.push(match r.below(9) {
                0 => Step::Switch(rand_mode(r)),
                1..=3 => Step::Backward(rt(r, cl, last(&ch))),
                4 => Step::Serial,
                5 => Step::Tensor(rt(r, cl, ch[0].inp), rt(r, cl, ch[0].inp), r.range(0, 3)),
                6 if r.chance(1, 3) => Step::Clone,
                _ => Step::Infer(rt(r, cl, ch[0].inp)),
            });
        }
        // no backward before the first infer
        steps.insert(0, Step::Infer(rt(r, cl, ch[0].inp)));
        Life { ch, mode: rand_mode(r), steps }
    }
    fn start(&self) -> R<Running> {
        Ok(Running { net: build_net(&self.ch, self.mode)?, hash: 1, ready: false })
    }
}
impl Running {
    /// One step; everything observable afterwards is folded into the hash.
    fn step(&mut self, l: &Life, s: &Step) -> R {
        let mut h = self.hash;
        match s {
            Step::Infer(x) => {
                let r = self.net.infer(&x.tensor());
                self.ready = r.is_ok();
                h = mix(h ^ r.is_ok() as u64);
            }
            Step::Backward(g) => {
                // valid only after an infer in this mode: repeat one on the present input
                if !self.ready {
                    let x = self.net.get_intermediate_state(0).map_err(|e| e.to_string())?.clone();
                    self.ready = self.net.infer(&x).is_ok();
                }
                let r = self.net.backward(&g.tensor());
                h = mix(h ^ r.is_ok() as u64);
            }
            Step::Switch(m) => {
                switch(&mut self.net, *m);
                self.ready = false;
            }
            Step::Clone => {
                self.ready = false;
                // drop the network and go on with a new one
                self.net = build_net(&l.ch, self.net.get_run_state())?;
                h = mix(h ^ 77);
            }
            Step::Serial => {
                for l in dump_net(&self.net) {
                    for (k, b) in l {
                        h = mix(h ^ k as u64 ^ fnv(&b));
                    }
                }
            }
            Step::Tensor(a, b, op) => {
                let (a, b) = (a.tensor(), b.tensor());
                let mut o = Tensor::new(a.get_shape());
                match op {
                    0 => Tensor::add(&a, &b, &mut o),
                    1 => Tensor::multiply_elementwise(&a, &b, &mut o),
                    2 => Tensor::softmax(&a, &mut o),
                    _ => {
                        let s = a.get_shape();
                        o = Tensor::new(TensorShape { di: s.di, dj: s.di, dk: s.dk });
                        let _ = Tensor::matrix_multiply_transpose_second(&a, &b, &mut o);
                    }
                }
                h = mix(h ^ Rt::of(&o).hash());
            }
        }
        for st in states(&self.net, l.ch.len())? {
            h = mix(h ^ st.hash());
        }
        for l in self.net.get_layers() {
            for g in layers::grads(l.as_ref()) {
                h = mix(h ^ g.hash());
            }
        }
        self.hash = mix(h ^ (self.net.get_run_state() == TRAIN) as u64);
        Ok(())
    }
}
/// Networks likely to disturb one another: same architecture and names, other parameters.
fn population(r: &mut Rng, n: usize, small: bool) -> (Vec<Life>, Class) {
    let cl = if r.chance(1, 2) { Class::Int } else { Class::Unit };
    let fresh = |r: &mut Rng| {
        let mut c = chain(r, cl, if small { 2 } else { 4 });
        for (i, s) in c.iter_mut().enumerate() {
            s.name = format!("layer_{i}");
        }
        c
    };
    let base = fresh(r);
    let mut v = vec![];
    for i in 0..n {
        let mut ch = if i == 0 || r.chance(2, 3) { base.clone() } else { fresh(r) };
        for s in &mut ch {
            other_parameters(r, cl, s);
        }
        v.push(Life::gen(r, ch, cl));
    }
    (v, cl)
}
fn other_parameters(r: &mut Rng, cl: Class, s: &mut Spec) {
    match &mut s.kind {
        Kind::Conv { kernels, biases, .. } => {
            kernels.iter_mut().for_each(|k| *k = rt(r, cl, k.s));
            *biases = values(r, cl, biases.len());
        }
        Kind::Fc { w, b } => {
            *w = rt(r, cl, w.s);
            *b = rt(r, cl, b.s);
        }
        _ => {}
    }
}
/// The life of a single layer.
#[derive(Clone, Debug)]
enum LStep {
    Forward(Rt),
    Backward(Rt),
    Switch(NetworkRunState),
    Clear,
}
struct LRun {
    l: DynLayer,
    out: Tensor,
    outg: Tensor,
    /// the input of the last forward pass in this mode
    x: Option<Tensor>,
    hash: u64,
}
impl LRun {
    fn new(s: &Spec) -> R<LRun> {
        let mut l = s.build()?;
        l.switch_to_training();
        Ok(LRun { l, out: Rt::zero(s.out).tensor(), outg: Rt::zero(s.inp).tensor(), x: None, hash: 1 })
    }
    fn step(&mut self, s: &LStep) -> R<u64> {
        let mut h = self.hash;
        match s {
            LStep::Forward(x) => {
                let x = x.tensor();
                h = mix(h ^ self.l.forward(&x, &mut self.out).is_ok() as u64);
                self.x = Some(x);
            }
            LStep::Backward(g) => {
                if let Some(x) = &self.x {
                    h = mix(h ^ self.l.backward(x, &self.out, &g.tensor(), &mut self.outg).is_ok() as u64);
                }
            }
            LStep::Switch(m) => {
                if *m == TRAIN {
                    self.l.switch_to_training()
                } else {
                    self.l.switch_to_inference()
                }
                self.x = None;
            }
            LStep::Clear => self.l.clear_gradients(),
        }
        h = mix(h ^ Rt::of(&self.out).hash());
        h = mix(h ^ Rt::of(&self.outg).hash());
        for g in layers::grads(self.l.as_ref()) {
            h = mix(h ^ g.hash());
        }
        for (k, b) in dump(self.l.as_ref()) {
            h = mix(h ^ k as u64 ^ fnv(&b));
        }
        self.hash = mix(h ^ (self.l.get_run_mode() == TRAIN) as u64);
        Ok(self.hash)
    }
}
/// What each network computes when nothing else runs on its thread.
fn solo(l: &Life) -> R<Vec<u64>> {
    let l = l.clone();
    // a thread of its own: no thread-local state of earlier runs either
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut n = l.start()?;
            let mut v = vec![];
            for st in &l.steps {
                n.step(&l, st)?;
                v.push(n.hash);
            }
            Ok(v)
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
/// What is computed of tensors, against the model (values are small integers).
fn judge_reads(t: &Tensor, u: &Tensor, m: &Rt, n: &Rt) -> R {
    let sq: f64 = m.v.iter().map(|x| (*x as f64) * (*x as f64)).sum();
    let got = t.get_norm() as f64;
    ensure!((got - sq.sqrt()).abs() <= 1e-4 * (1.0 + sq.sqrt()), "the norm of {} is {got}", m.show());
    ensure!((*t == *u) == (m.s == n.s && m.v == n.v), "{} == {} is {}", m.show(), n.show(), *t == *u);
    ensure!(t.total_items() as usize == m.v.len(), "{:?} has {} items", m.s, t.total_items());
    if m.s == n.s {
        let want: f64 = m.v.iter().zip(&n.v).map(|(x, y)| *x as f64 * *y as f64).sum();
        let abs: f64 = m.v.iter().zip(&n.v).map(|(x, y)| (*x as f64 * *y as f64).abs()).sum();
        let got = Tensor::dot(t, u).map_err(|e| format!("dot refused: {e}"))? as f64;
        ensure!((got - want).abs() <= 1e-4 * (1.0 + abs), "the dot product of {} and {} is {got}, {want} expected", m.show(), n.show());
        let mut r = Tensor::new(rusty_network::tensor::helper::TensorShape { di: m.s[0], dj: m.s[1], dk: m.s[2] });
        Tensor::add(t, u, &mut r);
        let r = Rt::of(&r);
        ensure!(r.v.iter().zip(m.v.iter().zip(&n.v)).all(|(z, (x, y))| *z == x + y), "the sum of {} and {} is {}", m.show(), n.show(), r.show());
    }
    Ok(())
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule("non-trivial: several networks ran interleaved or concurrently, and every result of every step equalled, bit for bit, the one of a run alone");
    ctx.family("interleaved", 1500, |c| {
        let n = c.rng.range(2, 5) as usize;
        let (lives, _) = population(&mut c.rng, n, false);
        let alone: Vec<Vec<u64>> = lives.iter().map(solo).collect::<R<_>>()?;
        let mut run: Vec<Running> = lives.iter().map(|l| l.start()).collect::<R<_>>()?;
        let mut at = vec![0; n];
        let mut order = String::new();
        loop {
            let open: Vec<usize> = (0..n).filter(|i| at[*i] < lives[*i].steps.len()).collect();
            if open.is_empty() {
                break;
            }
            let i = *c.rng.pick(&open);
            run[i].step(&lives[i], &lives[i].steps[at[i]])?;
            order.push((b'a' + i as u8) as char);
            ensure!(
                run[i].hash == alone[i][at[i]],
                "network {i} of {n} ({}) computes something else at step {} ({}) than alone, interleaving {order}",
                chain_show(&lives[i].ch),
                at[i],
                cut(&format!("{:?}", lives[i].steps[at[i]]), 80)
            );
            at[i] += 1;
            c.count("interleaved_steps", 1);
        }
        c.describe(format!("{n} networks, first {}; interleaving {order}", chain_show(&lives[0].ch)));
        c.see("interleavings", hash_str(&order));
        lives.iter().for_each(|l| c.key(chain_hash(&l.ch)));
        c.nontrivial();
        Ok(())
    });
    // single layers, many of the same kind and size, taking turns
    ctx.family("layers", 1500, |c| {
        let cl = if c.rng.chance(1, 2) { Class::Int } else { Class::Unit };
        let base = any_spec(&mut c.rng, cl);
        let n = c.rng.range(2, 5) as usize;
        let mut lives: Vec<(Spec, Vec<LStep>)> = vec![];
        for i in 0..n {
            let mut s = if i == 0 || c.rng.chance(3, 4) { base.clone() } else { any_spec(&mut c.rng, cl) };
            other_parameters(&mut c.rng, cl, &mut s);
            let steps = (0..c.rng.range(3, 10))
                .map(|_| match c.rng.below(8) {
                    0 => LStep::Switch(rand_mode(&mut c.rng)),
                    1 => LStep::Clear,
                    2..=4 => LStep::Backward(rt(&mut c.rng, cl, s.out)),
                    _ => LStep::Forward(rt(&mut c.rng, cl, s.inp)),
                })
                .collect();
            lives.push((s, steps));
        }
        let alone: Vec<Vec<u64>> = lives
            .iter()
            .map(|l| {
                std::thread::scope(|sc| {
                    sc.spawn(|| -> R<Vec<u64>> {
                        let mut r = LRun::new(&l.0)?;
                        l.1.iter().map(|s| r.step(s)).collect()
                    })
                    .join()
                    .unwrap_or_else(|e| std::panic::resume_unwind(e))
                })
            })
            .collect::<R<_>>()?;
        let mut run: Vec<LRun> = lives.iter().map(|l| LRun::new(&l.0)).collect::<R<_>>()?;
        let mut at = vec![0; n];
        let mut order = String::new();
        loop {
            let open: Vec<usize> = (0..n).filter(|i| at[*i] < lives[*i].1.len()).collect();
            if open.is_empty() {
                break;
            }
            let i = *c.rng.pick(&open);
            let st = &lives[i].1[at[i]];
            let h = run[i].step(st)?;
            order.push((b'a' + i as u8) as char);
            ensure!(
                h == alone[i][at[i]],
                "layer {i} of {n} ({}) computes something else at step {} ({}) than alone, interleaving {order}",
                lives[i].0.show(),
                at[i],
                cut(&format!("{st:?}"), 80)
            );
            at[i] += 1;
            c.count("layer_steps", 1);
        }
        c.describe(format!("{n} layers, first {}; interleaving {order}", lives[0].0.show()));
        c.see("layer_interleavings", hash_str(&order));
        lives.iter().for_each(|l| c.key(l.0.hash()));
        c.nontrivial();
        Ok(())
    });
    // layers handed from thread to thread between their steps
    ctx.family("moved", 500, |c| {
        let cl = if c.rng.chance(1, 2) { Class::Int } else { Class::Unit };
        let base = any_spec(&mut c.rng, cl);
        let n = c.rng.range(1, 4) as usize;
        let mut lives: Vec<(Spec, Vec<LStep>)> = vec![];
        for i in 0..n {
            let mut s = if i == 0 || c.rng.chance(2, 3) { base.clone() } else { any_spec(&mut c.rng, cl) };
            other_parameters(&mut c.rng, cl, &mut s);
            let steps = (0..c.rng.range(3, 9))
                .map(|_| match c.rng.below(8) {
                    0 => LStep::Switch(rand_mode(&mut c.rng)),
                    1 => LStep::Clear,
                    2..=4 => LStep::Backward(rt(&mut c.rng, cl, s.out)),
                    _ => LStep::Forward(rt(&mut c.rng, cl, s.inp)),
                })
                .collect();
            lives.push((s, steps));
        }
        let alone: Vec<Vec<u64>> = lives
            .iter()
            .map(|l| {
                std::thread::scope(|sc| {
                    sc.spawn(|| -> R<Vec<u64>> {
                        let mut r = LRun::new(&l.0)?;
                        l.1.iter().map(|s| r.step(s)).collect()
                    })
                    .join()
                    .unwrap_or_else(|e| std::panic::resume_unwind(e))
                })
            })
            .collect::<R<_>>()?;
        // a layer is only ever used by the thread that holds it; Box<dyn Layer> alone cannot say that
        struct Held(LRun);
        unsafe impl Send for Held {}
        type Job = (Held, LStep);
        type Done = std::thread::Result<(Held, R<u64>)>;
        let workers = c.rng.range(2, 3) as usize;
        let mut run: Vec<Option<Held>> = lives.iter().map(|l| LRun::new(&l.0).map(|r| Some(Held(r)))).collect::<R<_>>()?;
        let mut at = vec![0; n];
        let mut order = String::new();
        std::thread::scope(|sc| -> R {
            let mut ends = vec![];
            for _ in 0..workers {
                let (job, jobs) = std::sync::mpsc::channel::<Job>();
                let (result, done) = std::sync::mpsc::channel::<Done>();
                sc.spawn(move || {
                    for (held, st) in jobs {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                            let mut held = held;
                            let h = held.0.step(&st);
                            (held, h)
                        }));
                        if result.send(r).is_err() {
                            break;
                        }
                    }
                });
                ends.push((job, done));
            }
            loop {
                let open: Vec<usize> = (0..n).filter(|i| at[*i] < lives[*i].1.len()).collect();
                if open.is_empty() {
                    break;
                }
                let i = *c.rng.pick(&open);
                let w = c.rng.below(workers as u64 + 1) as usize;
                let st = lives[i].1[at[i]].clone();
                let held = run[i].take().expect("harness: the layer is here");
                order.push_str(&format!("{}{w} ", (b'a' + i as u8) as char));
                let (held, h) = if w == workers {
                    // a new thread for this step only
                    sc.spawn(move || {
                        let mut held: Held = held;
                        let h = held.0.step(&st);
                        (held, h)
                    })
                    .join()
                    .unwrap_or_else(|e| std::panic::resume_unwind(e))
                } else {
                    ends[w].0.send((held, st)).expect("harness: worker");
                    ends[w].1.recv().expect("harness: worker").unwrap_or_else(|e| std::panic::resume_unwind(e))
                };
                run[i] = Some(held);
                ensure!(
                    h? == alone[i][at[i]],
                    "layer {i} of {n} ({}), handed from thread to thread, computes something else at step {} ({}) than on one, history {order}",
                    lives[i].0.show(),
                    at[i],
                    cut(&format!("{:?}", lives[i].1[at[i]]), 80)
                );
                at[i] += 1;
                c.count("moved_steps", 1);
            }
            Ok(())
        })?;
        c.describe(format!("{n} layers, first {}; layers and threads {order}", lives[0].0.show()));
        c.see("moves", hash_str(&order));
        lives.iter().for_each(|l| c.key(l.0.hash()));
        c.nontrivial();
        Ok(())
    });
    ctx.family("threads", 400, |c| {
        let n = c.rng.range(2, 6) as usize;
        let (lives, cl) = population(&mut c.rng, n, cfg!(miri));
        let alone: Vec<Vec<u64>> = lives.iter().map(solo).collect::<R<_>>()?;
        // tensors that all threads read
        let s = shape(&mut c.rng);
        let (a, b) = (rt(&mut c.rng, cl, s), rt(&mut c.rng, cl, s));
        let (ta, tb) = (a.tensor(), b.tensor());
        let want: Vec<f32> = a.v.iter().zip(&b.v).map(|(x, y)| x + y).collect();
        let barrier = std::sync::Barrier::new(n);
        let yields: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        c.describe(format!("{n} threads, first {}, shared tensors {s:?}", chain_show(&lives[0].ch)));
        lives.iter().for_each(|l| c.key(chain_hash(&l.ch)));
        let clock = std::sync::atomic::AtomicU64::new(0);
        let res: Vec<R<Vec<(u64, u64)>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (lives, alone, ta, tb, want, barrier, yields, clock) = (&lives, &alone, &ta, &tb, &want, &barrier, &yields, &clock);
                    sc.spawn(move || -> R<Vec<(u64, u64)>> {
                        barrier.wait();
                        let l = &lives[i];
                        let mut net = l.start()?;
                        let mut tick = vec![];
                        let mut y = Rng::new(yields[i]);
                        for (p, st) in l.steps.iter().enumerate() {
                            match y.below(4) {
                                0 => std::thread::yield_now(),
                                1 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(y.below(30))),
                                _ => {}
                            }
                            net.step(l, st)?;
                            tick.push((clock.fetch_add(1, std::sync::atomic::Ordering::Relaxed), i as u64));
                            ensure!(net.hash == alone[i][p], "network {i} of {n} ({}) computes something else at step {p} than alone, with {} other threads running", chain_show(&l.ch), n - 1);
                            let mut o = Tensor::new(ta.get_shape());
                            Tensor::add(ta, tb, &mut o);
                            ensure!(Rt::of(&o).v.iter().zip(want).all(|(x, y)| same_num(*x, *y)), "thread {i}: the sum of two shared tensors is wrong");
                            let cp = ta.clone();
                            ensure!(cp == *ta, "thread {i}: a clone of a shared tensor is not equal to it");
                        }
                        Ok(tick)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        let mut ticks = vec![];
        for r in res {
            ticks.extend(r?);
        }
        ticks.sort();
        let order: String = ticks.iter().map(|t| (b'a' + t.1 as u8) as char).collect();
        ensure!(Rt::of(&ta).same_bits(&a) && Rt::of(&tb).same_bits(&b), "shared tensors changed although only read");
        c.see("thread_interleavings", hash_str(&order));
        c.count("threads_run", n as u64);
        c.count("concurrent_steps", ticks.len() as u64);
        c.nontrivial();
        Ok(())
    });
    // every thread saves and reads files of its own, all in one directory
    if !cfg!(miri) {
        let dir = ctx.scratch.clone();
        ctx.family("files", 150, |c| {
            let n = c.rng.range(2, 6) as usize;
            let home = dir.join(format!("files{}", c.idx));
            std::fs::create_dir_all(&home).expect("harness: scratch directory");
            let rounds = c.rng.range(3, 25);
            let similar = c.rng.chance(1, 2);
            let mut work = vec![];
            let s0 = shape(&mut c.rng);
            let ch0 = chain(&mut c.rng, Class::Int, 3);
            for i in 0..n {
                let s = if similar { s0 } else { shape(&mut c.rng) };
                let mut ch = if similar { ch0.clone() } else { chain(&mut c.rng, Class::Int, 3) };
                ch.iter_mut().for_each(|s| other_parameters(&mut c.rng, Class::Int, s));
                let f = |k: &str| home.join(format!("{k}{i}")).to_string_lossy().to_string();
                work.push((rt(&mut c.rng, Class::Special, s), ch, f("t"), f("n"), c.rng.u64()));
            }
            c.describe(format!("{n} threads saving and reading files of their own in one directory, first {:?} and {}", work[0].0.s, chain_show(&work[0].1)));
            work.iter().for_each(|w| c.key(chain_hash(&w.1)));
            let barrier = std::sync::Barrier::new(n);
            let res: Vec<R<u64>> = std::thread::scope(|sc| {
                let hs: Vec<_> = work
                    .iter()
                    .map(|(m, ch, tf, nf, seed)| {
                        let barrier = &barrier;
                        sc.spawn(move || -> R<u64> {
                            let built = build_net(ch, INFER).map(|n| (n, m.tensor()));
                            barrier.wait();
                            let (net, t) = built?;
                            let mut r = Rng::new(*seed);
                            let what = |w: &str| format!("{w}, while {} other threads save and read files in that directory", n - 1);
                            for _ in 0..rounds {
                                if r.chance(1, 2) {
                                    t.save_to_file(tf).map_err(|e| format!("{}: {e}", what("saving a tensor failed")))?;
                                    let u = Tensor::from_file(tf).map_err(|e| format!("{}: {e}", what("reading a tensor failed")))?;
                                    ensure!(Rt::of(&u).same_bits(m), "{}", what("another tensor was read back"));
                                } else {
                                    net.save_to_file(nf).map_err(|e| format!("{}: {e}", what("saving a network failed")))?;
                                    let mut u = Network::new(INFER);
                                    u.load_from_file(nf).map_err(|e| format!("{}: {e}", what("loading a network failed")))?;
                                    judge_net(&u, ch, INFER, &what("read back"))?;
                                }
                            }
                            Ok(rounds as u64)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
            });
            for r in res {
                c.count("concurrent_files", r?);
            }
            std::fs::remove_dir_all(&home).expect("harness: scratch directory");
            c.nontrivial();
            Ok(())
        });
    }
    // tensors: many live at a time, each keeps its own content
    ctx.family("tensors", 800, |c| {
        let mut m: Vec<Rt> = vec![];
        let mut t: Vec<Tensor> = vec![];
        for _ in 0..c.rng.range(10, 60) {
            match c.rng.below(11) {
                0 | 1 => {
                    let s = if !m.is_empty() && c.rng.chance(1, 2) { c.rng.pick(&m).s } else { shape(&mut c.rng) };
                    let x = rt(&mut c.rng, Class::Int, s);
                    t.push(x.tensor());
                    m.push(x);
                }
                2 if !m.is_empty() => {
                    let i = c.rng.below(m.len() as u64) as usize;
                    t.push(t[i].clone());
                    m.push(m[i].clone());
                }
                3 if m.len() > 2 => {
                    let i = c.rng.below(m.len() as u64) as usize;
                    t.swap_remove(i);
                    m.swap_remove(i);
                }
                4 if m.len() > 1 => {
                    let i = c.rng.below(m.len() as u64) as usize;
                    let x = value(&mut c.rng, Class::Int);
                    t[i].fill_with_value(x);
                    m[i].v.fill(x);
                }
                5 if m.len() > 1 => {
                    let (i, j) = (c.rng.below(m.len() as u64) as usize, c.rng.below(m.len() as u64) as usize);
                    if i != j && m[i].s == m[j].s {
                        let src = t[j].clone();
                        Tensor::add_to_self(&mut t[i], &src);
                        let o = m[j].v.clone();
                        m[i].v.iter_mut().zip(o).for_each(|(a, b)| *a += b);
                    }
                }
                6 if !m.is_empty() => {
                    // a near twin: the same but for one cell
                    let i = c.rng.below(m.len() as u64) as usize;
                    let (mut a, mut b) = (t[i].clone(), m[i].clone());
                    let p = c.rng.below(b.v.len() as u64) as usize;
                    let (x, y, z) = unpos(b.s, p);
                    b.v[p] += *c.rng.pick(&[1.0, -2.0, 7.0]);
                    a.set_item(&TensorIndex { i: x, j: y, k: z }, b.v[p]);
                    t.push(a);
                    m.push(b);
                }
                7..=9 if !m.is_empty() => {
                    // what is computed of some, one after the other
                    for _ in 0..4 {
                        let i = c.rng.below(m.len() as u64) as usize;
                        let j = if c.rng.chance(1, 2) { m.len() - 1 } else { c.rng.below(m.len() as u64) as usize };
                        judge_reads(&t[i], &t[j], &m[i], &m[j])?;
                        judge_reads(&t[j], &t[i], &m[j], &m[i])?;
                        c.count("reads_judged", 2);
                    }
                }
                _ if !m.is_empty() => {
                    let i = c.rng.below(m.len() as u64) as usize;
                    let p = c.rng.below(m[i].v.len() as u64) as usize;
                    let (a, b, d) = unpos(m[i].s, p);
                    let x = value(&mut c.rng, Class::Int);
                    t[i].set_item(&TensorIndex { i: a, j: b, k: d }, x);
                    m[i].v[p] = x;
                }
                _ => {}
            }
            c.count("tensor_steps", 1);
        }
        for (i, (a, b)) in t.iter().zip(&m).enumerate() {
            ensure!(Rt::of(a).same_bits(b), "tensor {i} of {} holds {}, should hold {}", m.len(), Rt::of(a).show(), b.show());
        }
        c.describe(format!("{} tensors", m.len()));
        m.iter().for_each(|x| c.key(x.hash()));
        c.nontrivial();
        Ok(())
    });
    ctx.require("interleaved_steps", 10000);
    ctx.require("reads_judged", 10000);
    ctx.require("concurrent_steps", 5000);
    ctx.require("interleavings", 500);
    ctx.require("layer_steps", 10000);
    ctx.require("layer_interleavings", 500);
    ctx.require("thread_interleavings", 100);
}
