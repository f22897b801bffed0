//! C01-C06: the tensor as a store, and the tensor operations.
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use rusty_network::layer::Layer;
use rusty_network::tensor::helper::TensorIndex;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

const HOSTILE: [u32; 9] = [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 16, (1 << 16) + 1, 1 << 24, 65535, 1 << 30];

fn outside(r: &mut Rng, s: Sh) -> TensorIndex {
    let mut ix = [0u32; 3];
    for d in 0..3 {
        ix[d] = if s[d] > 0 { r.range(0, s[d] - 1) } else { 0 };
    }
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let d = r.below(3) as usize;
        ix[d] = match r.below(4) {
            0 => *r.pick(&HOSTILE),
            1 => s[d].saturating_add(r.range(1, 3)),
            _ => s[d],
        };
        ix[d] = ix[d].max(s[d]);
    }
    TensorIndex { i: ix[0], j: ix[1], k: ix[2] }
}
fn same_store(c: &mut Case, what: &str, t: &Tensor, want: &Rt) -> R {
    let s = unshape(t.get_shape());
    ensure!(s == want.s, "{what}: shape is {s:?}, should be {:?}", want.s);
    ensure!(t.total_items() as usize == want.v.len(), "{what}: total_items is {}", t.total_items());
    for k in 0..s[2] {
        for j in 0..s[1] {
            for i in 0..s[0] {
                let ix = TensorIndex { i, j, k };
                let a = t.get_item(&ix);
                let w = want.at(i, j, k);
                ensure!(a.to_bits() == w.to_bits(), "{what}: cell ({i},{j},{k}) of {s:?} reads {a:?}, last written {w:?}");
            }
        }
    }
    c.count("cells_read", want.v.len() as u64);
    Ok(())
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule("non-trivial: at least one write was followed by reading every cell of the tensor (or a comparison of two tensors with cells)");
    // every shape up to 4x4x4 (and empty ones), every cell written in turn, every cell read after each
    let shapes: Vec<Sh> = {
        let mut v = vec![];
        for a in 0..5u32 {
            for b in 0..5 {
                for d in 0..5 {
                    v.push([a, b, d]);
                }
            }
        }
        v
    };
    let n = shapes.len() as u64;
    ctx.family_n("small_shapes", n, |c| {
        let s = shapes[c.idx as usize];
        c.describe(format!("{s:?}"));
        let mut t = Tensor::new(tshape(s));
        let mut m = Rt::zero(s);
        same_store(c, "new tensor", &t, &m)?;
        let mut order: Vec<usize> = (0..size(s)).collect();
        c.rng.shuffle(&mut order);
        for (n, p) in order.iter().enumerate() {
            let (i, j, k) = unpos(s, *p);
            let v = 1.0 + n as f32;
            t.set_item(&TensorIndex { i, j, k }, v);
            m.v[*p] = v;
            c.count("writes", 1);
            same_store(c, &format!("after writing cell ({i},{j},{k})"), &t, &m)?;
            ensure!(
                t.get_data_index(&TensorIndex { i, j, k }) as usize == *p,
                "storage position of ({i},{j},{k}) in {s:?} is {}, not {p}",
                t.get_data_index(&TensorIndex { i, j, k })
            );
        }
        // around and far outside the shape
        let around = |d: u32| -> Vec<u32> { (0..d + 3).chain(HOSTILE).collect() };
        for i in around(s[0]) {
            for j in around(s[1]) {
                for k in around(s[2]) {
                    if i < s[0] && j < s[1] && k < s[2] {
                        continue;
                    }
                    let ix = TensorIndex { i, j, k };
                    let a = t.get_item(&ix);
                    ensure!(a.to_bits() == 0, "reading ({i},{j},{k}) outside {s:?} gives {a:?}");
                    t.set_item(&ix, 77.5);
                    c.count("outside_accesses", 2);
                }
            }
        }
        same_store(c, "after writes outside", &t, &m)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("history", 1500, |c| {
        let mut s = shape(&mut c.rng);
        if c.rng.chance(1, 12) {
            s[c.rng.below(3) as usize] = 0;
        }
        let cl = if c.rng.chance(1, 2) { Class::Special } else { Class::Int };
        let mut t = if s == [1, 1, 1] && c.rng.chance(1, 3) { Tensor::empty() } else { Tensor::new(tshape(s)) };
        let mut m = Rt::zero(s);
        let mut log = String::new();
        for _ in 0..c.steps(3, 25) {
            match c.rng.below(9) {
                0..=3 if size(s) > 0 => {
                    let (i, j, k) = (c.rng.range(0, s[0] - 1), c.rng.range(0, s[1] - 1), c.rng.range(0, s[2] - 1));
                    let v = value(&mut c.rng, cl);
                    t.set_item(&TensorIndex { i, j, k }, v);
                    let p = pos(s, i, j, k);
                    m.v[p] = v;
                    log += "w";
                    c.count("writes", 1);
                }
                4 => {
                    let ix = outside(&mut c.rng, s);
                    t.set_item(&ix, 5.0);
                    let a = t.get_item(&ix);
                    ensure!(a.to_bits() == 0, "reading ({},{},{}) outside {s:?} gives {a:?}", ix.i, ix.j, ix.k);
                    log += "o";
                    c.count("outside_accesses", 2);
                }
                5 => {
                    let v = value(&mut c.rng, cl);
                    t.fill_with_value(v);
                    m.v.iter_mut().for_each(|x| *x = v);
                    log += "f";
                    c.count("fills", 1);
                }
                6 => {
                    let v = values(&mut c.rng, cl, size(s));
                    t.fill_with_vec(v.clone()).map_err(|e| format!("fill_with_vec of the right length refused: {e}"))?;
                    m.v = v;
                    log += "v";
                    c.count("fills", 1);
                }
                7 => {
                    let mut n = match c.rng.below(5) {
                        0 => 0,
                        1 => size(s) + 1,
                        2 => size(s).saturating_sub(1),
                        3 => size(s) * 2,
                        _ => c.rng.below(40) as usize,
                    };
                    if n == size(s) {
                        n += 1;
                    }
                    ensure!(t.fill_with_vec(vec![3.25; n]).is_err(), "fill_with_vec of {n} values accepted for {s:?}");
                    log += "r";
                    c.count("refused_fills", 1);
                }
                _ => {
                    let mut cp = t.clone();
                    same_store(c, "clone", &cp, &m)?;
                    if !m.v.iter().any(|x| x.is_nan()) {
                        ensure!(t == cp && !(t != cp), "a clone does not compare equal to its original {}", m.show());
                    }
                    cp.fill_with_value(-9.5);
                    same_store(c, "original after its clone was written", &t, &m)?;
                    let old = m.clone();
                    let keep = t.clone();
                    t.fill_with_value(2.5);
                    m.v.iter_mut().for_each(|x| *x = 2.5);
                    same_store(c, "clone after its original was written", &keep, &old)?;
                    log += "c";
                    c.count("clones", 1);
                }
            }
            same_store(c, &format!("after history {log}"), &t, &m)?;
        }
        c.describe(format!("{s:?} {cl:?} {log}"));
        c.key(m.hash());
        if log.contains(['w', 'v', 'f']) && size(s) > 0 {
            c.nontrivial();
        }
        c.see("histories", hash_str(&log));
        Ok(())
    });
    let large: Vec<Sh> = vec![
        [70000, 1, 1],
        [1, 70000, 1],
        [1, 1, 70000],
        [300, 300, 2],
        [3, 70001, 2],
        [2, 3, 66000],
        [257, 257, 3],
        [65536, 2, 2],
        [1, 65537, 3],
        [4097, 4097, 1],
        [(1 << 24) + 3, 1, 1],
        [1, 5, 3400000],
    ];
    let n = large.len() as u64;
    ctx.family_n("large_shapes", n, |c| {
        let s = large[c.idx as usize];
        c.describe(format!("{s:?}"));
        let mut t = Tensor::new(tshape(s));
        let mut m = Rt { s, v: (0..size(s)).map(|p| f32::from_bits(p as u32 + 1)).collect() };
        t.fill_with_vec(m.v.clone()).map_err(|e| format!("fill_with_vec of the right length refused: {e}"))?;
        same_store(c, "large tensor after fill_with_vec", &t, &m)?;
        for n in 0..200u32 {
            let f = |r: &mut Rng, d: u32| match r.below(4) {
                0 => d - 1,
                1 => 0,
                _ => r.range(0, d - 1),
            };
            let (i, j, k) = (f(&mut c.rng, s[0]), f(&mut c.rng, s[1]), f(&mut c.rng, s[2]));
            t.set_item(&TensorIndex { i, j, k }, -1.0 - n as f32);
            m.v[pos(s, i, j, k)] = -1.0 - n as f32;
            c.count("writes", 1);
            let ix = outside(&mut c.rng, s);
            t.set_item(&ix, 5.0);
            ensure!(t.get_item(&ix).to_bits() == 0, "reading ({},{},{}) outside {s:?} is not 0", ix.i, ix.j, ix.k);
        }
        same_store(c, "large tensor after scattered writes", &t, &m)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family("equality", 3000, |c| {
        let s = shape(&mut c.rng);
        let cl = if c.rng.chance(1, 3) { Class::Special } else { Class::Int };
        let a = rt(&mut c.rng, cl, s);
        let mut b = a.clone();
        match c.rng.below(5) {
            0 => {}
            1 => {
                b.s = other_shape(&mut c.rng, s);
                if size(b.s) != size(s) {
                    b.v = (0..size(b.s)).map(|p| a.v[p % a.v.len()]).collect();
                }
            }
            2 => {
                let p = c.rng.below(b.v.len() as u64) as usize;
                b.v[p] = value(&mut c.rng, cl);
            }
            3 => {
                // signs of zeros do not matter, one bit of anything else does
                for x in b.v.iter_mut() {
                    if *x == 0.0 {
                        *x = -*x;
                    }
                }
            }
            _ => {
                let p = if c.rng.chance(1, 2) { b.v.len() - 1 } else { c.rng.below(b.v.len() as u64) as usize };
                b.v[p] = f32::from_bits(b.v[p].to_bits() ^ 1);
            }
        }
        let want = a.s == b.s && a.v.iter().zip(&b.v).all(|(x, y)| x == y);
        let (ta, tb) = (a.tensor(), b.tensor());
        c.describe(format!("{} vs {}", a.show(), b.show()));
        for (x, y) in [(&ta, &tb), (&tb, &ta)] {
            ensure!((*x == *y) == want, "{} == {} is {}", a.show(), b.show(), *x == *y);
            ensure!((*x != *y) == !want, "{} != {} is {}", a.show(), b.show(), *x != *y);
        }
        // a tensor and itself, and its clone: equal exactly if no cell is NaN
        for (t, m) in [(&ta, &a), (&tb, &b)] {
            let w = m.v.iter().all(|x| !x.is_nan());
            let u = t.clone();
            #[allow(clippy::eq_op)]
            let got = [*t == *t, !(*t != *t), *t == u, u == *t];
            ensure!(got == [w; 4], "{} compared with itself and with its clone: {got:?}", m.show());
            c.count("self_comparisons", 1);
        }
        c.count(if want { "equal_pairs" } else { "different_pairs" }, 1);
        c.nontrivial();
        Ok(())
    });
    ctx.require("writes", 5000);
    ctx.require("outside_accesses", 5000);
    ctx.require("equal_pairs", 100);
    ctx.require("self_comparisons", 2000);
    ctx.require("different_pairs", 100);
}

/// An operand that must come out of every operation with the same bits.
struct Op {
    name: &'static str,
    m: Rt,
    t: Tensor,
}
fn op(name: &'static str, m: Rt) -> Op {
    let t = m.tensor();
    Op { name, m, t }
}
impl Op {
    fn unchanged(&self, what: &str) -> R {
        let now = Rt::of(&self.t);
        ensure!(now.same_bits(&self.m), "{what}: {} changed from {} to {}", self.name, self.m.show(), now.show());
        Ok(())
    }
}
fn accs(v: impl Iterator<Item = (f64, f64)>) -> Vec<Acc> {
    // single rounded operations: the exact result and nothing else to add up
    v.map(|(val, _)| Acc { val, abs: val.abs(), n: 0 }).collect()
}
fn exact_cells(what: &str, got: &Tensor, want: &Rt) -> R {
    let g = Rt::of(got);
    ensure!(g.s == want.s, "{what}: shape of the result became {:?}", g.s);
    for (p, (a, b)) in g.v.iter().zip(&want.v).enumerate() {
        ensure!(same_num(*a, *b), "{what}: cell {:?} is {a:?}, should be {b:?}", unpos(g.s, p));
    }
    Ok(())
}
fn big_shape(r: &mut Rng) -> Sh {
    *r.pick(&[[70000, 1, 1], [1, 70000, 1], [1, 1, 70000], [257, 257, 2], [2, 33000, 1], [1, 2, 33001], [65537, 1, 1]])
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule("non-trivial: an operation ran on operands with at least one cell and its destination and operands were compared cell by cell");
    ctx.assume("sums (norm, dot, scatter-add) are judged with the a-priori bound (n+4)*2^-24*sum|terms|, valid for every summation order");
    fn one(c: &mut Case, big: bool) -> R {
        let mut s = if big { big_shape(&mut c.rng) } else { shape(&mut c.rng) };
        if !big && c.rng.chance(1, 50) {
            // no cells at all
            s[c.rng.below(3) as usize] = 0;
        }
        let s = s;
        let cl = match c.rng.below(4) {
            0 => Class::Special,
            _ => numeric_class(&mut c.rng),
        };
        let opn = c.rng.below(10);
        // one operand of another shape?
        let bad = c.rng.chance(1, 3);
        let wrong = if bad { 1 + c.rng.below(2) as usize } else { 0 };
        let sh = |r: &mut Rng, n: usize| if n == wrong && wrong > 0 { other_shape(r, s) } else { s };
        let names = ["add", "add_to_self", "scale", "scale_self", "multiply_elementwise", "multiply_elementwise_self", "relu", "transpose_ij", "norm+dot", "add_from_index_list"];
        let what = names[opn as usize];
        c.count(&format!("op:{what}"), 1);
        let a = op("the first operand", rt(&mut c.rng, cl, s));
        match opn {
            0 | 4 => {
                let (s1, s2) = (sh(&mut c.rng, 1), sh(&mut c.rng, 2));
                let b = op("the second operand", rt(&mut c.rng, cl, s1));
                // one tensor as both operands
                let alias = s1 == s && c.rng.chance(1, 5);
                let b = if alias { op("the second operand", a.m.clone()) } else { b };
                let bt = if alias { &a.t } else { &b.t };
                c.count("aliased_operands", alias as u64);
                let g = garbage(&mut c.rng, s2);
                let mut out = g.tensor();
                c.describe(format!("{what} {s:?} {s1:?} -> {s2:?} {cl:?}"));
                c.key(a.m.hash() ^ b.m.hash().rotate_left(9));
                let f = |x: f32, y: f32| if opn == 0 { x + y } else { x * y };
                if opn == 0 {
                    Tensor::add(&a.t, bt, &mut out);
                } else {
                    Tensor::multiply_elementwise(&a.t, bt, &mut out);
                }
                if s1 == s && s2 == s {
                    let want = Rt { s, v: a.m.v.iter().zip(&b.m.v).map(|(x, y)| f(*x, *y)).collect() };
                    exact_cells(what, &out, &want)?;
                } else {
                    ensure!(Rt::of(&out).same_bits(&g), "{what} with shapes {s:?}, {s1:?} -> {s2:?} changed its result");
                    c.count("shape_mismatches", 1);
                }
                b.unchanged(what)?;
            }
            1 | 5 => {
                let s1 = sh(&mut c.rng, 1);
                let dst = rt(&mut c.rng, cl, s1);
                let mut out = dst.tensor();
                c.describe(format!("{what} {s1:?} {s:?} {cl:?}"));
                c.key(a.m.hash() ^ dst.hash().rotate_left(9));
                if opn == 1 {
                    Tensor::add_to_self(&mut out, &a.t);
                } else {
                    Tensor::multiply_elementwise_self(&mut out, &a.t);
                }
                if s1 == s {
                    let want = Rt {
                        s,
                        v: dst.v.iter().zip(&a.m.v).map(|(x, y)| if opn == 1 { x + y } else { x * y }).collect(),
                    };
                    exact_cells(what, &out, &want)?;
                } else {
                    ensure!(Rt::of(&out).same_bits(&dst), "{what} with shapes {s1:?}, {s:?} changed its destination");
                    c.count("shape_mismatches", 1);
                }
            }
            2 => {
                let s1 = sh(&mut c.rng, 1);
                let g = garbage(&mut c.rng, s1);
                let mut out = g.tensor();
                let f = value(&mut c.rng, cl);
                c.describe(format!("{what} {s:?} by {f:?} -> {s1:?} {cl:?}"));
                c.key(a.m.hash());
                Tensor::scale(&a.t, f, &mut out);
                if s1 == s {
                    exact_cells(what, &out, &Rt { s, v: a.m.v.iter().map(|x| x * f).collect() })?;
                } else {
                    ensure!(Rt::of(&out).same_bits(&g), "{what} with shapes {s:?} -> {s1:?} changed its result");
                    c.count("shape_mismatches", 1);
                }
            }
            3 => {
                let f = value(&mut c.rng, cl);
                let mut out = a.m.tensor();
                c.describe(format!("{what} {s:?} by {f:?} {cl:?}"));
                c.key(a.m.hash());
                Tensor::scale_self(&mut out, f);
                exact_cells(what, &out, &Rt { s, v: a.m.v.iter().map(|x| x * f).collect() })?;
            }
            6 => {
                let s1 = sh(&mut c.rng, 1);
                let g = garbage(&mut c.rng, s1);
                let mut mask = g.tensor();
                let mut x = a.m.tensor();
                c.describe(format!("{what} {s:?} mask {s1:?} {cl:?}"));
                c.key(a.m.hash());
                let r = Tensor::relu_self_and_store_mask(&mut x, &mut mask);
                if s1 == s {
                    ensure!(r.is_ok(), "{what} refused matching shapes {s:?}: {r:?}");
                    exact_cells("ReLU mask", &mask, &Rt { s, v: a.m.v.iter().map(|x| if *x > 0.0 { 1.0 } else { 0.0 }).collect() })?;
                    let got = Rt::of(&x);
                    for (p, (o, i)) in got.v.iter().zip(&a.m.v).enumerate() {
                        if i.is_nan() {
                            continue;
                        }
                        let want = if *i > 0.0 { *i } else { 0.0 };
                        ensure!(same_num(*o, want), "ReLU: cell {:?} is {o:?} for input {i:?}", unpos(s, p));
                    }
                } else {
                    ensure!(r.is_err(), "{what} accepted a mask of shape {s1:?} for {s:?}");
                    ensure!(Rt::of(&mask).same_bits(&g), "{what} changed a mask of the wrong shape");
                    ensure!(Rt::of(&x).same_bits(&a.m), "{what} changed its input although refused");
                    c.count("shape_mismatches", 1);
                }
            }
            7 => {
                let tr = [s[1], s[0], s[2]];
                let s1 = if bad {
                    if s[0] != s[1] && c.rng.chance(1, 2) {
                        s
                    } else {
                        other_shape(&mut c.rng, tr)
                    }
                } else {
                    tr
                };
                let g = garbage(&mut c.rng, s1);
                let mut out = g.tensor();
                c.describe(format!("{what} {s:?} -> {s1:?} {cl:?}"));
                c.key(a.m.hash());
                let r = Tensor::transpose_ij(&a.t, &mut out);
                if s1 == tr {
                    ensure!(r.is_ok(), "{what} refused {s:?} -> {s1:?}: {r:?}");
                    let mut want = Rt::zero(s1);
                    for (p, v) in a.m.v.iter().enumerate() {
                        let (i, j, k) = unpos(s, p);
                        want.v[pos(s1, j, i, k)] = *v;
                    }
                    exact_cells(what, &out, &want)?;
                } else {
                    ensure!(r.is_err(), "{what} accepted {s:?} -> {s1:?}");
                    ensure!(Rt::of(&out).same_bits(&g), "{what} refused {s:?} -> {s1:?} but changed its result");
                    c.count("shape_mismatches", 1);
                }
            }
            8 => {
                let cl = if cl == Class::Special { Class::Wide } else { cl };
                let a = op("the operand", rt(&mut c.rng, cl, s));
                c.describe(format!("{what} {s:?} {cl:?}"));
                c.key(a.m.hash());
                let n = a.t.get_norm();
                let mut q = Acc::default();
                a.m.v.iter().for_each(|x| q.add(*x as f64 * *x as f64));
                let want = q.val.sqrt();
                let tol = want * ((q.n as f64 + 8.0) * 6e-8);
                ensure!((n as f64 - want).abs() <= tol, "norm of {} is {n:?}, should be {want:?}", a.m.show());
                let s1 = sh(&mut c.rng, 1);
                let b = op("the second operand", rt(&mut c.rng, cl, s1));
                let alias = s1 == s && c.rng.chance(1, 5);
                let b = if alias { op("the second operand", a.m.clone()) } else { b };
                c.count("aliased_operands", alias as u64);
                let r = Tensor::dot(&a.t, if alias { &a.t } else { &b.t });
                if s1 == s {
                    let mut q = Acc::default();
                    a.m.v.iter().zip(&b.m.v).for_each(|(x, y)| q.add(*x as f64 * *y as f64));
                    let d = r.map_err(|e| format!("dot refused equal shapes: {e}"))?;
                    ensure!(q.near(d, cl.exact()), "dot is {d:?}, should be {:?}", q.val);
                } else {
                    ensure!(r.is_err(), "dot accepted shapes {s:?} and {s1:?}");
                    c.count("shape_mismatches", 1);
                }
                a.unchanged(what)?;
                b.unchanged(what)?;
            }
            _ => {
                let cl = if cl == Class::Special { Class::Wide } else { cl };
                let a = op("the source", rt(&mut c.rng, cl, s));
                let s1 = if big { big_shape(&mut c.rng) } else { shape(&mut c.rng) };
                let dst = rt(&mut c.rng, cl, s1);
                let mut out = dst.tensor();
                let cells = size(s1) as u32;
                let mut n = if c.rng.chance(1, 3) { c.rng.range(0, size(s) as u32) } else { size(s) as u32 } as usize;
                let kind = if bad { 1 + c.rng.below(2) } else { 0 };
                if kind == 1 {
                    n = size(s) + 1 + c.rng.below(3) as usize;
                }
                let few = c.rng.chance(1, 2);
                let hot = c.rng.range(0, cells - 1);
                let mut list: Vec<u32> = (0..n)
                    .map(|_| if few && c.rng.chance(1, 2) { hot } else { c.rng.range(0, cells - 1) })
                    .collect();
                let mut oob = false;
                if kind == 2 && n > 0 {
                    let p = c.rng.below(n as u64) as usize;
                    list[p] = *c.rng.pick(&[cells, cells + 1, u32::MAX, u32::MAX / 2]);
                    oob = true;
                }
                c.describe(format!("{what} {s:?} -> {s1:?} list of {n}{} {cl:?}", if oob { ", one outside" } else { "" }));
                c.key(a.m.hash() ^ fnv(&list.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
                let keep = list.clone();
                let r = Tensor::add_from_index_list(&a.t, &mut out, &list);
                ensure!(list == keep, "{what} changed its index list");
                if kind == 1 {
                    ensure!(r.is_err(), "{what} accepted a list of {n} for a source of {}", size(s));
                    ensure!(Rt::of(&out).same_bits(&dst), "{what} refused a list that is too long but changed its destination");
                    c.count("shape_mismatches", 1);
                } else if oob {
                    ensure!(r.is_err(), "{what} accepted an index outside its destination");
                    c.count("shape_mismatches", 1);
                } else {
                    ensure!(r.is_ok(), "{what} refused a valid list: {r:?}");
                    let mut want: Vec<Acc> = accs(dst.v.iter().map(|x| (*x as f64, 0.0)));
                    for (x, p) in list.iter().enumerate() {
                        want[*p as usize].add(a.m.v[x] as f64);
                    }
                    check_cells(what, &Rt::of(&out), &want, cl.exact(), false)?;
                }
                a.unchanged(what)?;
            }
        }
        a.unchanged(what)?;
        c.count("cells_judged", size(s) as u64);
        c.see("shapes", hash_str(&format!("{s:?}")));
        c.nontrivial();
        Ok(())
    }
    ctx.family("operations", 20000, |c| one(c, false));
    ctx.family("large", 40, |c| one(c, true));
    ctx.require("shape_mismatches", 1000);
    ctx.require("cells_judged", 100000);
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a product of matching shapes with inner dimension >= 2 was compared with the textbook product in every cell, or a mismatch was shown to leave the result untouched");
    fn one(c: &mut Case, big: bool) -> R {
        let what = *c.rng.pick(&["plain", "transpose_first", "transpose_second", "add_relu"]);
        let cl = numeric_class(&mut c.rng);
        let (m, n, p, k) = if big {
            match c.rng.below(4) {
                0 => (2, 70000, 1, 1),
                1 => (70000, 1, 2, 1),
                2 => (1, 2, 66000, 1),
                _ => (2, 2, 2, 20000),
            }
        } else {
            let mut f = || match c.rng.below(5) {
                0 => 1,
                1..=3 => c.rng.range(2, 5),
                _ => c.rng.range(6, 17),
            };
            let (mut m, mut n, mut p) = (f(), f(), f());
            // now and then one dimension beyond the blocks that products are cut into
            if c.rng.chance(1, 40) {
                *match c.rng.below(4) {
                    0 => &mut m,
                    1 => &mut p,
                    _ => &mut n,
                } = c.rng.range(18, 300);
            }
            (m, n, p, if c.rng.chance(1, 2) { 1 } else { c.rng.range(2, 4) })
        };
        let (mut m, mut n, mut p, mut k) = (m, n, p, k);
        // one tensor as both operands
        let alias = !big && c.rng.chance(1, 8);
        if alias {
            p = m;
            if !what.starts_with("transpose") {
                n = m;
            }
        } else if !big && c.rng.chance(1, 40) {
            // sums over nothing (the result is 0, or the bias), or no cells at all
            *match c.rng.below(5) {
                0 => &mut m,
                1 => &mut p,
                2 => &mut k,
                _ => &mut n,
            } = 0;
        }
        let (ta, tb) = (what == "transpose_first", what == "transpose_second");
        let mut sa = if ta { [n, m, k] } else { [m, n, k] };
        let mut sb = if tb { [p, n, k] } else { [n, p, k] };
        let mut sr = [m, p, k];
        let mut sbias = sr;
        if c.rng.chance(1, 3) && !big && !alias {
            let which = c.rng.below(if what == "add_relu" { 5 } else { 4 });
            let r = &mut c.rng;
            match which {
                0 => sa = other_shape(r, sa),
                1 => sb = other_shape(r, sb),
                2 => sr = other_shape(r, sr),
                3 => {
                    // forget a transposition
                    match r.below(3) {
                        0 => sa = [sa[1], sa[0], sa[2]],
                        1 => sb = [sb[1], sb[0], sb[2]],
                        _ => sr = [sr[1], sr[0], sr[2]],
                    }
                    sbias = sr;
                }
                _ => sbias = other_shape(r, sr),
            }
        }
        let a = op("the first operand", rt(&mut c.rng, cl, sa));
        let b = op("the second operand", if alias { a.m.clone() } else { rt(&mut c.rng, cl, sb) });
        let bt = if alias { &a.t } else { &b.t };
        c.count("aliased_operands", alias as u64);
        let bias = op("the bias", rt(&mut c.rng, cl, sbias));
        let g = garbage(&mut c.rng, sr);
        let mut out = g.tensor();
        let ok = matmul_ok(sa, ta, sb, tb, sr) && (what != "add_relu" || sbias == sr);
        c.describe(format!("{what} {sa:?} x {sb:?} (bias {sbias:?}) -> {sr:?} {cl:?}"));
        c.key(a.m.hash() ^ b.m.hash().rotate_left(11) ^ bias.m.hash().rotate_left(23));
        let r = match what {
            "plain" => {
                Tensor::matrix_multiply(&a.t, bt, &mut out);
                None
            }
            "transpose_first" => Some(Tensor::matrix_multiply_transpose_first(&a.t, bt, &mut out)),
            "transpose_second" => Some(Tensor::matrix_multiply_transpose_second(&a.t, bt, &mut out)),
            _ => {
                Tensor::matrix_multiply_add_relu(bt, &a.t, &bias.t, &mut out);
                None
            }
        };
        if ok {
            ensure!(r.is_none() || r.unwrap().is_ok(), "{what} refused {sa:?} x {sb:?} -> {sr:?}");
            let (_, mut want) = matmul(&a.m, ta, &b.m, tb);
            if what == "add_relu" {
                for (w, x) in want.iter_mut().zip(&bias.m.v) {
                    w.add(*x as f64);
                }
            }
            check_cells(&format!("{what} {sa:?} x {sb:?}"), &Rt::of(&out), &want, cl.exact(), what == "add_relu")?;
            c.count("products", 1);
            c.count("cells_judged", want.len() as u64);
            c.see("product_shapes", hash_str(&format!("{what}{m},{n},{p},{k}")));
        } else {
            ensure!(r.is_none() || r.unwrap().is_err(), "{what} accepted {sa:?} x {sb:?} -> {sr:?}");
            let now = Rt::of(&out);
            ensure!(now.same_bits(&g), "{what} {sa:?} x {sb:?} (bias {sbias:?}) -> {sr:?} does not fit but changed its result");
            c.count("mismatches", 1);
        }
        a.unchanged(what)?;
        b.unchanged(what)?;
        bias.unchanged(what)?;
        if n >= 2 || !ok {
            c.nontrivial();
        }
        Ok(())
    }
    ctx.family("products", 12000, |c| one(c, false));
    ctx.family("large", 30, |c| one(c, true));
    ctx.require("products", 5000);
    ctx.require("mismatches", 1000);
}

/// Does a window step through an image axis from border to border?
pub fn fits(image: u32, win: u32, stride: u32) -> Option<u32> {
    if stride == 0 || win == 0 || win > image || (image - win) % stride != 0 {
        return None;
    }
    Some((image - win) / stride + 1)
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a convolution whose window covers more than one cell was compared with the model in every cell of the result tensor (all channels), or an inadmissible one was shown to change nothing");
    ctx.family("operations", 6000, |c| {
        let cl = numeric_class(&mut c.rng);
        let g = geometry(&mut c.rng, 4);
        // now and then more channels than a byte can number
        let many = g.out[0] * g.out[1] <= 16 && c.rng.chance(1, 60);
        let channels = if many { c.rng.range(250, 330) } else { c.rng.range(1, 4) };
        let mut ch = if many && c.rng.chance(1, 2) { c.rng.range(channels - 60, channels - 1) } else { c.rng.range(0, channels - 1) };
        let (mut simg, mut sker, mut sout, mut sbias, mut stride) =
            (g.inp, g.win, [g.out[0], g.out[1], channels], [1, 1, 1], g.stride);
        if c.rng.chance(1, 3) {
            let r = &mut c.rng;
            match r.below(8) {
                0 => simg = other_shape(r, simg),
                1 => sker = other_shape(r, sker),
                2 => sout = other_shape(r, sout),
                3 => sbias = *r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2], [1, 1, 7]]),
                4 => stride = r.range(0, 4),
                5 => ch = *r.pick(&[channels, channels + 1, u32::MAX, 1 << 31]),
                6 => sker[r.below(2) as usize] += r.range(1, 40),
                _ => stride = *r.pick(&[0, u32::MAX, 1 << 31, stride.wrapping_add(1)]),
            }
        }
        if size(simg) > 20000 || size(sout) > 20000 || size(sker) > 20000 {
            return Ok(());
        }
        let relu = c.rng.chance(1, 2);
        let ok = simg[2] == sker[2]
            && fits(simg[0], sker[0], stride) == Some(sout[0])
            && fits(simg[1], sker[1], stride) == Some(sout[1])
            && ch < sout[2]
            && sbias == [1, 1, 1];
        let img = op("the image", rt(&mut c.rng, cl, simg));
        let ker = op("the kernel", rt(&mut c.rng, cl, sker));
        let bias = op("the bias", rt(&mut c.rng, cl, sbias));
        let gar = garbage(&mut c.rng, sout);
        let mut out = gar.tensor();
        let what = format!("convolution{} {simg:?} * {sker:?} stride {stride} bias {sbias:?} -> {sout:?} channel {ch}", if relu { "+relu" } else { "" });
        c.describe(format!("{what} {cl:?}"));
        c.key(img.m.hash() ^ ker.m.hash().rotate_left(11));
        let r = if relu {
            convolution_bias_relu(&img.t, &ker.t, &bias.t, stride, &mut out, ch)
        } else {
            convolution_bias(&img.t, &ker.t, &bias.t, stride, &mut out, ch)
        };
        let now = Rt::of(&out);
        ensure!(now.s == sout, "{what}: the result's shape became {:?}", now.s);
        if ok {
            ensure!(r.is_ok(), "{what} is admissible but refused: {r:?}");
            let mut want = conv(&img.m, &ker.m, stride, sout[0], sout[1]);
            want.iter_mut().for_each(|w| w.add(bias.m.v[0] as f64));
            let n = want.len();
            let lo = ch as usize * n;
            let part = Rt { s: [sout[0], sout[1], 1], v: now.v[lo..lo + n].to_vec() };
            check_cells(&what, &part, &want, cl.exact(), relu)?;
            for (p, (a, b)) in now.v.iter().zip(&gar.v).enumerate() {
                ensure!(
                    (p >= lo && p < lo + n) || a.to_bits() == b.to_bits(),
                    "{what}: cell {:?} of another channel changed from {b:?} to {a:?}",
                    unpos(sout, p)
                );
            }
            c.count("convolutions", 1);
            c.count("cells_judged", now.v.len() as u64);
            c.see("geometries", hash_str(&format!("{simg:?}{sker:?}{stride}{ch}")));
        } else {
            ensure!(r.is_err(), "{what} is inadmissible but accepted");
            ensure!(now.same_bits(&gar), "{what} was refused but changed the result");
            c.count("refusals", 1);
        }
        img.unchanged(&what)?;
        ker.unchanged(&what)?;
        bias.unchanged(&what)?;
        if size(sker) > 1 || !ok {
            c.nontrivial();
        }
        Ok(())
    });
    ctx.family("layers", 1500, |c| {
        let cl = numeric_class(&mut c.rng);
        let s = conv_spec(&mut c.rng, cl, 4);
        let mut l = s.build()?;
        let mut log = String::new();
        let training = c.rng.chance(1, 2);
        if training {
            l.switch_to_training();
            log += "T";
        }
        for _ in 0..c.steps(1, 3) {
            if c.rng.chance(1, 4) {
                if c.rng.chance(1, 2) {
                    l.switch_to_training();
                    log += "T";
                } else {
                    l.switch_to_inference();
                    log += "I";
                }
            }
            let x = op("the input", rt(&mut c.rng, cl, s.inp));
            let mut out = garbage(&mut c.rng, s.out).tensor();
            let r = l.forward(&x.t, &mut out);
            ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
            s.check_forward(&x.m, &Rt::of(&out)).map_err(|e| format!("{e} (history {log})"))?;
            x.unchanged("forward")?;
            log += "f";
            c.key(x.m.hash());
            c.count("layer_forwards", 1);
        }
        c.describe(format!("{} {cl:?} {log}", s.show()));
        c.nontrivial();
        Ok(())
    });
    // long axes, many channels
    ctx.family("large", 16, |c| {
        let (simg, sker, stride): (Sh, Sh, u32) = *c.rng.pick(&[
            ([66000, 1, 1], [3, 1, 1], 1),
            ([1, 66001, 1], [1, 2, 1], 1),
            ([4, 4, 20000], [2, 2, 20000], 2),
            ([300, 280, 1], [4, 5, 1], 1),
            ([70001, 2, 1], [1, 2, 1], 70000),
            ([70000, 1, 1], [70000, 1, 1], 1),
        ]);
        let sout = [fits(simg[0], sker[0], stride).unwrap(), fits(simg[1], sker[1], stride).unwrap(), 1];
        let (a, k) = (rt(&mut c.rng, Class::Int, simg), rt(&mut c.rng, Class::Sparse, sker));
        let mut out = garbage(&mut c.rng, sout).tensor();
        c.describe(format!("large {simg:?} {sker:?} {stride}"));
        c.key(a.hash());
        let b = Rt { s: [1, 1, 1], v: vec![2.0] };
        let relu = c.rng.chance(1, 2);
        let r = if relu {
            convolution_bias_relu(&a.tensor(), &k.tensor(), &b.tensor(), stride, &mut out, 0)
        } else {
            convolution_bias(&a.tensor(), &k.tensor(), &b.tensor(), stride, &mut out, 0)
        };
        ensure!(r.is_ok(), "convolution {simg:?} * {sker:?} stride {stride} refused: {r:?}");
        let mut want = conv(&a, &k, stride, sout[0], sout[1]);
        want.iter_mut().for_each(|w| w.add(2.0));
        check_cells("large convolution", &Rt::of(&out), &want, true, relu)?;
        c.nontrivial();
        Ok(())
    });
    ctx.require("convolutions", 2000);
    ctx.require("refusals", 300);
    ctx.require("layer_forwards", 1000);
}

fn pool_values(r: &mut Rng, s: Sh) -> Rt {
    match r.below(7) {
        0 => rt(r, Class::Int, s),
        1 => rt(r, Class::Sparse, s),
        2 => Rt { s, v: distinct(r, size(s)) },
        3 => {
            // all negative
            let mut t = rt(r, Class::Wide, s);
            t.v.iter_mut().for_each(|x| *x = -x.abs() - 1.0);
            t
        }
        4 => {
            let v = (0..size(s))
                .map(|_| *r.pick(&[f32::NEG_INFINITY, f32::NEG_INFINITY, f32::NEG_INFINITY, f32::MIN, -1.0, f32::INFINITY]))
                .collect();
            Rt { s, v }
        }
        5 => Rt { s, v: vec![value(r, Class::Int); size(s)] },
        _ => rt(r, Class::Wide, s),
    }
}
pub fn c05(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a pooling with a window of more than one cell had every value and origin judged, or an inadmissible one was shown to change nothing");
    fn judge(c: &mut Case, img: &Op, win: Sh, stride: u32, sout: Sh, ok: bool, list_ok: bool) -> R {
        let what = format!("max pooling {:?} mask {win:?} stride {stride} -> {sout:?}", img.m.s);
        let g = garbage(&mut c.rng, sout);
        let mut out = g.tensor();
        Tensor::max_pool(&img.t, &tshape(win), stride, &mut out);
        let plain = Rt::of(&out);
        let n = size(sout);
        let len = if list_ok { n } else if c.rng.chance(1, 2) { n + 1 } else { n.saturating_sub(1) };
        let mut list = vec![0xdeadbeefu32; len];
        let mut out2 = g.tensor();
        let r = Tensor::max_pool_track_origin(&img.t, &tshape(win), stride, &mut out2, &mut list);
        let tracked = Rt::of(&out2);
        ensure!(plain.s == sout && tracked.s == sout, "{what}: a result's shape changed");
        if ok {
            check_pool(&what, &img.m, win, stride, &plain)?;
            c.count("poolings", 1);
        } else {
            ensure!(plain.same_bits(&g), "{what} is inadmissible but changed the result");
            c.count("refusals", 1);
        }
        if ok && list_ok {
            ensure!(r.is_ok(), "tracking {what} refused: {r:?}");
            check_pool(&format!("tracking {what}"), &img.m, win, stride, &tracked)?;
            ensure!(list.len() == n, "tracking {what}: the origin list now has {} entries", list.len());
            for (p, o) in list.iter().enumerate() {
                let (x, y, k) = unpos(sout, p);
                let (m, ps) = window_max(&img.m, win, stride, x, y, k);
                ensure!(
                    ps.contains(&(*o as usize)),
                    "tracking {what}: output ({x},{y},{k}) has origin {o} ({:?}), its window's maximum {m:?} is at {ps:?}",
                    unpos(img.m.s, *o as usize)
                );
                if ps.len() > 1 {
                    c.count("tied_windows", 1);
                }
            }
            c.count("origins_judged", n as u64);
        } else {
            ensure!(r.is_err(), "tracking {what} with {len} origins accepted");
            ensure!(tracked.same_bits(&g), "tracking {what} refused but changed the result");
            c.count("refusals", 1);
        }
        img.unchanged(&what)
    }
    ctx.family("operations", 6000, |c| {
        let g = geometry(&mut c.rng, 4);
        let (mut simg, mut win, mut sout, mut stride) = (g.inp, [g.win[0], g.win[1], 1], [g.out[0], g.out[1], g.inp[2]], g.stride);
        let mut list_ok = true;
        if c.rng.chance(1, 3) {
            let r = &mut c.rng;
            match r.below(6) {
                0 => simg = other_shape(r, simg),
                1 => win[r.below(2) as usize] += r.range(1, 30),
                2 => sout = other_shape(r, sout),
                3 => stride = *r.pick(&[0, stride.wrapping_add(1), u32::MAX, 1 << 31]),
                4 => list_ok = false,
                _ => {
                    let d = r.below(2) as usize;
                    win[d] = win[d].saturating_sub(1);
                }
            }
        }
        if size(simg) > 30000 || size(sout) > 30000 {
            return Ok(());
        }
        let ok = sout[2] == simg[2] && fits(simg[0], win[0], stride) == Some(sout[0]) && fits(simg[1], win[1], stride) == Some(sout[1]);
        let img = op("the image", pool_values(&mut c.rng, simg));
        c.describe(format!("{simg:?} mask {win:?} stride {stride} -> {sout:?} list {list_ok}"));
        c.key(img.m.hash());
        c.see("geometries", hash_str(&format!("{simg:?}{win:?}{stride}")));
        judge(c, &img, win, stride, sout, ok, list_ok)?;
        if win[0] * win[1] > 1 || !ok {
            c.nontrivial();
        }
        Ok(())
    });
    ctx.family("layers", 1200, |c| {
        let s = pool_spec(&mut c.rng);
        let mut l = s.build()?;
        let training = c.rng.chance(1, 2);
        if training {
            l.switch_to_training();
        }
        for _ in 0..2 {
            let x = op("the input", pool_values(&mut c.rng, s.inp));
            let mut out = garbage(&mut c.rng, s.out).tensor();
            let r = l.forward(&x.t, &mut out);
            ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
            s.check_forward(&x.m, &Rt::of(&out))?;
            x.unchanged("forward")?;
            c.key(x.m.hash());
            c.count("layer_forwards", 1);
            l.switch_to_inference();
        }
        c.describe(format!("{} training {training}", s.show()));
        c.nontrivial();
        Ok(())
    });
    ctx.family("large", 16, |c| {
        let (simg, win, stride): (Sh, Sh, u32) = *c.rng.pick(&[
            ([66000, 1, 1], [3, 1, 1], 3),
            ([1, 66001, 2], [1, 2, 1], 1),
            ([4, 4, 20000], [2, 2, 1], 2),
            ([300, 280, 1], [4, 5, 1], 1),
            ([70000, 1, 1], [70000, 1, 1], 1),
            ([257, 257, 2], [257, 1, 1], 1),
        ]);
        let sout = [fits(simg[0], win[0], stride).unwrap(), fits(simg[1], win[1], stride).unwrap(), simg[2]];
        let img = op("the image", pool_values(&mut c.rng, simg));
        c.describe(format!("large {simg:?} {win:?} {stride}"));
        c.key(img.m.hash());
        judge(c, &img, win, stride, sout, true, true)?;
        c.nontrivial();
        Ok(())
    });
    ctx.require("poolings", 2000);
    ctx.require("origins_judged", 10000);
    ctx.require("tied_windows", 1000);
    ctx.require("refusals", 300);
}

fn soft_values(r: &mut Rng, s: Sh) -> Rt {
    let n = size(s);
    let v: Vec<f32> = match r.below(8) {
        0 => values(r, Class::Int, n),
        1 => values(r, Class::Wide, n),
        2 => {
            // around a large common offset
            let off = *r.pick(&[88.0f32, 100.0, -100.0, -745.0, 1e4, -1e4, 1e30, -1e30, 3e38]);
            (0..n).map(|_| off + value(r, Class::Int)).collect()
        }
        3 => (0..n).map(|_| *r.pick(&[f32::MAX, f32::MIN, 0.0, 1.0])).collect(),
        4 => vec![value(r, Class::Wide); n],
        5 => (0..n).map(|_| value(r, Class::Unit) * 100.0).collect(),
        6 => {
            // one dominating cell
            let mut v = values(r, Class::Unit, n);
            let p = r.below(n as u64) as usize;
            v[p] = *r.pick(&[50.0, 90.0, 500.0, 1e20]);
            v
        }
        _ => values(r, Class::Special, n).into_iter().map(|x| if x.is_finite() { x } else { 1.0 }).collect(),
    };
    Rt { s, v }
}
pub fn c06(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a softmax over at least two cells was compared with exp(x)/sum(exp) in every cell, or a mismatch was shown to leave the output untouched");
    ctx.family("operations", 8000, |c| {
        let s = if c.rng.chance(1, 2) { shape(&mut c.rng) } else { [c.rng.range(1, 40), 1, 1] };
        let so = if c.rng.chance(1, 6) { other_shape(&mut c.rng, s) } else { s };
        let x = op("the input", soft_values(&mut c.rng, s));
        let g = garbage(&mut c.rng, so);
        let mut out = g.tensor();
        c.describe(format!("{} -> {so:?}", x.m.show()));
        Tensor::softmax(&x.t, &mut out);
        let y = Rt::of(&out);
        x.unchanged("softmax")?;
        if so != s {
            ensure!(y.same_bits(&g), "softmax {s:?} -> {so:?} changed the output");
            c.count("mismatches", 1);
            c.nontrivial();
            return Ok(());
        }
        check_softmax(&format!("softmax of {}", x.m.show()), &x.m, &y)?;
        c.count("softmaxes", 1);
        c.count("cells_judged", y.v.len() as u64);
        // adding a constant changes nothing (when the addition itself is exact)
        let k = *c.rng.pick(&[1.0f32, -2.0, 64.0, -256.0, 1000.0, -5000.0, 65536.0]);
        if x.m.v.iter().all(|v| (v + k) - k == *v && (v + k) as f64 == *v as f64 + k as f64) {
            let mut sh = x.m.clone();
            sh.v.iter_mut().for_each(|v| *v += k);
            let mut out2 = garbage(&mut c.rng, s).tensor();
            Tensor::softmax(&sh.tensor(), &mut out2);
            for (p, (a, b)) in Rt::of(&out2).v.iter().zip(&y.v).enumerate() {
                let tol = b.abs() as f64 * (2.0 * s.iter().map(|x| *x as f64).product::<f64>() * 6e-8 + 2e-4) + 1e-36;
                ensure!((*a as f64 - *b as f64).abs() <= tol, "softmax cell {p} changes from {b:?} to {a:?} when {k} is added to every input of {}", x.m.show());
            }
            c.count("shifts", 1);
        }
        if size(s) > 1 {
            c.nontrivial();
        }
        Ok(())
    });
    ctx.family("layers", 1500, |c| {
        let s = soft_spec(&mut c.rng);
        let mut l = s.soft().map_err(|e| format!("softmax layer {:?} refused: {e}", s.inp))?;
        let mut log = String::new();
        for _ in 0..c.steps(1, 3) {
            if c.rng.chance(1, 2) {
                l.switch_to_training();
                log += "T";
            } else {
                l.switch_to_inference();
                log += "I";
            }
            let x = op("the input", soft_values(&mut c.rng, s.inp));
            let mut out = garbage(&mut c.rng, s.out).tensor();
            let r = l.forward(&x.t, &mut out);
            ensure!(r.is_ok(), "forward of {} refused: {r:?}", s.show());
            s.check_forward(&x.m, &Rt::of(&out))?;
            x.unchanged("forward")?;
            c.key(x.m.hash());
            c.count("layer_forwards", 1);
        }
        c.describe(format!("{} {log}", s.show()));
        c.nontrivial();
        Ok(())
    });
    ctx.family("large", 24, |c| {
        let s = big_shape(&mut c.rng);
        let x = op("the input", soft_values(&mut c.rng, s));
        c.describe(format!("large {}", x.m.show()));
        c.key(x.m.hash());
        let mut out = garbage(&mut c.rng, s).tensor();
        Tensor::softmax(&x.t, &mut out);
        x.unchanged("softmax")?;
        check_softmax(&format!("softmax of {}", x.m.show()), &x.m, &Rt::of(&out))?;
        c.nontrivial();
        Ok(())
    });
    ctx.require("softmaxes", 4000);
    ctx.require("shifts", 500);
    ctx.require("mismatches", 300);
}
