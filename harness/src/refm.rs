//! Reference model: plain re-statements of the mathematics, sharing nothing with the crate.
use crate::core::*;
use crate::gen::{size, Sh};
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

pub fn tshape(s: Sh) -> TensorShape {
    TensorShape { di: s[0], dj: s[1], dk: s[2] }
}
pub fn unshape(s: TensorShape) -> Sh {
    [s.di, s.dj, s.dk]
}
/// Shadow of a tensor. Cell (i,j,k) is v[i + d0*(j + d1*k)].
#[derive(Clone, Debug)]
pub struct Rt {
    pub s: Sh,
    pub v: Vec<f32>,
}
impl Rt {
    pub fn zero(s: Sh) -> Rt {
        Rt { s, v: vec![0.0; size(s)] }
    }
    pub fn at(&self, i: u32, j: u32, k: u32) -> f32 {
        self.v[pos(self.s, i, j, k)]
    }
    pub fn of(t: &Tensor) -> Rt {
        let s = unshape(t.get_shape());
        let mut v = Vec::with_capacity(size(s));
        for k in 0..s[2] {
            for j in 0..s[1] {
                for i in 0..s[0] {
                    v.push(t.get_item(&TensorIndex { i, j, k }));
                }
            }
        }
        Rt { s, v }
    }
    pub fn tensor(&self) -> Tensor {
        let mut t = Tensor::new(tshape(self.s));
        t.fill_with_vec(self.v.clone()).expect("fill_with_vec refused a vector of the right length");
        t
    }
    pub fn same_bits(&self, o: &Rt) -> bool {
        self.s == o.s && self.v.len() == o.v.len() && self.v.iter().zip(&o.v).all(|(a, b)| a.to_bits() == b.to_bits())
    }
    /// Equal as numbers, NaN equal to NaN.
    pub fn same(&self, o: &Rt) -> bool {
        self.s == o.s && self.v.len() == o.v.len() && self.v.iter().zip(&o.v).all(|(a, b)| same_num(*a, *b))
    }
    pub fn hash(&self) -> u64 {
        mix(hash_f32(&self.v) ^ ((self.s[0] as u64) << 40) ^ ((self.s[1] as u64) << 20) ^ self.s[2] as u64)
    }
    pub fn show(&self) -> String {
        let n = self.v.len().min(24);
        format!("{:?}{:?}{}", self.s, &self.v[..n], if n < self.v.len() { ".." } else { "" })
    }
}
pub fn same_num(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn pos(s: Sh, i: u32, j: u32, k: u32) -> usize {
    i as usize + s[0] as usize * (j as usize + s[1] as usize * k as usize)
}

/// An exact (f64) value with what bounds the single-precision error of any evaluation order.
#[derive(Clone, Copy, Default, Debug)]
pub struct Acc {
    pub val: f64,
    pub abs: f64,
    pub n: u32,
}
impl Acc {
    pub fn add(&mut self, x: f64) {
        self.val += x;
        self.abs += x.abs();
        self.n += 1;
    }
    pub fn tol(&self, exact: bool) -> f64 {
        if exact && self.abs < 16777216.0 {
            0.0
        } else {
            (self.n as f64 + 4.0) * 6.0e-8 * self.abs + (self.n as f64 + 2.0) * 3e-45
        }
    }
    pub fn near(&self, actual: f32, exact: bool) -> bool {
        (actual as f64 - self.val).abs() <= self.tol(exact)
    }
    pub fn near_relu(&self, actual: f32, exact: bool) -> bool {
        actual >= 0.0 && (actual as f64 - self.val.max(0.0)).abs() <= self.tol(exact)
    }
}
/// Compare every cell of `t` with the model.
pub fn check_cells(what: &str, t: &Rt, want: &[Acc], exact: bool, relu: bool) -> R {
    ensure!(t.v.len() == want.len(), "{what}: {} cells, model has {}", t.v.len(), want.len());
    for (p, (a, w)) in t.v.iter().zip(want).enumerate() {
        let ok = if relu { w.near_relu(*a, exact) } else { w.near(*a, exact) };
        if !ok {
            let (i, j, k) = unpos(t.s, p);
            bad!(
                "{what}: cell ({i},{j},{k}) is {a:?}, model says {:?}{} (tolerance {:e}, {} terms)",
                if relu { w.val.max(0.0) } else { w.val },
                if relu { format!(" = relu({:?})", w.val) } else { String::new() },
                w.tol(exact),
                w.n
            );
        }
    }
    Ok(())
}
pub fn unpos(s: Sh, p: usize) -> (u32, u32, u32) {
    let d0 = s[0].max(1) as usize;
    let d1 = s[1].max(1) as usize;
    ((p % d0) as u32, ((p / d0) % d1) as u32, (p / d0 / d1) as u32)
}

/// (a: m x n x k) times (b: n x p x k); transposed operands are read transposed.
pub fn matmul(a: &Rt, ta: bool, b: &Rt, tb: bool) -> (Sh, Vec<Acc>) {
    let ash = if ta { [a.s[1], a.s[0], a.s[2]] } else { a.s };
    let bsh = if tb { [b.s[1], b.s[0], b.s[2]] } else { b.s };
    let out = [ash[0], bsh[1], ash[2]];
    let mut v = Vec::with_capacity(size(out));
    for k in 0..out[2] {
        for c in 0..out[1] {
            for r in 0..out[0] {
                let mut acc = Acc::default();
                for x in 0..ash[1] {
                    let l = if ta { a.at(x, r, k) } else { a.at(r, x, k) };
                    let m = if tb { b.at(c, x, k) } else { b.at(x, c, k) };
                    acc.add(l as f64 * m as f64);
                }
                v.push(acc);
            }
        }
    }
    (out, v)
}
pub fn matmul_ok(a: Sh, ta: bool, b: Sh, tb: bool, out: Sh) -> bool {
    let a = if ta { [a[1], a[0], a[2]] } else { a };
    let b = if tb { [b[1], b[0], b[2]] } else { b };
    a[2] == b[2] && b[2] == out[2] && a[1] == b[0] && out[0] == a[0] && out[1] == b[1]
}

/// One convolution channel (without bias).
pub fn conv(image: &Rt, kernel: &Rt, stride: u32, oi: u32, oj: u32) -> Vec<Acc> {
    let mut v = vec![];
    for y in 0..oj {
        for x in 0..oi {
            let mut acc = Acc::default();
            for c in 0..kernel.s[2] {
                for b in 0..kernel.s[1] {
                    for a in 0..kernel.s[0] {
                        acc.add(image.at(x * stride + a, y * stride + b, c) as f64 * kernel.at(a, b, c) as f64);
                    }
                }
            }
            v.push(acc);
        }
    }
    v
}
/// d<g, conv(image)>/d image, scattering each output's contribution (g: oi x oj x kernels).
pub fn conv_input_grad(g: &Rt, kernels: &[Rt], stride: u32, inp: Sh) -> Vec<Acc> {
    let mut v = vec![Acc::default(); size(inp)];
    for (o, ker) in kernels.iter().enumerate() {
        for y in 0..g.s[1] {
            for x in 0..g.s[0] {
                let gv = g.at(x, y, o as u32) as f64;
                for c in 0..ker.s[2] {
                    for b in 0..ker.s[1] {
                        for a in 0..ker.s[0] {
                            v[pos(inp, x * stride + a, y * stride + b, c)].add(gv * ker.at(a, b, c) as f64);
                        }
                    }
                }
            }
        }
    }
    v
}
/// d<g, conv(image)>/d kernel of output channel o.
pub fn conv_kernel_grad(g: &Rt, image: &Rt, stride: u32, ks: Sh, o: u32) -> Vec<Acc> {
    let mut v = vec![Acc::default(); size(ks)];
    for y in 0..g.s[1] {
        for x in 0..g.s[0] {
            let gv = g.at(x, y, o) as f64;
            for c in 0..ks[2] {
                for b in 0..ks[1] {
                    for a in 0..ks[0] {
                        v[pos(ks, a, b, c)].add(gv * image.at(x * stride + a, y * stride + b, c) as f64);
                    }
                }
            }
        }
    }
    v
}
/// All positions of the window of output (x,y) in channel c that hold its maximum.
pub fn window_max(image: &Rt, win: Sh, stride: u32, x: u32, y: u32, c: u32) -> (f32, Vec<usize>) {
    let mut m = f32::NEG_INFINITY;
    for b in 0..win[1] {
        for a in 0..win[0] {
            m = m.max(image.at(x * stride + a, y * stride + b, c));
        }
    }
    let mut p = vec![];
    for b in 0..win[1] {
        for a in 0..win[0] {
            if image.at(x * stride + a, y * stride + b, c) == m {
                p.push(pos(image.s, x * stride + a, y * stride + b, c));
            }
        }
    }
    (m, p)
}
pub fn check_pool(what: &str, image: &Rt, win: Sh, stride: u32, out: &Rt) -> R {
    for c in 0..out.s[2] {
        for y in 0..out.s[1] {
            for x in 0..out.s[0] {
                let (m, _) = window_max(image, win, stride, x, y, c);
                ensure!(out.at(x, y, c) == m, "{what}: cell ({x},{y},{c}) is {:?}, the window's maximum is {m:?}", out.at(x, y, c));
            }
        }
    }
    Ok(())
}
pub fn check_softmax(what: &str, input: &Rt, out: &Rt) -> R {
    let n = input.v.len() as f64;
    let m = input.v.iter().fold(f64::NEG_INFINITY, |m, x| m.max(*x as f64));
    let e: Vec<f64> = input.v.iter().map(|x| (*x as f64 - m).exp()).collect();
    let z: f64 = e.iter().sum();
    let mut sum = 0.0;
    for (p, y) in out.v.iter().enumerate() {
        ensure!(y.is_finite() && *y >= 0.0, "{what}: cell {p} is {y:?} for input {:?} (max {m:?})", input.v[p]);
        let want = e[p] / z;
        let d = (input.v[p] as f64 - m).abs().min(200.0);
        let tol = want * (n * 6e-8 + (d + 16.0) * 2.0e-7) + 1e-37;
        ensure!((*y as f64 - want).abs() <= tol, "{what}: cell {p} is {y:?}, should be {want:e} (+-{tol:e})");
        sum += *y as f64;
    }
    let tol = n * 1.3e-7 + 1e-6;
    ensure!(input.v.is_empty() || (sum - 1.0).abs() <= tol, "{what}: cells sum to {sum}");
    Ok(())
}
/// y * (g - <y,g>)
pub fn softmax_grad(y: &Rt, g: &Rt) -> Vec<Acc> {
    let mut dot = Acc::default();
    for (a, b) in y.v.iter().zip(&g.v) {
        dot.add(*a as f64 * *b as f64);
    }
    y.v.iter()
        .zip(&g.v)
        .map(|(a, b)| Acc {
            val: *a as f64 * (*b as f64 - dot.val),
            abs: (*a as f64).abs() * ((*b as f64).abs() + dot.abs),
            n: dot.n + 4,
        })
        .collect()
}
