//! C29: shapes, indices, strides and window arithmetic over their whole range.
use super::tensors::fits;
use crate::core::*;
use crate::gen::*;
use crate::refm::*;
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::operations::convolution::check_convolution_dimensions;
use rusty_network::tensor::Tensor;

/// Any u32, biased to small values, powers of two and the ends.
fn wide(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65535, 65536, 65537, 46341]),
        1 => r.u64() as u32,
        2 => (1u32 << r.below(32)).wrapping_add(r.irange(-2, 2) as u32),
        3 => r.range(1, 70000),
        _ => r.range(0, 40),
    }
}
fn total(s: Sh) -> u128 {
    s[0] as u128 * s[1] as u128 * s[2] as u128
}
/// A shape whose cell count fits 32 bits, up to the very limit.
fn fitting(r: &mut Rng) -> Sh {
    loop {
        let mut s = match r.below(4) {
            0 => shape(r),
            1 => [wide(r), r.range(1, 9), r.range(1, 9)],
            2 => [1 << r.range(0, 16), 1 << r.range(0, 10), 1 << r.range(0, 6)],
            _ => {
                // as many cells as still fit
                let (a, b) = (r.range(1, 70000), r.range(1, 70000));
                match u32::MAX as u64 / (a as u64 * b as u64) {
                    0 => [a, u32::MAX / a, 1],
                    n => [a, b, n as u32],
                }
            }
        };
        for d in s.iter_mut() {
            *d = (*d).max(1);
        }
        let k = r.below(3) as usize;
        s.rotate_left(k);
        if total(s) <= u32::MAX as u128 {
            return s;
        }
    }
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a shape with more than one cell, or a window against an image, was judged");
    ctx.family("shapes", 20000, |c| {
        let r = &mut c.rng;
        let a = [wide(r), wide(r), wide(r)];
        let t = TensorShape::new(a[0], a[1], a[2]);
        let want = [a[0].max(1), a[1].max(1), a[2].max(1)];
        ensure!(unshape(t) == want, "TensorShape::new{a:?} is {t:?}");
        ensure!(t.get() == (want[0], want[1], want[2]), "get of {t:?} is {:?}", t.get());
        let tr = t.transpose_ij();
        ensure!(unshape(tr) == [want[1], want[0], want[2]], "transpose_ij of {t:?} is {tr:?}");
        ensure!(tr.transpose_ij() == t, "transposing {t:?} twice gives {:?}", tr.transpose_ij());
        let d1 = a[0];
        ensure!(unshape(TensorShape::new_1d(d1)) == [d1, 1, 1], "new_1d({d1}) is {:?}", TensorShape::new_1d(d1));
        let d2 = a[1];
        ensure!(unshape(TensorShape::new_2d(d1, d2)) == [d1, d2, 1], "new_2d({d1}, {d2}) is {:?}", TensorShape::new_2d(d1, d2));
        // equality and copies
        let b = match r.below(5) {
            0 => want,
            1 => [want[1], want[0], want[2]],
            2 => [want[0], want[2], want[1]],
            _ => {
                let mut b = want;
                let d = r.below(3) as usize;
                b[d] = b[d].wrapping_add(r.irange(-1, 1) as u32);
                b
            }
        };
        ensure!((t == tshape(b)) == (want == b), "{want:?} == {b:?} says {}", t == tshape(b));
        let cp = t;
        ensure!(cp == t && t.clone() == t, "a copy of {t:?} differs");
        // sizes
        let n = total(want);
        let got = t.checked_total_size();
        let exp = u32::try_from(n).ok();
        ensure!(got == exp, "checked_total_size of {want:?} is {got:?}, should be {exp:?}");
        if let Some(e) = exp {
            ensure!(t.total_size() == e, "total_size of {want:?} is {}", t.total_size());
        }
        // indices
        let mut inside = 0;
        for _ in 0..6 {
            let i = [0, 1, 2].map(|d: usize| match r.below(6) {
                0 => want[d],
                1 => want[d] - 1,
                2 => want[d].wrapping_add(1),
                3 => 0,
                _ => wide(r),
            });
            let f = t.fits_index(&TensorIndex { i: i[0], j: i[1], k: i[2] });
            let e = i[0] < want[0] && i[1] < want[1] && i[2] < want[2];
            ensure!(f == e, "fits_index of {i:?} in {want:?} says {f}");
            inside += e as u64;
        }
        let z = TensorIndex::zero();
        ensure!((z.i, z.j, z.k) == (0, 0, 0), "TensorIndex::zero is ({},{},{})", z.i, z.j, z.k);
        let x = TensorIndex::index_1d(a[0]);
        ensure!((x.i, x.j, x.k) == (a[0], 0, 0), "index_1d({}) is ({},{},{})", a[0], x.i, x.j, x.k);
        let x = TensorIndex::index_2d(a[0], a[1]);
        ensure!((x.i, x.j, x.k) == (a[0], a[1], 0), "index_2d({},{}) is ({},{},{})", a[0], a[1], x.i, x.j, x.k);
        c.count("shapes_judged", 1);
        c.count("indices_inside", inside);
        c.describe(format!("{a:?} against {b:?}"));
        if n > 1 {
            c.nontrivial();
        }
        Ok(())
    });
    // shapes without cells, which TensorShape::new does not make but a literal or a file can
    ctx.family("empty_shapes", 4000, |c| {
        let r = &mut c.rng;
        let mut s = fitting(r);
        let zeros = r.range(1, 7);
        for d in 0..3 {
            if zeros >> d & 1 == 1 {
                s[d] = 0;
            }
        }
        let t = tshape(s);
        ensure!(t.get() == (s[0], s[1], s[2]), "get of {s:?} is {:?}", t.get());
        ensure!(unshape(t.transpose_ij()) == [s[1], s[0], s[2]], "transpose_ij of {s:?} is {:?}", t.transpose_ij());
        ensure!(t.total_size() == 0, "total_size of {s:?} is {}", t.total_size());
        ensure!(t.checked_total_size() == Some(0), "checked_total_size of {s:?} is {:?}", t.checked_total_size());
        for _ in 0..4 {
            let i = [0, 1, 2].map(|d: usize| match r.below(4) {
                0 => s[d],
                1 => s[d].saturating_sub(1),
                2 => 0,
                _ => wide(r),
            });
            let f = t.fits_index(&TensorIndex { i: i[0], j: i[1], k: i[2] });
            ensure!(!f, "fits_index of {i:?} in {s:?} says {f}");
        }
        let o = if r.chance(1, 2) { s.map(|d| d.max(1)) } else { [s[1], s[0], s[2]] };
        ensure!((t == tshape(o)) == (s == o), "{s:?} == {o:?} says {}", t == tshape(o));
        c.describe(format!("{s:?}"));
        c.count("empty_shapes_judged", 1);
        c.key(hash_str(&format!("{s:?}")));
        c.nontrivial();
        Ok(())
    });
    // the numbering of cells is i + di*(j + dj*k)
    ctx.family("numbering", 20000, |c| {
        let s = fitting(&mut c.rng);
        let st = TensorStride::new_from_shape(&tshape(s));
        for _ in 0..8 {
            let i = [0, 1, 2].map(|d: usize| match c.rng.below(4) {
                0 => s[d] - 1,
                1 => 0,
                _ => c.rng.below(s[d] as u64) as u32,
            });
            let want = i[0] as u64 + s[0] as u64 * (i[1] as u64 + s[1] as u64 * i[2] as u64);
            let got = &st * &TensorIndex { i: i[0], j: i[1], k: i[2] };
            ensure!(got as u64 == want, "index {i:?} of a {s:?} tensor is numbered {got}, should be {want}");
            ensure!(want < total(s) as u64, "harness: numbering");
            c.count("indices_judged", 1);
        }
        ensure!(st == TensorStride::new_from_shape(&tshape(s)) && st.clone() == st, "strides of {s:?} are not equal to themselves");
        c.describe(format!("{s:?}"));
        if total(s) > 1 {
            c.nontrivial();
        }
        c.see("numbered_shapes", hash_str(&format!("{s:?}")));
        Ok(())
    });
    ctx.family_n("numbering_small", 7 * 7 * 7, |c| {
        let x = c.idx as u32;
        let s = [x % 7 + 1, x / 7 % 7 + 1, x / 49 + 1];
        let st = TensorStride::new_from_shape(&tshape(s));
        let mut next = 0u32;
        for k in 0..s[2] {
            for j in 0..s[1] {
                for i in 0..s[0] {
                    let got = &st * &TensorIndex { i, j, k };
                    ensure!(got == next, "index ({i},{j},{k}) of a {s:?} tensor is numbered {got}, should be {next}");
                    next += 1;
                }
            }
        }
        ensure!(next == tshape(s).total_size(), "{s:?} has {next} cells, total_size says {}", tshape(s).total_size());
        c.describe(format!("{s:?}"));
        c.nontrivial();
        Ok(())
    });
    fn window(c: &mut Case, img: Sh, win: Sh, stride: u32, out: Sh, chan: u32) -> R {
        let what = format!("image {img:?} window {win:?} stride {stride}");
        let (o0, o1) = (fits(img[0], win[0], stride), fits(img[1], win[1], stride));
        let (ti, tw, to) = (tshape(img), tshape(win), tshape(out));
        let f = Tensor::does_kernel_stride_fit_image(&ti, &tw, stride);
        ensure!(f == (o0.is_some() && o1.is_some()), "{what}: does_kernel_stride_fit_image says {f}");
        let mut pool = false;
        let mut conv = false;
        if let (Some(a), Some(b)) = (o0, o1) {
            let g = Tensor::get_convolution_dim_fit(&ti, &tw, stride);
            ensure!(g == (a, b), "{what}: get_convolution_dim_fit says {g:?}, should be {:?}", (a, b));
            pool = out == [a, b, img[2]];
            conv = out[0] == a && out[1] == b && img[2] == win[2] && chan < out[2];
            c.count("windows_that_fit", 1);
        }
        let p = Tensor::check_max_pooling_dimensions(&ti, &tw, stride, &to);
        ensure!(p == pool, "{what} result {out:?}: check_max_pooling_dimensions says {p}");
        let r = check_convolution_dimensions(&ti, &tw, stride, &to, chan);
        ensure!(r.is_ok() == conv, "{what} result {out:?} channel {chan}: check_convolution_dimensions says {r:?}");
        c.count("windows_judged", 1);
        c.count("windows_pooling_accepted", p as u64);
        c.count("windows_convolution_accepted", conv as u64);
        Ok(())
    }
    ctx.family("windows", 30000, |c| {
        let r = &mut c.rng;
        let stride = match r.below(4) {
            0 => wide(r),
            _ => r.range(1, 6),
        };
        let axis = |r: &mut Rng| -> (u32, u32, u32) {
            // image, window, outputs (if it fits)
            if r.chance(1, 4) {
                let (i, w) = (wide(r), wide(r));
                return (i, w, fits(i, w, stride).unwrap_or(1));
            }
            let w = if r.chance(1, 6) { wide(r) } else { r.range(1, 12) };
            let o = if r.chance(1, 6) { wide(r) } else { r.range(1, 12) };
            let i = (o.max(1) as u64 - 1) * stride as u64 + w as u64;
            let i = if i > u32::MAX as u64 { w } else { i as u32 };
            let i = if r.chance(1, 5) { i.wrapping_add(r.irange(-1, 1) as u32) } else { i };
            (i, w, fits(i, w, stride).unwrap_or(o))
        };
        let (a, b) = (axis(r), axis(r));
        let depth = r.range(1, 5);
        let wd = if r.chance(1, 2) { depth } else { r.range(0, 6) };
        let chans = if r.chance(1, 2) { depth } else { r.range(1, 6) };
        let mut out = [a.2, b.2, chans];
        if r.chance(1, 4) {
            let d = r.below(3) as usize;
            out[d] = match r.below(3) {
                0 => wide(r),
                1 => out[d].wrapping_add(1),
                _ => out[d].wrapping_sub(1),
            };
        } else if r.chance(1, 8) {
            out.swap(0, 1);
        }
        let chan = match r.below(4) {
            0 => chans,
            1 => wide(r),
            _ => r.range(0, chans - 1),
        };
        let (img, win) = ([a.0, b.0, depth], [a.1, b.1, wd]);
        c.describe(format!("{img:?} {win:?} {stride} {out:?} {chan}"));
        window(c, img, win, stride, out, chan)?;
        c.nontrivial();
        Ok(())
    });
    ctx.family_n("windows_small", 10 * 10 * 10, |c| {
        let x = c.idx as u32;
        let (i, w, st) = (x % 10, x / 10 % 10, x / 100);
        for (i2, w2) in [(1, 1), (6, 3), (9, 1), (4, 5), (7, 7)] {
            for (o0, o1) in [(fits(i, w, st).unwrap_or(1), fits(i2, w2, st).unwrap_or(1)), (1, 1), (2, 3)] {
                window(c, [i, i2, 2], [w, w2, 2], st, [o0, o1, 2], 1)?;
                window(c, [i2, i, 1], [w2, w, 1], st, [o1, o0, 3], 2)?;
            }
        }
        c.describe(format!("axis {i} window {w} stride {st}"));
        c.nontrivial();
        Ok(())
    });
    ctx.require("shapes_judged", 100000);
    ctx.require("indices_judged", 100000);
    ctx.require("windows_that_fit", 50000);
    ctx.require("windows_convolution_accepted", 5000);
    ctx.require("windows_pooling_accepted", 5000);
}
