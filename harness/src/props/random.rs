//! C22: random fills, judged statistically. Every test rejects a correct generator with
//! probability below about 1e-10, so that no seed of the system's generator raises an alarm.
use crate::core::*;
use crate::gen::*;
use crate::refm::*;

/// ln of the probability a correct generator may fail one test with: ln(2e10)
const LN: f64 = 23.7;
/// normal deviate exceeded (in absolute value) with probability 1e-10
const Z: f64 = 6.5;

#[derive(Clone, Copy, Debug)]
pub enum Dist {
    Uniform(f32, f32),
    Gauss(f32, f32),
}
fn erfc(x: f64) -> f64 {
    // W. J. Cody style rational approximation (Numerical Recipes erfccheb variant), |error| < 1.2e-7
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let p = [-1.26551223, 1.00002368, 0.37409196, 0.09678418, -0.18628806, 0.27886807, -1.13520398, 1.48851587, -0.82215223, 0.17087277];
    let mut s = 0.0;
    for c in p.iter().rev() {
        s = s * t + c;
    }
    let r = t * (-z * z + s).exp();
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}
impl Dist {
    pub fn fill(&self, t: &mut rusty_network::tensor::Tensor) {
        match *self {
            Dist::Uniform(a, b) => t.fill_with_uniform(a, b),
            Dist::Gauss(m, s) => t.fill_with_gaussian(m, s),
        }
    }
    fn cdf(&self, x: f64) -> f64 {
        match *self {
            Dist::Uniform(a, b) => ((x - a as f64) / (b as f64 - a as f64)).clamp(0.0, 1.0),
            Dist::Gauss(m, s) => 0.5 * erfc(-(x - m as f64) / s as f64 / std::f64::consts::SQRT_2),
        }
    }
    fn mean(&self) -> f64 {
        match *self {
            Dist::Uniform(a, b) => (a as f64 + b as f64) / 2.0,
            Dist::Gauss(m, _) => m as f64,
        }
    }
    fn sd(&self) -> f64 {
        match *self {
            Dist::Uniform(a, b) => (b as f64 - a as f64) / 12f64.sqrt(),
            Dist::Gauss(_, s) => s as f64,
        }
    }
    /// how far rounding to f32 may displace a value, in units of the standard deviation
    fn grain(&self) -> f64 {
        let m = match *self {
            Dist::Uniform(a, b) => a.abs().max(b.abs()) as f64,
            Dist::Gauss(m, s) => m.abs() as f64 + 5.0 * s as f64,
        };
        m * 1.2e-7 / self.sd()
    }
    /// every value must be possible at all
    fn check_values(&self, v: &[f32]) -> R {
        for (p, x) in v.iter().enumerate() {
            ensure!(x.is_finite(), "{self:?}: cell {p} is {x:?}");
            match *self {
                Dist::Uniform(a, b) => ensure!(*x >= a && *x <= b, "{self:?}: cell {p} is {x:?}, outside the bounds"),
                Dist::Gauss(m, s) => {
                    let z = (*x as f64 - m as f64).abs() / s as f64;
                    ensure!(z < 9.0, "{self:?}: cell {p} is {x:?}, {z:.1} standard deviations off");
                }
            }
        }
        Ok(())
    }
    /// Kolmogorov-Smirnov, mean, variance and reach of a sample
    pub fn check_sample(&self, v: &[f32], what: &str) -> R {
        self.check_values(v)?;
        let n = v.len() as f64;
        let g = self.grain();
        let mut s: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        s.sort_by(|a, b| a.total_cmp(b));
        let mut d = 0f64;
        for (i, x) in s.iter().enumerate() {
            let f = self.cdf(*x);
            d = d.max((f - i as f64 / n).abs()).max((f - (i + 1) as f64 / n).abs());
        }
        let lim = (LN / (2.0 * n)).sqrt() + 1e-6 + g;
        ensure!(d <= lim, "{self:?} {what}: the distribution of {n} values is off by {d:.5} (limit {lim:.5})");
        let (m, sd) = (self.mean(), self.sd());
        let mean = s.iter().map(|x| (x - m) / sd).sum::<f64>() / n;
        let lim = Z / n.sqrt() + g;
        ensure!(mean.abs() <= lim, "{self:?} {what}: the mean of {n} values is off by {mean:.5} standard deviations (limit {lim:.5})");
        let var = s.iter().map(|x| ((x - m) / sd).powi(2)).sum::<f64>() / n - 1.0;
        let kurt = if let Dist::Uniform(..) = self { 0.8 } else { 2.0 };
        let lim = Z * 1.2 * (kurt / n).sqrt() + 4.0 * g;
        ensure!(n < 1000.0 || var.abs() <= lim, "{self:?} {what}: the variance of {n} values is off by the factor {:.5} (limit {lim:.5})", 1.0 + var);
        // the whole range is reached: some value in the outermost 30/n on either side
        let p = 30.0 / n;
        if p < 0.4 {
            ensure!(self.cdf(s[0]) <= p + g, "{self:?} {what}: none of {n} values is below {}", s[0]);
            ensure!(1.0 - self.cdf(s[s.len() - 1]) <= p + g, "{self:?} {what}: none of {n} values is above {}", s[s.len() - 1]);
        }
        Ok(())
    }
    /// Values do not repeat more than chance has it
    fn check_distinct(&self, v: &[f32], what: &str) -> R {
        if self.grain() > 1e-5 || v.len() < 2 {
            return Ok(());
        }
        let mut b: Vec<u32> = v.iter().map(|x| x.to_bits()).collect();
        b.sort();
        b.dedup();
        // at least about 2^18 values are possible at this grain; expected repeats n^2 / 2^19
        let n = v.len() as f64;
        let allowed = n * n / 100000.0 + 30.0;
        let rep = (v.len() - b.len()) as f64;
        ensure!(rep <= allowed, "{self:?} {what}: {rep} of {n} values are repeats (at most {allowed:.0} by chance)");
        Ok(())
    }
    fn z(&self, x: f32) -> f64 {
        (x as f64 - self.mean()) / self.sd()
    }
    /// no correlation between paired values (also not between their magnitudes)
    fn check_pairs(&self, a: &[f32], b: &[f32], what: &str) -> R {
        let n = a.len() as f64;
        if n < 4000.0 {
            return Ok(());
        }
        let lim = Z / n.sqrt() * 1.15 + self.grain();
        let r = a.iter().zip(b).map(|(x, y)| self.z(*x) * self.z(*y)).sum::<f64>() / n;
        ensure!(r.abs() <= lim, "{self:?} {what}: correlation {r:.5} over {n} pairs (limit {lim:.5})");
        let (var, cap) = if let Dist::Uniform(..) = self { (0.8, 1.2) } else { (2.0, 1.6) };
        let r2 = a.iter().zip(b).map(|(x, y)| (self.z(*x).powi(2) - 1.0) * (self.z(*y).powi(2) - 1.0)).sum::<f64>() / n / var;
        let lim = Z / n.sqrt() * cap + 4.0 * self.grain();
        ensure!(r2.abs() <= lim, "{self:?} {what}: squares correlate by {r2:.5} over {n} pairs (limit {lim:.5})");
        Ok(())
    }
}
fn dist(r: &mut Rng) -> Dist {
    let scale = |r: &mut Rng| *r.pick(&[1.0f32, 1.0, 0.01, 100.0, 1e-20, 1e20, 0.37]);
    if r.chance(1, 2) {
        let s = scale(r);
        match r.below(5) {
            0 => Dist::Uniform(0.0, s),
            1 => Dist::Uniform(-s, s),
            2 => Dist::Uniform(-s, 0.0),
            3 => {
                let a = (r.unit() * 2.0 - 1.0) as f32 * s;
                Dist::Uniform(a, a + s * (0.1 + r.unit() as f32))
            }
            _ => Dist::Uniform(5.0 * s, 9.0 * s),
        }
    } else {
        let s = scale(r);
        match r.below(4) {
            0 => Dist::Gauss(0.0, s),
            1 => Dist::Gauss(3.0 * s, s),
            2 => Dist::Gauss(-7.5 * s, 2.0 * s),
            _ => Dist::Gauss((r.unit() * 4.0 - 2.0) as f32 * s, s * (0.2 + r.unit() as f32)),
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a sample of at least 1000 cells was tested for distribution, moments, reach, repeats and correlations, or a degenerate range for constancy");
    ctx.assume("statistical: each test rejects a correct generator with probability below about 1e-10, and deviations smaller than its resolution (1-3 % of a distribution function per tensor, 0.3 % in the large samples) are not seen");
    // one large tensor per case
    ctx.family("tensors", 240, |c| {
        let d = dist(&mut c.rng);
        let s = match c.rng.below(6) {
            0 => [20000, 1, 1],
            1 => [1, 20000, 1],
            2 => [1, 1, 20000],
            3 => [2, 3, 4000],
            4 => [128, 128, 2],
            _ => [c.rng.range(20, 40), c.rng.range(20, 40), c.rng.range(20, 30)],
        };
        c.describe(format!("{d:?} over {s:?}"));
        let mut t = garbage(&mut c.rng, s).tensor();
        d.fill(&mut t);
        let a = Rt::of(&t);
        ensure!(a.s == s, "{d:?}: the fill changed the shape to {:?}", a.s);
        d.check_sample(&a.v, &format!("over {s:?}"))?;
        d.check_distinct(&a.v, &format!("over {s:?}"))?;
        let n = a.v.len();
        let mut lags = vec![1, 2, 3, 4, 8, 16, s[0] as usize, (s[0] * s[1]) as usize, n / 2];
        lags.dedup();
        for lag in lags {
            if lag > 0 && lag < n {
                d.check_pairs(&a.v[..n - lag], &a.v[lag..], &format!("over {s:?}, cells {lag} apart"))?;
                c.count("correlations", 1);
            }
        }
        // slices along each axis have the distribution, too
        for k in [0, s[2] - 1] {
            let v: Vec<f32> = (0..n).filter(|p| unpos(s, *p).2 == k).map(|p| a.v[p]).collect();
            if v.len() >= 1000 {
                d.check_sample(&v, &format!("over {s:?}, slice {k}"))?;
            }
        }
        // the second fill is another draw, independent of the first
        d.fill(&mut t);
        let b = Rt::of(&t);
        d.check_sample(&b.v, &format!("over {s:?}, second fill"))?;
        d.check_pairs(&a.v, &b.v, &format!("over {s:?}, first and second fill"))?;
        let same = a.v.iter().zip(&b.v).filter(|(x, y)| x == y).count() as f64;
        ensure!(d.grain() > 1e-5 || same <= n as f64 * 1e-4 + 20.0, "{d:?} over {s:?}: {same} of {n} cells kept their value in a second fill");
        c.count("cells_sampled", 2 * n as u64);
        c.count("samples_tested", 2);
        c.nontrivial();
        Ok(())
    });
    // each cell of a small tensor over many fills
    ctx.family("cells_over_fills", 60, |c| {
        let d = dist(&mut c.rng);
        let s = *c.rng.pick(&[[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 3, 2], [4, 1, 1], [3, 3, 1], [1, 1, 5]]);
        let n = size(s);
        c.describe(format!("{d:?} over {s:?}, 6000 fills"));
        let mut cells = vec![vec![]; n];
        let fresh = c.rng.chance(1, 2);
        let mut t = garbage(&mut c.rng, s).tensor();
        for _ in 0..6000 {
            if fresh {
                t = Rt::zero(s).tensor();
            }
            d.fill(&mut t);
            for (p, x) in Rt::of(&t).v.iter().enumerate() {
                cells[p].push(*x);
            }
        }
        for p in 0..n {
            let what = format!("cell {p} of {s:?} over 6000 fills");
            d.check_sample(&cells[p], &what)?;
            d.check_distinct(&cells[p], &what)?;
            for lag in [1, 2, 5] {
                d.check_pairs(&cells[p][..6000 - lag], &cells[p][lag..], &format!("{what}, fills {lag} apart"))?;
            }
            for q in p + 1..n {
                d.check_pairs(&cells[p], &cells[q], &format!("cells {p} and {q} of {s:?} over 6000 fills"))?;
                c.count("correlations", 1);
            }
            c.count("samples_tested", 1);
        }
        c.count("cells_sampled", 6000 * n as u64);
        c.nontrivial();
        Ok(())
    });
    // no fill ever repeats an earlier one: four cells have more than 10^25 values, so that even
    // among hundreds of thousands of fills a repetition shows that few streams are possible
    ctx.family_n("no_repeats", 4, |c| {
        let d = [Dist::Uniform(0.0, 1.0), Dist::Gauss(0.0, 1.0), Dist::Uniform(-3.0, 5.0), Dist::Gauss(2.0, 0.5)][c.idx as usize];
        let n = 1_000_000;
        c.describe(format!("{d:?}, {n} fills of four cells"));
        let mut seen = std::collections::HashMap::with_capacity(n);
        let mut t = Rt::zero([2, 2, 1]).tensor();
        for i in 0..n {
            d.fill(&mut t);
            let v = Rt::of(&t).v;
            let key = [v[0].to_bits(), v[1].to_bits(), v[2].to_bits(), v[3].to_bits()];
            if let Some(j) = seen.insert(key, i) {
                bad!("{d:?}: fill {i} of four cells repeats fill {j}: {v:?}");
            }
        }
        c.count("fills_compared", n as u64);
        c.count("cells_sampled", 4 * n as u64);
        c.nontrivial();
        Ok(())
    });
    // a fresh random stream for every tensor, and per thread
    ctx.family("streams", 30, |c| {
        let d = dist(&mut c.rng);
        let s = [100, 50, 1];
        c.describe(format!("{d:?} over {s:?} on two threads"));
        let draw = move || {
            let mut t = Rt::zero(s).tensor();
            d.fill(&mut t);
            Rt::of(&t)
        };
        let (a, b) = std::thread::scope(|sc| {
            let (x, y) = (sc.spawn(draw), sc.spawn(draw));
            (x.join().unwrap(), y.join().unwrap())
        });
        d.check_pairs(&a.v, &b.v, "tensors filled on two threads")?;
        let e = draw();
        d.check_pairs(&a.v, &e.v, "two tensors")?;
        d.check_sample(&e.v, "tensor")?;
        c.count("samples_tested", 1);
        c.count("cells_sampled", 15000);
        c.nontrivial();
        Ok(())
    });
    // resolution: a million cells pooled
    ctx.family_n("large_samples", 8, |c| {
        let d = [
            Dist::Uniform(0.0, 1.0),
            Dist::Gauss(0.0, 1.0),
            Dist::Uniform(-1.0, 1.0),
            Dist::Gauss(10.0, 3.0),
            Dist::Uniform(-0.05, 0.05),
            Dist::Gauss(0.0, 0.01),
            Dist::Uniform(2.0, 6.0),
            Dist::Gauss(-1.0, 0.5),
        ][c.idx as usize];
        let s = if c.idx < 4 { [1000, 1000, 1] } else { [100, 100, 100] };
        c.describe(format!("{d:?} over {s:?}"));
        let mut t = Rt::zero(s).tensor();
        d.fill(&mut t);
        let a = Rt::of(&t);
        d.check_sample(&a.v, &format!("over {s:?}"))?;
        // at least 2^22 values are possible in each of these ranges, so chance repeats at most 12 %
        let mut b: Vec<u32> = a.v.iter().map(|x| x.to_bits()).collect();
        b.sort();
        b.dedup();
        let rep = a.v.len() - b.len();
        ensure!(rep <= a.v.len() / 5, "{d:?} over {s:?}: {rep} of {} values are repeats (chance: below 12 %)", a.v.len());
        for lag in [1, 2, 3, s[0] as usize, (s[0] * s[1]) as usize] {
            if lag < a.v.len() {
                d.check_pairs(&a.v[..a.v.len() - lag], &a.v[lag..], &format!("over {s:?}, cells {lag} apart"))?;
            }
        }
        c.count("cells_sampled", a.v.len() as u64);
        c.count("samples_tested", 1);
        c.nontrivial();
        Ok(())
    });
    // degenerate and tiny ranges
    ctx.family("degenerate", 600, |c| {
        let x = *c.rng.pick(&[0.0f32, -0.0, 1.0, -2.5, 1e-30, 1e30, f32::MIN_POSITIVE, 3.0e38, -3.0e38, 7.25]);
        let s = shape(&mut c.rng);
        let mut t = garbage(&mut c.rng, s).tensor();
        c.describe(format!("{x:?} {s:?}"));
        let uni = c.rng.chance(1, 2);
        if uni {
            t.fill_with_uniform(x, x);
        } else {
            t.fill_with_gaussian(x, 0.0);
        }
        let v = Rt::of(&t);
        ensure!(v.s == s, "the fill changed the shape to {:?}", v.s);
        ensure!(v.v.iter().all(|y| *y == x), "a degenerate {} fill at {x:?} gives {}", if uni { "uniform" } else { "Gaussian" }, v.show());
        // adjacent bounds: both of them are possible, nothing else
        let a = 1.0f32;
        let b = f32::from_bits(a.to_bits() + c.rng.range(1, 3));
        let mut t = Rt::zero([50, 1, 1]).tensor();
        t.fill_with_uniform(a, b);
        ensure!(Rt::of(&t).v.iter().all(|y| *y >= a && *y <= b), "uniform fill leaves [{a:?}, {b:?}]");
        c.count("degenerate_fills", 1);
        c.nontrivial();
        Ok(())
    });
    // only the named tensor is filled
    ctx.family("isolation", 200, |c| {
        let s = shape(&mut c.rng);
        let a = rt(&mut c.rng, Class::Special, s);
        let t = a.tensor();
        let mut u = t.clone();
        let d = dist(&mut c.rng);
        d.fill(&mut u);
        c.describe(format!("{s:?} {d:?}"));
        ensure!(Rt::of(&t).same_bits(&a), "filling a clone changed the original");
        d.check_values(&Rt::of(&u).v)?;
        c.count("degenerate_fills", 1);
        Ok(())
    });
    ctx.require("samples_tested", 500);
    ctx.require("fills_compared", 4_000_000);
    ctx.require("cells_sampled", 8_000_000);
    ctx.require("degenerate_fills", 500);
}
