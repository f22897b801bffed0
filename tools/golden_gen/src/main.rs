use rusty_network::layer::{convolutional::*, fully_connected::*, max_pool::*, softmax::*};
use rusty_network::network::*;
use rusty_network::tensor::{helper::TensorShape, Tensor};
struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
    fn range(&mut self, a: u32, b: u32) -> u32 {
        a + (self.next() % (b - a + 1) as u64) as u32
    }
    fn int(&mut self) -> f32 {
        self.range(0, 8) as f32 - 4.0
    }
    fn any(&mut self) -> f32 {
        match self.range(0, 3) {
            0 => f32::from_bits((self.next() << 16 ^ self.next()) as u32),
            1 => [f32::NAN, f32::INFINITY, -0.0, 1e-45, f32::MAX, 0.1][self.range(0, 5) as usize],
            _ => self.range(0, 1000) as f32 / 500.0 - 1.0,
        }
    }
}
fn sh(s: [u32; 3]) -> TensorShape {
    TensorShape::new(s[0], s[1], s[2])
}
fn t(r: &mut R, s: [u32; 3], any: bool) -> Tensor {
    let mut x = Tensor::new(sh(s));
    let v = (0..s[0] * s[1] * s[2]).map(|_| if any { r.any() } else { r.int() }).collect();
    x.fill_with_vec(v).unwrap();
    x
}
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let mut r = R(2024);
    let names = ["", "conv_layer_1", "fully connected", "слой-λ-🧠", "a\u{0}b\n", "softmax"];
    for n in 0..32 {
        let mode = if n % 2 == 0 { NetworkRunState::Inference } else { NetworkRunState::Training };
        let mut net = Network::new(mode);
        let mut s = match n % 4 {
            0 => [r.range(1, 9), 1, 1],
            1 => [r.range(3, 8), r.range(3, 8), r.range(1, 3)],
            2 => [r.range(1, 6), r.range(1, 6), 1],
            _ => [r.range(4, 9), r.range(1, 4), 2],
        };
        let inp = s;
        let layers = if n == 0 { 0 } else { r.range(1, 6) };
        // special values only where no result is archived
        let any = n % 8 == 7;
        let mut count = 0;
        while count < layers {
            let name = if r.range(0, 9) == 0 { "long".repeat(100) } else { names[r.range(0, 5) as usize].to_string() };
            match r.range(0, 3) {
                0 => {
                    let st = r.range(1, 3);
                    let k = [r.range(1, s[0].min(4)), if r.range(0, 1) == 0 { s[1] } else { r.range(1, s[1]) }, s[2]];
                    if (s[0] - k[0]) % st != 0 || (s[1] - k[1]) % st != 0 {
                        continue;
                    }
                    let d = r.range(1, 3);
                    let mut l = ConvolutionalLayer::empty();
                    let ks = (0..d).map(|_| t(&mut r, k, any)).collect();
                    let bs = (0..d).map(|_| t(&mut r, [1, 1, 1], any)).collect();
                    l.fill_from_state(ks, bs, sh(s), st, &name).unwrap();
                    s = [(s[0] - k[0]) / st + 1, (s[1] - k[1]) / st + 1, d];
                    net.add_layer(l).unwrap();
                }
                1 => {
                    if s[1] != 1 || s[2] != 1 {
                        continue_or_soft(&mut net, s, &name);
                    } else {
                        let o = r.range(1, 7);
                        let mut l = FullyConnectedLayer::empty();
                        l.fill_from_state(t(&mut r, [o, s[0], 1], any), t(&mut r, [o, 1, 1], any), &name).unwrap();
                        s = [o, 1, 1];
                        net.add_layer(l).unwrap();
                    }
                }
                2 => {
                    let st = r.range(1, 3);
                    let k = [r.range(1, s[0].min(3)), r.range(1, s[1].min(3)), 1];
                    if (s[0] - k[0]) % st != 0 || (s[1] - k[1]) % st != 0 {
                        continue;
                    }
                    net.add_layer(MaxPoolLayer::new(sh(k), sh(s), st, &name).unwrap()).unwrap();
                    s = [(s[0] - k[0]) / st + 1, (s[1] - k[1]) / st + 1, s[2]];
                }
                _ => continue_or_soft(&mut net, s, &name),
            }
            count += 1;
        }
        let f = format!("{dir}/{n:02}.net");
        net.save_to_file(&f).unwrap();
        if layers > 0 {
            let x = t(&mut r, inp, false);
            net.infer(&x).unwrap();
            x.save_to_file(&format!("{f}.in")).unwrap();
            net.get_output().unwrap().save_to_file(&format!("{f}.out")).unwrap();
        }
    }
    for n in 0..16 {
        let s = [r.range(1, 6), r.range(1, 6), r.range(1, 6)];
        t(&mut r, s, n % 2 == 1).save_to_file(&format!("{dir}/{n:02}.tensor")).unwrap();
    }
}
fn continue_or_soft(net: &mut Network, s: [u32; 3], name: &String) {
    net.add_layer(SoftmaxLayer::new(sh(s), name).unwrap()).unwrap();
}
