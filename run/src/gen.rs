// Series of many shapes, regenerated from (kind, length, seed).
use crate::common::Rng;

pub const KINDS: &[&str] = &[
    "const-int", "const-frac", "const-zero", "const-neg", "const-huge", "ramp", "ramp-neg", "sine", "sine-int", "noise-u8", "noise-i16", "noise-i32", "noise-frac", "alternate", "runs-int", "runs-frac",
    "huge", "tiny", "subnormal", "mixed-mag", "zeros-signs", "limits", "big-int", "step", "spike", "near-const", "exp-grow", "sparse", "walk", "walk-frac", "one-odd", "i64-edge", "offset-sine", "saw", "zero-cross", "f32-const",
    "near-constf", "late-odd", "dist-max", "outlier-edge", "two-level-frac", "pow2", "head-flat", "head-sine", "head-noise",
];

pub fn series(kind: &str, n: usize, seed: u64) -> Vec<f64> {
    let mut r = Rng::new(seed.wrapping_mul(77_003).wrapping_add(n as u64).wrapping_mul(31).wrapping_add(kind.bytes().fold(7u64, |a, b| a.wrapping_mul(131) ^ b as u64)));
    let mut v: Vec<f64> = Vec::with_capacity(n);
    let a = r.range(-1000, 1000) as f64;
    let f = 1.0 + r.unit() * 20.0;
    let mut cur = 0.0f64;
    let mut left = 0i64;
    let odd = if n > 0 { r.below(n as u64) as usize } else { 0 };
    let lims = [0.0, 1.0, 254.0, 255.0, 256.0, 32766.0, 32767.0, 32768.0, -32768.0, -32769.0, -1.0, 2147483646.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 65535.0, 65536.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 127.0, 128.0, -128.0, -129.0];
    let lim = r.below(lims.len() as u64) as usize;
    for i in 0..n {
        let x = i as f64;
        let y = match kind {
            "const-int" => a,
            "const-frac" => a + 0.123456789,
            "const-zero" => 0.0,
            "const-neg" => -1.0 - a.abs() * 3.0,
            "const-huge" => 1.7e18 * (a + 0.5),
            "ramp" => a + x * f,
            "ramp-neg" => -a.abs() - x * 7.0,
            "sine" => (x / f).sin() * (a + 1500.0),
            "sine-int" => ((x / f).sin() * 1000.0).round() + 3000.0,
            "noise-u8" => r.range(0, 255) as f64,
            "noise-i16" => r.range(-32768, 32767) as f64,
            "noise-i32" => r.range(-2147483648, 2147483647) as f64,
            "noise-frac" => (r.unit() - 0.5) * a,
            "alternate" => if i % 2 == 0 { a } else { a + 1.0 },
            "runs-int" | "runs-frac" => {
                if left == 0 {
                    left = r.range(1, 40);
                    cur = r.range(-3, 6) as f64 * if kind == "runs-frac" { 0.3 } else { 1.0 };
                }
                left -= 1;
                cur
            }
            "huge" => (r.unit() - 0.5) * 1.0e300,
            "tiny" => (r.unit() - 0.5) * 1.0e-300,
            "subnormal" => f64::from_bits(r.below(1 << 40)) * if r.chance(1, 2) { -1.0 } else { 1.0 },
            "mixed-mag" => (r.unit() - 0.5) * 10f64.powi(r.range(-30, 30) as i32),
            "zeros-signs" => *r.pick(&[0.0, -0.0, 0.0, 1.0, -1.0]),
            "limits" => if i == odd { lims[lim] } else { r.range(0, 3) as f64 },
            "big-int" => (r.range(-(1 << 62), 1 << 62)) as f64,
            "step" => if i < n / 2 { 10.0 } else { 110.0 },
            "spike" => if i == odd { 1.0e6 } else { 5.0 },
            "near-const" => 100.0 + r.unit() * 1e-9,
            "near-constf" => 1000.0 + r.range(0, 3) as f64,
            "exp-grow" => (x / 40.0).min(600.0).exp(),
            "sparse" => if r.chance(1, 30) { r.range(1, 9) as f64 } else { 0.0 },
            "walk" => {
                cur += r.range(-3, 3) as f64;
                cur + a
            }
            "walk-frac" => {
                cur += r.unit() - 0.5;
                cur + a + 2000.0
            }
            "one-odd" => if i == odd { 7.5 } else { 7.0 },
            "late-odd" => if i + 1 == n { 1.0e9 } else { 3.0 + (i % 3) as f64 },
            "outlier-edge" => if i == 0 { -300.0 } else if i + 1 == n { 40000.0 } else { (i % 5) as f64 },
            "i64-edge" => *r.pick(&[9.3e18, -9.3e18, 9.2233720368547e18, -9.2233720368547758e18, 1.0e19, 5.0, 2.5, -2.5, 0.49999999999999994, 4503599627370497.5]),
            "offset-sine" => (x / f).sin() * 3.0 + 50000.0,
            "saw" => (i % 37) as f64 * 1.5 + 20.0,
            "zero-cross" => (x / f).sin() * 100.0,
            "f32-const" => 16777216.0 + (i % 2) as f64 * 0.25,
            "dist-max" => if i % 17 == 3 { a + 5000.0 } else { a },
            "two-level-frac" => if (i / 64) % 2 == 0 { 1.1 } else { 2.2 },
            // a start unlike the rest
            "head-flat" => if i < n / 5 { a } else { (x / f).sin() * 3.0 + a + 5000.5 },
            "head-sine" => if i < n / 3 { (x / f).sin() * 3.0 + a + 5000.5 } else { (i / 50 % 7) as f64 },
            "head-noise" => if i < n / 4 { (r.unit() - 0.5) * 100.0 + a + 3000.0 } else { a + 3000.0 + x * 0.125 },
            "pow2" => 2f64.powi((i % 60) as i32 - 10),
            _ => x,
        };
        v.push(y);
    }
    v
}

pub const EDGE_LENGTHS: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 31, 64, 99, 100, 126, 127, 128, 129, 130, 143, 144, 145, 161, 162, 191, 192, 193, 242, 243, 254, 255, 256, 257, 287, 288, 299, 300, 301, 383, 384, 399, 400, 431, 432, 485, 486, 487, 511, 512, 513, 514, 575,
    576, 647, 648, 728, 729, 767, 768, 769, 900, 971, 972, 1000, 1023, 1024, 1025, 1151, 1152, 1295, 1296, 1457, 1458, 1535, 1536, 1537, 1727, 1728, 1943, 1944, 2047, 2048, 2049, 2187, 2304, 2500, 3071, 3072, 4095, 4096, 4097,
];

pub fn kind(r: &mut Rng) -> &'static str {
    KINDS[r.below(KINDS.len() as u64) as usize]
}
pub fn length(r: &mut Rng, max: usize) -> usize {
    let n = if r.chance(1, 2) { *r.pick(EDGE_LENGTHS) } else if r.chance(1, 2) { r.range(1, 300) as usize } else { r.range(1, 4200) as usize };
    n.min(max)
}
