mod common;
use common::*;
use std::path::{Path, PathBuf};
use wavbrro::wavbrro::WavBrro;

const CHUNK: usize = 2048;

fn dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("wav-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn value(r: &mut Rng, kind: u64) -> f64 {
    match kind {
        0 => f64::from_bits(r.next()),
        1 => r.range(-1000, 1000) as f64,
        2 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1.0]),
        3 => r.unit() * 1e6,
        _ => 7.25,
    }
}

fn samples(r: &mut Rng, n: usize) -> Vec<f64> {
    let mode = r.below(6);
    (0..n)
        .map(|k| {
            let kind = if mode == 5 { r.below(5) } else { mode };
            if mode == 1 && r.chance(1, 2) {
                k as f64
            } else if r.chance(1, 40) {
                f64::from_bits(0x7FF8_0000_0000_0000 | r.below(1 << 40))
            } else {
                value(r, kind)
            }
        })
        .collect()
}

fn shape(w: &WavBrro, data: &[f64], how: &str) -> Result<(), String> {
    need!(w.sample_count as usize == data.len(), "{}: sample count {} for {} samples", how, w.sample_count, data.len());
    let lens: Vec<usize> = w.chunks.iter().map(|c| c.len()).collect();
    for (k, l) in lens.iter().enumerate() {
        if k + 1 < lens.len() {
            need!(*l == CHUNK, "{}: chunk {} of {} has {} samples", how, k, lens.len(), l);
        } else {
            need!(*l >= 1 && *l <= CHUNK, "{}: the last chunk has {} samples", how, l);
        }
    }
    let flat: Vec<u64> = w.chunks.iter().flatten().map(|x| x.to_bits()).collect();
    let want = bits(data);
    need!(flat.len() == want.len(), "{}: {} samples in the chunks of a container made of {}", how, flat.len(), want.len());
    for k in 0..flat.len() {
        need!(flat[k] == want[k], "{}: sample {} has bits {:#x}, expected {:#x}", how, k, flat[k], want[k]);
    }
    Ok(())
}

fn same(got: &[f64], want: &[f64], how: &str) -> Result<(), String> {
    need!(got.len() == want.len(), "{}: {} samples, expected {}", how, got.len(), want.len());
    for k in 0..got.len() {
        need!(got[k].to_bits() == want[k].to_bits(), "{}: sample {} has bits {:#x}, expected {:#x}", how, k, got[k].to_bits(), want[k].to_bits());
    }
    Ok(())
}

fn c20(data: &[f64], d: &Path) -> Result<(), String> {
    let mut w = WavBrro::new();
    need!(w.sample_count == 0 && w.chunks.is_empty(), "a new container is not empty");
    for (k, x) in data.iter().enumerate() {
        w.add_sample(*x);
        // the container is right after every step, not only at the end
        if k < 3 || (k + 2) % CHUNK < 4 {
            shape(&w, &data[..=k], &format!("after adding sample {}", k))?;
        }
    }
    shape(&w, data, "built sample by sample")?;
    same(&w.clone().get_samples(), data, "get_samples")?;
    // from a slice: what is written for it
    let f = d.join("s.wbro");
    WavBrro::to_file_with_data(&f, data);
    let raw = std::fs::read(&f).map_err(|e| e.to_string())?;
    let mut al = vec![0u64; raw.len() / 8 + 2];
    let body = &raw[12..];
    let p = unsafe { std::slice::from_raw_parts_mut(al.as_mut_ptr() as *mut u8, body.len()) };
    p.copy_from_slice(body);
    let s = WavBrro::from_bytes(p);
    shape(&s, data, "built from a slice")?;
    // further samples after that
    let mut s2 = s;
    let mut more = data.to_vec();
    for k in 0..3 {
        s2.add_sample(k as f64 - 1.5);
        more.push(k as f64 - 1.5);
    }
    shape(&s2, &more, "built from a slice and extended")?;
    same(&s2.get_samples(), &more, "get_samples of the extended container")
}

fn c21(data: &[f64], prev: usize, d: &Path) -> Result<(), String> {
    let f = d.join("r.wbro");
    let mut w = WavBrro::new();
    for x in data {
        w.add_sample(*x);
    }
    for how in ["to_file", "to_file_with_data"] {
        let _ = std::fs::remove_file(&f);
        if prev > 0 {
            std::fs::write(&f, vec![0xABu8; prev]).map_err(|e| e.to_string())?;
        }
        if how == "to_file" {
            w.to_file(&f);
        } else {
            WavBrro::to_file_with_data(&f, data);
        }
        let raw = std::fs::read(&f).map_err(|e| e.to_string())?;
        need!(raw.len() >= 12 && &raw[..12] == b"WBRO0000WBRO", "{}: signature {:?}", how, &raw[..raw.len().min(12)]);
        // the content does not depend on what was there
        let g = d.join("fresh.wbro");
        let _ = std::fs::remove_file(&g);
        if how == "to_file" {
            w.to_file(&g);
        } else {
            WavBrro::to_file_with_data(&g, data);
        }
        let fresh = std::fs::read(&g).map_err(|e| e.to_string())?;
        need!(raw == fresh, "{}: over a file of {} bytes it wrote {} bytes, on its own {}", how, prev, raw.len(), fresh.len());
        let back = WavBrro::from_file(&f).map_err(|e| format!("{}: reading back: {:?}", how, e))?;
        same(&back, data, how)?;
    }
    Ok(())
}

fn foreign(bytes: &[u8], valid: bool, d: &Path) -> Result<(), String> {
    let f = d.join("x.wbro");
    std::fs::write(&f, bytes).map_err(|e| e.to_string())?;
    let r = wavbrro::read::is_wavbrro_file(&f);
    if bytes.len() < 12 {
        need!(r.is_err(), "a file of {} bytes is not refused: {:?}", bytes.len(), r);
        need!(WavBrro::from_file(&f).is_err(), "a file of {} bytes is read", bytes.len());
        return Ok(());
    }
    let sig = &bytes[0..4] == b"WBRO" && &bytes[8..12] == b"WBRO";
    need!(r.as_ref().ok() == Some(&sig), "signature test of {:?} gives {:?}", &bytes[..12], r);
    if !sig {
        need!(WavBrro::from_file(&f).is_err(), "a foreign file starting with {:?} is read", &bytes[..12]);
    } else {
        let got = wavbrro::read::read_wavbrro_file(&f).map_err(|e| e.to_string())?;
        need!(got == bytes[12..], "the content read is not what follows the 12 bytes of the signature");
        if !valid {
            // a body that is not a container: an error, or whatever it says, but no crash
            let _ = WavBrro::from_file(&f);
        }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    let d = dir();
    let prop = c.prop.clone();
    // several callers at once, each in a directory of its own
    let (p, sd, base) = (prop.clone(), c.seed, d.clone());
    let rounds = if c.thorough { 300 } else { 12 };
    c.case("together", true, || "six threads, each with files of its own".into(), || {
        together(6, rounds, |t, j| {
            let d = base.join(format!("t{}", t));
            std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            let mut r = Rng::new(sd ^ t << 32 ^ j);
            let len = [3usize, 2048, 2050, 5000][(j % 4) as usize];
            let data = samples(&mut r, len);
            if p == "C20" { c20(&data, &d) } else { c21(&data, (j % 3) as usize * 30_000, &d) }
        })
    });
    match prop.as_str() {
        "C20" => {
            c.rule("series of every length around the multiples of 2048 up to three chunks and generated lengths, values over all bit patterns (NaN payloads, infinities, subnormals, -0); built sample by sample (checked along the way), from a slice, and extended; non-trivial: at least one full chunk");
            for len in [0usize, 1, 2, 3, 2046, 2047, 2048, 2049, 2050, 4094, 4095, 4096, 4097, 4098, 6143, 6144, 6145, 65_537, 140_000] {
                for m in 0..3u64 {
                    let mut r = Rng::new(c.seed ^ (len as u64) << 8 ^ m);
                    let data = samples(&mut r, len);
                    let s = c.seed;
                    c.case(&format!("len-{}-{}-{}", s, len, m), len >= CHUNK, || show(&data), || c20(&data, &d));
                }
            }
            // more chunks than a byte counts
            for len in [2048 * 256 - 1, 2048 * 256, 2048 * 300 + 5usize] {
                let mut r = Rng::new(c.seed ^ len as u64);
                let data = samples(&mut r, len);
                c.case(&format!("many-{}-{}", c.seed.clone(), len), true, || show(&data), || c20(&data, &d));
            }
            // one value all the way, so that a chunk may hold only it
            for v in [0.0f64, -0.0, 1.0, f64::NAN, -1.0, f64::INFINITY] {
                for len in [1usize, 2, 2048, 2049, 2050, 4097, 6145] {
                    let data = vec![v; len];
                    c.case(&format!("same-{:?}-{}", v, len), true, || format!("{} times {:?}", len, v), || c20(&data, &d));
                }
            }
            let n = if c.thorough { 200_000 } else { 20_000 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let mut r = Rng::new(c.seed.wrapping_mul(77) ^ k);
                let len = if r.chance(1, 12) { r.below(120_000) } else { r.below(9000) } as usize;
                let data = samples(&mut r, len);
                let s = c.seed;
                c.case(&format!("gen-{}-{}", s, k), len >= CHUNK, || show(&data), || c20(&data, &d));
            }
        }
        "C21" => {
            c.rule("series around the multiples of 2048 and generated ones, written over files that are absent, shorter and longer; prefixes of every length up to 24, every single-byte change of the signature, missing files, bodies that are not containers; non-trivial: a series of at least 3 samples or a file of at least 12 bytes");
            for len in [0usize, 1, 2, 3, 100, 2047, 2048, 2049, 4096, 4097, 20_000] {
                for prev in [0usize, 5, 13, 5000, 400_000] {
                    let mut r = Rng::new(c.seed ^ (len as u64) << 8 ^ prev as u64);
                    let data = samples(&mut r, len);
                    let s = c.seed;
                    c.case(&format!("len-{}-{}-{}", s, len, prev), len >= 3, || format!("over a file of {} bytes: {}", prev, show(&data)), || c21(&data, prev, &d));
                }
            }
            // more chunks than a byte counts, some megabytes
            for len in [2048 * 256 + 1, 1_100_000usize] {
                let mut r = Rng::new(c.seed ^ len as u64);
                let data = samples(&mut r, len);
                c.case(&format!("many-{}-{}", c.seed.clone(), len), true, || show(&data), || c21(&data, 777, &d));
            }
            c.case("missing", true, || "a file that does not exist".into(), || {
                let f = d.join("absent.wbro");
                need!(WavBrro::from_file(&f).is_err(), "a missing file is read");
                need!(wavbrro::read::is_wavbrro_file(&f).is_err(), "a missing file has a signature");
                need!(!f.exists(), "reading a missing file creates it");
                Ok(())
            });
            let good = {
                let mut w = WavBrro::new();
                for k in 0..9 {
                    w.add_sample(k as f64 * 0.5);
                }
                let mut v = b"WBRO0000WBRO".to_vec();
                v.extend_from_slice(&w.to_bytes());
                v
            };
            for l in 0..24 {
                let b = good[..l].to_vec();
                c.case(&format!("prefix-{}", l), l >= 12, || format!("{:?}", b), || foreign(&b, false, &d));
            }
            for pos in 0..12 {
                for flip in [1u8, 0x20, 0x80, 0xFF] {
                    let mut b = good.clone();
                    b[pos] ^= flip;
                    c.case(&format!("sig-{}-{}", pos, flip), true, || format!("{:?}", b), || foreign(&b, pos >= 4 && pos < 8, &d));
                }
            }
            for (k, h) in [b"RIFF0000WAVE", b"WBRO0000WAVE", b"RIFF0000WBRO", b"BRRO0000BRRO", b"0000WBRO0000", b"WBROWBRO0000", b"0000WBROWBRO"].iter().enumerate() {
                for (j, tail) in [&good[12..], &b""[..], &[0u8; 40][..]].iter().enumerate() {
                    let mut b = h.to_vec();
                    b.extend_from_slice(tail);
                    c.case(&format!("other-{}-{}", k, j), true, || format!("{:?}", b), || foreign(&b, false, &d));
                }
            }
            for (k, tail) in [vec![], vec![0u8; 3], vec![0u8; 16], vec![0xFF; 64], good[12..good.len() - 1].to_vec(), good[13..].to_vec()].into_iter().enumerate() {
                let mut b = b"WBRO0000WBRO".to_vec();
                b.extend_from_slice(&tail);
                c.case(&format!("body-{}", k), true, || format!("{:?}", b), || foreign(&b, false, &d));
            }
            let n = if c.thorough { 100_000 } else { 10_000 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let mut r = Rng::new(c.seed.wrapping_mul(91) ^ k);
                let len = if r.chance(1, 2) { r.below(300) } else { r.below(9000) } as usize;
                let prev = r.below(3) as usize * r.below(100_000) as usize;
                let data = samples(&mut r, len);
                let s = c.seed;
                c.case(&format!("gen-{}-{}", s, k), len >= 3, || format!("over a file of {} bytes: {}", prev, show(&data)), || c21(&data, prev, &d));
            }
        }
        _ => {
            eprintln!("unknown property");
            std::process::exit(64);
        }
    }
    std::fs::remove_dir_all(&d).ok();
    c.finish();
}
