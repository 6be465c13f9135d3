mod common;
mod gen;
use atsc::compressor::constant::Constant;
use atsc::compressor::fft::{fft, fft_to_data, FFT};
use atsc::compressor::noop::Noop;
use atsc::compressor::polynomial::{Polynomial, PolynomialType};
use atsc::compressor::rle::IndexRLE;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::header::CompressorHeader;
use atsc::optimizer::utils::{Bitdepth, DataStats};
use atsc::optimizer::OptimizerPlan;
use atsc::utils::error::*;
use common::*;
use gen::*;

type R = Result<(), String>;
const HAND: [Compressor; 6] = [Compressor::Noop, Compressor::FFT, Compressor::Idw, Compressor::Constant, Compressor::Polynomial, Compressor::RLE];

fn mape(o: &[f64], g: &[f64]) -> f64 {
    let mut s = 0.0;
    for (a, b) in o.iter().zip(g) {
        if a != b {
            s += ((b - a) / a).abs();
        }
    }
    s / o.len() as f64
}
fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a.is_finite() && b.is_finite() && (a - b).abs() <= rel * a.abs().max(b.abs()))
}
fn same_bits(a: &[f64], b: &[f64]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits())
}
fn first_diff(a: &[f64], b: &[f64]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i] != b[i])
}
fn at(v: &[f64], i: usize) -> String {
    v.get(i).map(|x| format!("{:?}", x)).unwrap_or("nothing".into())
}
fn reread(cs: &CompressedStream) -> CompressedStream {
    CompressedStream::from_bytes(&cs.clone().to_bytes())
}

/// what the command line does
fn compress_all(data: &[f64], c: Compressor, err: Option<f32>, level: usize) -> CompressedStream {
    let mut op = OptimizerPlan::plan(data);
    op.set_compressor(c);
    let mut cs = CompressedStream::new();
    for (c, d) in op.get_execution() {
        match err {
            Some(e) => cs.compress_chunk_bounded_with(d, *c, e, level),
            None => cs.compress_chunk_with(d, *c),
        }
    }
    cs
}

// ---------------------------------------------------------------- C01
fn c01(data: &[f64], c: Compressor, err: Option<f32>, level: usize) -> R {
    let finite: Vec<f64> = data.iter().copied().filter(|x| x.is_finite()).collect();
    let cs = compress_all(data, c, err, level);
    let out = reread(&cs).decompress();
    need!(out.len() == finite.len(), "{:?} err {:?}: {} values for {} samples", c, err, out.len(), finite.len());
    match c {
        Compressor::RLE => {
            if let Some(i) = first_diff(&out, &finite) {
                return Err(format!("RLE: position {} is {} instead of {}", i, at(&out, i), at(&finite, i)));
            }
        }
        Compressor::Noop => {
            for i in 0..out.len() {
                let w = finite[i].round() as i64 as f64;
                need!(out[i] == w, "Noop: position {} is {:?} for {:?}", i, out[i], finite[i]);
            }
        }
        Compressor::Auto => {
            let e = err.unwrap_or(0.0) as f64;
            let mut s = 0;
            let op = OptimizerPlan::plan(data);
            for n in op.chunk_sizes.iter() {
                let m = mape(&finite[s..s + n], &out[s..s + n]);
                need!(m <= e * (1.0 + 1e-9) + 1e-12, "Auto err {}: the frame at {} of {} is off by {}: values are not at their place", e, s, n, m);
                s += n;
            }
        }
        _ => {}
    }
    Ok(())
}

/// a lossy compressor puts each value at its own position: an increasing series stays centred
fn c01_align(n: usize, c: Compressor, err: Option<f32>) -> R {
    let data: Vec<f64> = (0..n).map(|i| 1000.0 + 10.0 * i as f64).collect();
    let out = reread(&compress_all(&data, c, err, 0)).decompress();
    need!(out.len() == n, "{:?}: {} values for {} samples", c, out.len(), n);
    // mean signed error over the middle half, in positions
    let (a, b) = (n / 4, n - n / 4);
    let m: f64 = (a..b).map(|i| (out[i] - data[i]) / 10.0).sum::<f64>() / (b - a) as f64;
    let lim = if c == Compressor::FFT || c == Compressor::Idw { 1.0 + n as f64 / 60.0 } else { 1.0 };
    need!(m.abs() <= lim, "{:?} {:?}: the values of an increasing series of {} are {} positions away", c, err, n, m);
    Ok(())
}

fn c01_frames(parts: &[(Vec<f64>, Compressor, Option<f32>)]) -> R {
    let mut all = CompressedStream::new();
    let mut want: Vec<f64> = vec![];
    for (d, c, e) in parts {
        let mut one = CompressedStream::new();
        match e {
            Some(e) => {
                all.compress_chunk_bounded_with(d, *c, *e, 0);
                one.compress_chunk_bounded_with(d, *c, *e, 0);
            }
            None => {
                all.compress_chunk_with(d, *c);
                one.compress_chunk_with(d, *c);
            }
        }
        let o = reread(&one).decompress();
        need!(o.len() == d.len(), "{:?}: {} values for a frame of {}", c, o.len(), d.len());
        want.extend(o);
    }
    let got = reread(&all).decompress();
    if let Some(i) = same_bits(&got, &want) {
        return Err(format!("position {} is {} in the stream and {} when its frame is alone", i, at(&got, i), at(&want, i)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
fn c02(d: &[f64], err: f32, level: usize) -> R {
    let e = err as f64;
    for c in [Compressor::Polynomial, Compressor::Idw, Compressor::FFT] {
        let r = c.get_compress_bounded_results(d, e);
        let out = c.decompress(d.len(), &r.compressed_data);
        need!(out.len() == d.len(), "{:?}: {} values for {} samples", c, out.len(), d.len());
        let m = mape(d, &out);
        need!(close(m, r.error, 1e-9), "{:?} max {}: reports error {:e}, its output has {:e}", c, e, r.error, m);
        if c != Compressor::FFT {
            need!(m <= e + 0.001 + 1e-9, "{:?}: error {:e} above the requested {}", c, m, e);
        }
        // the frame holds the same
        let mut cs = CompressedStream::new();
        cs.compress_chunk_bounded_with(d, c, err, level);
        let out2 = reread(&cs).decompress();
        need!(same_bits(&out, &out2).is_none(), "{:?}: the frame decodes to other values than its encoding", c);
    }
    let mut cs = CompressedStream::new();
    cs.compress_chunk_bounded_with(d, Compressor::Auto, err, level);
    let out = reread(&cs).decompress();
    let m = mape(d, &out);
    need!(out.len() == d.len() && m <= e * (1.0 + 1e-9), "Auto level {}: error {:e} above the requested {}", level, m, e);
    Ok(())
}

/// what a command stores for a series of one frame
fn front(csv: bool, d: &[f64], c: Compressor, percent: u8, level: usize) -> Result<Vec<u8>, String> {
    let sc = Scratch::new("front");
    let name = match c {
        Compressor::FFT => "fft",
        Compressor::Polynomial => "polynomial",
        Compressor::Idw => "idw",
        Compressor::Noop => "noop",
        Compressor::Constant => "constant",
        _ => "auto",
    };
    let (env, file) = if csv { ("CSVC_BIN", "in.csv") } else { ("ATSC_BIN", "in.wbro") };
    let p = sc.0.join(file);
    if csv {
        let t: String = d.iter().enumerate().map(|(i, x)| format!("{},{:?}\n", i * 1000, x)).collect();
        std::fs::write(&p, format!("timestamp,value\n{}", t)).unwrap();
    } else {
        wavbrro::wavbrro::WavBrro::to_file_with_data(&p, d);
    }
    let args: Vec<String> = ["--compressor", name, "-e", &percent.to_string(), "-c", &level.to_string(), file].iter().map(|x| x.to_string()).collect();
    let (ok, er) = run(env, &args, &sc.0)?;
    need!(ok, "{:?} ends with an error: {}", args, er.chars().take(300).collect::<String>());
    std::fs::read(sc.0.join("in.bro")).map_err(|e| format!("{:?} leaves no output: {}", args, e))
}
fn front_case(p: &str, csv: bool, d: &[f64], c: Compressor, percent: u8, level: usize) -> R {
    let b = front(csv, d, c, percent, level)?;
    let out = quiet(|| CompressedStream::from_bytes(&b).decompress())?;
    need!(out.len() == d.len(), "{} values for {} samples", out.len(), d.len());
    let e = percent as f64 / 100.0;
    let m = mape(d, &out);
    if p == "C02" {
        let slack = match c {
            Compressor::Auto => e * 1e-7 + 1e-9,
            Compressor::FFT | Compressor::Noop | Compressor::Constant => f64::INFINITY,
            _ => 0.001 + 1e-7,
        };
        need!(m <= e + slack, "error {:e} above the requested {} percent", m, percent);
    }
    if p == "C05" && c == Compressor::Auto {
        let enc = |c: Compressor| {
            let mut cs = CompressedStream::new();
            cs.compress_chunk_bounded_with(d, c, percent as f32 / 100.0, 0);
            cs.to_bytes()
        };
        if d.iter().all(|x| *x == d[0]) {
            need!(b == enc(Compressor::Constant), "a constant frame is not stored as a constant");
        } else if level == 0 {
            for c in [Compressor::FFT, Compressor::Polynomial, Compressor::RLE] {
                let o = enc(c);
                let dec = CompressedStream::from_bytes(&o).decompress();
                if mape(d, &dec) <= e * (1.0 - 1e-6) || first_diff(&dec, d).is_none() {
                    need!(b.len() <= o.len(), "{} bytes stored, {:?} needs {} within the error", b.len(), c, o.len());
                }
            }
        }
    }
    Ok(())
}
/// the commands ask for the error and the selection they are given: mostly on series where another error or another
/// selection level would give something else
fn fronts(c: &mut Ctx, p: &str, seed: u64) {
    let t0 = std::time::Instant::now();
    let (most, secs) = if c.thorough { (3000, 60) } else { (90, 5) };
    let mut left = most;
    for k in 0..40_000u64 {
        if left == 0 || !c.go() || t0.elapsed().as_secs() >= secs && left * 2 < most {
            break;
        }
        let mut r = Rng::new(seed.wrapping_mul(40_009) ^ k);
        let (kd, s) = (kind(&mut r), r.below(1000));
        let big = r.chance(1, 6);
        let n = length(&mut r, if big { 512 } else { 200 });
        if kd == "i64-edge" || kd.starts_with("subn") {
            continue;
        }
        let d = series(kd, n, s);
        let m = *r.pick(&[Compressor::Auto, Compressor::Auto, Compressor::Auto, Compressor::Auto, Compressor::Auto, Compressor::Auto, Compressor::Polynomial, Compressor::Idw, Compressor::FFT]);
        let percent = if r.chance(1, 4) { *r.pick(&[0u8, 1, 49, 50]) } else { r.range(1, 50) as u8 };
        let e = percent as f64 / 100.0;
        let any = r.chance(1, 30);
        let level = if m == Compressor::Auto && any { r.below(7) as usize } else { 0 };
        let (f, l) = if p == "C05" { *r.pick(&[(0.99, 0usize), (0.9, 0), (0.5, 0), (0.0, 0), (1.0, 4), (1.0, 5), (1.0, 6)]) } else { *r.pick(&[(1.0102, 0usize), (1.05, 0), (1.5, 0), (10.0, 0), (1.0, 4), (1.0, 5), (1.0, 6)]) };
        let enc = |f: f64, l: usize| {
            quiet(|| {
                let mut cs = CompressedStream::new();
                cs.compress_chunk_bounded_with(&d, m, (e * f) as f32, l);
                cs.to_bytes()
            })
        };
        let near = any || match enc(f, l) {
            Ok(b) if p == "C05" => enc(1.0, 0).map_or(false, |a| b.len() > a.len()),
            Ok(b) => quiet(|| CompressedStream::from_bytes(&b).decompress()).map_or(false, |o| mape(&d, &o) > e * (1.0 + 1e-6) + if m == Compressor::Auto { 0.0 } else { 0.0011 }),
            Err(_) => false,
        };
        if near {
            left -= 1;
            for csv in [false, true] {
                c.case(&format!("cmd-{}-{}-{}", seed, k, csv), n > 1, || format!("{} --compressor {:?} -e {} -c {}, series {} of {} (seed {}): {}", if csv { "csv-compressor" } else { "atsc" }, m, percent, level, kd, n, s, show(&d)), || front_case(p, csv, &d, m, percent, level));
            }
        }
    }
}

// ---------------------------------------------------------------- C03 / C04
fn c03(d: &[f64]) -> R {
    for err in [None, Some(0.03)] {
        let mut cs = CompressedStream::new();
        match err {
            None => cs.compress_chunk_with(d, Compressor::RLE),
            Some(e) => cs.compress_chunk_bounded_with(d, Compressor::RLE, e, 0),
        }
        let out = reread(&cs).decompress();
        if let Some(i) = first_diff(&out, d) {
            return Err(format!("RLE: position {} of {} is {} instead of {}", i, d.len(), at(&out, i), at(d, i)));
        }
    }
    if d.iter().all(|x| *x == d[0]) {
        for err in [None, Some(0.03)] {
            let mut cs = CompressedStream::new();
            match err {
                None => cs.compress_chunk_with(d, Compressor::Constant),
                Some(e) => cs.compress_chunk_bounded_with(d, Compressor::Constant, e, 0),
            }
            let out = reread(&cs).decompress();
            if let Some(i) = first_diff(&out, d) {
                return Err(format!("Constant: position {} of {} is {} instead of {}", i, d.len(), at(&out, i), at(d, i)));
            }
        }
    }
    Ok(())
}
fn c04(d: &[f64]) -> R {
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(d, Compressor::Noop);
    let out = reread(&cs).decompress();
    need!(out.len() == d.len(), "{} values for {} samples", out.len(), d.len());
    for i in 0..d.len() {
        let x = d[i];
        // nearest integer, ties away from zero, saturating
        let t = x.trunc();
        let near = if (x - t).abs() >= 0.5 { t + x.signum() } else { t };
        let w = if near >= 9223372036854775807.0 { i64::MAX } else if near <= -9223372036854775808.0 { i64::MIN } else { near as i64 };
        need!(out[i] == w as f64, "position {}: {:?} became {:?}, nearest integer {}", i, x, out[i], w);
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
fn c05(d: &[f64], err: f32, level: usize) -> R {
    let enc = |c: Compressor, l: usize| {
        let mut cs = CompressedStream::new();
        cs.compress_chunk_bounded_with(d, c, err, l);
        cs.to_bytes()
    };
    let auto = enc(Compressor::Auto, level);
    need!(auto == enc(Compressor::Auto, level), "compressing again gives other bytes");
    let out = quiet(|| CompressedStream::from_bytes(&auto).decompress())?;
    need!(out.len() == d.len(), "{} values for {} samples", out.len(), d.len());
    if d.iter().all(|x| *x == d[0]) {
        need!(auto == enc(Compressor::Constant, 0), "a constant frame is not stored as a constant");
        return Ok(());
    }
    let list = [Compressor::FFT, Compressor::Polynomial, Compressor::RLE];
    let opts: Vec<Vec<u8>> = list.iter().map(|c| enc(*c, 0)).collect();
    need!(opts.contains(&auto), "the stored frame is none of FFT, Polynomial and RLE");
    if level == 0 {
        for (c, o) in list.iter().zip(&opts) {
            let dec = CompressedStream::from_bytes(o).decompress();
            // safely within the bound
            if mape(d, &dec) <= err as f64 * (1.0 - 1e-12) || first_diff(&dec, d).is_none() {
                need!(auto.len() <= o.len(), "{} bytes stored, {:?} needs {} within the error", auto.len(), c, o.len());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06 / C07
fn c06(n: usize) -> R {
    let data: Vec<f64> = (0..n).map(|i| (i % 1009) as f64).collect();
    let mut op = OptimizerPlan::plan(&data);
    op.set_compressor(Compressor::RLE);
    let s = op.chunk_sizes.clone();
    need!(s.iter().sum::<usize>() == n, "the frames of {} samples have {} in total: {}", n, s.iter().sum::<usize>(), show(&s));
    need!(s.iter().all(|&x| x > 0 && x <= 131072), "a frame is empty or too big: {}", show(&s));
    for (i, x) in s.iter().enumerate() {
        need!(x.is_power_of_two() && *x >= 512 || i + 1 == s.len() && *x <= 512, "frame of {} samples among those of {}: {}", x, n, show(&s));
    }
    let ex = op.get_execution();
    need!(ex.len() == s.len(), "{} pieces for {} frames", ex.len(), s.len());
    let mut at = 0;
    for (k, (c, d)) in ex.iter().enumerate() {
        need!(d.len() == s[k] && **c == Compressor::RLE, "piece {} has {} samples, planned {}", k, d.len(), s[k]);
        need!(d.as_ptr() == op.data[at..].as_ptr() || **d == op.data[at..at + d.len()], "piece {} does not start at {}", k, at);
        need!(**d == data[at..at + d.len()], "piece {} is not the input from {}", k, at);
        at += d.len();
    }
    need!(at == n, "the pieces hold {} of {} samples", at, n);
    Ok(())
}
fn c07(d: &[f64]) -> R {
    let want: Vec<f64> = d.iter().copied().filter(|x| x.to_bits() & 0x7ff0_0000_0000_0000 != 0x7ff0_0000_0000_0000).collect();
    for (w, got) in [("clean_data", OptimizerPlan::clean_data(d)), ("plan", OptimizerPlan::plan(d).data)] {
        if let Some(i) = same_bits(&got, &want) {
            return Err(format!("{}: position {} is {} instead of {}", w, i, at(&got, i), at(&want, i)));
        }
    }
    let op = OptimizerPlan::plan(d);
    let all: Vec<f64> = op.get_execution().iter().flat_map(|(_, d)| d.to_vec()).collect();
    need!(same_bits(&all, &want).is_none(), "the pieces to compress are not the finite values");
    Ok(())
}

// ---------------------------------------------------------------- C08
fn c08(d: &[f64]) -> R {
    let s = DataStats::new(d);
    let mn = d.iter().copied().fold(f64::INFINITY, f64::min);
    let mx = d.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    need!(s.min == mn && s.max == mx, "range {:?}..{:?}, expected {:?}..{:?}", s.min, s.max, mn, mx);
    let (ml, xl) = (d.iter().position(|x| *x == mn).unwrap(), d.iter().position(|x| *x == mx).unwrap());
    need!(s.min_loc == ml && s.max_loc == xl, "locations {} and {}, expected {} and {}", s.min_loc, s.max_loc, ml, xl);
    let fr = d.iter().any(|x| x.fract() != 0.0);
    need!(s.fractional == fr, "fractional is {}, expected {}", s.fractional, fr);
    let scale: f64 = d.iter().map(|x| x.abs() / d.len() as f64).sum();
    let mean: f64 = d.iter().map(|x| x / d.len() as f64).sum();
    if scale * (d.len() as f64) < 1e300 {
        need!((s.mean - mean).abs() <= scale * 1e-9 * (1.0 + d.len() as f64 / 1e4), "mean {:?}, expected {:?}", s.mean, mean);
    }
    let (lo, hi) = match s.bitdepth {
        Bitdepth::U8 => (0.0, 255.0),
        Bitdepth::I16 => (-32768.0, 32767.0),
        Bitdepth::I32 => (-2147483648.0, 2147483647.0),
        Bitdepth::F64 => (f64::NEG_INFINITY, f64::INFINITY),
    };
    if s.bitdepth != Bitdepth::F64 {
        for (i, x) in d.iter().enumerate() {
            need!(x.fract() == 0.0 && *x >= lo && *x <= hi, "{:?} chosen, sample {} is {:?}", s.bitdepth, i, x);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
fn c09_stream(k: usize, ver: u32) -> R {
    let mut cs = CompressedStream::new();
    for i in 0..k {
        cs.compress_chunk_with(&[i as f64, 1.0], Compressor::RLE);
    }
    need!(cs.header.get_frame_count() as usize == k.min(255), "frame count {} after {} frames", cs.header.get_frame_count(), k);
    cs.header.version = ver;
    let b = cs.to_bytes();
    need!(b.len() >= 9 && b[..4] == *b"BRRO" && b[4..8] == ver.to_le_bytes() && b[8] as usize == k.min(255), "the stream starts with {:?}", &b[..b.len().min(9)]);
    let r = quiet(|| CompressedStream::from_bytes(&b));
    if ver <= 1 {
        let mut s = r.map_err(|e| format!("version {} is refused: {}", ver, e))?;
        let fc = s.header.get_frame_count();
        need!(s.header.version == ver && fc as usize == k.min(255), "read back version {} and {} frames", s.header.version, fc);
        let out = s.decompress();
        let want: Vec<f64> = (0..k).flat_map(|i| [i as f64, 1.0]).collect();
        need!(out == want, "{} frames give {} values: {}", k, out.len(), show(&out));
    } else {
        need!(r.is_err(), "version {} is accepted", ver);
    }
    Ok(())
}
fn c09_header(b: [u8; 9]) -> R {
    let ver = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
    let ok = b[..4] == *b"BRRO" && ver <= 1;
    match quiet(|| CompressorHeader::from_bytes(b)) {
        Ok(mut h) => {
            need!(ok, "header {:?} is accepted", b);
            let fc = h.get_frame_count();
        need!(h.version == ver && fc == b[8], "header {:?} read as version {} with {} frames", b, h.version, fc);
            let mut o = vec![];
            h.to_bytes(&mut o);
            need!(o == b, "header {:?} is written back as {:?}", b, o);
        }
        Err(e) => need!(!ok, "header {:?} is refused: {}", b, e),
    }
    Ok(())
}

// ---------------------------------------------------------------- C10
fn c10_stream(parts: &[(Vec<f64>, Compressor, Option<f32>)]) -> R {
    let mut cs = CompressedStream::new();
    for (d, c, e) in parts {
        match e {
            Some(e) => cs.compress_chunk_bounded_with(d, *c, *e, 0),
            None => cs.compress_chunk_with(d, *c),
        }
    }
    let mem = cs.decompress();
    let b = cs.to_bytes();
    let back = CompressedStream::from_bytes(&b);
    let out = back.decompress();
    if let Some(i) = same_bits(&out, &mem) {
        return Err(format!("position {} is {} after reading back and {} in memory", i, at(&out, i), at(&mem, i)));
    }
    need!(back.to_bytes() == b, "writing what was read gives other bytes");
    Ok(())
}
fn ints(bd: Bitdepth, r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n)
        .map(|_| match bd {
            Bitdepth::U8 => *r.pick(&[0.0, 1.0, 127.0, 128.0, 250.0, 251.0, 252.0, 253.0, 254.0, 255.0]),
            Bitdepth::I16 => *r.pick(&[0.0, -1.0, 255.0, 256.0, 125.0, 126.0, -126.0, -32768.0, 32767.0, 12345.0, -129.0]),
            Bitdepth::I32 => *r.pick(&[0.0, -1.0, 65535.0, 65536.0, 32768.0, -32769.0, -2147483648.0, 2147483647.0, 123456789.0]),
            Bitdepth::F64 => *r.pick(&[0.0, -0.5, 1.0e300, -1.0e-300, 2147483648.0, 9007199254740993.0, 0.1, -9.3e18, 255.0]),
        })
        .collect()
}
fn c10_codec(bd: Bitdepth, d: &[f64]) -> R {
    let r = IndexRLE::new(d, bd);
    let q = IndexRLE::decompress(&r.to_bytes());
    need!(q == r, "RLE {:?}: {:?} read back as {:?}", bd, r, q);
    let out = q.to_data(d.len());
    need!(first_diff(&out, &r.to_data(d.len())).is_none(), "RLE {:?} decodes differently after reading back", bd);
    for x in d.iter().take(12) {
        let c = Constant::new(3, *x, bd);
        let e = Constant::decompress(&c.to_bytes());
        need!(e == c, "Constant {:?}: {:?} read back as {:?}", bd, c, e);
    }
    for t in [PolynomialType::Polynomial, PolynomialType::Idw] {
        for step in [0u8, 1, 2, 127, 128, 250, 251, 255] {
            let p = Polynomial { id: t.clone(), data_points: d.to_vec(), min: d[0], max: d[d.len() - 1], point_step: step, error: None, bitdepth: bd };
            let e = Polynomial::decompress(&p.to_bytes());
            need!(e == p, "{:?} {:?}: {:?} read back as {:?}", t, bd, p, e);
            let w = p.to_bytes();
            match bincode::borrow_decode_from_slice::<Polynomial, _>(&w, bincode::config::standard()) {
                Ok((b, n)) => need!(b == e && n == w.len(), "{:?} {:?}: {:?} read back from borrowed bytes as {:?}", t, bd, p, b),
                Err(x) => return Err(format!("{:?} {:?}: {:?} is not read back from borrowed bytes: {:?}", t, bd, p, x)),
            }
        }
    }
    let s = DataStats::new(d);
    let mut f = FFT::new(d.len(), s.min, s.max);
    f.compress_hinted(d, d.len());
    let w = f.to_bytes();
    let e = FFT::decompress(&w);
    need!(e.to_bytes() == w && first_diff(&e.to_data(d.len()), &f.to_data(d.len())).is_none(), "FFT: {:?} read back as {:?}", f, e);
    match bincode::borrow_decode_from_slice::<FFT, _>(&w, bincode::config::standard()) {
        Ok((b, n)) => need!(b.to_bytes() == w && n == w.len(), "FFT: {:?} read back from borrowed bytes as {:?}", f, b),
        Err(x) => return Err(format!("FFT: {:?} is not read back from borrowed bytes: {:?}", f, x)),
    }
    let n = Noop { id: 250, data: d.iter().map(|x| *x as i64).collect() };
    need!(Noop::decompress(&n.to_bytes()) == n, "Noop {:?} read back differently", n);
    Ok(())
}

// ---------------------------------------------------------------- FFT, from the bytes
struct Kept {
    pos: usize,
    re: f64,
    im: f64,
}
fn varint(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let g = |i: usize| b.get(i).copied().ok_or("truncated".to_string());
    let f = g(*p)?;
    *p += 1;
    let n = match f {
        251 => 2,
        252 => 4,
        253 => 8,
        x => return Ok(x as u64),
    };
    let mut v = 0u64;
    for i in 0..n {
        v |= (g(*p + i)? as u64) << (8 * i);
    }
    *p += n;
    Ok(v)
}
fn parse_fft(b: &[u8]) -> Result<(Vec<Kept>, f32, f32), String> {
    let mut p = 1;
    let n = varint(b, &mut p)? as usize;
    let f32at = |p: usize| -> Result<f32, String> { Ok(f32::from_le_bytes(b.get(p..p + 4).ok_or("truncated")?.try_into().unwrap())) };
    let mut k = vec![];
    for _ in 0..n {
        let pos = varint(b, &mut p)? as usize;
        k.push(Kept { pos, re: f32at(p)? as f64, im: f32at(p + 4)? as f64 });
        p += 8;
    }
    let (mx, mn) = (f32at(p)?, f32at(p + 4)?);
    need!(p + 8 == b.len(), "unexpected encoding of FFT");
    Ok((k, mx, mn))
}
/// discrete Fourier transform in double precision (sign -1 forward, +1 inverse, not normalized)
fn dft(x: &[(f64, f64)], sign: f64) -> Vec<(f64, f64)> {
    let n = x.len();
    if n <= 1 {
        return x.to_vec();
    }
    let p = (2..=n).find(|p| n % p == 0).unwrap();
    let m = n / p;
    let w = |k: usize| {
        let a = sign * 2.0 * std::f64::consts::PI * (k % n) as f64 / n as f64;
        (a.cos(), a.sin())
    };
    let table: Vec<(f64, f64)> = (0..n).map(w).collect();
    let subs: Vec<Vec<(f64, f64)>> = if m == 1 { x.iter().map(|v| vec![*v]).collect() } else { (0..p).map(|r| dft(&(0..m).map(|j| x[j * p + r]).collect::<Vec<_>>(), sign)).collect() };
    (0..n)
        .map(|k| {
            let mut s = (0.0, 0.0);
            for (r, sub) in subs.iter().enumerate() {
                let (c, d) = table[(k * r) % n];
                let (a, b) = sub[k % m];
                s.0 += a * c - b * d;
                s.1 += a * d + b * c;
            }
            s
        })
        .collect()
}
fn padded(d: &[f64]) -> Result<(Vec<f64>, usize), String> {
    if d.len() < 128 {
        return Ok((d.to_vec(), 0));
    }
    let g = FFT::gibbs_sizing(d);
    need!(g.len() >= d.len(), "padding shortens");
    let p = (g.len() - d.len()) / 2;
    for i in 0..g.len() {
        let w = if i < p { d[0] } else if i < p + d.len() { d[i - p] } else { d[d.len() - 1] };
        need!(g[i] == w, "padded series: position {} is {:?}, expected {:?}", i, g[i], w);
    }
    Ok((g, p))
}
fn c11_decode(bytes: &[u8], n: usize, glen: usize, prefix: usize, spec: Option<&[(f64, f64)]>, max_freq: usize, d: &[f64]) -> R {
    let (kept, mx, mn) = parse_fft(bytes)?;
    let out = fft_to_data(n, bytes);
    need!(out.len() == n, "{} values for {} samples", out.len(), n);
    if mx == mn {
        for (i, o) in out.iter().enumerate() {
            need!(*o == mx as f64, "position {} of a constant frame is {:?}, expected {:?}", i, o, mx);
        }
        return Ok(());
    }
    need!(kept.len() <= max_freq, "{} frequencies kept, {} asked for", kept.len(), max_freq);
    let mut seen = std::collections::HashSet::new();
    for k in &kept {
        need!(k.pos <= glen / 2 && seen.insert(k.pos), "frequency {} is kept twice or is out of range", k.pos);
    }
    let sc = d.iter().map(|x| x.abs()).fold(0.0, f64::max);
    if let Some(s) = spec {
        let top = s.iter().map(|c| c.0.hypot(c.1)).fold(0.0, f64::max);
        let tol = top * 2e-5 + 1e-30;
        let norm = |i: usize| s[i].0.hypot(s[i].1);
        for k in &kept {
            need!((k.re - s[k.pos].0).abs() <= tol && (k.im - s[k.pos].1).abs() <= tol, "frequency {} is stored as {:?}, the transform gives {:?}", k.pos, (k.re, k.im), s[k.pos]);
        }
        if max_freq == 1 {
            need!(kept.iter().all(|k| k.pos == 0), "one frequency asked for, and it is not the mean");
        } else {
            let least = kept.iter().map(|k| norm(k.pos)).fold(f64::INFINITY, f64::min);
            for i in 0..=glen / 2 {
                if !seen.contains(&i) {
                    if kept.len() == max_freq {
                        need!(norm(i) <= least + 2.0 * tol, "frequency {} of magnitude {:e} is left out, one of {:e} is kept", i, norm(i), least);
                    } else {
                        need!(norm(i) <= 2.0 * tol, "frequency {} of magnitude {:e} is left out although only {} of {} are kept", i, norm(i), kept.len(), max_freq);
                    }
                }
            }
        }
    }
    // decoding inverts what is stored
    let mut full = vec![(0.0, 0.0); glen];
    for k in &kept {
        full[k.pos] = (k.re, k.im);
        if k.pos != 0 {
            full[glen - k.pos] = (k.re, -k.im);
        }
    }
    let inv = dft(&full, 1.0);
    for i in 0..n {
        let x = (inv[prefix + i].0 / glen as f64).clamp(mn as f64, mx as f64);
        let tol = 1.1e-5 + sc * 2e-5;
        need!((out[i] - x).abs() <= tol, "position {} decodes to {:?}, the inverse transform of the kept frequencies is {:?}", i, out[i], x);
        if max_freq > glen / 2 {
            need!((out[i] - d[i]).abs() <= tol, "position {} decodes to {:?} with every frequency kept, the input is {:?}", i, out[i], d[i]);
        }
    }
    Ok(())
}
fn c11(d: &[f64], freqs: &[usize]) -> R {
    let (g, p) = padded(d)?;
    let mn = d.iter().copied().fold(f64::INFINITY, f64::min);
    let mx = d.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let spec = dft(&g.iter().map(|x| (*x as f32 as f64, 0.0)).collect::<Vec<_>>(), -1.0);
    for &f in freqs {
        let mut c = FFT::new(d.len(), mn, mx);
        c.compress_hinted(d, f);
        c11_decode(&c.to_bytes(), d.len(), g.len(), p, Some(&spec), f, d).map_err(|e| format!("{} frequencies: {}", f, e))?;
    }
    let dflt = (d.len() / 100).max(3);
    c11_decode(&fft(d), d.len(), g.len(), p, Some(&spec), dflt, d).map_err(|e| format!("compress: {}", e))?;
    let r = Compressor::FFT.get_compress_bounded_results(d, 0.01);
    let k = parse_fft(&r.compressed_data)?.0.len().max(2);
    c11_decode(&r.compressed_data, d.len(), g.len(), p, Some(&spec), k, d).map_err(|e| format!("bounded: {}", e))?;
    Ok(())
}

// ---------------------------------------------------------------- C12 / C13
fn c12(d: &[f64], errs: &[f64]) -> R {
    let mn = d.iter().copied().fold(f64::INFINITY, f64::min);
    let mx = d.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    for c in [Compressor::FFT, Compressor::Polynomial, Compressor::Idw] {
        let (lo, hi) = if c == Compressor::FFT { (mn as f32 as f64, mx as f32 as f64) } else { (mn, mx) };
        let mut enc = vec![("default".to_string(), c.compress(d))];
        for e in errs {
            enc.push((format!("max error {}", e), c.compress_bounded(d, *e)));
        }
        for (w, b) in enc {
            let out = c.decompress(d.len(), &b);
            need!(out.len() == d.len(), "{:?}: {} values for {} samples", c, out.len(), d.len());
            for (i, o) in out.iter().enumerate() {
                need!(*o >= lo && *o <= hi, "{:?} ({}): position {} decodes to {:?}, outside {:?}..{:?}", c, w, i, o, lo, hi);
            }
        }
    }
    Ok(())
}
fn c13(d: &[f64], errs: &[f64]) -> R {
    c13_of(&[Compressor::Polynomial, Compressor::Idw], d, errs)
}
fn c13_of(which: &[Compressor], d: &[f64], errs: &[f64]) -> R {
    let n = d.len();
    let cst = d.iter().all(|x| *x == d[0]);
    for &c in which {
        let mut enc = vec![("default".to_string(), c.compress(d))];
        for e in errs {
            enc.push((format!("max error {}", e), c.compress_bounded(d, *e)));
        }
        // decoding does not depend on what was decoded before: another size, then the fullest first
        let mut again: Vec<(Vec<f64>, &String, &Vec<u8>)> = vec![];
        if enc.len() > 1 && n > 1 && n < 2000 {
            let other: Vec<f64> = (0..n + 1).map(|k| ((k * k) % 11) as f64).collect();
            c.decompress(n + 1, &c.compress(&other));
            let mut order: Vec<&(String, Vec<u8>)> = enc.iter().collect();
            order.sort_by_key(|e| std::cmp::Reverse(e.1.len()));
            again = order.into_iter().map(|(w, b)| (c.decompress(n, b), w, b)).collect();
        }
        for (w, b) in &enc {
            let p = Polynomial::decompress(b);
            let out = c.decompress(n, b);
            for (o, w2, b2) in &again {
                need!(b2 != &b || first_diff(o, &out).is_none(), "{:?} ({}): decoded after others {}, alone {}", c, w2, show(o), show(&out));
            }
            need!(out.len() == n, "{:?}: {} values for {} samples", c, out.len(), n);
            if cst {
                need!(first_diff(&out, d).is_none(), "{:?} ({}): a constant frame of {:?} decodes to {}", c, w, d[0], show(&out));
                continue;
            }
            let s = p.point_step as usize;
            need!(s >= 1, "{:?} ({}): step 0", c, w);
            let mut pos: Vec<usize> = (0..n).step_by(s).collect();
            if *pos.last().unwrap() != n - 1 {
                pos.push(n - 1);
            }
            need!(p.data_points.len() == pos.len(), "{:?} ({}): {} points stored with step {} for {} samples", c, w, p.data_points.len(), s, n);
            for (k, &i) in pos.iter().enumerate() {
                need!(p.data_points[k] == d[i], "{:?} ({}): point {} is {:?}, sample {} is {:?}", c, w, k, p.data_points[k], i, d[i]);
                let tol = 0.51e-5 + d[i].abs() * 1e-12;
                need!((out[i] - d[i]).abs() <= tol, "{:?} ({}): stored sample {} decodes to {:?} instead of {:?}", c, w, i, out[i], d[i]);
            }
            if pos.len() == n {
                if let Some(i) = first_diff(&out, d) {
                    return Err(format!("{:?} ({}): everything is stored, position {} decodes to {} instead of {}", c, w, i, at(&out, i), at(d, i)));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
fn c14(o: &[f64], g: &[f64]) -> R {
    let n = o.len() as f64;
    let sq: f64 = o.iter().zip(g).map(|(a, b)| (a - b) * (a - b)).sum();
    let den: f64 = o.iter().map(|a| a * a).sum();
    let ab: f64 = o.iter().zip(g).map(|(a, b)| (a - b).abs()).sum();
    let sm: f64 = o.iter().zip(g).map(|(a, b)| if a == b { 0.0 } else { (a - b).abs() / (a.abs() + b.abs()) }).sum();
    let want = [("MSE", sq / n), ("NMSE", sq / den), ("MAE", ab / n), ("MAPE", mape(o, g)), ("SMAPE", sm / n)];
    let got = [error_mse(o, g), error_nmsqe(o, g), error_mae(o, g), error_mape(o, g), error_smape(o, g)];
    let got2 = [ErrorMethod::Mse, ErrorMethod::Nmse, ErrorMethod::Mae, ErrorMethod::Mape, ErrorMethod::Smape].map(|m| m.error(o, g));
    for k in 0..5 {
        need!(close(got[k], want[k].1, 1e-9), "{} is {:?}, expected {:?}", want[k].0, got[k], want[k].1);
        need!(close(got2[k], want[k].1, 1e-9), "ErrorMethod {} is {:?}, expected {:?}", want[k].0, got2[k], want[k].1);
    }
    need!(close(calculate_error(o, g), want[3].1, 1e-9), "the default error is {:?}, MAPE is {:?}", calculate_error(o, g), want[3].1);
    Ok(())
}
fn c14_len(a: usize, b: usize) -> R {
    let (o, g) = (vec![1.0; a], vec![1.0; b]);
    let fs: [(&str, fn(&[f64], &[f64]) -> f64); 6] = [("MSE", error_mse), ("NMSE", error_nmsqe), ("MAE", error_mae), ("MAPE", error_mape), ("SMAPE", error_smape), ("default", calculate_error)];
    for (n, f) in fs {
        let r = quiet(|| f(&o, &g));
        need!(r.is_err(), "{} of {} and {} values is {:?}", n, a, b, r);
    }
    Ok(())
}

fn inject(v: &mut Vec<f64>, r: &mut Rng) {
    let n = v.len();
    if n == 0 {
        return;
    }
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(0xfff8_0000_dead_beef), f64::MAX, f64::MIN_POSITIVE, -0.0, 5e-324];
    match r.below(4) {
        0 => {
            v[0] = *r.pick(&bad);
            v[n - 1] = *r.pick(&bad);
        }
        1 => {
            for x in v.iter_mut() {
                if r.chance(1, 3) {
                    *x = *r.pick(&bad);
                }
            }
        }
        2 => {
            for x in v.iter_mut() {
                *x = *r.pick(&bad);
            }
        }
        _ => {
            let i = r.below(n as u64) as usize;
            v[i] = *r.pick(&bad);
            let i = r.below(n as u64) as usize;
            v.insert(i, f64::NAN);
        }
    }
}
fn errors(r: &mut Rng) -> f32 {
    if r.chance(1, 25) {
        return *r.pick(&[2.5, 3e6, 1e17, 1e20, f32::MAX, 1e-30, f32::INFINITY]);
    }
    if r.chance(1, 4) {
        return r.range(0, 60) as f32 / 1000.0;
    }
    (*r.pick(&[0u8, 0, 1, 2, 3, 3, 5, 10, 20, 37, 50])) as f32 / 100.0
}
fn bounded(c: Compressor) -> bool {
    matches!(c, Compressor::FFT | Compressor::Polynomial | Compressor::Idw | Compressor::Auto)
}

fn main() {
    let mut c = Ctx::from_args();
    let prop = c.prop.clone();
    let (seed, th) = (c.seed, c.thorough);
    let many = if th { 1_000_000u64 } else { 100_000 };
    let rng = |k: u64| Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
    let desc = |k: &str, n: usize, s: u64| format!("series {} of {} (seed {}): {}", k, n, s, show(&series(k, n, s)));
    c.rule("series of 45 shapes (constant, ramps, sines, noise and runs of every integer width and of fractions, huge, tiny, subnormal, width limits, spikes, steps ...) with lengths around every frame, padding and step boundary and random ones, regenerated from the case id; for C01, C02 and C05 also through the commands atsc and csv-compressor; non-trivial: a case not seen before with at least 2 samples");
    if !["C06", "C09"].contains(&prop.as_str()) {
        // several callers at once, each with inputs of the same sizes as the others
        let p = prop.clone();
        c.case("together", true, || "six threads, series of every kind of a few lengths, one after the other".into(), || {
            together(6, if th { 400 } else { 40 }, |t, j| {
                let mut r = Rng::new(seed ^ t << 32 ^ j);
                let n = [64usize, 128, 200, 300][(j % 4) as usize];
                let mut kd = kind(&mut r);
                while p == "C11" && ["huge", "tiny", "subnormal", "const-huge", "big-int", "i64-edge"].contains(&kd) {
                    kd = kind(&mut r);
                }
                let d = series(kd, n, t * 100 + j);
                let m = *r.pick(&[Compressor::Auto, Compressor::FFT, Compressor::Polynomial, Compressor::Idw, Compressor::RLE, Compressor::Noop]);
                let e = *r.pick(&[0.01f32, 0.05, 0.2]);
                match p.as_str() {
                    "C01" => c01(&d, m, if bounded(m) { Some(e) } else { None }, 0),
                    "C02" => c02(&d, e, 0),
                    "C03" => c03(&d),
                    "C04" => c04(&d),
                    "C05" => c05(&d, e, 0),
                    "C07" => c07(&d),
                    "C08" => c08(&d),
                    "C10" => c10_stream(&[(d, m, if bounded(m) { Some(e) } else { None })]),
                    "C11" => c11(&d, &[1, 2, 5]),
                    "C12" => c12(&d, &[e as f64]),
                    "C13" => c13(&d, &[e as f64]),
                    "C14" => {
                        let d: Vec<f64> = (0..n).map(|_| r.range(-50, 50) as f64).collect();
                        let g: Vec<f64> = d.iter().map(|x| x + r.range(-3, 3) as f64).collect();
                        if d.iter().any(|x| *x == 0.0) { Ok(()) } else { c14(&d, &g) }
                    }
                    _ => Ok(()),
                }
            })
        });
    }
    match prop.as_str() {
        "C01" => {
            fronts(&mut c, "C01", seed);
            for nf in [255usize, 256, 257, 300, 700, 5000] {
                let parts: Vec<(Vec<f64>, Compressor, Option<f32>)> = (0..nf).map(|i| ((0..1 + i % 4).map(|j| (i * 5 + j) as f64).collect(), [Compressor::Noop, Compressor::RLE, Compressor::Polynomial][i % 3], None)).collect();
                c.case(&format!("many-{}", nf), true, || format!("{} frames of 1 to 4 increasing integers", nf), || c01_frames(&parts));
            }
            for n in [65535usize, 65536, 65537, 131071, 131072, 131073, 131072 + 511, 131072 + 65536, 262143, 262144, 262145, 262144 + 70000, 393216 + 1765] {
                for m in [Compressor::Noop, Compressor::RLE] {
                    let step = if m == Compressor::RLE { 977 } else { 1 };
                    let d: Vec<f64> = (0..n).map(|i| (i / step) as f64).collect();
                    c.case(&format!("big-{}-{:?}", n, m), true, || format!("{:?} on {} samples i / {}", m, n, step), || c01(&d, m, None, 0));
                }
            }
            for n in [10usize, 100, 127, 128, 129, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 2600, 4096, 5000] {
                for m in [Compressor::FFT, Compressor::Polynomial, Compressor::Idw, Compressor::Auto] {
                    for e in [Some(0.01f32), Some(0.05), None] {
                        if m == Compressor::Auto && e.is_none() {
                            continue;
                        }
                        c.case(&format!("align-{}-{:?}-{:?}", n, m, e), true, || format!("increasing series of {} samples, {:?}, error {:?}", n, m, e), || c01_align(n, m, e));
                    }
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                if k % 5 == 4 {
                    let np = r.range(2, 5);
                    let parts: Vec<(Vec<f64>, Compressor, Option<f32>)> = (0..np)
                        .map(|_| {
                            let (kd, n, s) = (kind(&mut r), length(&mut r, 700), r.below(1000));
                            let m = if r.chance(1, 5) { Compressor::Auto } else { *r.pick(&HAND) };
                            let e = if m == Compressor::Auto || r.chance(1, 2) { Some(errors(&mut r)) } else { None };
                            (series(kd, n, s), m, e)
                        })
                        .collect();
                    c.case(&format!("frames-{}-{}", seed, k), true, || format!("{:?}", parts.iter().map(|p| (show(&p.0), p.1, p.2)).collect::<Vec<_>>()), || c01_frames(&parts));
                    continue;
                }
                let (kd, n, s) = (kind(&mut r), length(&mut r, if k % 40 == 0 { 5000 } else { 1600 }), r.below(1000));
                let m = if r.chance(1, 4) { Compressor::Auto } else { *r.pick(&HAND) };
                let e = if bounded(m) && (m == Compressor::Auto || r.chance(4, 5)) || r.chance(1, 4) { Some(errors(&mut r)) } else { None };
                let lv = if r.chance(1, 3) { r.below(7) as usize } else { 0 };
                let mut d = series(kd, n, s);
                let inj = r.chance(1, 4);
                if inj {
                    inject(&mut d, &mut r);
                }
                let d2 = d.clone();
                c.case(&format!("s-{}-{}", seed, k), d.len() > 1, move || format!("{:?} error {:?} level {} on {} ({} samples{}): {}", m, e, lv, kd, d2.len(), if inj { ", with non-finite values" } else { "" }, show(&d2)), || c01(&d, m, e, lv));
            }
            if th {
                for (n, m) in [(131071usize, Compressor::Auto), (131072, Compressor::FFT), (131073, Compressor::Polynomial), (140000, Compressor::RLE), (262144 + 700, Compressor::Idw), (131072, Compressor::Auto)] {
                    let d = series("walk-frac", n, 3);
                    c.case(&format!("big-{}-{:?}", n, m), true, || desc("walk-frac", n, 3), || c01(&d, m, if bounded(m) { Some(0.03) } else { None }, 0));
                }
            } else {
                let d = series("walk", 131072 + 1300, 3);
                c.case("big-rle", true, || desc("walk", 131072 + 1300, 3), || c01(&d, Compressor::RLE, None, 0));
                c.case("big-noop", true, || desc("walk", 131072 + 1300, 3), || c01(&d, Compressor::Noop, None, 0));
            }
        }
        "C02" => {
            fronts(&mut c, "C02", seed);
            // smooth and mixed series of thousands of samples, where every fit is tried up to its end
            for (j, kd) in ["sine", "walk-frac", "offset-sine", "head-flat", "head-sine", "head-noise", "runs-frac", "ramp"].iter().enumerate() {
                for (i, n) in [2048usize, 2500, 4096].iter().enumerate().take(if j < 3 || th { 3 } else { 1 }) {
                    let e = [0.01f32, 0.05, 0.002, 0.03][(i + j) % 4];
                    for lv in [(i + j) % 7] {
                        let s = (i * 8 + j) as u64 + seed;
                        let d = series(kd, *n, s);
                        c.case(&format!("long-{}-{}-{}-{}", kd, n, lv, seed), true, || format!("max error {}, level {}, {}", e, lv, desc(kd, *n, s)), || c02(&d, e, lv));
                    }
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, if k % 25 == 0 { 5000 } else { 700 }), r.below(1000));
                let e = errors(&mut r);
                let lv = if r.chance(1, 2) { r.below(7) as usize } else { 0 };
                let d = series(kd, n, s);
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("max error {}, level {}, {}", e, lv, desc(kd, n, s)), || c02(&d, e, lv));
            }
        }
        "C03" => {
            // the ends of the integer widths, alone and among others
            for b in [0.0f64, 127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 4503599627370496.0, 9007199254740992.0, 9.223372036854775807e18, 1.8446744073709551615e19] {
                for x in [b, -b, b + 1.0, b - 1.0, -b - 1.0, 1.0 - b, b + 0.5, -b - 0.5] {
                    for d in [vec![x], vec![x; 700], vec![x, 1.0, 1.0, x, x, 0.0], vec![-1.0, x, x]] {
                        c.case(&format!("edge-{}-{}", x, d.len()), true, || show(&d), || c03(&d));
                    }
                }
            }
            // more runs of a value, more values and longer runs than 16 bits count
            for n in [65_535usize, 65_536, 65_537, 131_072, 140_000] {
                for m in 0..6usize {
                    let d: Vec<f64> = (0..n)
                        .map(|i| match m {
                            0 => (i % 2) as f64,
                            1 => i as f64 - 9.5,
                            2 => (i / (n - 3)) as f64,
                            5 => if i + 4000 > n { ((i / 2) % 3) as f64 - 1.0 } else { i as f64 + 0.5 },
                            3 => if i % 3 == 2 { 0.0 } else { (i / 3) as f64 + 0.5 },
                            _ => (i * 7919 % 251) as f64,
                        })
                        .collect();
                    c.case(&format!("long-{}-{}", n, m), true, || show(&d), || c03(&d));
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                // every run structure of short series
                if k < 2200 {
                    let base = [3.0, -2.5, 0.0];
                    let mut d = vec![];
                    let mut q = k;
                    let len = [1usize, 2, 3, 4, 5, 6, 7][(k % 7) as usize];
                    q /= 7;
                    for _ in 0..len {
                        d.push(base[(q % 3) as usize]);
                        q /= 3;
                    }
                    c.case(&format!("short-{}", k), len > 1, || format!("{:?}", d), || c03(&d));
                    continue;
                }
                let (kd, n, s) = (kind(&mut r), length(&mut r, 2600), r.below(1000));
                let d = series(kd, n, s);
                c.case(&format!("s-{}-{}", seed, k), n > 1, || desc(kd, n, s), || c03(&d));
            }
            let d = series("runs-int", 131072, 3);
            c.case("big", true, || desc("runs-int", 131072, 3), || c03(&d));
        }
        "C04" => {
            let mut edge: Vec<f64> = vec![];
            for b in [0.0f64, 1.0, 2.0, 3.0, 4.0, 255.0, 32767.0, 2147483647.0, 4503599627370496.0, 4503599627370495.0, 9007199254740992.0, 9.223372036854775807e18, 1e19, 1e300, 5e-324, 0.5] {
                for dl in [-1.0, -0.75, -0.5, -0.25, -1e-9, 0.0, 1e-9, 0.25, 0.49999999999999994, 0.5, 0.75, 1.0] {
                    for sg in [1.0, -1.0] {
                        edge.push(sg * (b + dl));
                    }
                }
            }
            for (i, x) in edge.iter().enumerate() {
                c.case(&format!("edge-{}", i), true, || format!("[{:?}]", x), || c04(&[*x]));
            }
            c.case("edges", true, || show(&edge), || c04(&edge));
            for n in [65_536usize, 65_537, 131_071, 131_072, 131_073, 200_000, 270_000] {
                let d: Vec<f64> = (0..n).map(|i| (i * 7919 % 100_003) as f64 / 4.0 - 9000.0).collect();
                c.case(&format!("long-{}", n), true, || show(&d), || c04(&d));
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, 2600), r.below(1000));
                let mut d = series(kd, n, s);
                if r.chance(1, 3) {
                    for x in d.iter_mut() {
                        *x = (*x).trunc() + *r.pick(&[0.5, -0.5, 0.25, 0.75, 0.0]);
                    }
                }
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("{} as {}", desc(kd, n, s), show(&d)), || c04(&d));
            }
        }
        "C05" => {
            fronts(&mut c, "C05", seed);
            // smooth and mixed series of thousands of samples, where every fit is tried up to its end
            for (j, kd) in ["sine", "walk-frac", "offset-sine", "head-flat", "head-sine", "head-noise", "runs-frac", "ramp"].iter().enumerate() {
                for (i, n) in [1500usize, 3000, 9000, 20000, 66000, 131072].iter().enumerate().take(if j >= 3 && j < 6 || th { 6 } else { 3 }) {
                    let e = [0.01f32, 0.05, 0.002, 0.03][(i + j) % 4];
                    for lv in [0usize, 1 + (i + j) % 6] {
                        let s = (i * 8 + j) as u64 + seed;
                        let d = series(kd, *n, s);
                        c.case(&format!("long-{}-{}-{}-{}", kd, n, lv, seed), true, || format!("max error {}, level {}, {}", e, lv, desc(kd, *n, s)), || c05(&d, e, lv));
                    }
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, if k % 25 == 0 { 5000 } else { 900 }), r.below(1000));
                let e = errors(&mut r);
                let lv = if r.chance(1, 4) { r.below(7) as usize } else { 0 };
                let d = series(kd, n, s);
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("max error {}, level {}, {}", e, lv, desc(kd, n, s)), || c05(&d, e, lv));
            }
        }
        "C06" => {
            let mut ls: Vec<usize> = (0..1600).collect();
            for b in [2048usize, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 393216] {
                for dl in [-513i64, -512, -511, -2, -1, 0, 1, 2, 255, 511, 512, 513, 1023, 1024, 1025, 1765] {
                    ls.push((b as i64 + dl) as usize);
                }
            }
            ls.extend([1_000_000, (1 << 20) + 1, (1 << 21) + 513, 3_000_000, (1 << 24) + 700, 20_000_003]);
            for n in ls {
                c.case(&format!("len-{}", n), n > 512, || format!("{} samples", n), || c06(n));
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let big = r.chance(1, 10);
                let n = r.range(1, if big { 500_000 } else { 20_000 }) as usize;
                c.case(&format!("len-{}", n), n > 512, || format!("{} samples", n), || c06(n));
            }
        }
        "C07" => {
            for n in [4096usize, 65_537, 131_073, 262_145, (1 << 20) + 700] {
                for j in 0..3u64 {
                    let mut r = rng(9_000 + n as u64 + j);
                    let mut d: Vec<f64> = (0..n).map(|i| (i % 7919) as f64 - 0.5).collect();
                    if j > 0 {
                        inject(&mut d, &mut r);
                    }
                    if j > 1 {
                        d[n - 1] = f64::NAN;
                        d[0] = f64::INFINITY;
                    }
                    c.case(&format!("long-{}-{}", n, j), true, || format!("{} samples, variant {}", n, j), || c07(&d));
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, 3000), r.below(1000));
                let mut d = series(kd, n, s);
                if r.chance(5, 6) {
                    inject(&mut d, &mut r);
                }
                if r.chance(1, 6) {
                    d = (0..n).map(|_| f64::from_bits(r.next())).collect();
                }
                if k == 0 {
                    d = vec![];
                }
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("{} {}", kd, show(&d)), || c07(&d));
            }
        }
        "C08" => {
            let lims = [0.0f64, 1.0, -1.0, 254.0, 255.0, 256.0, 32767.0, 32768.0, -32768.0, -32769.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9007199254740993.0, 9.3e18, -9.3e18, 1e300, 0.5, -0.0, 65535.0, 4294967295.0, 127.0, 128.0, -128.0];
            for (i, a) in lims.iter().enumerate() {
                for (j, b) in lims.iter().enumerate() {
                    c.case(&format!("lim-{}-{}", i, j), true, || format!("[{:?}, {:?}, {:?}]", a, b, a), || {
                        c08(&[*a, *b, *a])?;
                        c08(&[*a, *b])
                    });
                }
            }
            // long frames, with one sample of its own somewhere
            for (i, n) in [4095usize, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 131_073, 300_000].into_iter().enumerate() {
                for j in 0..6u64 {
                    let mut r = rng(7_000 + j * 100 + i as u64);
                    let (kd, s) = (kind(&mut r), r.below(1000));
                    let mut d = series(kd, n, s);
                    let at = [0, n - 1, n / 2, n.min(65_536) - 1, n - 2, 4096.min(n - 1)][j as usize];
                    if r.chance(3, 4) {
                        d[at] = *r.pick(&lims);
                    }
                    c.case(&format!("long-{}-{}", n, j), true, || format!("{} of {} (seed {}), sample {} is {:?}", kd, n, s, at, d[at]), || c08(&d));
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, 2600), r.below(1000));
                let mut d = series(kd, n, s);
                if r.chance(1, 4) {
                    let i = r.below(n as u64) as usize;
                    d[i] = *r.pick(&lims);
                }
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("{} {}", kd, show(&d)), || c08(&d));
            }
        }
        "C09" => {
            for v in [0u32, 1, 2, 3, 9, 255, 256, 257, 65536, 65537, 16777216, 16777217, u32::MAX, 1 << 31] {
                for k in [0usize, 1, 2, 3] {
                    c.case(&format!("stream-{}-{}", k, v), true, || format!("{} frames, version {}", k, v), || c09_stream(k, v));
                }
            }
            for k in [100usize, 254, 255, 256, 257, 300, 511, 512, 1000, 5000] {
                c.case(&format!("stream-{}-1", k), true, || format!("{} frames, version 1", k), || c09_stream(k, 1));
            }
            let ok = *b"BRRO\x01\0\0\0\x07";
            for p in 0..9 {
                for x in 0..=255u8 {
                    let mut b = ok;
                    b[p] = x;
                    c.case(&format!("header-{}-{}", p, x), true, || format!("{:?}", b), || c09_header(b));
                }
            }
            for k in 0..20_000 {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let mut b = ok;
                for _ in 0..r.range(1, 4) {
                    b[r.below(9) as usize] = if r.chance(1, 2) { r.below(3) as u8 } else { r.next() as u8 };
                }
                c.case(&format!("header-{}-{}", seed, k), true, || format!("{:?}", b), || c09_header(b));
            }
        }
        "C10" => {
            for nf in [255usize, 256, 257, 300, 700, 5000] {
                let parts: Vec<(Vec<f64>, Compressor, Option<f32>)> = (0..nf).map(|i| ((0..1 + i % 4).map(|j| (i * 5 + j) as f64).collect(), [Compressor::Noop, Compressor::RLE, Compressor::Polynomial][i % 3], None)).collect();
                c.case(&format!("many-{}", nf), true, || format!("{} frames of 1 to 4 increasing integers", nf), || c10_stream(&parts));
            }
            for n in [65535usize, 65536, 65537, 70000, 131072] {
                for m in [Compressor::Noop, Compressor::RLE, Compressor::Constant, Compressor::FFT, Compressor::Polynomial] {
                    let step = if m == Compressor::Constant { n } else { 977 };
                    let parts = vec![((0..n).map(|i| (i / step) as f64).collect::<Vec<f64>>(), m, None)];
                    c.case(&format!("big-{}-{:?}", n, m), true, || format!("{:?} on {} samples i / {}", m, n, step), || c10_stream(&parts));
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                if k % 3 == 0 {
                    let bd = *r.pick(&[Bitdepth::U8, Bitdepth::I16, Bitdepth::I32, Bitdepth::F64]);
                    let big = r.chance(1, 10);
                    let n = r.range(1, if big { 700 } else { 30 }) as usize;
                    let d = ints(bd, &mut r, n);
                    c.case(&format!("codec-{}-{}", seed, k), n > 1, || format!("{:?} {}", bd, show(&d)), || c10_codec(bd, &d));
                    continue;
                }
                let np = r.range(0, 4);
                let parts: Vec<(Vec<f64>, Compressor, Option<f32>)> = (0..np)
                    .map(|_| {
                        let (kd, n, s) = (kind(&mut r), length(&mut r, 800), r.below(1000));
                        let m = if r.chance(1, 6) { Compressor::Auto } else { *r.pick(&HAND) };
                        let e = if m == Compressor::Auto || r.chance(1, 2) { Some(errors(&mut r)) } else { None };
                        (series(kd, n, s), m, e)
                    })
                    .collect();
                c.case(&format!("stream-{}-{}", seed, k), np > 0, || format!("{:?}", parts.iter().map(|p| (show(&p.0), p.1, p.2)).collect::<Vec<_>>()), || c10_stream(&parts));
            }
            // positions and counts beyond 16 bits
            let big: Vec<(Vec<f64>, Compressor, Option<f32>)> = vec![(series("runs-frac", 131072, 1), Compressor::RLE, None), (series("noise-frac", 131072, 1), Compressor::FFT, None)];
            c.case("big", true, || "frames of 131072 samples: runs-frac with RLE, noise-frac with FFT".into(), || c10_stream(&big));
        }
        "C11" => {
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let mut kd = kind(&mut r);
                while ["huge", "tiny", "subnormal", "const-huge", "big-int", "i64-edge"].contains(&kd) {
                    kd = kind(&mut r);
                }
                let (n, s) = (length(&mut r, 1300), r.below(1000));
                let d = series(kd, n, s);
                let g = if n >= 128 { FFT::gibbs_sizing(&d).len() } else { n };
                let fs = [1, 2, 1 + r.below(g as u64 / 2 + 1) as usize, g / 2 + 1, g / 2 + 5, r.range(3, 20) as usize];
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("frequencies {:?}, {}", fs, desc(kd, n, s)), || c11(&d, &fs));
            }
            let d = series("noise-frac", 131072, 1);
            c.case("big", true, || desc("noise-frac", 131072, 1), || c11(&d, &[1, 1000, 20_000, 70_000]));
        }
        "C12" | "C13" => {
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let (kd, n, s) = (kind(&mut r), length(&mut r, if k % 30 == 0 { 5000 } else { 800 }), r.below(1000));
                let mut d = series(kd, n, s);
                let e = [*r.pick(&[0.0, 0.01, 0.5]), errors(&mut r) as f64];
                let p = prop.clone();
                let big = d.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
                if p == "C12" && k % 7 == 3 && big > 0.0 && big.is_finite() {
                    // the sums of the transform leave single precision
                    let top = *r.pick(&[3.4e38, 3.0e38, 1e38, 1e37, 1e36]);
                    for x in d.iter_mut() {
                        *x = *x / big * top;
                    }
                    c.case(&format!("top-{}-{}", seed, k), n > 1, || format!("errors {:?}, scaled to {:e}: {}", e, top, desc(kd, n, s)), || c12(&d, &e));
                    continue;
                }
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("errors {:?}, {}", e, desc(kd, n, s)), || if p == "C12" { c12(&d, &e) } else { c13(&d, &e) });
            }
            let d = series("walk-frac", if th { 131072 } else { 20000 }, 1);
            let p = prop.clone();
            c.case("big", true, || desc("walk-frac", d.len(), 1), || if p == "C12" { c12(&d, &[0.05]) } else { c13(&d, &[0.05]) });
            if prop == "C13" {
                // positions beyond 16 bits
                let d = series("walk-frac", 131072, 2);
                c.case("long", true, || format!("Polynomial alone, {}", desc("walk-frac", 131072, 2)), || c13_of(&[Compressor::Polynomial], &d, &[]));
            }
        }
        "C14" => {
            for (a, b) in [(0usize, 1usize), (1, 0), (1, 2), (2, 1), (5, 4), (4, 5), (100, 99), (3, 300)] {
                c.case(&format!("len-{}-{}", a, b), true, || format!("series of {} and {} values", a, b), || c14_len(a, b));
            }
            let small = [0.0f64, 1.0, -1.0, 2.5, -0.0, 100.0];
            for i in 0..6usize.pow(4) {
                let o = [small[i % 6], small[i / 6 % 6]];
                let g = [small[i / 36 % 6], small[i / 216]];
                c.case(&format!("pair-{}", i), true, || format!("{:?} and {:?}", o, g), || c14(&o, &g));
            }
            // long ones, also of lengths that no block divides
            for (j, n) in [4097usize, 7000, 10_007, 65_537, 131_072, 300_007].into_iter().enumerate() {
                for kd in ["walk-frac", "const", "ramp"] {
                    let o = series(kd, n, j as u64);
                    let mut r = rng(n as u64);
                    let g: Vec<f64> = o.iter().enumerate().map(|(i, x)| if i + 40 > n { x + 1e4 } else { x + (r.unit() - 0.5) * 0.1 }).collect();
                    c.case(&format!("long-{}-{}", kd, n), true, || format!("{} and {}", show(&o), show(&g)), || c14(&o, &g));
                }
            }
            for k in 0..many {
                if !c.go() {
                    break;
                }
                let mut r = rng(k);
                let mut kd = kind(&mut r);
                while ["huge", "tiny", "subnormal"].contains(&kd) {
                    kd = kind(&mut r);
                }
                let (n, s) = (length(&mut r, 900), r.below(1000));
                let o = series(kd, n, s);
                let mut g = o.clone();
                for x in g.iter_mut() {
                    match r.below(4) {
                        0 => *x += r.unit() - 0.5,
                        1 => *x *= 1.0 + (r.unit() - 0.5) * 0.2,
                        2 => *x = -*x,
                        _ => {}
                    }
                }
                c.case(&format!("s-{}-{}", seed, k), n > 1, || format!("{} and {}", show(&o), show(&g)), || c14(&o, &g));
            }
        }
        _ => {
            eprintln!("unknown property");
            std::process::exit(64);
        }
    }
    c.finish();
}
