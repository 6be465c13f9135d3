"""Planted bugs: what is changed, what shows it."""
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed("rle-tolerant-runs", "C03",
     [("atsc/src/compressor/rle.rs", "if i + 1 >= len || data[i + 1] != value {", "if i + 1 >= len || (data[i + 1] - value).abs() > f64::EPSILON {")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    let v: Vec<f64> = (0..600).map(|i| (i / 3) as f64 * 1e-18 + 1e-17).collect();
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(&v, Compressor::RLE);
    let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
    assert_eq!(v, out);
}
''', "neighbouring samples that differ by less than 2.2e-16, so values of tiny magnitude", "runs are detected with an absolute tolerance, different tiny values become one run and RLE is not lossless")

seed("noop-floor-half", "C04",
     [("atsc/src/compressor/noop.rs", "out_vec.push(element.round() as i64);", "out_vec.push((element + 0.5).floor() as i64);")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    let v = vec![1.25, -2.5, -7.5, 0.49999999999999994, 4503599627370497.0, 3.0];
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(&v, Compressor::Noop);
    let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
    assert_eq!(out, vec![1.0, -3.0, -8.0, 0.0, 4503599627370497.0, 3.0]);
}
''', "a negative sample with fraction exactly one half, the double just below 0.5, or an odd integer above 2^52", "rounding adds a half and takes the floor: ties of negative values go the wrong way and big odd integers change")

seed("oversized-last-frame", "C06",
     [("atsc/src/optimizer/mod.rs", "chunk_sizes.push(MAX_FRAME_SIZE);\n                    len -= MAX_FRAME_SIZE;", "// A short tail is not worth a frame of its own, it goes with the last full one\n                    let size = if len - MAX_FRAME_SIZE <= MIN_FRAME_SIZE { len } else { MAX_FRAME_SIZE };\n                    chunk_sizes.push(size);\n                    len -= size;")],
     '''use atsc::optimizer::OptimizerPlan;
fn main() {
    for n in [131072usize, 131073, 131500, 262144 + 40, 5000] {
        let v: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let p = OptimizerPlan::plan(&v);
        assert_eq!(p.chunk_sizes.iter().sum::<usize>(), n);
        assert!(p.chunk_sizes.iter().all(|s| *s > 0 && *s <= 131072), "{:?}", p.chunk_sizes);
    }
}
''', "a cleaned series whose length is at most 512 above a multiple of 131072", "a short tail is added to the last full frame, which then is larger than the maximum frame size")

seed("clean-drops-subnormal", "C07",
     [("atsc/src/optimizer/mod.rs", ".filter(|x| !(x.is_nan() || x.is_infinite()))", ".filter(|x| x.is_normal() || **x == 0.0)")],
     '''use atsc::optimizer::OptimizerPlan;
fn main() {
    let v = vec![1.0, 5e-324, f64::NAN, -0.0, -1e-310, f64::INFINITY, 2.0];
    let c = OptimizerPlan::clean_data(&v);
    let want = [1.0f64, 5e-324, -0.0, -1e-310, 2.0];
    assert_eq!(c.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), want.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
}
''', "a subnormal sample (magnitude below 2.2e-308)", "cleaning drops finite subnormal values")

seed("stats-low-i32", "C08",
     [("atsc/src/optimizer/utils.rs", "_ if min_int >= i32::MIN.into() => 32,", "_ if min_int >= -i64::from(u32::MAX) => 32,")],
     '''use atsc::{compressor::Compressor, data::CompressedStream, optimizer::utils::DataStats};
fn main() {
    let v = vec![1.0, -3000000000.0, 7.0, 7.0, 12.0];
    let s = DataStats::new(&v);
    assert_eq!(format!("{:?}", s.bitdepth), "F64");
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(&v, Compressor::RLE);
    assert_eq!(CompressedStream::from_bytes(&cs.to_bytes()).decompress(), v);
}
''', "a frame of integers whose minimum lies between -4294967295 and -2147483649", "32 bits are chosen for a frame with a value below the 32-bit range, which is saturated")

seed("header-short-version", "C09",
     [("atsc/src/header.rs", "let version = u32::from_le_bytes([data[4], data[5], data[6], data[7]]);", "let version = u16::from_le_bytes([data[4], data[5]]) as u32;")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(&[1.0; 600], Compressor::Constant);
    let good = cs.to_bytes();
    assert_eq!(CompressedStream::from_bytes(&good).decompress().len(), 600);
    for (i, b) in [(4, 2u8), (5, 1), (6, 1), (7, 128)] {
        let mut bad = good.clone();
        bad[i] = b;
        std::panic::set_hook(Box::new(|_| {}));
        assert!(std::panic::catch_unwind(move || CompressedStream::from_bytes(&bad)).is_err(), "version with byte {} = {} accepted", i, b);
    }
}
''', "a stream whose version differs from a supported one only in its two high bytes (65537, for example)", "only the low half of the version is read, newer versions are not refused")

seed("vsri-refused-moves-max", "C15",
     [("vsri/src/lib.rs", "        if y < self.max_ts {\n", "        let last_ts = std::mem::replace(&mut self.max_ts, y);\n        if y < last_ts {\n"),
      ("vsri/src/lib.rs", "                self.max_ts, y\n            );\n            return Err", "                last_ts, y\n            );\n            return Err"),
      ("vsri/src/lib.rs", "        self.max_ts = y;\n        let segment_count", "        let segment_count")],
     '''use vsri::Vsri;
fn main() {
    let mut v = Vsri::new("x");
    for y in [10, 20, 30, 40] { v.update_for_point(y).unwrap(); }
    assert!(v.update_for_point(5).is_err());
    assert_eq!(v.max(), 40);
    assert!(v.update_for_point(25).is_err());
    assert_eq!(v.max(), 40, "a refused point changed the index");
    assert!(v.update_for_point(30).is_err());
}
''', "a refused point, followed by a look at the maximum or by another late point", "a refused point lowers the maximum timestamp, and a later point in the past is accepted", deps=["vsri"])

seed("vsri-time-at-boundary", "C16",
     [("vsri/src/lib.rs", "if x >= segment[1] && x < (segment[1] + segment[3]) {", "if x >= segment[1] && (x < segment[1] + segment[3] || (segment[3] > 64 && x == segment[1] + segment[3])) {")],
     '''use vsri::Vsri;
fn main() {
    let mut v = Vsri::new("x");
    let mut ts = vec![];
    for i in 0..70 { ts.push(i * 5); }
    for i in 0..10 { ts.push(1000 + i * 7); }
    for y in &ts { v.update_for_point(*y).unwrap(); }
    for (i, y) in ts.iter().enumerate() { assert_eq!(v.get_time(i as i32), Some(*y), "sample {}", i); }
}
''', "a segment of more than 64 samples followed by another one, and a lookup of the first sample of the latter", "the first sample after a long segment gets the time the long segment would continue with", deps=["vsri"])

seed("vsri-window-touching", "C18",
     [("vsri/src/lib.rs", "&& (time_segment[0] > previous_seg_end && time_segment[1] < y0)", "&& (time_segment[0] > previous_seg_end && time_segment[1] <= y0 && sample_rate > 0)")],
     '''use vsri::Vsri;
fn main() {
    let mut v = Vsri::new("x");
    for y in [0, 5, 10, 15, 100, 110, 120] { v.update_for_point(y).unwrap(); }
    assert!(v.is_empty([20, 99]));
    assert!(!v.is_empty([20, 100]), "the window contains the sample at 100");
    assert!(!v.is_empty([100, 100]));
}
''', "a window that starts after a segment and ends exactly at the first sample of the next one", "a window that touches the start of a later segment is reported empty", deps=["vsri"])

seed("vsri-flush-keeps-tail", "C19",
     [("vsri/src/lib.rs", "let file = File::create(path)?;", "let file = std::fs::OpenOptions::new().write(true).create(true).open(path)?;")],
     '''use vsri::Vsri;
fn main() {
    let p = std::env::temp_dir().join("index.vsri");
    let mut a = Vsri::new("x");
    for y in [1, 5, 100, 150, 1000, 1007, 5000, 5001] { a.update_for_point(y).unwrap(); }
    a.flush_to(&p).unwrap();
    let mut b = Vsri::new("x");
    for y in [1, 5, 9] { b.update_for_point(y).unwrap(); }
    b.flush_to(&p).unwrap();
    let r = std::panic::catch_unwind(|| Vsri::load(p.to_str().unwrap()).unwrap().get_all_timestamps());
    assert_eq!(r.expect("the index file can not be read"), vec![1, 5, 9]);
}
''', "an index written over the file of a longer one", "the file is not truncated, the tail of the previous index stays in it", deps=["vsri"])

seed("wbro-chunk-overfull", "C20",
     [("wavbrro/src/wavbrro.rs", "Some(c) => c.len() >= MAX_CHUNK_SIZE,", "Some(c) => c.len() > MAX_CHUNK_SIZE,")],
     '''use wavbrro::wavbrro::WavBrro;
fn main() {
    let mut w = WavBrro::new();
    for i in 0..5000 { w.add_sample(i as f64); }
    let sizes: Vec<usize> = w.chunks.iter().map(|c| c.len()).collect();
    assert_eq!(sizes, vec![2048, 2048, 904]);
}
''', "more than 2048 samples added one by one", "chunks hold 2049 samples instead of 2048", deps=["wavbrro"])

seed("wbro-half-signature", "C21",
     [("wavbrro/src/read.rs", 'Ok(&header[0..4] == b"WBRO" && &header[8..12] == b"WBRO")', 'Ok(header.starts_with(b"WBRO"))')],
     '''use wavbrro::wavbrro::WavBrro;
fn main() {
    let p = std::env::temp_dir().join("a.wbro");
    WavBrro::to_file_with_data(&p, &[1.0, 2.0, 3.0]);
    assert_eq!(WavBrro::from_file(&p).unwrap(), vec![1.0, 2.0, 3.0]);
    let mut b = std::fs::read(&p).unwrap();
    b[8..12].copy_from_slice(b"RIFF");
    std::fs::write(&p, &b).unwrap();
    assert!(WavBrro::from_file(&p).is_err(), "a file without the whole signature was read");
}
''', "a file that starts with WBRO but lacks the second half of the signature, with a body that is a valid container", "the second half of the signature is not checked, a foreign file is accepted", deps=["wavbrro"])

seed("day-seconds-mirrored", "C26",
     [("vsri/src/lib.rs", "let datetime = DateTime::<Utc>::from_timestamp(timestamp_sec, 0).unwrap();", "let datetime = DateTime::<Utc>::from_timestamp(timestamp_sec.abs(), 0).unwrap();")],
     '''fn main() {
    for t in [0i64, 86399, 86400, 1717452813, -1, -86400, -86399, -1000000007] {
        assert_eq!(vsri::day_elapsed_seconds(t) as i64, t.rem_euclid(86400), "{}", t);
    }
}
''', "a timestamp before 1970 that is not midnight", "the time of day of a moment before 1970 is counted backwards from midnight", deps=["vsri"])

seed("repeated-frame-reused", "C01",
     [("atsc/src/data.rs", """        self.data_frames
            .iter()
            .flat_map(|f| f.decompress())
            .collect()""", """        // A flat series repeats the same frame, no need to decompress it again
        let mut out: Vec<f64> = Vec::new();
        let mut last: Option<(&CompressorFrame, Vec<f64>)> = None;
        for f in &self.data_frames {
            let samples = match last.take() {
                Some((p, samples)) if p.same_content(f) => samples,
                _ => f.decompress(),
            };
            out.extend_from_slice(&samples);
            last = Some((f, samples));
        }
        out"""),
      ("atsc/src/frame/mod.rs", """    /// Decompresses a frame and returns the resulting data array
""", """    /// Checks if the other frame has the same compressed content
    pub fn same_content(&self, other: &CompressorFrame) -> bool {
        self.compressor == other.compressor && self.data == other.data
    }

    /// Decompresses a frame and returns the resulting data array
""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream, optimizer::OptimizerPlan};
fn main() {
    let v = vec![7.0; 1300];
    let plan = OptimizerPlan::plan(&v);
    let mut cs = CompressedStream::new();
    for (_, d) in plan.get_execution() {
        cs.compress_chunk_bounded_with(d, Compressor::Auto, 0.05, 0);
    }
    let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
    assert_eq!(out.len(), v.len());
    assert_eq!(out, v);
}
''', "two neighbouring frames with the same encoding but different numbers of samples, as a flat series whose length is no power of two gives", "decompression reuses the samples of the frame before when the encoded bytes are the same, and takes its number of samples too")

seed("error-in-thousandths", "C02",
     [("atsc/src/frame/mod.rs", """                    .into_iter()
                    .filter(|(result, _)| result.error <= max_error as f64)
                    .min_by_key(""", """                    .into_iter()
                    .filter(|(result, _)| {
                        // The compressors converge up to 0.1%
                        (result.error * 1000.0) as i64 <= (max_error * 1000.0) as i64
                    })
                    .min_by_key(""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream, utils::error::calculate_error};
fn main() {
    let mut x = 12345u64;
    let mut r = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as f64 / (1u64 << 24) as f64 };
    let mut worst = 0;
    for n in [200usize, 320, 512] {
        for k in 0..40 {
            let v: Vec<f64> = (0..n).map(|i| 50.0 + 10.0 * ((i as f64) / (3.0 + k as f64)).sin() + 4.0 * r()).collect();
            for e in [0.01f32, 0.02, 0.03, 0.05] {
                let mut cs = CompressedStream::new();
                cs.compress_chunk_bounded_with(&v, Compressor::Auto, e, 0);
                let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
                if calculate_error(&v, &out) > e as f64 { worst += 1; }
            }
        }
    }
    assert_eq!(worst, 0);
}
''', "a frame whose smallest encoding has an error above the maximum by less than 0.1%", "the errors are compared in thousandths when the best compressor is chosen, so the maximum is exceeded by up to 0.1%")

seed("no-rle-for-fractions", "C05",
     [("atsc/src/frame/mod.rs", """                .map(|compressor| {
                    (
                        compressor.get_compress_bounded_results(data, max_error as f64),
                        *compressor,
                    )
                })
                .collect();""", """                // Runs of equal samples are only worth a try with integers
                .filter(|compressor| !(stats.fractional && **compressor == Compressor::RLE))
                .map(|compressor| {
                    (
                        compressor.get_compress_bounded_results(data, max_error as f64),
                        *compressor,
                    )
                })
                .collect();""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    // three levels that last long
    let v: Vec<f64> = (0..900).map(|i| if i < 301 { 0.7 } else if i < 655 { 1e3 + 0.1 } else { -44.25 }).collect();
    let size = |c| { let mut cs = CompressedStream::new(); cs.compress_chunk_bounded_with(&v, c, 0.01, 0); cs.to_bytes().len() };
    assert!(size(Compressor::Auto) <= size(Compressor::RLE), "{} {}", size(Compressor::Auto), size(Compressor::RLE));
}
''', "a frame of fractional samples in few long runs of equal values", "RLE is not tried for frames with fractional samples, so a larger encoding is stored")

seed("level-through-f32", "C10",
     [("atsc/src/compressor/constant.rs", """                const_i32 as f64
""", """                const_i32 as f32 as f64
""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    for level in [70_000_001.0f64, -16_777_217.0, 2147483647.0, 1e6, 300.0, -5.0, 0.5] {
        let v = vec![level; 300];
        let mut cs = CompressedStream::new();
        cs.compress_chunk_with(&v, Compressor::Constant);
        let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
        assert_eq!(out, v);
    }
}
''', "a constant frame of an integer above 2^24 in magnitude", "the level stored as i32 is decoded through single precision")

seed("norm-without-root", "C11",
     [("atsc/src/compressor/fft.rs", "c1.norm() == c2.norm()", "c1.norm_sqr() == c2.norm_sqr()"),
      ("atsc/src/compressor/fft.rs", "c1.norm() > c2.norm()", "c1.norm_sqr() > c2.norm_sqr()")],
     '''use atsc::compressor::fft::FFT;
fn main() {
    for scale in [1.0f64, 1e25] {
        let n = 64;
        let v: Vec<f64> = (0..n).map(|i| { let t = i as f64 * std::f64::consts::TAU / n as f64; scale * ((t * 3.0).sin() + 20.0 * (t * 17.0).sin() + 3.0 * (t * 9.0).cos() + 10.0 * (t * 23.0).cos()) }).collect();
        let min = v.iter().cloned().fold(f64::MAX, f64::min);
        let max = v.iter().cloned().fold(f64::MIN, f64::max);
        let mut c = FFT::new(n, min, max);
        c.compress_hinted(&v, 2);
        assert!(c.frequencies.len() <= 2);
        let out = c.to_data(n);
        for i in 0..n {
            let t = i as f64 * std::f64::consts::TAU / n as f64;
            let e = 20.0 * (t * 17.0).sin() + 10.0 * (t * 23.0).cos();
            assert!((out[i] / scale - e).abs() < 0.1, "scale {} at {}: {} for {}", scale, i, out[i] / scale, e);
        }
    }
}
''', "samples beyond 1e19 or below 1e-19 in magnitude, whose squares leave single precision", "the magnitudes of the frequencies are compared by their squares, which overflow or vanish, so the frequencies kept are not the largest")

seed("idw-not-limited", "C12",
     [("atsc/src/compressor/polynomial.rs", """                round_and_limit_f64(
                    idw.evaluate(f as f64),
                    self.min,
                    self.max,
                    DECIMAL_PRECISION,
                )
            })""", """                // A weighted mean never leaves the range of its points
                round_f64(idw.evaluate(f as f64), DECIMAL_PRECISION)
            })""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    let v: Vec<f64> = (0..400).map(|i| 0.1234543 + ((i * 37) % 11) as f64 * 0.0009876).collect();
    let min = v.iter().cloned().fold(f64::MAX, f64::min);
    let max = v.iter().cloned().fold(f64::MIN, f64::max);
    let mut cs = CompressedStream::new();
    cs.compress_chunk_with(&v, Compressor::Idw);
    let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
    assert!(out.iter().all(|x| *x >= min && *x <= max), "{} {} {:?}", min, max, out);
}
''', "an IDW frame whose extreme is kept and has more than five decimals, rounded outwards", "IDW output is rounded but not limited to the range of the frame")

seed("tiny-range-is-flat", "C13",
     [("atsc/src/compressor/polynomial.rs", """        if self.max == self.min {
            debug!("Same max and min, faster decompression!");""", """        if self.max - self.min < f64::EPSILON {
            debug!("Same max and min, faster decompression!");""")],
     '''use atsc::{compressor::Compressor, data::CompressedStream};
fn main() {
    let v: Vec<f64> = (0..50).map(|i| 1e-17 + ((i * 7) % 13) as f64 * 3e-18).collect();
    let mut cs = CompressedStream::new();
    cs.compress_chunk_bounded_with(&v, Compressor::Polynomial, 0.0, 0);
    let out = CompressedStream::from_bytes(&cs.to_bytes()).decompress();
    assert_eq!(out, v);
}
''', "a frame whose samples differ by less than 2.2e-16 and of which every sample is kept", "a frame with a tiny range is decoded as a constant, although all its samples are stored")

seed("mse-expanded", "C14",
     [("atsc/src/utils/error.rs", "let squared_error: f64 = (0..min_length).map(|i| (vec1[i] - vec2[i]).powi(2)).sum();", "// (a - b)^2, without the intermediate differences\n    let squared_error: f64 = (0..min_length)\n        .map(|i| vec1[i] * vec1[i] - 2.0 * vec1[i] * vec2[i] + vec2[i] * vec2[i])\n        .sum();")],
     '''use atsc::utils::error::error_mse;
fn main() {
    assert_eq!(error_mse(&[1.0, 2.0, 3.0], &[1.5, 2.0, 2.0]), 1.25 / 3.0);
    let a = [123456789.25, -987654321.5, 4e12];
    let b = [123456789.0, -987654321.0, 4e12 + 0.5];
    let e = error_mse(&a, &b);
    assert!((e - (0.0625 + 0.25 + 0.25) / 3.0).abs() < 1e-9, "{}", e);
}
''', "large samples with a small error", "the square is expanded and cancels, the mean squared error of large samples is noise (even negative)")

seed("previous-at-segment-start", "C17",
     [("vsri/src/lib.rs", """            if y < y0 {
                // Return the last sample of the previous segment
""", """            if y <= y0 && first_sample > 0 {
                // Return the last sample of the previous segment
""")],
     '''use vsri::Vsri;
fn main() {
    let mut v = Vsri::new("x");
    let t = [10, 20, 30, 100, 107, 114, 300];
    for y in t { v.update_for_point(y).unwrap(); }
    for y in 0..320 {
        let want = t.iter().rposition(|x| *x <= y).map(|i| i as i32);
        assert_eq!(v.get_previous_sample(y), want, "at {}", y);
    }
}
''', "a time that is exactly the start of a later segment", "the previous sample of the first time of a segment is the last one of the segment before", deps=["vsri"])

seed("metric-index-i16", "C22",
     [("csv-compressor/src/metric.rs", "let ts = self.vsri.get_time(i as i32);", "let ts = self.vsri.get_time((i as u16).into());")],
     '''use std::io::Write;
use std::process::Command;
fn main() {
    let repo = std::env::var("REPO").unwrap();
    let bin = format!("{}/debug/csv-compressor", std::env::var("CARGO_TARGET_DIR").unwrap());
    let _ = &repo;
    let n = 70_000i64;
    let mut f = std::fs::File::create("a.csv").unwrap();
    writeln!(f, "timestamp,value").unwrap();
    for i in 0..n { writeln!(f, "{},{}", (86400 * 3 + i) * 1000, i % 7).unwrap(); }
    drop(f);
    assert!(Command::new(&bin).args(["--output-vsri", "--compressor", "noop", "a.csv"]).status().unwrap().success());
    assert!(Command::new(&bin).args(["-u", "a.bro"]).status().unwrap().success());
    let s = std::fs::read_to_string("a.csv").unwrap();
    let l: Vec<&str> = s.lines().skip(1).collect();
    assert_eq!(l.len(), n as usize);
    for i in 0..n as usize { assert_eq!(l[i], format!("{},{}.0", i, i % 7)); }
}
''', "a metric of more than 65536 samples", "the sample number is cut to 16 bits, later samples get the times of earlier ones", deps=[], bins=[("csv-compressor", "csv-compressor")])

seed("csv-skips-blank-values", "C23",
     [("atsc/src/csv.rs", """            .get(value_idx)
            .unwrap()
            .parse()
            .map_err(|_| Error::ParsingValueFailed)?;

        samples.push(Sample {""", """            .get(value_idx)
            .unwrap()
            .trim()
            .trim_start_matches(\'+\')
            .parse()
            .map_err(|_| Error::ParsingValueFailed)?;

        samples.push(Sample {""")],
     '''use atsc::csv::{read_samples_with_headers, Error};
fn main() {
    for (v, ok) in [("1.5", true), ("+2", true), ("++2", false), (" 3", false), ("+-3", false), ("nan", true)] {
        std::fs::write("a.csv", format!("time,value\\n1,7\\n2,{}\\n", v)).unwrap();
        let r = read_samples_with_headers(std::path::Path::new("a.csv"), "time", "value");
        assert_eq!(r.is_ok(), ok, "{}", v);
        if !ok { assert!(matches!(r, Err(Error::ParsingValueFailed))); }
    }
}
''', "a value with more than one sign or blanks around it", "the signs and blanks before a value are dropped, so that texts that are no numbers are read as some", )

seed("wav-drops-infinite", "C24",
     [("tools/src/bin/wav2wbro.rs", "        if !x.is_nan() {\n            wb.add_sample(*x)", "        if x.is_finite() {\n            wb.add_sample(*x)")],
     '''use std::process::Command;
fn main() {
    let bin = format!("{}/debug/wav2wbro", std::env::var("CARGO_TARGET_DIR").unwrap());
    let vals = [1.5f64, f64::INFINITY, -2.0, f64::NEG_INFINITY, f64::NAN, 3.25];
    let mut data = Vec::new();
    for v in vals { data.extend_from_slice(&v.to_bits().to_le_bytes()); }
    let mut f: Vec<u8> = Vec::new();
    f.extend(b"RIFF"); f.extend((36 + data.len() as u32).to_le_bytes()); f.extend(b"WAVEfmt ");
    f.extend(16u32.to_le_bytes()); f.extend(1u16.to_le_bytes()); f.extend(4u16.to_le_bytes());
    f.extend(8000u32.to_le_bytes()); f.extend(64000u32.to_le_bytes()); f.extend(8u16.to_le_bytes()); f.extend(16u16.to_le_bytes());
    f.extend(b"data"); f.extend((data.len() as u32).to_le_bytes()); f.extend(&data);
    std::fs::write("a.wav", f).unwrap();
    assert!(Command::new(&bin).arg("a.wav").status().unwrap().success());
    let got = wavbrro::wavbrro::WavBrro::from_file(std::path::Path::new("a.wbro")).unwrap();
    assert_eq!(got, vec![1.5, f64::INFINITY, -2.0, f64::NEG_INFINITY, 3.25]);
}
''', "a WAV file with an infinite value", "infinite values are dropped with the NaN", deps=["wavbrro"], bins=[("tools", "wav2wbro")])

seed("name-cut-at-first-dot", "C25",
     [("atsc/src/main.rs", """        file_path.set_extension("bro");
        std::fs::write(file_path, compressed_data)?;
    }
    Ok(())""", """        let name = file_path.file_name().unwrap_or_default().to_string_lossy();
        let stem = name.split('.').next().unwrap_or_default();
        let bro_path = file_path.with_file_name(format!("{stem}.bro"));
        std::fs::write(bro_path, compressed_data)?;
    }
    Ok(())""")],
     '''use std::process::Command;
fn main() {
    let bin = format!("{}/debug/atsc", std::env::var("CARGO_TARGET_DIR").unwrap());
    std::fs::create_dir("d").unwrap();
    for (n, x) in [("cpu.0.wbro", 1.0), ("cpu.1.wbro", 2.0), ("mem.wbro", 3.0)] {
        wavbrro::wavbrro::WavBrro::to_file_with_data(&std::path::Path::new("d").join(n), &[x; 20]);
    }
    assert!(Command::new(&bin).arg("d").status().unwrap().success());
    let mut l: Vec<String> = std::fs::read_dir("d").unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    l.sort();
    assert_eq!(l, ["cpu.0.bro", "cpu.0.wbro", "cpu.1.bro", "cpu.1.wbro", "mem.bro", "mem.wbro"]);
}
''', "file names with more than one dot", "the name of the result ends at the first dot of the input\'s, so results overwrite one another", deps=["wavbrro"], bins=[("atsc", "atsc")])
