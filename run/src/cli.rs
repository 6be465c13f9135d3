mod common;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use common::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vsri::Vsri;
use wavbrro::wavbrro::WavBrro;

type R = Result<(), String>;

fn s(x: &str) -> String {
    x.to_string()
}

/// relative path -> content (None for a directory)
fn snap(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, d: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let k = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if p.is_dir() {
                m.insert(k, None);
                walk(base, &p, m);
            } else {
                m.insert(k, Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}
fn diff(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    let mut o = vec![];
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) && !o.contains(k) {
            o.push(k.clone());
        }
    }
    o
}

fn series(r: &mut Rng, n: usize, finite: bool) -> Vec<f64> {
    let mode = r.below(6);
    let c = r.range(-50, 50) as f64;
    let mut v = c;
    (0..n)
        .map(|k| {
            if !finite && r.chance(1, 12) {
                return *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
            match mode {
                0 => c,
                1 => k as f64,
                2 => (r.unit() * 2000.0).round() / 100.0,
                3 => {
                    v += r.range(-2, 2) as f64;
                    v
                }
                4 => 40.0 + 10.0 * (k as f64 / 20.0).sin(),
                _ => r.range(0, 5) as f64 * 1e5,
            }
        })
        .collect()
}

// ------------------------------------------------------------------ what the commands should store
fn lib_bytes(data: &[f64], comp: &str, error: u8, level: usize) -> Vec<u8> {
    let mut op = OptimizerPlan::plan(data);
    let (c, bounded) = match comp {
        "noop" => (Compressor::Noop, false),
        "constant" => (Compressor::Constant, false),
        "rle" => (Compressor::RLE, false),
        "fft" => (Compressor::FFT, true),
        "polynomial" => (Compressor::Polynomial, true),
        "idw" => (Compressor::Idw, true),
        _ => (Compressor::Auto, true),
    };
    op.set_compressor(c);
    let mut cs = CompressedStream::new();
    for (c, d) in op.get_execution() {
        if bounded {
            cs.compress_chunk_bounded_with(d, *c, error as f32 / 100.0, level);
        } else {
            cs.compress_chunk_with(d, *c);
        }
    }
    cs.to_bytes()
}
fn lib_samples(bro: &[u8]) -> Vec<f64> {
    CompressedStream::from_bytes(bro).decompress()
}
fn same_bits(a: &[f64], b: &[f64]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits())
}
fn wbro_bytes(data: &[f64]) -> Vec<u8> {
    let mut w = WavBrro::new();
    for x in data {
        w.add_sample(*x);
    }
    let mut v = b"WBRO0000WBRO".to_vec();
    v.extend_from_slice(&w.to_bytes());
    v
}

const COMPS: [&str; 7] = ["auto", "noop", "fft", "constant", "polynomial", "idw", "rle"];

// ------------------------------------------------------------------ C25
struct Conf {
    comp: Option<&'static str>,
    error: Option<u8>,
    level: Option<u8>,
    verbose: bool,
}
impl Conf {
    fn gen(r: &mut Rng) -> Conf {
        Conf {
            comp: if r.chance(1, 4) { None } else { Some(*r.pick(&COMPS)) },
            error: if r.chance(1, 2) { None } else { Some(*r.pick(&[0u8, 1, 5, 20, 50])) },
            level: if r.chance(2, 3) { None } else { Some(r.below(7) as u8) },
            verbose: r.chance(1, 6),
        }
    }
    fn args(&self) -> Vec<String> {
        let mut a = vec![];
        if let Some(c) = self.comp {
            a.push(s("--compressor"));
            a.push(s(c));
        }
        if let Some(e) = self.error {
            a.push(s("--error"));
            a.push(e.to_string());
        }
        if let Some(l) = self.level {
            a.push(s("--compression-selection-sample-level"));
            a.push(l.to_string());
        }
        if self.verbose {
            a.push(s("--verbose"));
        }
        a
    }
    fn bytes(&self, data: &[f64]) -> Vec<u8> {
        lib_bytes(data, self.comp.unwrap_or("auto"), self.error.unwrap_or(3), self.level.unwrap_or(0) as usize)
    }
}

/// foreign files, some of them starting nearly like one of ours
const NEAR: [&[u8]; 9] = [
    b"just a note, not a series of samples\n1,2\n3,4\n",
    b"0123456789 foreign text of some length",
    b"BRR\0\x01\0\0\0\x01 nearly ours",
    b"brro\x01\0\0\0\x01 nearly ours",
    b" BRRO\x01\0\0\0\x01 nearly ours",
    b"WBRO0000WAVE nearly ours",
    b"RIFF0000WBRO nearly ours",
    b"WBR00000WBRO nearly ours",
    b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
];

enum What {
    Good(Vec<f64>), // a valid input with these samples
    Bad,            // to be refused
    Dir,
}

fn file_names(r: &mut Rng, k: usize, ext: &str) -> String {
    match r.below(12) {
        8 => format!(".h{}.{}", k, ext),
        9 => format!(".hidden{}", k),
        10 => format!("S{}.{}", k, ext.to_uppercase()),
        11 => format!("\u{e9}t\u{e9}-{}~.{}", k, ext),
        0 => format!("f{}", k),
        1 => format!("a b {}.{}", k, ext),
        2 => format!("x.y{}.{}", k, ext),
        3 => format!("m{}.txt", k),
        4 => format!("{}.bin", k),
        _ => format!("s{}.{}", k, ext),
    }
}

fn expect_name(name: &str, ext: &str) -> String {
    Path::new(name).with_extension(ext).to_string_lossy().into_owned()
}

fn populate(r: &mut Rng, d: &Path, un: bool, files: usize) -> Vec<(String, What)> {
    let mut out: Vec<(String, What)> = vec![];
    let (inext, outext) = if un { ("bro", "wbro") } else { ("wbro", "bro") };
    for k in 0..files {
        let name = file_names(r, k, inext);
        // no two inputs share an output, and no input is another one's output
        let o = expect_name(&name, outext);
        if name == o || out.iter().any(|(n, _)| *n == name || expect_name(n, outext) == o || *n == o || expect_name(n, outext) == name) {
            continue;
        }
        let p = d.join(&name);
        let kind = r.below(10);
        let n = *r.pick(&[1usize, 2, 3, 64, 500, 511, 513, 700, 1500]);
        let data = series(r, n, true);
        let w = match kind {
            0 => {
                std::fs::write(&p, b"").unwrap();
                What::Bad
            }
            1 => {
                let m = r.below(3) as usize + 1;
                std::fs::write(&p, &b"WBR"[..m]).unwrap();
                What::Bad
            }
            2 => {
                std::fs::write(&p, *r.pick(&NEAR)).unwrap();
                What::Bad
            }
            3 => {
                // the format of the other direction
                let b = if un { wbro_bytes(&data) } else { lib_bytes(&data, "noop", 3, 0) };
                std::fs::write(&p, b).unwrap();
                What::Bad
            }
            4 => {
                std::fs::create_dir_all(&p).unwrap();
                std::fs::write(p.join(format!("inner.{}", inext)), if un { lib_bytes(&data, "noop", 3, 0) } else { wbro_bytes(&data) }).unwrap();
                What::Dir
            }
            5 if !un => {
                let b = wbro_bytes(&data);
                let m = 12 + r.below(b.len() as u64 - 12) as usize;
                std::fs::write(&p, &b[..m]).unwrap();
                // the format has no checksum: what is left may happen to be a container (usually of nothing)
                match quiet(|| WavBrro::from_file(&p)) {
                    Ok(Ok(v)) => What::Good(v),
                    _ => What::Bad,
                }
            }
            _ => {
                if un {
                    let c = *r.pick(&["noop", "rle", "fft", "polynomial", "idw", "auto"]);
                    let b = lib_bytes(&data, c, 5, 0);
                    std::fs::write(&p, &b).unwrap();
                    What::Good(lib_samples(&b))
                } else {
                    std::fs::write(&p, wbro_bytes(&data)).unwrap();
                    What::Good(data)
                }
            }
        };
        out.push((name, w));
    }
    out
}

fn c25_dir(seed: u64, un: bool, files: usize) -> R {
    let mut r = Rng::new(seed);
    let sc = Scratch::new("dir");
    let base = sc.0.join("work");
    std::fs::create_dir_all(&base).unwrap();
    std::fs::write(sc.0.join("outside.wbro"), b"WBRO0000WBROnot to be touched").unwrap();
    let conf = Conf::gen(&mut r);
    let fs = populate(&mut r, &base, un, files);
    let outext = if un { "wbro" } else { "bro" };
    // outputs of an earlier run are replaced
    for (n, w) in &fs {
        if matches!(w, What::Good(_)) && r.chance(1, 3) {
            std::fs::write(base.join(expect_name(n, outext)), vec![b'#'; 70_000]).unwrap();
        }
    }
    let before = snap(&sc.0);
    let mut args = conf.args();
    if un {
        args.push(s("-u"));
    }
    args.push(base.to_string_lossy().into_owned());
    let (ok, er) = run("ATSC_BIN", &args, &sc.0)?;
    need!(ok, "atsc {:?} on a directory with {} files ends with an error: {}", &args[..args.len() - 1], fs.len(), er.chars().take(300).collect::<String>());
    let after = snap(&sc.0);
    let mut allowed = vec![];
    for (n, w) in &fs {
        if let What::Good(data) = w {
            let o = expect_name(n, outext);
            allowed.push(format!("work/{}", o));
            let got = std::fs::read(base.join(&o)).map_err(|e| format!("{} gives no {}: {}", n, o, e))?;
            if un {
                let v = WavBrro::from_file(&base.join(&o)).map_err(|e| format!("{}: {:?}", o, e))?;
                if let Some(k) = same_bits(&v, data) {
                    return Err(format!("{}: sample {} of {} is {:?}, expected {:?} (of {})", o, k, v.len(), v.get(k), data.get(k), data.len()));
                }
                need!(got == wbro_bytes(data), "{} holds more than the samples of {}", o, n);
            } else {
                need!(got == conf.bytes(data), "{} ({} bytes) is not what compressing the samples of {} gives ({} bytes), options {:?}", o, got.len(), n, conf.bytes(data).len(), conf.args());
            }
        }
    }
    for k in diff(&before, &after) {
        need!(allowed.contains(&k), "{} was created, changed or removed; options {:?}", k, args);
    }
    Ok(())
}

fn c25_single(seed: u64, un: bool, kind: u64) -> R {
    let mut r = Rng::new(seed);
    let sc = Scratch::new("one");
    let conf = Conf::gen(&mut r);
    let (inext, outext) = if un { ("bro", "wbro") } else { ("wbro", "bro") };
    let n = *r.pick(&[0usize, 1, 2, 3, 300, 512, 700, 1025, 2500]);
    let fin = un || r.chance(1, 2);
    let data = series(&mut r, n, fin);
    let name = match r.below(7) {
        5 => format!(".dot.{}", inext),
        6 => format!("-x{}.{}", "y".repeat(90), inext),
        0 => s("plain"),
        1 => s("two.dots.wbr"),
        2 => s("with space.dat"),
        _ => format!("data.{}", inext),
    };
    let p = sc.0.join(&name);
    std::fs::write(sc.0.join("other.wbro"), b"WBRO0000WBRO other").unwrap();
    std::fs::write(sc.0.join("other.bro"), b"BRRO other").unwrap();
    let stale = r.chance(1, 3);
    let o = expect_name(&name, outext);
    if stale {
        std::fs::write(sc.0.join(&o), vec![b'#'; 90_000]).unwrap();
    }
    let mut expected: Option<Vec<u8>> = None;
    let mut want_ok = true;
    match kind {
        0 => {
            if un {
                let c = *r.pick(&["noop", "rle", "fft", "polynomial", "idw", "auto"]);
                let b = lib_bytes(&data, c, 5, 0);
                std::fs::write(&p, &b).unwrap();
                expected = Some(wbro_bytes(&lib_samples(&b)));
            } else {
                std::fs::write(&p, wbro_bytes(&data)).unwrap();
                expected = Some(conf.bytes(&data));
            }
        }
        1 => {
            std::fs::write(&p, b"").unwrap();
            want_ok = false;
        }
        2 => {
            std::fs::write(&p, *r.pick(&NEAR)).unwrap();
            want_ok = un; // nothing to do for a file that is not compressed
        }
        _ => want_ok = false, // no such file
    }
    let before = snap(&sc.0);
    let mut args = conf.args();
    if un {
        args.push(s("-u"));
    }
    let rel = r.chance(1, 2);
    if rel && name.starts_with('-') {
        args.push(s("--"));
    }
    args.push(if rel { name.clone() } else { p.to_string_lossy().into_owned() });
    let (ok, er) = run("ATSC_BIN", &args, &sc.0)?;
    need!(ok == want_ok, "atsc {:?}: success {} expected {}: {}", args, ok, want_ok, er.chars().take(300).collect::<String>());
    need!(!er.contains("panicked"), "atsc {:?} crashes: {}", args, er.chars().take(300).collect::<String>());
    let after = snap(&sc.0);
    match &expected {
        Some(b) => {
            let got = after.get(&o).and_then(|x| x.as_ref()).ok_or(format!("atsc {:?} writes no {}; the directory has {:?}", args, o, after.keys().collect::<Vec<_>>()))?;
            need!(got == b, "atsc {:?}: {} has {} bytes, expected {} bytes ({} samples: {})", args, o, got.len(), b.len(), data.len(), show(&data[..data.len().min(20)]));
            for k in diff(&before, &after) {
                need!(k == o, "atsc {:?}: {} was created, changed or removed", args, k);
            }
        }
        None => need!(diff(&before, &after).is_empty(), "atsc {:?} on a bad input changes {:?}", args, diff(&before, &after)),
    }
    Ok(())
}

/// files of some megabytes
fn c25_big(un: bool) -> R {
    let sc = Scratch::new("big");
    let n = 700_000u64;
    let data: Vec<f64> = (0..n).map(|k| (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 24) as f64).collect();
    let conf = Conf { comp: Some("noop"), error: None, level: None, verbose: false };
    let (inext, outext) = if un { ("bro", "wbro") } else { ("wbro", "bro") };
    let (input, want) = if un { (conf.bytes(&data), wbro_bytes(&data)) } else { (wbro_bytes(&data), conf.bytes(&data)) };
    let d = sc.0.join("d");
    std::fs::create_dir_all(&d).unwrap();
    for p in [sc.0.join(format!("a.{}", inext)), d.join(format!("b.{}", inext))] {
        std::fs::write(&p, &input).unwrap();
    }
    for (arg, out) in [(format!("a.{}", inext), format!("a.{}", outext)), (s("d"), format!("d/b.{}", outext))] {
        let mut args = conf.args();
        if un {
            args.push(s("-u"));
        }
        args.push(arg);
        let before = snap(&sc.0);
        let (ok, er) = run("ATSC_BIN", &args, &sc.0)?;
        need!(ok, "atsc {:?} on a file of {} bytes: {}", args, input.len(), er.chars().take(300).collect::<String>());
        let after = snap(&sc.0);
        let got = after.get(&out).and_then(|x| x.as_ref()).ok_or(format!("atsc {:?} writes no {}", args, out))?;
        need!(*got == want, "atsc {:?} on a file of {} bytes: {} has {} bytes, expected {}", args, input.len(), out, got.len(), want.len());
        for k in diff(&before, &after) {
            need!(k == out, "atsc {:?}: {} was created, changed or removed", args, k);
        }
    }
    Ok(())
}

/// names that are not UTF-8, links to files and directories, many files, a directory named in several ways
fn c25_odd(un: bool, how: &str) -> R {
    use std::os::unix::ffi::OsStringExt;
    let sc = Scratch::new("odd");
    let conf = Conf { comp: Some("rle"), error: None, level: None, verbose: false };
    let (inext, outext) = if un { ("bro", "wbro") } else { ("wbro", "bro") };
    let d = sc.0.join("d");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::create_dir_all(sc.0.join("e")).unwrap();
    let sample = |k: usize| -> Vec<f64> { (0..3 + k % 5).map(|j| (j / 2 + k) as f64).collect() };
    let input = |k: usize| if un { conf.bytes(&sample(k)) } else { wbro_bytes(&sample(k)) };
    let result = |k: usize| if un { wbro_bytes(&sample(k)) } else { conf.bytes(&sample(k)) };
    let mut want: Vec<(PathBuf, usize)> = vec![];
    for k in 0..if how == "many" { 400 } else { 3 } {
        std::fs::write(d.join(format!("f{}.{}", k, inext)), input(k)).unwrap();
        want.push((d.join(format!("f{}.{}", k, outext)), k));
    }
    for (k, stem) in [&b"n\xff\xfe"[..], b"nl\nx", b"st*r?", b"-u", b"a\\b", b"tr ."].iter().enumerate() {
        let n = |e: &str| std::ffi::OsString::from_vec([stem, &b"."[..], e.as_bytes()].concat());
        std::fs::write(d.join(n(inext)), input(10 + k)).unwrap();
        want.push((d.join(n(outext)), 10 + k));
    }
    // a link to a file, a link to a directory and a link to nothing
    std::fs::write(sc.0.join(format!("e/real.{}", inext)), input(20)).unwrap();
    std::os::unix::fs::symlink(format!("../e/real.{}", inext), d.join(format!("ln.{}", inext))).unwrap();
    want.push((d.join(format!("ln.{}", outext)), 20));
    std::os::unix::fs::symlink("../e", d.join(format!("lndir.{}", inext))).unwrap();
    // a file that cannot be taken for either kind
    std::fs::write(d.join("note.txt"), b"nothing of ours").unwrap();
    let count = |p: &Path| std::fs::read_dir(p).unwrap().count();
    let (before, e) = (count(&d), snap(&sc.0.join("e")));
    let mut args = conf.args();
    if un {
        args.push(s("-u"));
    }
    let (arg, cwd) = match how {
        "slash" => (s("d/"), sc.0.clone()),
        "dot" => (s("."), d.clone()),
        "up" => (s("../d"), sc.0.join("e")),
        "link" => {
            std::os::unix::fs::symlink("d", sc.0.join("l")).unwrap();
            (s("l"), sc.0.clone())
        }
        _ => (d.to_string_lossy().into_owned(), sc.0.clone()),
    };
    args.push(arg);
    let (ok, er) = run("ATSC_BIN", &args, &cwd)?;
    need!(ok, "atsc {:?} in {}: {}", args, how, er.chars().take(300).collect::<String>());
    for (p, k) in &want {
        let got = std::fs::read(p).map_err(|e| format!("atsc {:?}: no {:?}: {}", args, p.file_name().unwrap(), e))?;
        need!(got == result(*k), "atsc {:?}: {:?} is not what its input alone gives", args, p.file_name().unwrap());
        let i = std::fs::read(p.with_extension(inext)).map_err(|e| format!("the input of {:?} is gone: {}", p.file_name().unwrap(), e))?;
        need!(i == input(*k), "atsc {:?}: the input of {:?} was changed", args, p.file_name().unwrap());
    }
    need!(count(&d) == before + want.len(), "atsc {:?}: {} entries in the directory, expected {}", args, count(&d), before + want.len());
    need!(snap(&sc.0.join("e")) == e, "atsc {:?} changes a directory it was not given", args);
    Ok(())
}

fn c25_csv(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let sc = Scratch::new("csv");
    let conf = Conf::gen(&mut r);
    let n = *r.pick(&[1usize, 2, 5, 300, 700]);
    let data = series(&mut r, n, true);
    let header = r.chance(2, 3);
    let custom = header && r.chance(1, 2);
    let (tf, vf) = if custom { *r.pick(&[("when", "speed"), ("", "speed"), ("when", "a b"), ("TIME", "Value"), ("t", "")]) } else { ("time", "value") };
    let mut text = String::new();
    let cols: Vec<&str> = match r.below(3) {
        0 => vec![tf, vf],
        1 => vec![vf, "x", tf],
        _ => vec!["x", tf, vf],
    };
    if header {
        text += &cols.join(",");
        text += "\n";
    }
    for (k, x) in data.iter().enumerate() {
        if header {
            let row: Vec<String> = cols.iter().map(|c| if *c == vf { format!("{:?}", x) } else if *c == tf { format!("{}", 1000 + k) } else { s("77") }).collect();
            text += &row.join(",");
        } else {
            text += &format!("{:?}", x);
        }
        text += "\n";
    }
    std::fs::write(sc.0.join("in.csv"), &text).unwrap();
    let bad = r.chance(1, 4);
    if bad {
        text += if header { if cols.len() == 2 { "1,zz\n" } else { "q,w,e\n" } } else { "abc\n" };
        std::fs::write(sc.0.join("in.csv"), &text).unwrap();
    }
    let before = snap(&sc.0);
    let mut args = conf.args();
    args.push(s("--csv"));
    if !header {
        args.push(s("--no-header"));
    }
    if custom {
        args.push(format!("--fields={},{}", tf, vf));
    }
    args.push(s("in.csv"));
    let (ok, er) = run("ATSC_BIN", &args, &sc.0)?;
    let after = snap(&sc.0);
    need!(!er.contains("panicked"), "atsc {:?} crashes: {}", args, er.chars().take(300).collect::<String>());
    if bad {
        need!(!ok, "atsc {:?} succeeds on a CSV with a value that is not a number", args);
        need!(diff(&before, &after).is_empty(), "atsc {:?} on a bad CSV changes {:?}", args, diff(&before, &after));
        return Ok(());
    }
    need!(ok, "atsc {:?} fails: {}", args, er.chars().take(300).collect::<String>());
    let want = conf.bytes(&data);
    need!(after.get("in.bro").and_then(|x| x.as_ref()) == Some(&want), "atsc {:?}: in.bro is not what compressing the values gives; CSV:\n{}", args, text.chars().take(300).collect::<String>());
    for k in diff(&before, &after) {
        need!(k == "in.bro", "atsc {:?}: {} was created, changed or removed", args, k);
    }
    Ok(())
}

fn c25_corrupt() -> R {
    // a file that starts as a compressed one but is not
    let sc = Scratch::new("cor");
    let data: Vec<f64> = (0..700).map(|k| (k % 13) as f64).collect();
    let good = lib_bytes(&data, "rle", 3, 0);
    let base = sc.0.join("w");
    std::fs::create_dir_all(&base).unwrap();
    // in whatever order the directory is walked, one good file comes after the damaged ones with any luck; alone:
    std::fs::write(base.join("bad.bro"), &good[..good.len() / 2]).unwrap();
    let (ok, er) = run("ATSC_BIN", &[s("-u"), base.to_string_lossy().into_owned()], &sc.0)?;
    need!(!base.join("bad.wbro").exists(), "an output for a damaged file");
    need!(ok && !er.contains("panicked"), "a compressed file cut in half ends the processing of its directory: {}", er.chars().take(200).collect::<String>());
    Ok(())
}

// ------------------------------------------------------------------ C24
fn c24(vals: &[u64], stem: &str) -> R {
    let sc = Scratch::new("wav");
    let f = sc.0.join(format!("{}wav", stem));
    let spec = hound::WavSpec { channels: 4, sample_rate: 8000, bits_per_sample: 16, sample_format: hound::SampleFormat::Int };
    let mut w = hound::WavWriter::create(&f, spec).map_err(|e| e.to_string())?;
    for v in vals {
        for c in 0..4 {
            w.write_sample(((v >> (16 * c)) & 0xFFFF) as u16 as i16).map_err(|e| e.to_string())?;
        }
    }
    w.finalize().map_err(|e| e.to_string())?;
    let input = std::fs::read(&f).unwrap();
    let (ok, er) = run("W2W_BIN", &[f.to_string_lossy().into_owned()], &sc.0)?;
    need!(ok, "the converter fails: {}", er.chars().take(300).collect::<String>());
    let got = WavBrro::from_file(&sc.0.join(format!("{}wbro", stem))).map_err(|e| format!("no container next to {}wav: {:?}", stem, e))?;
    let want: Vec<f64> = vals.iter().map(|v| f64::from_bits(*v)).filter(|x| !x.is_nan()).collect();
    if let Some(k) = same_bits(&got, &want) {
        return Err(format!("sample {} is {:?}, expected {:?} ({} samples, expected {})", k, got.get(k).map(|x| format!("{:#x}", x.to_bits())), want.get(k).map(|x| format!("{:#x}", x.to_bits())), got.len(), want.len()));
    }
    need!(std::fs::read(&f).unwrap() == input, "the input was changed");
    Ok(())
}

// ------------------------------------------------------------------ C23
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Vals(Vec<u64>),
    Err(&'static str),
}
fn classify(r: Result<Vec<atsc::csv::Sample>, atsc::csv::Error>) -> Want {
    use atsc::csv::Error::*;
    match r {
        Ok(v) => Want::Vals(v.iter().map(|x| x.value.to_bits()).collect()),
        Err(OpenFileFailed) => Want::Err("open"),
        Err(TimestampFieldNotFound) => Want::Err("time field"),
        Err(ValueFieldNotFound) => Want::Err("value field"),
        Err(ParsingValueFailed) => Want::Err("value"),
        Err(ParsingTimestampFailed) => Want::Err("timestamp"),
        Err(Unexpected) => Want::Err("record"),
    }
}

fn cell(r: &mut Rng, bad: bool) -> String {
    if bad {
        return s(*r.pick(&["", "abc", "1,5", "1.0.0", " 2", "2 ", "0x10", "1e", "--3", "1_000", "N/A", "é", "12;3", "#5", "# 1", "\"1\"", "'1'", "\\N", "//1", "5\n", "\t7"]));
    }
    match r.below(10) {
        0 => s(*r.pick(&["nan", "NaN", "inf", "-inf", "infinity", "+5", "-0", "0", ".5", "5.", "1e300", "1e-320", "4.9406564584124654e-324", "1e400", "0.1", "9007199254740993", "123456789012345678901234567890", "2.2250738585072011e-308", "1E5"])),
        1 => format!("{:?}", f64::from_bits(r.next())).replace("NaN", "nan"),
        2 => format!("{}", r.range(-1_000_000, 1_000_000)),
        3 => format!("{:.3}", r.unit() * 1000.0),
        4 => format!("{:.17}", r.unit()),
        5 => format!("{:e}", r.unit() * 1e20),
        _ => format!("{}", (r.unit() * 1000.0).round() / 10.0),
    }
}
/// what another column may hold
fn other(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return cell(r, false);
    }
    s(*r.pick(&["#note", "# 1,2", "say \"hi\"", "a\",b", "\",\"", "\"", "x\\", "\\\"", "it's", "'", "a,b", "two\nlines", " lead", "trail ", ";", "\t", "//", "", "%", "\u{e9}"]))
}

fn quote(c: &str, r: &mut Rng) -> String {
    if c.contains(',') || c.contains('"') || c.contains('\n') || r.chance(1, 10) {
        format!("\"{}\"", c.replace('"', "\"\""))
    } else {
        s(c)
    }
}

/// a CSV with a header, and what reading time/value from it must give
fn csv_headers(r: &mut Rng) -> (Vec<u8>, &'static str, &'static str, Want) {
    let (tf, vf) = *r.pick(&[("time", "value"), ("timestamp", "value"), ("t", "v"), ("a b", "c,d"), ("value", "time")]);
    let mut cols: Vec<String> = vec![];
    for k in 0..r.below(4) {
        cols.push(format!("col{}", k));
    }
    let lost = r.below(12);
    if lost != 0 {
        let at = r.below(cols.len() as u64 + 1) as usize;
        cols.insert(at, s(tf));
    }
    if lost != 1 {
        let at = r.below(cols.len() as u64 + 1) as usize;
        cols.insert(at, s(vf));
    }
    if lost == 2 {
        cols.push(s(vf)); // a second column of that name: the first one is meant
    }
    if r.chance(1, 4) {
        // columns of other names, most of them before the ones meant
        for _ in 0..r.range(1, 3) {
            let b = if r.chance(1, 2) { tf } else { vf };
            let o = match r.below(8) {
                0 => format!(" {}", b),
                1 => format!("{} ", b),
                2 => b.to_uppercase(),
                3 => format!("{}s", b),
                4 => format!("my{}", b),
                5 => s(&b[..b.len() - 1]),
                6 => format!("'{}'", b),
                _ => s(""),
            };
            if o != tf && o != vf {
                let at = if r.chance(3, 4) { 0 } else { cols.len() };
                cols.insert(at, o);
            }
        }
    }
    if lost == 3 {
        cols.push(vf.to_uppercase()); // other names
        cols.push(format!("{} ", tf));
    }
    let n = *r.pick(&[0usize, 1, 2, 3, 10, 40]);
    let mut text = cols.iter().map(|c| quote(c, r)).collect::<Vec<_>>().join(",") + "\n";
    let mut want = None;
    let ti = cols.iter().position(|c| c == tf);
    let vi = cols.iter().position(|c| c == vf);
    if cols.is_empty() {
        text = s("\n");
    }
    if ti.is_none() {
        want = Some(Want::Err("time field"));
    } else if vi.is_none() {
        want = Some(Want::Err("value field"));
    }
    let fault = r.below(5);
    let fault_at = r.below(n.max(1) as u64) as usize;
    let mut vals = vec![];
    let mut bytes = text.into_bytes();
    let nl: &str = if r.chance(1, 5) { "\r\n" } else { "\n" };
    for k in 0..n {
        let mut row: Vec<String> = cols.iter().enumerate().map(|(j, c)| if Some(j) == ti && c == tf { format!("{}", 1000 + k) } else if Some(j) == vi { cell(r, false) } else { other(r) }).collect();
        if k == fault_at && want.is_none() {
            match fault {
                0 => {
                    let b = cell(r, true);
                    let single = row.len() == 1;
                    row[vi.unwrap()] = b.clone();
                    if single && b.is_empty() {
                        row[vi.unwrap()] = s("zz");
                    }
                    want = Some(Want::Err("value"));
                }
                1 if row.len() > 1 => {
                    row.pop();
                    want = Some(Want::Err("record"));
                }
                2 => {
                    row.push(s("9"));
                    want = Some(Want::Err("record"));
                }
                3 if vi.is_some() => {
                    // text that is not UTF-8
                    let line: Vec<String> = row.iter().map(|c| quote(c, r)).collect();
                    let mut l = line.join(",").into_bytes();
                    l[0] = 0xFF;
                    bytes.extend_from_slice(&l);
                    bytes.extend_from_slice(nl.as_bytes());
                    want = Some(Want::Err("record"));
                    continue;
                }
                _ => {}
            }
        }
        if want.is_none() {
            vals.push(row[vi.unwrap()].parse::<f64>().unwrap().to_bits());
        }
        let line: Vec<String> = row.iter().map(|c| quote(c, r)).collect();
        bytes.extend_from_slice(line.join(",").as_bytes());
        if k + 1 < n || r.chance(3, 4) {
            bytes.extend_from_slice(nl.as_bytes());
        }
    }
    (bytes, tf, vf, want.unwrap_or(Want::Vals(vals)))
}

/// without a header: the first field of every record
fn csv_plain(r: &mut Rng) -> (Vec<u8>, Want) {
    let n = *r.pick(&[0usize, 1, 2, 3, 10, 60]);
    let width = r.below(3) as usize + 1;
    let fault = r.below(4);
    let at = r.below(n.max(1) as u64) as usize;
    let mut want = None;
    let mut vals = vec![];
    let mut t = String::new();
    for k in 0..n {
        let mut row: Vec<String> = (0..width).map(|j| if j == 0 { cell(r, false) } else { other(r) }).collect();
        if k == at && want.is_none() {
            match fault {
                0 => {
                    row[0] = cell(r, true);
                    if width == 1 && row[0].is_empty() {
                        row[0] = s("zz");
                    }
                    want = Some(Want::Err("value"));
                }
                1 if n > 1 && k > 0 => {
                    row.push(s("7"));
                    want = Some(Want::Err("record"));
                }
                _ => {}
            }
        }
        if want.is_none() {
            vals.push(row[0].parse::<f64>().unwrap().to_bits());
        }
        t += &row.iter().map(|c| quote(c, r)).collect::<Vec<_>>().join(",");
        if k + 1 < n || r.chance(3, 4) {
            t += "\n";
        }
    }
    (t.into_bytes(), want.unwrap_or(Want::Vals(vals)))
}

fn c23_lib(bytes: &[u8], fields: Option<(&str, &str)>, want: &Want) -> R {
    let sc = Scratch::new("rd");
    let f = sc.0.join("in.csv");
    std::fs::write(&f, bytes).unwrap();
    let got = classify(match fields {
        Some((t, v)) => atsc::csv::read_samples_with_headers(&f, t, v),
        None => atsc::csv::read_samples(&f),
    });
    let eq = match (&got, want) {
        (Want::Vals(a), Want::Vals(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan())),
        (a, b) => a == b,
    };
    let brief = |w: &Want| match w {
        Want::Vals(v) if v.len() > 1000 => format!("{} values", v.len()),
        w => format!("{:?}", w),
    };
    need!(eq, "reading gives {}, expected {}", brief(&got), brief(want));
    Ok(())
}

/// more records than 16 bits count, or than there are seconds in a day
fn c23_long(n: usize) -> R {
    let vals: Vec<f64> = (0..n).map(|k| (k * 7919 % 100_003) as f64 / 8.0 - 500.0).collect();
    let want = Want::Vals(vals.iter().map(|x| x.to_bits()).collect());
    let rows = |f: &dyn Fn(usize, f64) -> String| vals.iter().enumerate().map(|(k, x)| f(k, *x)).collect::<String>();
    c23_lib(rows(&|_, x| format!("{}\n", x)).as_bytes(), None, &want)?;
    c23_lib(rows(&|k, x| format!("{},{}\r\n", x, k)).as_bytes(), None, &want)?;
    c23_lib(("time,value\n".to_string() + &rows(&|k, x| format!("{},{}\n", k, x))).as_bytes(), Some(("time", "value")), &want)?;
    c23_lib(("value\n".to_string() + &rows(&|_, x| format!("{}\n", x))).as_bytes(), Some(("value", "value")), &want)?;
    // a bad one after all of them
    c23_lib((rows(&|_, x| format!("{}\n", x)) + "zz\n").as_bytes(), None, &Want::Err("value"))?;
    c23_lib(("time,value\n".to_string() + &rows(&|k, x| format!("{},{}\n", k, x)) + "7,zz\n").as_bytes(), Some(("time", "value")), &Want::Err("value"))?;
    // the command
    let sc = Scratch::new("cl");
    std::fs::write(sc.0.join("in.csv"), "timestamp,value\n".to_string() + &rows(&|k, x| format!("{},{}\n", k * 600, x))).unwrap();
    let (ok, er) = run("CSVC_BIN", &[s("--no-compression"), s("--output-wavbrro"), s("in.csv")], &sc.0)?;
    need!(ok, "csv-compressor fails on {} records: {}", n, er.chars().take(300).collect::<String>());
    let got = WavBrro::from_file(&sc.0.join("in.wavbro")).map_err(|e| format!("{:?}", e))?;
    if let Some(k) = same_bits(&got, &vals) {
        return Err(format!("csv-compressor: sample {} read is {:?}, expected {:?} ({} samples, expected {})", k, got.get(k), vals.get(k), got.len(), vals.len()));
    }
    Ok(())
}

/// the reader and writer of csv-compressor, through its command
fn c23_cmd(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let sc = Scratch::new("cc");
    let n = *r.pick(&[0usize, 1, 2, 5, 30, 300]);
    let mut vals = vec![];
    let fault = r.below(8);
    let at = r.below(n.max(1) as u64) as usize;
    let mut bad = false;
    // the columns, in any order, among others
    let mut cols: Vec<&str> = ["a", "b c", "Value", "values"][..r.below(4) as usize].to_vec();
    for c in ["timestamp", "value"] {
        let i = r.below(cols.len() as u64 + 1) as usize;
        cols.insert(i, c);
    }
    if fault == 3 && n > 0 {
        let lost = if r.chance(1, 2) { "timestamp" } else { "value" };
        let i = cols.iter().position(|c| *c == lost).unwrap();
        if r.chance(1, 2) { cols[i] = "other"; } else { cols.remove(i); }
        bad = true;
    }
    let mut t = (cols.join(",") + "\n").into_bytes();
    if fault == 4 {
        // a name that is not UTF-8
        t.pop();
        t.extend_from_slice(b",x\xff\n");
        cols.push("x");
        bad = true;
    }
    for k in 0..n {
        let mut v = cell(&mut r, false);
        let mut ts = format!("{}", 1000 * k);
        let mut extra = "";
        if k == at {
            match fault {
                0 => {
                    v = cell(&mut r, true);
                    bad = true;
                }
                1 => {
                    ts = s(*r.pick(&["12:30", "#5", "1e3", "5 ", "x"]));
                    bad = true;
                }
                2 => {
                    extra = ",5";
                    bad = true;
                }
                _ => {}
            }
        }
        if !bad {
            let x: f64 = v.parse().unwrap();
            if x.is_finite() {
                vals.push(x);
            }
        }
        let row: Vec<String> = cols.iter().map(|c| match *c { "timestamp" => ts.clone(), "value" => quote(&v, &mut r), _ => { let o = other(&mut r); quote(&o, &mut r) } }).collect();
        t.extend_from_slice(format!("{}{}\n", row.join(","), extra).as_bytes());
    }
    std::fs::write(sc.0.join("in.csv"), &t).unwrap();
    let t = String::from_utf8_lossy(&t).to_string();
    let (ok, er) = run("CSVC_BIN", &[s("--no-compression"), s("--output-wavbrro"), s("in.csv")], &sc.0)?;
    if bad {
        need!(!ok, "csv-compressor reads a malformed CSV:\n{}", t.chars().take(400).collect::<String>());
        need!(!sc.0.join("in.wavbro").exists(), "csv-compressor writes samples of a malformed CSV");
        return Ok(());
    }
    need!(ok, "csv-compressor fails on\n{}\n{}", t.chars().take(400).collect::<String>(), er.chars().take(300).collect::<String>());
    let got = WavBrro::from_file(&sc.0.join("in.wavbro")).map_err(|e| format!("{:?}", e))?;
    if let Some(k) = same_bits(&got, &vals) {
        return Err(format!("sample {} read is {:?}, expected {:?} ({} samples, expected {})\n{}", k, got.get(k), vals.get(k), got.len(), vals.len(), t.chars().take(400).collect::<String>()));
    }
    Ok(())
}

/// writing: any values stored without loss are written so that they read back the same
fn c23_write(seed: u64, long: usize) -> R {
    let mut r = Rng::new(seed);
    let sc = Scratch::new("wr");
    let n = if long > 0 { long } else { *r.pick(&[1usize, 2, 3, 40, 400]) };
    let vals: Vec<f64> = (0..n)
        .map(|_| loop {
            let x = match if long > 0 { 1 } else { r.below(3) } {
                0 => f64::from_bits(r.next()),
                1 => r.range(-100, 100) as f64,
                _ => r.unit() * 1e3,
            };
            if x.is_finite() {
                break x;
            }
        })
        .collect();
    let times: Vec<i32> = {
        let mut y = r.range(0, 100) as i32;
        (0..n)
            .map(|_| {
                y += if long > 0 { 1 } else { r.range(0, 9) as i32 };
                y
            })
            .collect()
    };
    let bro = lib_bytes(&vals, "rle", 3, 0);
    let stored = lib_samples(&bro);
    std::fs::write(sc.0.join("a.bro"), &bro).unwrap();
    let mut ix = Vsri::new("a");
    for t in &times {
        ix.update_for_point(*t).map_err(|e| format!("{:?}", e))?;
    }
    ix.flush_to(&sc.0.join("a.vsri")).map_err(|e| e.to_string())?;
    std::fs::write(sc.0.join("a.csv"), vec![b'#'; 50_000]).unwrap();
    let (ok, er) = run("CSVC_BIN", &[s("-u"), s("a.bro")], &sc.0)?;
    need!(ok, "csv-compressor -u fails: {}", er.chars().take(300).collect::<String>());
    check_csv(&sc.0.join("a.csv"), &times, &stored)
}

fn check_csv(f: &Path, times: &[i32], vals: &[f64]) -> R {
    let text = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
    let mut lines = text.lines();
    if times.is_empty() {
        need!(text.trim().is_empty() || text.trim() == "timestamp,value", "a CSV for no samples has {:?}", text.chars().take(200).collect::<String>());
        return Ok(());
    }
    need!(lines.next() == Some("timestamp,value"), "the first line of the CSV is {:?}", text.lines().next());
    let rows: Vec<&str> = lines.collect();
    need!(rows.len() == times.len(), "{} rows for {} samples", rows.len(), times.len());
    for (k, l) in rows.iter().enumerate() {
        let (a, b) = l.split_once(',').ok_or(format!("row {} is {:?}", k, l))?;
        need!(a.parse::<i64>() == Ok(times[k] as i64), "row {} has time {}, expected {}", k, a, times[k]);
        let x: f64 = b.parse().map_err(|_| format!("row {} has value {:?}", k, b))?;
        need!(x.to_bits() == vals[k].to_bits() || (x == vals[k] && x == 0.0), "row {} has value {}, expected {:?}", k, b, vals[k]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
fn day_samples(r: &mut Rng, n: usize, back: bool) -> Vec<(i64, f64)> {
    let day = *r.pick(&[0i64, 1, 365, 19_000, 20_000, 11_016, -1, -40, -800_000]);
    let mut ms: i64 = if r.chance(1, 3) { 0 } else { r.range(0, 40_000_000) };
    let style = r.below(5);
    let finite = r.chance(1, 2);
    let vals = series(r, n, finite);
    let mut out = vec![];
    for k in 0..n {
        let v = if k % 5 == 2 && r.chance(1, 4) { -0.0 } else { vals[k] };
        if k > 0 {
            ms += match style {
                0 => 1000,
                1 => 60_000,
                2 => r.range(0, 3) * 500,
                3 => *r.pick(&[0, 1, 999, 1000, 1001, 15_000, 15_000, 15_000, 600_000]),
                _ => if k % 7 == 3 { 100_000 } else { 15_000 },
            };
        }
        if ms >= 86_400_000 {
            break;
        }
        out.push((day * 86_400_000 + ms, v));
    }
    if back && out.len() > 2 {
        let k = 1 + r.below(out.len() as u64 - 1) as usize;
        let t = out[k].0 - out[k].0.rem_euclid(1000) - 5_000;
        if t >= day * 86_400_000 {
            out[k].0 = t;
        }
    }
    out
}

fn c22(sam: &[(i64, f64)], comp: &str, seed: u64) -> R {
    let sc = Scratch::new("met");
    let name = ["in", "in", "in", "in.v1", "2024.01.02", "a b", "\u{e9}t\u{e9}", "in.csv", "_"][seed as usize % 9];
    let input = format!("{}.csv", name);
    let mut t = s("timestamp,value\n");
    for (a, v) in sam {
        t += &format!("{},{:?}\n", a, v);
    }
    std::fs::write(sc.0.join(&input), &t).unwrap();
    let keep: Vec<(i32, f64)> = sam.iter().filter(|x| x.1.is_finite()).map(|x| (x.0.div_euclid(1000).rem_euclid(86400) as i32, x.1)).collect();
    let sorted = keep.windows(2).all(|w| w[0].0 <= w[1].0);
    let (ok, er) = run("CSVC_BIN", &[s("--no-compression"), s("--output-wavbrro"), s("--output-vsri"), input.clone()], &sc.0)?;
    if !sorted {
        need!(!ok, "samples that go back in time are accepted");
        need!(!sc.0.join(format!("{}.wavbro", name)).exists() && !sc.0.join(format!("{}.vsri", name)).exists(), "output for samples that go back in time");
        return Ok(());
    }
    need!(ok, "csv-compressor refuses samples in time order: {}", er.chars().take(300).collect::<String>());
    let vals = WavBrro::from_file(&sc.0.join(format!("{}.wavbro", name))).map_err(|e| format!("{:?}", e))?;
    let wv: Vec<f64> = keep.iter().map(|x| x.1).collect();
    if let Some(k) = same_bits(&vals, &wv) {
        return Err(format!("value {} of the metric is {:?}, expected {:?} ({} values, expected {})", k, vals.get(k), wv.get(k), vals.len(), wv.len()));
    }
    let ix = Vsri::load(sc.0.join(format!("{}.vsri", name)).to_str().unwrap()).map_err(|e| format!("{:?}", e))?;
    let wt: Vec<i32> = keep.iter().map(|x| x.0).collect();
    need!(ix.get_all_timestamps() == wt, "times of day of the metric {} expected {}", show(&ix.get_all_timestamps()), show(&wt));
    // compression and back, next to the input or elsewhere
    let mut r = Rng::new(seed);
    let elsewhere = r.chance(1, 2);
    let mut args = vec![s("--compressor"), s(comp), s("--output-vsri"), input.clone()];
    if r.chance(1, 2) {
        args.push(s("-e"));
        args.push(s(*r.pick(&["0", "1", "5", "30"])));
    }
    if elsewhere {
        std::fs::create_dir_all(sc.0.join("o")).unwrap();
        args.push(s("-o"));
        args.push(s(match seed % 5 { 1 => "o/res.2024", 2 => "o/re.s.x", _ => "o/res" }));
    }
    let stem = if elsewhere { if seed % 5 == 2 { "o/re.s" } else { "o/res" } } else { name };
    let (ok, er) = run("CSVC_BIN", &args, &sc.0)?;
    need!(ok, "csv-compressor {:?} fails: {}", args, er.chars().take(300).collect::<String>());
    let bro = std::fs::read(sc.0.join(format!("{}.bro", stem))).map_err(|e| format!("{}.bro: {}", stem, e))?;
    let dec = lib_samples(&bro);
    need!(dec.len() == keep.len(), "{} values are stored for {} finite samples", dec.len(), keep.len());
    let mut args = vec![s("-u"), format!("{}.bro", stem)];
    let stem = match r.below(3) {
        0 => {
            std::fs::create_dir_all(sc.0.join("p")).unwrap();
            args.push(s("-o"));
            args.push(s(if seed % 2 == 0 { "p/back" } else { "p/ba.ck.x" }));
            if seed % 2 == 0 { "p/back" } else { "p/ba.ck" }
        }
        _ => stem,
    };
    let (ok, er) = run("CSVC_BIN", &args, &sc.0)?;
    need!(ok, "csv-compressor {:?} fails: {}", args, er.chars().take(300).collect::<String>());
    check_csv(&sc.0.join(format!("{}.csv", stem)), &wt, &dec)?;
    let w = WavBrro::from_file(&sc.0.join(format!("{}.wbro", stem))).map_err(|e| format!("{:?}", e))?;
    need!(same_bits(&w, &dec).is_none(), "the samples written are not the decoded ones");
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    let prop = c.prop.clone();
    let seed = c.seed;
    match prop.as_str() {
        "C22" => {
            c.rule("CSVs of samples within one day (regular, gaps, repeated seconds, milliseconds, non-finite values, going back in time) through the csv-compressor command: index and values written, then compression with every compressor and decompression; non-trivial: at least 3 finite samples");
            let comps = ["auto", "noop", "fft", "polynomial", "idw"];
            // nearly a day of seconds: positions beyond 16 bits, values beyond one container chunk
            for (name, n, gap) in [("long-seconds", 70_000i64, 1000i64), ("long-gaps", 66_000, 1300)] {
                let mut r = Rng::new(seed ^ 0x4c4f);
                let sam: Vec<(i64, f64)> = (0..n).map(|i| (86_400_000 * 19_000 + i * gap, r.range(-50, 50) as f64)).collect();
                if gap == 1000 || c.thorough {
                    c.case(name, true, || format!("{} samples every {} ms, compressor noop", n, gap), || c22(&sam, "noop", 1));
                }
            }
            let n = if c.thorough { 20_000 } else { 1500 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let mut r = Rng::new(seed.wrapping_mul(313) ^ k);
                let len = *r.pick(&[0usize, 1, 2, 3, 5, 20, 100, 600, 1100]);
                let sam = day_samples(&mut r, len, k % 6 == 5);
                let comp = comps[k as usize % comps.len()];
                let nt = sam.iter().filter(|x| x.1.is_finite()).count() >= 3;
                c.case(&format!("gen-{}-{}", seed, k), nt, || format!("compressor {}, samples (ms, value) {}", comp, show(&sam)), || c22(&sam, comp, k));
            }
        }
        "C23" => {
            c.rule("generated CSVs (column order, extra and duplicate columns, quoting, CRLF, no last newline, ragged records, text that is not a number or not UTF-8, empty and missing files) read by the library readers and by the csv-compressor command; values written by csv-compressor; non-trivial: at least one record");
            c.case("missing", true, || "missing file".into(), || {
                let sc = Scratch::new("mis");
                let f = sc.0.join("no.csv");
                need!(classify(atsc::csv::read_samples(&f)) == Want::Err("open"), "read_samples of a missing file");
                need!(classify(atsc::csv::read_samples_with_headers(&f, "time", "value")) == Want::Err("open"), "read_samples_with_headers of a missing file");
                Ok(())
            });
            c.case("empty", false, || "empty file".into(), || {
                c23_lib(b"", Some(("time", "value")), &Want::Err("time field"))?;
                c23_lib(b"", None, &Want::Vals(vec![]))
            });
            for n in [66_000usize, 100_000] {
                c.case(&format!("rd-long-{}", n), true, || format!("{} records", n), || c23_long(n));
            }
            for n in [66_000usize, 140_000] {
                c.case(&format!("wr-long-{}", n), true, || format!("{} samples", n), || c23_write(7, n));
            }
            let n = if c.thorough { 200_000 } else { 4_000 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let mut r = Rng::new(seed.wrapping_mul(127) ^ k);
                match k % 12 {
                    10 => c.case(&format!("cmd-{}-{}", seed, k), true, || format!("generated CSV {}", k), || c23_cmd(seed.wrapping_mul(127) ^ k)),
                    11 => c.case(&format!("wr-{}-{}", seed, k), true, || format!("generated samples {}", k), || c23_write(seed.wrapping_mul(127) ^ k, 0)),
                    j if j % 3 == 0 => {
                        let (b, w) = csv_plain(&mut r);
                        c.case(&format!("plain-{}-{}", seed, k), !b.is_empty(), || String::from_utf8_lossy(&b).into_owned(), || c23_lib(&b, None, &w));
                    }
                    _ => {
                        let (b, tf, vf, w) = csv_headers(&mut r);
                        c.case(&format!("head-{}-{}", seed, k), b.len() > 12, || format!("fields {} and {} of {}", tf, vf, String::from_utf8_lossy(&b)), || c23_lib(&b, Some((tf, vf)), &w));
                    }
                }
            }
        }
        "C24" => {
            c.rule("WAV files of four 16-bit channels holding chosen and generated 64-bit patterns (NaN payloads, infinities, signs, single bits), also in long files; through the wav2wbro command; non-trivial: at least 2 frames");
            let single: Vec<u64> = (0..64).map(|b| 1u64 << b).collect();
            let specials: Vec<u64> = [0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324, -2.5].iter().map(|x: &f64| x.to_bits()).chain([0x7FF0_0000_0000_0001, 0xFFF8_0000_0000_0000, u64::MAX, 0x0001_0002_0003_0004, 0x8000_7FFF_8000_7FFF, 0xFFFF_0000_FFFF_0000, 0x7FEF_FFFF_FFFF_FFFF]).collect();
            let long: Vec<u64> = (0..140_000u64).map(|k| (k as f64 * 0.5 - 3.0).to_bits()).collect();
            // the same value over and over
            let zeros: Vec<u64> = (0..30_000u64).map(|k| if k % 8192 == 8191 { 1 << 63 } else { 0 }).collect();
            let sevens = vec![7.0f64.to_bits(); 12_000];
            for (name, v) in [("long", &long), ("zeros", &zeros), ("sevens", &sevens), ("bits", &single), ("specials", &specials), ("none", &vec![]), ("one", &vec![0x4028_0000_0000_0001u64])] {
                c.case(name, v.len() > 1, || show(v), || c24(v, "in."));
            }
            let n = if c.thorough { 20_000 } else { 1500 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let mut r = Rng::new(seed.wrapping_mul(53) ^ k);
                let len = *r.pick(&[1usize, 2, 5, 100, 2047, 2048, 2049, 5000]);
                let v: Vec<u64> = (0..len).map(|_| match r.below(4) {
                    0 => specials[r.below(specials.len() as u64) as usize],
                    1 => (r.range(-1000, 1000) as f64).to_bits(),
                    2 => r.next() & 0xFFFF_FFFF,
                    _ => r.next(),
                }).collect();
                let stem = *r.pick(&["in.", "in.", "a b.", "two.wav.", "x.wavwav.", "wavwav.", "plain", "tail.wav", ".", "\u{e9}."]);
                c.case(&format!("gen-{}-{}", seed, k), len > 1, || format!("{}wav with {}", stem, show(&v)), || c24(&v, stem));
            }
        }
        "C25" => {
            c.rule("the atsc command on single files (valid, empty, foreign, missing; odd names; stale outputs; relative and absolute paths; every compressor, error and sampling level), on CSVs (column order, --fields, --no-header, malformed), and on directories mixing valid inputs, foreign, empty, truncated files, files of the other direction and sub-directories; every file of the scratch directory is compared before and after; non-trivial: a case with a valid input");
            c.case("corrupt-bro", true, || "a directory with a compressed file cut in half".into(), c25_corrupt);
            for un in [false, true] {
                c.case(&format!("big-{}", un), true, || format!("700000 samples of 40 bits, compressor noop, uncompress {}", un), || c25_big(un));
                for how in ["plain", "many", "slash", "dot", "up", "link"] {
                    c.case(&format!("odd-{}-{}", how, un), true, || format!("a directory with odd names and links, named in the way {:?}, uncompress {}", how, un), || c25_odd(un, how));
                }
            }
            let n = if c.thorough { 40_000 } else { 3000 };
            for k in 0..n {
                if !c.go() {
                    break;
                }
                let sd = seed.wrapping_mul(911) ^ k;
                let un = k % 2 == 1;
                match (k / 2) % 6 {
                    0 | 1 => c.case(&format!("one-{}-{}", seed, k), true, || format!("a valid file, uncompress {}, case seed {}", un, sd), || c25_single(sd, un, 0)),
                    2 => c.case(&format!("bad-{}-{}", seed, k), false, || format!("a bad or missing file, uncompress {}, case seed {}", un, sd), || c25_single(sd, un, 1 + k / 12 % 3)),
                    3 => c.case(&format!("csv-{}-{}", seed, k), true, || format!("a CSV, case seed {}", sd), || c25_csv(sd)),
                    _ => {
                        let files = 1 + (k as usize / 12) % 12;
                        c.case(&format!("dir-{}-{}", seed, k), true, || format!("a directory of up to {} files, uncompress {}, case seed {}", files, un, sd), || c25_dir(sd, un, files))
                    }
                }
            }
        }
        _ => {
            eprintln!("unknown property");
            std::process::exit(64);
        }
    }
    c.finish();
}
