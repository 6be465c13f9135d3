mod common;
use common::*;
use vsri::Vsri;

/// the accepted timestamps, and the runs of equally spaced ones (what a segment is)
struct Model {
    t: Vec<i32>,
    first: Vec<i32>,       // first sample of each segment
    segs: Vec<(i32, i32)>, // first and last timestamp of each segment
    cnt: i32,              // samples in the last segment
    step: i64,
}
impl Model {
    fn new() -> Model {
        Model { t: vec![], first: vec![], segs: vec![], cnt: 0, step: 0 }
    }
    // the timestamps are in order
    fn nth(&self, i: usize) -> Option<i32> {
        if i < self.t.len() {
            Some(i as i32)
        } else {
            None
        }
    }
    fn first_from(&self, y: i32) -> Option<i32> {
        self.nth(self.t.partition_point(|&t| t < y))
    }
    fn first_above(&self, y: i32) -> Option<i32> {
        self.nth(self.t.partition_point(|&t| t <= y))
    }
    fn last_upto(&self, y: i32) -> Option<i32> {
        self.t.partition_point(|&t| t <= y).checked_sub(1).map(|i| i as i32)
    }
    fn at(&self, y: i32) -> Option<i32> {
        self.first_from(y).filter(|&i| self.t[i as usize] == y)
    }
    fn push(&mut self, y: i32) -> bool {
        if y < self.t.last().copied().unwrap_or(0) {
            return false;
        }
        self.t.push(y);
        if let Some(l) = self.segs.last_mut() {
            if self.cnt == 1 {
                self.step = y as i64 - l.1 as i64;
                l.1 = y;
                self.cnt = 2;
                return true;
            }
            if y as i64 == l.1 as i64 + self.step {
                l.1 = y;
                self.cnt += 1;
                return true;
            }
        }
        self.segs.push((y, y));
        self.first.push(self.t.len() as i32 - 1);
        self.cnt = 1;
        true
    }
}

fn build(pts: &[i32]) -> Result<(Vsri, Model), String> {
    let mut v = Vsri::new("idx");
    let mut m = Model::new();
    for (k, &p) in pts.iter().enumerate() {
        let refusal = p < m.t.last().copied().unwrap_or(0);
        let before: Vec<i32> = if refusal || m.t.len() < 100 { v.get_all_timestamps() } else { vec![] };
        let (bmin, bmax) = (v.min(), v.max());
        let r = v.update_for_point(p);
        let want = m.push(p);
        need!(r.is_ok() == want, "point {} ({}): accepted={} expected {}", k, p, r.is_ok(), want);
        if !want {
            need!(v.get_all_timestamps() == before && v.min() == bmin && v.max() == bmax, "refused point {} ({}) changed the index", k, p);
        }
    }
    Ok((v, m))
}

/// index without the checks of C15 (for the lookups)
fn built(pts: &[i32]) -> Result<(Vsri, Model), String> {
    let mut v = Vsri::new("idx");
    let mut m = Model::new();
    for &p in pts {
        let r = v.update_for_point(p);
        m.push(p);
        let _ = r;
    }
    Ok((v, m))
}

fn c15(pts: &[i32]) -> Result<(), String> {
    let (v, m) = build(pts)?;
    need!(v.get_sample_count() as usize == m.t.len(), "sample count {} expected {}", v.get_sample_count(), m.t.len());
    if !m.t.is_empty() {
        need!(v.min() == m.t[0], "min {} expected {}", v.min(), m.t[0]);
        need!(v.max() == *m.t.last().unwrap(), "max {} expected {}", v.max(), m.t.last().unwrap());
    }
    need!(v.get_all_timestamps() == m.t, "timestamps {} expected {}", show(&v.get_all_timestamps()), show(&m.t));
    Ok(())
}

fn times(m: &Model, extra: &[i32]) -> Vec<i32> {
    let mut q: Vec<i32> = vec![-1, 0, 1, i32::MIN, i32::MAX];
    for &t in m.t.iter().take(40).chain(m.t.iter().rev().take(40)) {
        for d in [-3i64, -2, -1, 0, 1, 2, 3] {
            let x = t as i64 + d;
            if x >= i32::MIN as i64 && x <= i32::MAX as i64 {
                q.push(x as i32);
            }
        }
    }
    for w in m.t.windows(2).take(60) {
        q.push(w[0] + (w[1] - w[0]) / 2);
    }
    for &(a, b) in &m.segs {
        q.push(a);
        q.push(b);
        q.push(b.saturating_add(1));
        q.push(a.saturating_sub(1));
    }
    q.extend_from_slice(extra);
    q.sort();
    q.dedup();
    q
}

fn c16(pts: &[i32], extra: &[i32], dir: &std::path::Path) -> Result<(), String> {
    let (v, m) = built(pts)?;
    let n = m.t.len() as i32;
    need!(v.get_sample_count() == n, "sample count {} expected {}", v.get_sample_count(), n);
    let mut xs: Vec<i32> = (-3..=n.min(300) + 3).collect();
    xs.extend([n - 2, n - 1, n, n + 1, i32::MIN, i32::MAX]);
    for &f in &m.first {
        xs.extend([f - 2, f - 1, f, f + 1]);
    }
    for x in xs {
        let want = if x >= 0 && x < n { Some(m.t[x as usize]) } else { None };
        let got = v.get_time(x);
        need!(got == want, "time of sample {} is {:?}, expected {:?}", x, got, want);
    }
    for y in times(&m, extra) {
        let want = m.at(y);
        let got = v.get_sample(y);
        need!(got == want, "sample at time {} is {:?}, expected {:?}", y, got, want);
    }
    if m.t.len() % 2 == 1 && (m.t.len() as i64 + v.max() as i64) % 7 == 0 {
        // the same in the file of the index
        let f = dir.join("i.vsri");
        v.flush_to(&f).map_err(|e| e.to_string())?;
        let mut q = vec![v.min(), v.max(), v.min().saturating_sub(1), v.max().saturating_add(1)];
        q.extend(m.segs.iter().take(3).flat_map(|s| [s.0, s.1, s.1.saturating_add(1)]));
        for y in q {
            let want = m.at(y);
            let got = Vsri::get_sample_location(f.to_str().unwrap(), y);
            need!(got == want, "sample location of {} is {:?}, expected {:?}", y, got, want);
        }
    }
    need!(v.get_all_timestamps() == m.t, "timestamps {} expected {}", show(&v.get_all_timestamps()), show(&m.t));
    Ok(())
}

fn c17(pts: &[i32], extra: &[i32]) -> Result<(), String> {
    let (v, m) = built(pts)?;
    for y in times(&m, extra) {
        let next = m.first_above(y);
        let prev = m.last_upto(y);
        let ton = m.first_from(y);
        need!(v.get_next_sample(y) == next, "next sample of {} is {:?}, expected {:?}", y, v.get_next_sample(y), next);
        need!(v.get_previous_sample(y) == prev, "previous sample of {} is {:?}, expected {:?}", y, v.get_previous_sample(y), prev);
        need!(v.get_this_or_next(y) == ton, "this or next of {} is {:?}, expected {:?}", y, v.get_this_or_next(y), ton);
        let g = v.get_this_or_previous(y);
        let ok = match (g, prev) {
            (None, None) => true,
            (Some(i), Some(p)) => i >= 0 && (i as usize) < m.t.len() && m.t[i as usize] == m.t[p as usize],
            _ => false,
        };
        need!(ok, "this or previous of {} is {:?}, expected a sample with the time of {:?}", y, g, prev);
    }
    Ok(())
}

fn c18(pts: &[i32], extra: &[i32]) -> Result<(), String> {
    let (v, m) = built(pts)?;
    let q = times(&m, extra);
    let mut n = 0;
    'o: for (i, &a) in q.iter().enumerate() {
        for &b in &q[i..] {
            n += 1;
            if n > 4000 {
                break 'o;
            }
            let want = m.segs.iter().all(|&(s, e)| b < s || a > e);
            need!(v.is_empty([a, b]) == want, "window [{}, {}] is empty: {}, expected {}", a, b, v.is_empty([a, b]), want);
        }
    }
    // long indexes: windows around far segments too
    for k in 0..m.segs.len() {
        let (s, e) = m.segs[k];
        for (a, b) in [(s, e), (e, e), (s.saturating_sub(1), s.saturating_sub(1)), (e.saturating_add(1), e.saturating_add(1)), (s.saturating_sub(2), s), (e, e.saturating_add(2)), (e.saturating_add(1), e.saturating_add(2))] {
            if a <= b {
                let want = m.segs.iter().all(|&(s, e)| b < s || a > e);
                need!(v.is_empty([a, b]) == want, "window [{}, {}] is empty: {}, expected {}", a, b, v.is_empty([a, b]), want);
            }
        }
    }
    Ok(())
}

fn c19(pts: &[i32], more: &[i32], dir: &std::path::Path) -> Result<(), String> {
    let (mut v, mut m) = built(pts)?;
    let f = dir.join("index.vsri");
    let fs = f.to_str().unwrap();
    // something longer was there before
    std::fs::write(&f, "9\n9\n9,9,9,9\n".repeat(200)).map_err(|e| e.to_string())?;
    v.flush_to(&f).map_err(|e| e.to_string())?;
    let mut w = Vsri::load(fs).map_err(|e| format!("load: {}", e))?;
    let eq = |v: &Vsri, w: &Vsri, m: &Model, when: &str| -> Result<(), String> {
        need!(w.get_all_timestamps() == v.get_all_timestamps(), "{}: timestamps {} expected {}", when, show(&w.get_all_timestamps()), show(&v.get_all_timestamps()));
        need!(w.min() == v.min() && w.max() == v.max(), "{}: range {}..{} expected {}..{}", when, w.min(), w.max(), v.min(), v.max());
        need!(w.get_sample_count() == v.get_sample_count(), "{}: count {} expected {}", when, w.get_sample_count(), v.get_sample_count());
        for y in times(m, &[]) {
            need!(w.get_sample(y) == v.get_sample(y) && w.get_next_sample(y) == v.get_next_sample(y) && w.get_previous_sample(y) == v.get_previous_sample(y), "{}: lookups of {} differ", when, y);
            need!(w.is_empty([y, y]) == v.is_empty([y, y]), "{}: window at {} differs", when, y);
        }
        Ok(())
    };
    eq(&v, &w, &m, "after loading")?;
    for y in times(&m, &[]).into_iter().take(60) {
        let want = m.at(y);
        let got = Vsri::get_sample_location(fs, y);
        need!(got == want, "sample location of {} is {:?}, expected {:?}", y, got, want);
    }
    for &p in more {
        let (a, b) = (v.update_for_point(p), w.update_for_point(p));
        m.push(p);
        need!(a.is_ok() == b.is_ok(), "update with {} after loading: {} expected {}", p, b.is_ok(), a.is_ok());
    }
    eq(&v, &w, &m, "after loading and updating")?;
    // the default place of the file
    let base = dir.join("named");
    let mut x = Vsri::new(base.to_str().unwrap());
    for &p in pts {
        let _ = x.update_for_point(p);
    }
    x.flush().map_err(|e| e.to_string())?;
    let y = Vsri::load(base.with_extension("vsri").to_str().unwrap()).map_err(|e| format!("load after flush: {}", e))?;
    need!(y.get_all_timestamps() == x.get_all_timestamps() && y.min() == x.min() && y.max() == x.max(), "flush and load: timestamps {} expected {}", show(&y.get_all_timestamps()), show(&x.get_all_timestamps()));
    need!(Vsri::load(dir.join("nothing.vsri").to_str().unwrap()).is_err() && Vsri::get_sample_location(dir.join("nothing.vsri").to_str().unwrap(), 1).is_none(), "a missing index loads");
    Ok(())
}

fn gen(r: &mut Rng, big: bool) -> Vec<i32> {
    let n = if big { r.range(1, 400) } else { r.range(0, 14) } as usize;
    let mut out = vec![];
    let top = *r.pick(&[20i64, 200, 86400, 1 << 30, i32::MAX as i64]);
    let mut y: i64 = if r.chance(1, 4) { 0 } else { r.range(0, top / 3) };
    let mut step: i64 = r.range(0, 1 + top / 40);
    for _ in 0..n {
        if y > i32::MAX as i64 {
            break;
        }
        out.push(y as i32);
        match r.below(12) {
            0 => step = r.range(0, 5),
            1 => step = r.range(0, 1 + top / 20),
            2 => {
                y += r.range(0, 1 + top / 10);
            }
            3 => {
                let z = y - r.range(1, 30);
                if z >= 0 {
                    out.push(z as i32);
                }
            }
            4 => {
                out.push(y as i32);
            }
            _ => {}
        }
        y += step;
    }
    if r.chance(1, 6) {
        out.push(i32::MAX);
    }
    out
}

/// a few segments of any length
fn gen_runs(r: &mut Rng, most: usize) -> Vec<i32> {
    let k = r.range(1, 6);
    let mut out = vec![];
    let mut y: i64 = if r.chance(1, 3) { 0 } else { r.range(0, 5000) };
    for _ in 0..k {
        let n = match r.below(6) {
            0 => r.range(1, 4),
            1 => r.range(5, 70),
            2 => (1i64 << r.range(3, 14)) + r.range(-2, 2),
            3 => *r.pick(&[10i64, 24, 60, 100, 144, 288, 720, 1000, 1440, 3600, 7200, 10000]) + r.range(-1, 1),
            _ => r.range(60, 400),
        };
        let step = match r.below(5) {
            0 => r.range(0, 3),
            1 => *r.pick(&[5i64, 10, 15, 20, 30, 60, 300, 3600]),
            2 => (1i64 << r.range(2, 20)) + r.range(-1, 1),
            _ => r.range(1, 100),
        };
        for _ in 0..n {
            if y > i32::MAX as i64 || out.len() >= most {
                return out;
            }
            out.push(y as i32);
            if r.chance(1, 300) && y > 20 {
                out.push((y - r.range(1, 20)) as i32);
            }
            y += step;
        }
        // the gap to the next segment, from the last sample
        y += match r.below(5) {
            0 => r.range(1, 3),
            1 => -(r.range(0, step.max(1)).min(step)),
            2 => r.range(1, 100_000),
            3 => 1i64 << r.range(1, 28),
            _ => r.range(1, 1000),
        };
    }
    out
}

fn main() {
    let mut c = Ctx::from_args();
    if c.prop == "C26" {
        c26(&mut c);
        c.finish();
    }
    let prop = c.prop.clone();
    let dir = std::env::temp_dir().join(format!("vsri-run-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    c.rule("index built by a sequence of updates compared with the list of accepted timestamps; non-trivial: at least 3 points; enumerated: every sequence of up to 5 points with spacings from {0,1,2,3,7,-1}; generated: sequences of up to 400 points, and of up to 20000 in up to 6 segments of any length, with gaps, repetitions, refused points and times up to 2^31-1");
    let run = |c: &mut Ctx, id: String, pts: Vec<i32>, extra: Vec<i32>| {
        let p2 = pts.clone();
        let d = dir.clone();
        let prop = prop.clone();
        c.case(&id, pts.len() >= 3, move || format!("points {} queries {:?}", show(&p2), extra.iter().take(8).collect::<Vec<_>>()), {
            let pts = pts.clone();
            move || match prop.as_str() {
                "C15" => c15(&pts),
                "C16" => c16(&pts, &[], &d),
                "C17" => c17(&pts, &[]),
                "C18" => c18(&pts, &[]),
                "C19" => {
                    let mut more = vec![];
                    if let Some(l) = pts.iter().max() {
                        for k in 0..6i64 {
                            let z = *l as i64 + k * k % 11;
                            if z <= i32::MAX as i64 {
                                more.push(z as i32);
                            }
                        }
                    } else {
                        more.extend([3, 5, 7, 20]);
                    }
                    c19(&pts, &more, &d)
                }
                _ => Err("unknown property".into()),
            }
        });
    };
    // a whole day and more: positions beyond 16 bits, in one segment and in several
    let day: Vec<i32> = (0..86_400).collect();
    let gaps: Vec<i32> = (0..70_000).map(|k| k * 3 + if k >= 66_000 { 11 } else { 0 } + if k >= 69_990 { 5 * (k % 2) } else { 0 }).collect();
    let same: Vec<i32> = (0..66_000).map(|_| 77).chain([80, 83, 86]).collect();
    // thousands of segments
    let mut rs = Rng::new(c.seed ^ 0x5e6);
    let mut at = 5i64;
    let many: Vec<i32> = (0..5_600)
        .map(|k| {
            at += match k % 4 {
                0 => 1,
                1 => rs.range(2, 40),
                2 => 1 + (k / 4) % 7,
                _ => rs.range(1, 60),
            };
            at as i32
        })
        .collect();
    for (name, pts) in [("day", day), ("gaps", gaps), ("same", same), ("many", many)] {
        run(&mut c, format!("long-{}", name), pts, vec![]);
    }
    // several callers at once, each with its own index
    let p = prop.clone();
    let (sd, base) = (c.seed, dir.clone());
    let rounds = if c.thorough { 3000 } else { 150 };
    c.case("together", true, || "six threads, each with an index of its own".into(), || {
        together(6, rounds, |t, j| {
            let d = base.join(format!("t{}", t));
            std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            let mut r = Rng::new(sd ^ t << 32 ^ j);
            let pts = if j % 3 == 1 { gen_runs(&mut r, 300) } else { gen(&mut r, j % 3 == 0) };
            match p.as_str() {
                "C15" => c15(&pts),
                "C16" => c16(&pts, &[], &d),
                "C17" => c17(&pts, &[]),
                "C18" => c18(&pts, &[]),
                _ => c19(&pts, &pts.iter().max().map_or(vec![1, 2], |m| vec![*m]), &d),
            }
        })
    });
    // enumeration
    let steps = [0i64, 1, 2, 3, 7, -1];
    let maxlen: u32 = if prop == "C19" { 3 } else if c.thorough { 6 } else { 5 };
    'e: for start in [0i64, 4] {
        for len in 0..=maxlen {
            for code in 0..(steps.len() as u64).pow(len.saturating_sub(1)) {
                let mut pts = vec![];
                let mut y = start;
                let mut k = code;
                if len > 0 {
                    pts.push(y as i32);
                }
                for _ in 1..len {
                    y = (y + steps[(k % 6) as usize]).max(0);
                    k /= 6;
                    pts.push(y as i32);
                }
                run(&mut c, format!("enum-{}-{}-{}", start, len, code), pts, vec![]);
                if c.spent() > 0.4 || !c.go() {
                    break 'e;
                }
                if len == 0 {
                    break;
                }
            }
        }
    }
    let n = if c.thorough { 2_000_000 } else { 60_000 };
    for k in 0..n {
        if !c.go() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1_000_003) ^ k);
        let pts = if k % 3 == 1 { gen_runs(&mut r, if k % 2 == 0 { 600 } else { 20_000 }) } else { gen(&mut r, k % 3 == 0) };
        let s = c.seed;
        run(&mut c, format!("gen-{}-{}", s, k), pts, vec![]);
    }
    std::fs::remove_dir_all(&dir).ok();
    c.finish();
}

fn c26(c: &mut Ctx) {
    c.rule("timestamps at every kind of boundary of the calendar (days, months, years, leap days, epoch, negative) and generated ones; expected value by arithmetic; non-trivial: not a multiple of 86400");
    let check = |t: i64| -> Result<(), String> {
        let want = t.rem_euclid(86400) as i32;
        let got = vsri::day_elapsed_seconds(t);
        need!(got == want, "time of day of {} is {}, expected {}", t, got, want);
        // also within the second, leap seconds included
        for n in [0u32, 1, 500_000_000, 999_999_999, 1_000_000_000, 1_999_999_999] {
            let dt = match chrono::DateTime::<chrono::Utc>::from_timestamp(t, n) {
                Some(dt) => dt,
                None if n >= 1_000_000_000 => continue,
                None => return Err("out of the calendar".into()),
            };
            let s = vsri::start_day_ts(dt);
            need!(s == t - want as i64, "start of day of {} and {} ns is {}, expected {}", t, n, s, t - want as i64);
        }
        Ok(())
    };
    let mut ts: Vec<i64> = vec![];
    for d in [-719_528i64, -365, -1, 0, 1, 59, 60, 365, 730, 789, 790, 10957, 11016, 19722, 20000, 30000, 2_932_896] {
        for s in [0i64, 1, 59, 60, 61, 3599, 3600, 3601, 43199, 43200, 86340, 86398, 86399] {
            ts.push(d * 86400 + s);
        }
    }
    ts.extend([-8_334_601_228_800, -8_334_601_228_799, 8_210_266_876_798, 8_210_266_876_799, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, -1_000_000_000_000, 1_000_000_000_000]);
    for t in ts {
        c.case(&format!("t{}", t), t % 86400 != 0, || format!("timestamp {}", t), || check(t));
    }
    // every second of one day
    c.case("whole-day", true, || "every second of 2024-02-29".into(), || {
        for s in 0..86400 {
            check(19782 * 86400 + s)?;
        }
        Ok(())
    });
    let n = if c.thorough { 3_000_000 } else { 100_000 };
    for k in 0..n {
        if !c.go() {
            break;
        }
        let mut r = Rng::new(c.seed ^ (k << 20));
        let t = r.range(-60_000_000_000, 250_000_000_000);
        c.case(&format!("gen-{}-{}", c.seed, k), t % 86400 != 0, || format!("timestamp {}", t), || check(t));
    }
}
