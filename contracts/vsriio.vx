#! The index on disk (C19)
#include std.vxi
#include iter.vxi
#include fs.vxi
#include text.vxi
#include vsrispec.vxi
#prelude
type PathBuf = Path;
impl Path {
    #[verifier::external_body]
    fn from<S: VPath>(s: &S) -> (r: Path) ensures pid(&r) == s.vpid() { unimplemented!() }
    #[verifier::external_body]
    fn set_extension(&mut self, e: &str) -> (r: bool) ensures pid(final(self)) == with_ext(pid(old(self)), e@) { unimplemented!() }
}
/// the file with the extension replaced
uninterp spec fn with_ext(p: int, e: Seq<char>) -> int;
mod bw { use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufWriter<T> { t: T }
impl BufWriter<File> {
    pub uninterp spec fn id(&self) -> int;
    /// the lines written so far
    pub uninterp spec fn ls(&self) -> Seq<Seq<char>>;
    /// it writes from the start of an empty file
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new(f: File, Tracked(fs): Tracked<&mut Fs>) -> (r: BufWriter<File>)
        ensures *final(fs) == *old(fs), r.id() == f.id(), r.ls() == Seq::<Seq<char>>::empty(), r.fresh() == (f.pos() == 0 && old(fs).files[f.id()].len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), IoError>)
        ensures only(*old(fs), *final(fs), old(self).id()), final(self).id() == old(self).id(), final(self).ls() == old(self).ls(), final(self).fresh() == old(self).fresh(),
            r is Ok && old(self).fresh() ==> final(fs).files[old(self).id()] == text(old(self).ls()),
            old(fs).healthy ==> r is Ok,
    { unimplemented!() }
}
pub open spec fn wrote(a: BufWriter<File>, b: BufWriter<File>, l: Seq<char>) -> bool { b.id() == a.id() && b.fresh() == a.fresh() && b.ls() == a.ls().push(l) }
#[verifier::external_body]
pub fn v_writeln1(w: &mut BufWriter<File>, f: &str, a: i32, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), IoError>)
    ensures only(*old(fs), *final(fs), old(w).id()), final(w).id() == old(w).id(), old(fs).healthy ==> r is Ok,
        r is Ok && f@ == "{}"@ ==> wrote(*old(w), *final(w), decim(a as int)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_writeln4(w: &mut BufWriter<File>, f: &str, a: i32, b: i32, c: i32, d: i32, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), IoError>)
    ensures only(*old(fs), *final(fs), old(w).id()), final(w).id() == old(w).id(), old(fs).healthy ==> r is Ok,
        r is Ok && f@ == "{},{},{},{}"@ ==> wrote(*old(w), *final(w), joinc(seq![decim(a as int), decim(b as int), decim(c as int), decim(d as int)], ',')),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufReader<T> { t: T }
impl BufReader<File> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn start(&self) -> bool;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufReader<File>) ensures r.id() == f.id(), r.start() == (f.pos() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self, Tracked(fs): Tracked<&mut Fs>) -> (r: Vec<Result<String, IoError>>)
        ensures *final(fs) == *old(fs),
            self.start() ==> r@.len() == lines_of(old(fs).files[self.id()]).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok ==> r@[i]->Ok_0@ == lines_of(old(fs).files[self.id()])[i],
            old(fs).healthy ==> forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok,
    { unimplemented!() }
}
}
use bw::*;
#include vsritext.vxi
#file vsri/src/lib.rs
#fn Vsri::flush_to
#opt world=File::create,BufWriter::new,flush macro=writeln
#spec
    ensures
        others(*old(fs), *final(fs), pid($1)),
        ret is Ok ==> final(fs).files == old(fs).files.insert(pid($1), index_text(*self)),
        old(fs).healthy ==> ret is Ok,
#before 0
        let ghost fs0 = *fs;
        proof { reveal_strlit("{}"); reveal_strlit("{},{},{},{}"); }
#loop 0 for it
            invariant
                it.seq() == Seq::new(self.vsri_segments@.len(), |i: int| &self.vsri_segments@[i]), 0 <= it.index() <= it.seq().len(),
                writer.fresh(), writer.id() == pid($1), others(*old(fs), *fs, pid($1)), only(fs0, *fs, pid($1)), fs0.files.dom().contains(pid($1)),
                fs0.files == old(fs).files.insert(pid($1), fs0.files[pid($1)]), fs0.healthy == old(fs).healthy,
                writer.ls() =~= vlines(self.min_ts, self.max_ts, self.vsri_segments@.take(it.index())),
#pretail
    proof {
        assert(self.vsri_segments@.take(self.vsri_segments@.len() as int) =~= self.vsri_segments@);
        assert(fs.files =~= old(fs).files.insert(pid($1), index_text(*self)));
    }
#fn Vsri::flush
#opt world=flush_to
#spec
    ensures
        others(*old(fs), *final(fs), with_ext(sid(self.index_file@), "vsri"@)),
        ret is Ok ==> final(fs).files == old(fs).files.insert(with_ext(sid(self.index_file@), "vsri"@), index_text(*self)),
        old(fs).healthy ==> ret is Ok,
#prelude
trait VInto<T>: Sized { spec fn vi(&self, r: Result<T, Vec<i32>>) -> bool; fn v_try_into(self) -> (r: Result<T, Vec<i32>>) ensures self.vi(r); }
impl VInto<[i32; 4]> for Vec<i32> {
    spec fn vi(&self, r: Result<[i32; 4], Vec<i32>>) -> bool { (self@.len() == 4 ==> r is Ok) && (r is Ok ==> r->Ok_0@ == self@) }
    #[verifier::external_body] fn v_try_into(self) -> (r: Result<[i32; 4], Vec<i32>>) { self.try_into() }
}
#fn Vsri::load
#opt world=File::open,lines shim=trim:v_trim,parse:v_parse,split:v_split,try_into:v_try_into
#spec
    requires index_sound(*old(fs), sid($1@)),
    ensures
        *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(sid($1@)) && index_text(ret->Ok_0) == old(fs).files[sid($1@)] && ret->Ok_0.index_file@ == $1@,
        old(fs).healthy && old(fs).files.dom().contains(sid($1@)) ==> ret is Ok,
#before 0
        let ghost (mn, mx, g) = choose|mn: i32, mx: i32, g: Seq<[i32; 4]>| index_holds(fs.files[sid($1@)], mn, mx, g);
        proof { lemma_vlines(mn, mx, g); }
#loop 0 for it
            invariant
                *fs == *old(fs), index_holds(old(fs).files[sid($1@)], mn, mx, g),
                it.seq().len() == g.len() + 2, 0 <= it.index() <= it.seq().len(), i == it.index() + 1,
                forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]) is Ok ==> it.seq()[k]->Ok_0@ == vlines(mn, mx, g)[k],
                old(fs).healthy ==> forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]) is Ok,
                it.index() >= 1 ==> min_ts == mn, it.index() >= 2 ==> max_ts == mx,
                it.index() < 2 ==> segments@.len() == 0,
                it.index() >= 2 ==> segments@ =~= g.take(it.index() - 2),
#body 0
            let ghost ix = it.index();
            proof { lemma_vlines(mn, mx, g); if ix >= 2 { let k = ix - 2; assert(vlines(mn, mx, g)[k + 2] == seg_line(g[k])); } }
#closure 0 |$c1: &str| -> (r: Result<i32, ParseError>)
    ensures r is Ok <==> parse_i32(trim($c1@)) is Some, r is Ok ==> r->Ok_0 == parse_i32(trim($c1@))->0
#bodyend 0
            proof { if ix >= 2 { let k = ix - 2; let p = split_of(seg_line(g[k]), ','); assert(p[0] == decim(g[k][0] as int) && p[1] == decim(g[k][1] as int) && p[2] == decim(g[k][2] as int) && p[3] == decim(g[k][3] as int)); assert(segments@[k]@ =~= g[k]@); assert(segments@[k] == g[k]); assert(g.take(k + 1) =~= g.take(k).push(g[k])); } }
#pretail
        proof { assert(g.take(g.len() as int) =~= g); }
#trusted Vsri::min
#opt from=vsri
#trusted Vsri::max
#opt from=vsri
#trusted Vsri::get_sample
#opt from=vsri
#prelude
spec fn located(v: Vsri, y: int, r: Option<i32>) -> bool {
    match r {
        Some(i) => 0 <= i < v.ts().len() && v.ts()[i as int] == y && strictly_below(v.segs(), i as int, y),
        None => differs(v.segs(), v.ts().len() as int, y),
    }
}
#prelude
proof fn lemma_ends(v: Vsri)
    requires v.wf()
    ensures forall|y: int| y < v.min_ts || y > v.max_ts ==> #[trigger] differs(v.segs(), v.ts().len() as int, y)
{
    let g = v.segs();
    lemma_len(g);
    if g.len() > 0 {
        let n = v.ts().len() as int;
        lemma_split(g, 0); lemma_split(g, g.len() - 1);
        lemma_ts_at(g, 0, 0); lemma_ts_at(g, g.len() - 1, n - 1);
        assert forall|y: int| y < v.min_ts || y > v.max_ts implies #[trigger] differs(g, n, y) by {
            assert forall|j: int| 0 <= j < n implies #[trigger] times(g)[j] != y by { lemma_sorted(g, 0, j); lemma_sorted(g, j, n - 1); }
        }
    }
}
#fn Vsri::get_sample_location
#opt world=Vsri::load
#spec
    requires
        index_sound(*old(fs), sid($1@)),
        forall|v: Vsri| old(fs).files.dom().contains(sid($1@)) && #[trigger] index_text(v) == old(fs).files[sid($1@)] ==> v.wf(),
    ensures
        *final(fs) == *old(fs),
        ret is Some ==> old(fs).files.dom().contains(sid($1@)),
        old(fs).files.dom().contains(sid($1@)) && (old(fs).healthy || ret is Some) ==> forall|v: Vsri| #[trigger] index_text(v) == old(fs).files[sid($1@)] ==> located(v, $2 as int, ret),
#start
    proof {
        assert forall|v: Vsri| old(fs).files.dom().contains(sid($1@)) && #[trigger] index_text(v) == old(fs).files[sid($1@)] implies v.wf() && forall|y: int| y < v.min_ts || y > v.max_ts ==> #[trigger] differs(v.segs(), v.ts().len() as int, y) by { lemma_ends(v); }
        assert forall|u: Vsri, v: Vsri| #[trigger] index_text(u) == #[trigger] index_text(v) implies u.segs() == v.segs() && u.min_ts == v.min_ts && u.max_ts == v.max_ts by { lemma_same(u.min_ts, u.max_ts, u.segs(), v.min_ts, v.max_ts, v.segs()); }
    }
#postlude
/// what is written is what was in memory, nothing else is touched, and a lookup in the file answers as the index
fn flush_then_load(v: &Vsri, p: &Path, name: &str, y: i32, Tracked(fs): Tracked<&mut Fs>)
    requires v.wf(), old(fs).healthy, pid(p) == sid(name@), v.segs().len() < i32::MAX - 4
{
    let w = v.flush_to(p, Tracked(&mut *fs));
    assert(w is Ok);
    proof { assert(index_holds(fs.files[sid(name@)], v.min_ts, v.max_ts, v.segs())); lemma_unique(*v); }
    let r = Vsri::load(name, Tracked(&mut *fs));
    proof { assert(index_text(r->Ok_0) == index_text(*v)); }
    assert(r is Ok && r->Ok_0.segs() == v.segs() && r->Ok_0.min_ts == v.min_ts && r->Ok_0.max_ts == v.max_ts && r->Ok_0.ts() == v.ts() && r->Ok_0.wf());
    let x = Vsri::get_sample_location(name, y, Tracked(&mut *fs));
    assert(located(*v, y as int, x));
}
