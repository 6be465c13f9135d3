#! The command line: what it writes where (C25)
#include flow.vxi
#include fs.vxi
#include text.vxi
#include csvx.vxi
#include csvspec.vxi
#include paths.vxi
#prelude
pub struct AnyError {}
pub struct WbError {}
impl From<IoError> for AnyError { #[verifier::external_body] fn from(e: IoError) -> AnyError { AnyError {} } }
impl From<Error> for AnyError { #[verifier::external_body] fn from(e: Error) -> AnyError { AnyError {} } }
impl From<WbError> for AnyError { #[verifier::external_body] fn from(e: WbError) -> AnyError { AnyError {} } }
trait VAny { fn v_any(&self) -> AnyError; }
impl VAny for str { #[verifier::external_body] fn v_any(&self) -> AnyError { AnyError {} } }
#include wbspec.vxi
#file atsc/src/main.rs
#item enum CompressorType pub
#item struct Args
#prelude
spec fn asked(t: CompressorType) -> Compressor {
    match t { CompressorType::Auto => Compressor::Auto, CompressorType::Noop => Compressor::Noop, CompressorType::Fft => Compressor::FFT, CompressorType::Constant => Compressor::Constant, CompressorType::Polynomial => Compressor::Polynomial, CompressorType::Idw => Compressor::Idw, CompressorType::Rle => Compressor::RLE }
}
/// a stream for these samples, as asked
spec fn stream_for(b: Seq<u8>, d: Seq<f64>, g: Args) -> bool { made(b, clean_of(d), asked(g.compressor), wide(fdiv32(of_int32(g.error as int), 100.0f32)), COMPRESSION_SPEED@[g.compression_selection_sample_level as int] as int) }
/// the file next to the input
spec fn target(p: &Path, g: &Args) -> int { sid(set_ext(ppath(p), if g.uncompress { "wbro"@ } else { "bro"@ })) }
spec fn bro(c: Seq<u8>) -> bool { c.len() >= 4 && c.take(4) =~= seq![0x42u8, 0x52u8, 0x52u8, 0x4fu8] }
spec fn fields(g: &Args) -> Seq<Seq<char>> { split_of(g.fields->0@, ',') }
/// a column of records
spec fn col(b: Seq<Option<Seq<Seq<char>>>>, j: int) -> Option<Seq<f64>> { if forall|i: int| 0 <= i < b.len() ==> value_at(#[trigger] b[i], j) is Some { Some(Seq::new(b.len(), |i: int| value_at(b[i], j)->0)) } else { None } }
spec fn csv_of(c: Seq<u8>, g: &Args) -> Option<Seq<f64>> { if g.no_header { col(body(c, false), 0) } else if fields(g).len() >= 2 { named_of(c, fields(g)[0], fields(g)[1]) } else { None } }
spec fn named_of(c: Seq<u8>, t: Seq<char>, v: Seq<char>) -> Option<Seq<f64>> { if head(c) is Some && !lacks(head(c)->0, t) && !lacks(head(c)->0, v) { col(body(c, true), choose|j: int| is_first(head(c)->0, v, j)) } else { None } }
proof fn lemma_column(b: Seq<Option<Seq<Seq<char>>>>, j: int, r: CsvResult<Vec<Sample>>)
    requires column(b, j, r)
    ensures (r is Ok) == (col(b, j) is Some), r is Ok ==> col(b, j) == Some(vals(r->Ok_0@)),
{
    if r is Ok {
        let s = r->Ok_0@;
        assert forall|i: int| 0 <= i < b.len() implies value_at(#[trigger] b[i], j) == Some(s[i].value) by { }
        assert(col(b, j)->0 =~= vals(s));
    }
}
proof fn lemma_named(c: Seq<u8>, t: Seq<char>, v: Seq<char>, r: CsvResult<Vec<Sample>>)
    requires named(c, t, v, r)
    ensures (r is Ok) == (named_of(c, t, v) is Some), r is Ok ==> named_of(c, t, v) == Some(vals(r->Ok_0@)),
{
    let h = head(c);
    if h is Some && !lacks(h->0, t) && !lacks(h->0, v) {
        let j = choose|j: int| #[trigger] is_first(h->0, v, j) && column(body(c, true), j, r);
        let k = choose|j: int| is_first(h->0, v, j);
        assert(is_first(h->0, v, j) && is_first(h->0, v, k));
        if j < k { assert(h->0[j] != v); } else if k < j { assert(h->0[k] != v); }
        lemma_column(body(c, true), j, r);
    }
}
spec fn wbro_of(c: Seq<u8>) -> Option<Seq<f64>> { if signed(c) && rk_dec(rest(c, 12)) is Some { Some(flatc(rk_dec(rest(c, 12))->0.c)) } else { None } }
spec fn samples_of(c: Seq<u8>, g: &Args) -> Option<Seq<f64>> { if g.csv { csv_of(c, g) } else { wbro_of(c) } }
spec fn valid(c: Seq<u8>, g: &Args) -> bool { if g.uncompress { bro(c) } else { samples_of(c, g) is Some } }
/// uncompressing passes over a file of some other kind
spec fn passed_over(c: Seq<u8>, g: &Args) -> bool { g.uncompress && c.len() >= 4 && !bro(c) }
/// `o` is what processing a valid file with content `c` gives
spec fn gives(c: Seq<u8>, g: &Args, o: Seq<u8>) -> bool {
    if g.uncompress { exists|i: Img| o == sig() + #[trigger] rk_enc(i) && forall|v: u32, h: u8, x: Seq<(usize, usize, Compressor, Seq<u8>)>| c == #[trigger] stream_bytes(v, h, x) ==> flatc(i.c) == series(x) }
    else { stream_for(o, samples_of(c, g)->0, *g) }
}
/// exactly the file next to `p` is written, with what the content of `p` gives
spec fn lands(a: Fs, b: Fs, p: &Path, g: &Args) -> bool {
    &&& a.files.dom().contains(pid(p)) && valid(a.files[pid(p)], g)
    &&& ({ let o = b.files[target(p, g)]; gives(a.files[pid(p)], g, o) && b.files == a.files.insert(target(p, g), o) })
}
/// processing one file
spec fn single(a: Fs, b: Fs, p: &Path, g: &Args, ok: bool) -> bool {
    let c = a.files[pid(p)];
    &&& others(a, b, target(p, g))
    &&& ok ==> lands(a, b, p, g) || (b == a && a.files.dom().contains(pid(p)) && passed_over(c, g))
    &&& g.uncompress && !ok ==> b == a
    &&& a.healthy ==> (if a.files.dom().contains(pid(p)) && valid(c, g) { ok } else { b == a && (ok ==> passed_over(c, g)) })
}
/// every BRRO file holds a stream, of fewer than 2^32 samples (others: known finding corrupt-bro)
spec fn streams_only(a: Fs, g: &Args) -> bool { g.uncompress ==> forall|k: int| #[trigger] a.files.dom().contains(k) && bro(a.files[k]) ==> sound(a.files[k]) }
spec fn sound(c: Seq<u8>) -> bool { readable(c) && forall|v: u32, h: u8, x: Seq<(usize, usize, Compressor, Seq<u8>)>| c == #[trigger] stream_bytes(v, h, x) ==> series(x).len() <= u32::MAX }
/// an entry of a directory: a file is processed on its own, anything else passed over
spec fn step(a: Fs, b: Fs, e: Result<DirEntry, IoError>, g: &Args) -> bool {
    e is Ok && ({ let p = e->Ok_0.p(); single(a, b, &p, g, true) || single(a, b, &p, g, false) || (b == a && (a.healthy ==> !a.files.dom().contains(pid(&p)))) })
}
spec fn chain(a: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args) -> bool
    decreases l.len()
{ if l.len() == 0 { b == a } else { exists|m: Fs| chain(a, m, l.drop_last(), g) && #[trigger] step(m, b, l.last(), g) } }
proof fn lemma_step(a: Fs, m: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, i: int, g: &Args)
    requires chain(a, m, l.take(i), g), 0 <= i < l.len(), step(m, b, l[i], g), streams_only(m, g),
    ensures chain(a, b, l.take(i + 1), g), streams_only(b, g),
{
    assert(l.take(i + 1).drop_last() =~= l.take(i));
    assert(step(m, b, l.take(i + 1).last(), g));
    let p = l[i]->Ok_0.p();
    if g.uncompress && b != m {
        let o = b.files[target(&p, g)];
        assert(lands(m, b, &p, g));
        assert(!bro(o)) by { let j = choose|j: Img| o == sig() + #[trigger] rk_enc(j); assert(o.take(4)[0] == 0x57u8); }
    }
}
spec fn walked(a: Fs, b: Fs, d: &Path, g: &Args, ok: bool) -> bool {
    &&& b == a || exists|l: Seq<Result<DirEntry, IoError>>, n: int| #![trigger listing(a, d, l), l.take(n)] listing(a, d, l) && 0 <= n <= l.len() && chain(a, b, l.take(n), g) && (ok ==> n == l.len())
    &&& ok ==> exists|l: Seq<Result<DirEntry, IoError>>| #[trigger] listing(a, d, l) && chain(a, b, l, g)
    &&& a.healthy && is_directory(pid(d)) ==> ok
}
spec fn args_ok(g: &Args) -> bool { g.error <= 50 && g.compression_selection_sample_level <= 6 && g.fields is Some }
#file wavbrro/src/wavbrro.rs
#trusted WavBrro::from_file
#opt from=wavbrro alias=Error:WbError
#trusted WavBrro::to_file_with_data
#opt from=wavbrro
#file atsc/src/csv.rs
#trusted read_samples
#opt from=csv alias=Result:CsvResult
#trusted read_samples_with_headers
#opt from=csv alias=Result:CsvResult
#file atsc/src/utils/readers/bro_reader.rs
#fn process_bro_file
#opt world=File::open,fs::File::open,read_to_end
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && ret->Ok_0@ == old(fs).files[pid($1)],
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) ==> ret is Ok,
#pretail
    proof { assert(rest(fs.files[pid($1)], 0) =~= fs.files[pid($1)]); }
#fn is_bro_file
#opt world=File::open,fs::File::open,read_exact shim=starts_with:v_starts_with
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 4 && ret->Ok_0 == bro(old(fs).files[pid($1)]),
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 4 ==> ret is Ok,
#fn read_file
#opt world=is_bro_file,process_bro_file alias=Error:IoError
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 4 && (ret->Ok_0 is Some) == bro(old(fs).files[pid($1)]),
        ret is Ok && ret->Ok_0 is Some ==> ret->Ok_0->0@ == old(fs).files[pid($1)],
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 4 ==> ret is Ok,
#prelude
mod bro_reader { pub(super) use super::read_file; }
#file atsc/src/main.rs
#trusted compress_data
#opt from=flow
#trusted decompress_data
#opt from=flow
#fn process_single_file
#opt world=bro_reader::read_file,WavBrro::to_file_with_data,WavBrro::from_file,read_samples,read_samples_with_headers,std::fs::write shim=std::fs::write:sys::write,split:v_split,into:v_any,into_iter:v_into_iter
#spec
    requires args_ok($2), streams_only(*old(fs), $2),
    ensures single(*old(fs), *final(fs), &$1, $2, ret is Ok),
#closure 0 |$c1: Sample| -> (r: f64)
    ensures r == $c1.value
#pretail
    proof {
        let c = old(fs).files[pid(&p0)];
        if bro(c) || !$2.uncompress { assert(valid(c, $2)); }
    }
#start
    let ghost p0 = $1;
    proof {
        reveal_strlit(",");
        assert forall|b: Seq<Option<Seq<Seq<char>>>>, j: int, r: CsvResult<Vec<Sample>>| #[trigger] column(b, j, r) implies (r is Ok) == (col(b, j) is Some) && (r is Ok ==> col(b, j) == Some(vals(r->Ok_0@))) by { lemma_column(b, j, r); }
        assert forall|c: Seq<u8>, t: Seq<char>, v: Seq<char>, r: CsvResult<Vec<Sample>>| #[trigger] named(c, t, v, r) implies (r is Ok) == (named_of(c, t, v) is Some) && (r is Ok ==> named_of(c, t, v) == Some(vals(r->Ok_0@))) by { lemma_named(c, t, v, r); }
        assert forall|d: Seq<f64>, s: Seq<Sample>| #![trigger clean_of(d), vals(s)] d.len() == s.len() && (forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == s[i].value) implies d == vals(s) by { assert(d =~= vals(s)); }
    }
#fn process_directory
#opt world=std::fs::read_dir,is_file,process_single_file shim=std::fs::read_dir:sys::read_dir
#spec
    requires args_ok($1), streams_only(*old(fs), $1),
    ensures walked(*old(fs), *final(fs), &$1.input, $1, ret is Ok),
#loop 0 for it
        invariant
            args_ok($1), streams_only(*fs, $1), listing(*old(fs), &$1.input, it.seq()), 0 <= it.index() <= it.seq().len(),
            chain(*old(fs), *fs, it.seq().take(it.index()), $1),
            forall|i: int| 0 <= i < it.index() ==> (#[trigger] it.seq()[i]) is Ok,
#body 0
        let ghost (m, l, i) = (*fs, it.seq(), it.index());
        proof {
            assert forall|b: Fs| #[trigger] step(m, b, l[i], $1) implies chain(*old(fs), b, l.take(i + 1), $1) && streams_only(b, $1) by { lemma_step(*old(fs), m, b, l, i, $1); }
        }
#start
    proof { assert forall|l: Seq<Result<DirEntry, IoError>>| #[trigger] l.take(l.len() as int) == l by { assert(l.take(l.len() as int) =~= l); } }
#bodyend 0
        proof { assert(step(m, *fs, l[i], $1)); }
#fn process_args
#opt world=std::fs::metadata,is_file,is_dir,process_single_file,process_directory shim=std::fs::metadata:sys::metadata,into:v_any
#spec
    requires args_ok($1), streams_only(*old(fs), $1),
    ensures
        old(fs).files.dom().contains(pid(&$1.input)) ==> single(*old(fs), *final(fs), &$1.input, $1, ret is Ok) || (!old(fs).healthy && *final(fs) == *old(fs) && ret is Err),
        !old(fs).files.dom().contains(pid(&$1.input)) && is_directory(pid(&$1.input)) ==> walked(*old(fs), *final(fs), &$1.input, $1, ret is Ok),
        !old(fs).files.dom().contains(pid(&$1.input)) && !is_directory(pid(&$1.input)) ==> *final(fs) == *old(fs) && ret is Err,
#postlude
proof fn lemma_split(a: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args, i: int) -> (r: (Fs, Fs))
    requires chain(a, b, l, g), 0 <= i < l.len(),
    ensures chain(a, r.0, l.take(i), g), step(r.0, r.1, l[i], g), chain(r.1, b, l.skip(i + 1), g),
    decreases l.len()
{
    let m = choose|m: Fs| chain(a, m, l.drop_last(), g) && #[trigger] step(m, b, l.last(), g);
    if i == l.len() - 1 { assert(l.take(i) =~= l.drop_last()); assert(l.skip(i + 1).len() == 0); (m, b) }
    else {
        let r = lemma_split(a, m, l.drop_last(), g, i);
        assert(l.drop_last().take(i) =~= l.take(i));
        let k = l.skip(i + 1);
        assert(k.drop_last() =~= l.drop_last().skip(i + 1));
        assert(step(m, b, k.last(), g));
        r
    }
}
spec fn to(e: Result<DirEntry, IoError>, g: &Args) -> int { target(&e->Ok_0.p(), g) }
spec fn of(e: Result<DirEntry, IoError>) -> int { pid(&e->Ok_0.p()) }
spec fn unchanged(a: Fs, b: Fs, k: int) -> bool { a.files.dom().contains(k) == b.files.dom().contains(k) && (a.files.dom().contains(k) ==> a.files[k] == b.files[k]) }
/// C25: what is not next to a file that is processed is not touched
proof fn lemma_untouched(a: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args, k: int)
    requires chain(a, b, l, g), forall|j: int| 0 <= j < l.len() ==> to(#[trigger] l[j], g) != k,
    ensures unchanged(a, b, k), b.healthy == a.healthy,
    decreases l.len()
{
    if l.len() > 0 {
        let m = choose|m: Fs| chain(a, m, l.drop_last(), g) && #[trigger] step(m, b, l.last(), g);
        assert forall|j: int| 0 <= j < l.len() - 1 implies to(#[trigger] l.drop_last()[j], g) != k by { assert(l.drop_last()[j] == l[j]); }
        lemma_untouched(a, m, l.drop_last(), g, k);
        assert(to(l[l.len() - 1], g) != k);
    }
}
/// a file is written only by what belongs to it, and not by itself when it is no valid input
spec fn quiet(l: Seq<Result<DirEntry, IoError>>, g: &Args, k: int) -> bool { forall|j: int| 0 <= j < l.len() ==> to(#[trigger] l[j], g) != k || of(l[j]) == k }
proof fn lemma_quiet(a: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args, k: int)
    requires a.healthy, chain(a, b, l, g), quiet(l, g, k), a.files.dom().contains(k) ==> !valid(a.files[k], g),
    ensures unchanged(a, b, k), b.healthy,
    decreases l.len()
{
    if l.len() > 0 {
        let m = choose|m: Fs| chain(a, m, l.drop_last(), g) && #[trigger] step(m, b, l.last(), g);
        assert forall|j: int| 0 <= j < l.len() - 1 implies to(#[trigger] l.drop_last()[j], g) != k || of(l.drop_last()[j]) == k by { assert(l.drop_last()[j] == l[j]); }
        lemma_quiet(a, m, l.drop_last(), g, k);
        assert(to(l[l.len() - 1], g) != k || of(l[l.len() - 1]) == k);
    }
}
proof fn lemma_output(c: Seq<u8>, g: &Args, o: Seq<u8>)
    requires gives(c, g, o), !g.csv || g.uncompress,
    ensures !valid(o, g)
{
    if g.uncompress { let j = choose|j: Img| o == sig() + #[trigger] rk_enc(j); assert(o.take(4)[0] == 0x57u8); }
    else {
        assert(exists|h: u8, f: Seq<CompressorFrame>| o == #[trigger] stream_bytes(1, h, fvs(f)));
        assert(o[0] == 0x42u8);
        if signed(o) { assert(o.subrange(0, 4)[0] == 0x57u8); }
    }
}
/// no other file of the directory is written over this one, or next to it
spec fn alone(a: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args, i: int) -> bool {
    let (p, t) = (of(l[i]), to(l[i], g));
    &&& l[i] is Ok && a.files.dom().contains(p)
    &&& forall|j: int| 0 <= j < l.len() && j != i ==> to(#[trigger] l[j], g) != p && (to(l[j], g) != t || ((!g.csv || g.uncompress) && of(l[j]) == t && (a.files.dom().contains(t) ==> !valid(a.files[t], g))))
}
/// the file has been processed
spec fn done(a: Fs, b: Fs, e: Result<DirEntry, IoError>, g: &Args) -> bool {
    let c = a.files[of(e)];
    if valid(c, g) { b.files.dom().contains(to(e, g)) && gives(c, g, b.files[to(e, g)]) } else { unchanged(a, b, to(e, g)) }
}
proof fn lemma_each(a: Fs, b: Fs, l: Seq<Result<DirEntry, IoError>>, g: &Args, i: int)
    requires a.healthy, chain(a, b, l, g), 0 <= i < l.len(), alone(a, l, g, i),
    ensures done(a, b, l[i], g)
{
    let (p, t) = (of(l[i]), to(l[i], g));
    let (m, n) = lemma_split(a, b, l, g, i);
    let (x, y) = (l.take(i), l.skip(i + 1));
    assert forall|j: int| 0 <= j < x.len() implies to(#[trigger] x[j], g) != p && (to(x[j], g) == t ==> of(x[j]) == t) by { assert(x[j] == l[j]); }
    assert forall|j: int| 0 <= j < y.len() implies to(#[trigger] y[j], g) != p && (to(y[j], g) == t ==> of(y[j]) == t) by { assert(y[j] == l[i + 1 + j]); }
    lemma_untouched(a, m, x, g, p);
    let one = exists|j: int| 0 <= j < l.len() && j != i && to(#[trigger] l[j], g) == t;
    if p != t {
        if one { lemma_quiet(a, m, x, g, t); }
        else {
            assert forall|j: int| 0 <= j < x.len() implies to(#[trigger] x[j], g) != t by { assert(x[j] == l[j]); }
            lemma_untouched(a, m, x, g, t);
        }
    }
    assert(m.healthy && n.healthy);
    if one {
        if valid(a.files[p], g) { lemma_output(a.files[p], g, n.files[t]); }
        lemma_quiet(n, b, y, g, t);
    } else {
        assert forall|j: int| 0 <= j < y.len() implies to(#[trigger] y[j], g) != t by { assert(y[j] == l[i + 1 + j]); }
        lemma_untouched(n, b, y, g, t);
    }
}
/// C25: every file of a directory is processed, whatever the others are, and nothing else changes
fn a_directory(arguments: &Args, Tracked(fs): Tracked<&mut Fs>) -> (ret: Result<(), AnyError>)
    requires args_ok(arguments), old(fs).healthy, is_directory(pid(&arguments.input)), !old(fs).files.dom().contains(pid(&arguments.input)), streams_only(*old(fs), arguments),
    ensures ret is Ok, exists|l: Seq<Result<DirEntry, IoError>>| #[trigger] listing(*old(fs), &arguments.input, l)
        && (forall|i: int| 0 <= i < l.len() && #[trigger] alone(*old(fs), l, arguments, i) ==> done(*old(fs), *final(fs), l[i], arguments))
        && (forall|k: int| (forall|j: int| 0 <= j < l.len() ==> to(#[trigger] l[j], arguments) != k) ==> #[trigger] unchanged(*old(fs), *final(fs), k)),
{
    let r = process_args(arguments, Tracked(&mut *fs));
    proof {
        let l = choose|l: Seq<Result<DirEntry, IoError>>| #[trigger] listing(*old(fs), &arguments.input, l) && chain(*old(fs), *fs, l, arguments);
        assert forall|i: int| 0 <= i < l.len() && #[trigger] alone(*old(fs), l, arguments, i) implies done(*old(fs), *fs, l[i], arguments) by { lemma_each(*old(fs), *fs, l, arguments, i); }
        assert forall|k: int| (forall|j: int| 0 <= j < l.len() ==> to(#[trigger] l[j], arguments) != k) implies #[trigger] unchanged(*old(fs), *fs, k) by { lemma_untouched(*old(fs), *fs, l, arguments, k); }
    }
    r
}
/// C25: one file
fn a_file(arguments: &Args, Tracked(fs): Tracked<&mut Fs>) -> (ret: Result<(), AnyError>)
    requires args_ok(arguments), old(fs).healthy, old(fs).files.dom().contains(pid(&arguments.input)), streams_only(*old(fs), arguments),
    ensures ({ let (c, t) = (old(fs).files[pid(&arguments.input)], target(&arguments.input, arguments));
        if valid(c, arguments) { ret is Ok && gives(c, arguments, final(fs).files[t]) && final(fs).files == old(fs).files.insert(t, final(fs).files[t]) }
        else { final(fs).files == old(fs).files && (ret is Ok ==> passed_over(c, arguments)) } }),
{
    process_args(arguments, Tracked(&mut *fs))
}
