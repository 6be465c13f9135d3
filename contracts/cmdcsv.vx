#! csv-compressor: from a CSV to a stream with its index, and back (C22)
#include flow.vxi
#include fs.vxi
#include text.vxi
#include csvx.vxi
#include csvcmp.vxi
#include paths.vxi
#include dayspec.vxi
#include wbspec.vxi
#include vsrispec.vxi
#include vsritext.vxi
#include metricspec.vxi
#file csv-compressor/src/metric.rs
#item struct Metric
#include metricwf.vxi
#file csv-compressor/src/main.rs
#item enum CompressorType pub
#item struct Args
#prelude
pub struct MetricError {}
impl std::fmt::Debug for MetricError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> Result<(), std::fmt::Error> { Ok(()) } }
spec fn asked(t: CompressorType) -> Compressor {
    match t { CompressorType::Auto => Compressor::Auto, CompressorType::Noop => Compressor::Noop, CompressorType::Fft => Compressor::FFT, CompressorType::Constant => Compressor::Constant, CompressorType::Polynomial => Compressor::Polynomial, CompressorType::Idw => Compressor::Idw }
}
spec fn percent(g: &Args) -> f64 { wide(fdiv32(of_int32(g.error as int), 100.0f32)) }
spec fn speed(g: &Args) -> int { COMPRESSION_SPEED@[g.compression_selection_sample_level as int] as int }
spec fn bro(c: Seq<u8>) -> bool { c.len() >= 4 && c.take(4) =~= seq![0x42u8, 0x52u8, 0x52u8, 0x4fu8] }
spec fn base(g: Args) -> Path { if g.output is Some { g.output->0 } else { g.input } }
spec fn beside(p: Path, e: Seq<char>) -> int { sid(set_ext(ppath(&p), e)) }
spec fn args_ok(g: &Args) -> bool { g.error <= 50 && g.compression_selection_sample_level <= 6 }
/// the samples of a CSV, of times of one day in order
spec fn table_of(c: Seq<u8>, s: Seq<Sample>) -> bool { head(c) is Some && read_back(body(c, true), head(c)->0, s) && dated(s) && ordered(0, tods(s)) && s.len() < i32::MAX - 4 }
proof fn lemma_read_once(c: Seq<u8>)
    ensures
        forall|s: Seq<Sample>, t: Seq<Sample>| #![trigger read_back(body(c, true), head(c)->0, s), read_back(body(c, true), head(c)->0, t)] read_back(body(c, true), head(c)->0, s) && read_back(body(c, true), head(c)->0, t) ==> s == t,
        forall|s: Seq<Sample>| #[trigger] read_back(body(c, true), head(c)->0, s) ==> !unreadable(body(c, true), head(c)->0),
{
    let (b, h) = (body(c, true), head(c)->0);
    assert forall|s: Seq<Sample>, t: Seq<Sample>| #![trigger read_back(b, h, s), read_back(b, h, t)] read_back(b, h, s) && read_back(b, h, t) implies s == t by {
        assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { let (x, y) = (s[i], t[i]); assert(is_of(h, b[i], s[i])); assert(is_of(h, b[i], t[i])); }
        assert(s =~= t);
    }
    assert forall|s: Seq<Sample>| #[trigger] read_back(b, h, s) implies !unreadable(b, h) by {
        if unreadable(b, h) { let i = choose|i: int| 0 <= i < b.len() && ((#[trigger] b[i]) is None || of_record(h, b[i]->0) is None); assert(is_of(h, b[i], s[i])); }
    }
}
spec fn is_container(c: Seq<u8>, d: Seq<f64>) -> bool { exists|i: Img| c == sig() + #[trigger] rk_enc(i) && flatc(i.c) == d }
spec fn is_index_of(c: Seq<u8>, t: Seq<int>) -> bool { exists|v: Vsri| c == #[trigger] index_text(v) && v.wf() && v.ts() == t && v.segs().len() < i32::MAX - 4 }
/// what compressing the CSV with these samples writes
spec fn packed(a: Fs, b: Fs, g: Args, s: Seq<Sample>) -> bool {
    let (w, x, o) = (beside(base(g), "wavbro"@), beside(base(g), "vsri"@), beside(base(g), "bro"@));
    &&& forall|k: int| #![trigger b.files.dom().contains(k)] (k != w || !g.output_wavbrro) && (k != x || !g.output_vsri) && (k != o || g.no_compression) ==> (a.files.dom().contains(k) == b.files.dom().contains(k)) && (a.files.dom().contains(k) ==> a.files[k] == b.files[k])
    &&& g.output_wavbrro ==> b.files.dom().contains(w) && is_container(b.files[w], vals(s))
    &&& g.output_vsri ==> b.files.dom().contains(x) && is_index_of(b.files[x], tods(s))
    &&& !g.no_compression ==> b.files.dom().contains(o) && made(b.files[o], vals(s), asked(g.compressor), percent(&g), speed(&g))
}
/// a stream that fits the index beside it
spec fn indexed(a: Fs, g: Args, t: Seq<int>, d: Seq<f64>) -> bool {
    let (c, x) = (a.files[pid(&g.input)], beside(g.input, "vsri"@));
    &&& exists|v: u32, h: u8, y: Seq<(usize, usize, Compressor, Seq<u8>)>| v <= 1 && c == #[trigger] stream_bytes(v, h, y) && decodable(y) && series(y) == d
    &&& a.files.dom().contains(x) && is_index_of(a.files[x], t)
    &&& t.len() == d.len() && d.len() <= i32::MAX
}
spec fn side(t: Seq<int>, d: Seq<f64>, r: Seq<Sample>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).timestamp == t[i] && r[i].value == d[i] }
spec fn unpacked(a: Fs, b: Fs, g: Args, t: Seq<int>, d: Seq<f64>) -> bool {
    let (w, x) = (beside(base(g), "wbro"@), sid(set_ext(set_ext(ppath(&base(g)), "wbro"@), "csv"@)));
    &&& forall|k: int| #![trigger b.files.dom().contains(k)] k != w && k != x ==> (a.files.dom().contains(k) == b.files.dom().contains(k)) && (a.files.dom().contains(k) ==> a.files[k] == b.files[k])
    &&& b.files.dom().contains(w) && is_container(b.files[w], d)
    &&& exists|r: Seq<Sample>| b.files.dom().contains(x) && b.files[x] == csv_bytes(#[trigger] table(r)) && side(t, d, r)
}
proof fn lemma_kept(s: Seq<Sample>)
    ensures clean_of(vals(s)) == vals(s), vals(s).len() == tods(s).len(), vals(s).len() <= s.len(),
{
    s.lemma_filter_len(has_value());
    reveal(Seq::filter);
    let v = vals(s);
    assert forall|i: int| 0 <= i < v.len() implies finite(#[trigger] v[i]) by { assert(kept(s).contains(kept(s)[i])); s.filter_lemma(has_value()); }
    lemma_all_clean(v);
}
proof fn lemma_all_clean(v: Seq<f64>)
    requires forall|i: int| 0 <= i < v.len() ==> finite(#[trigger] v[i]),
    ensures clean_of(v) == v,
    decreases v.len(),
{
    reveal(Seq::filter);
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.len() - 1 implies finite(#[trigger] v.drop_last()[i]) by { assert(finite(v[i])); }
        lemma_all_clean(v.drop_last());
        assert(finite(v[v.len() - 1]));
        assert(clean_of(v) =~= v);
    } else { assert(clean_of(v) =~= v); }
}
spec fn follows(a: Fs, g: Args, t: Seq<int>, d: Seq<f64>) -> bool {
    &&& index_sound(a, beside(g.input, "vsri"@)) && a.files.dom().contains(beside(g.input, "vsri"@)) && readable(a.files[pid(&g.input)]) && d.len() <= i32::MAX
    &&& exists|v: u32, h: u8, y: Seq<(usize, usize, Compressor, Seq<u8>)>| a.files[pid(&g.input)] == #[trigger] stream_bytes(v, h, y) && series(y) == d
    &&& forall|u: Vsri| #[trigger] index_text(u) == a.files[beside(g.input, "vsri"@)] ==> u.wf() && u.ts() == t && t.len() == d.len()
}
proof fn lemma_indexed(a: Fs, g: Args, t: Seq<int>, d: Seq<f64>)
    requires indexed(a, g, t, d),
    ensures follows(a, g, t, d),
{
    let x = a.files[beside(g.input, "vsri"@)];
    let v = choose|v: Vsri| x == #[trigger] index_text(v) && v.wf() && v.ts() == t && v.segs().len() < i32::MAX - 4;
    lemma_unique(v);
    assert(index_holds(x, v.min_ts, v.max_ts, v.segs()));
}
proof fn lemma_segs(g: Seq<[i32; 4]>)
    requires segs_ok(g),
    ensures g.len() <= times(g).len(),
    decreases g.len(),
{
    if g.len() > 0 { lemma_prefix(g); lemma_segs(g.drop_last()); lemma_len(g); assert(seg_at(g, g.len() - 1)); assert(times(g).len() == times(g.drop_last()).len() + g.last()[3]); }
}
/// what compressing writes for the samples a metric keeps
proof fn lemma_container(i: Img) ensures is_container(sig() + rk_enc(i), flatc(i.c)) {}
proof fn lemma_index(v: Vsri, t: Seq<int>) requires v.wf(), v.ts() == t, t.len() < i32::MAX - 4 ensures is_index_of(index_text(v), t) { lemma_segs(v.segs()); }
spec fn apart(p: Path, e: Seq<char>, f: Seq<char>) -> bool { beside(p, e) != beside(p, f) }
#file wavbrro/src/wavbrro.rs
#trusted WavBrro::new
#opt from=wavbrro
#trusted WavBrro::add_sample
#opt from=wavbrro
#trusted WavBrro::get_samples
#opt from=wavbrro
#trusted WavBrro::to_file
#opt from=wavbrro
#trusted WavBrro::to_file_with_data
#opt from=wavbrro
#file vsri/src/lib.rs
#trusted Vsri::flush_to
#opt from=vsriio
#trusted Vsri::load
#opt from=vsriio
#file csv-compressor/src/csv.rs
#trusted read_samples_from_csv_file
#opt from=csvcmp
#trusted write_samples_to_csv_file
#opt from=csvcmp
#file csv-compressor/src/metric.rs
#trusted Metric::new
#opt from=metric
#trusted Metric::from_samples
#opt from=metric alias=Error:MetricError
#trusted Metric::get_samples
#opt from=metric
#fn Metric::flush_wavbrro
#opt world=to_file
#spec
    ensures final(fs).files == old(fs).files.insert(pid($1), sig() + rk_enc(self.wbro.img())), final(fs).healthy == old(fs).healthy,
#fn Metric::flush_indexes
#opt world=flush_to
#spec
    ensures
        others(*old(fs), *final(fs), pid($1)),
        ret is Ok ==> final(fs).files == old(fs).files.insert(pid($1), index_text(self.vsri)),
        old(fs).healthy ==> ret is Ok,
#file atsc/src/utils/readers/bro_reader.rs
#trusted read_file
#opt from=cmd alias=Error:IoError
#file csv-compressor/src/main.rs
#trusted compress_data
#opt from=flowcsv
#trusted decompress_data
#opt from=flowcsv
#fn process_csv
#opt world=csv::read_samples_from_csv_file shim=csv::read_samples_from_csv_file:read_samples_from_csv_file
#spec
    requires old(fs).healthy, old(fs).files.dom().contains(pid($1)), exists|s: Seq<Sample>| table_of(old(fs).files[pid($1)], s),
    ensures *final(fs) == *old(fs), ret.wf(), exists|s: Seq<Sample>| #[trigger] table_of(old(fs).files[pid($1)], s) && ret.vals() == vals(s) && ret.vsri.ts() == tods(s),
#start
    proof { lemma_read_once(old(fs).files[pid($1)]); }
#fn process_args
#opt world=read_file,Vsri::load,WavBrro::to_file_with_data,csv::write_samples_to_csv_file,process_csv,flush_wavbrro,flush_indexes,fs::write shim=csv::write_samples_to_csv_file:write_samples_to_csv_file,fs::write:sys::write,unwrap:v_unwrap
#spec
    requires
        args_ok(&$1), old(fs).healthy, old(fs).files.dom().contains(pid(&$1.input)), $1.uncompress ==> old(fs).files[pid(&$1.input)].len() >= 4,
        !$1.uncompress ==> exists|s: Seq<Sample>| table_of(old(fs).files[pid(&$1.input)], s),
        apart(base($1), "vsri"@, "bro"@), apart(base($1), "wavbro"@, "bro"@), apart(base($1), "vsri"@, "wavbro"@),
        $1.uncompress ==> beside(base($1), "wbro"@) != sid(set_ext(set_ext(ppath(&base($1)), "wbro"@), "csv"@)),
        $1.uncompress && bro(old(fs).files[pid(&$1.input)]) ==> exists|t: Seq<int>, d: Seq<f64>| indexed(*old(fs), $1, t, d),
    ensures
        final(fs).healthy,
        !$1.uncompress ==> exists|s: Seq<Sample>| #[trigger] table_of(old(fs).files[pid(&$1.input)], s) && packed(*old(fs), *final(fs), $1, s),
        $1.uncompress && bro(old(fs).files[pid(&$1.input)]) ==> forall|t: Seq<int>, d: Seq<f64>| #[trigger] indexed(*old(fs), $1, t, d) ==> unpacked(*old(fs), *final(fs), $1, t, d),
        $1.uncompress && !bro(old(fs).files[pid(&$1.input)]) ==> *final(fs) == *old(fs),
#start
    hide(is_container); hide(is_index_of);
    let ghost c0 = old(fs).files[pid(&$1.input)];
    proof {
        lemma_read_once(c0);
        if $1.uncompress && bro(c0) {
            assert forall|t: Seq<int>, d: Seq<f64>| #[trigger] indexed(*old(fs), $1, t, d) implies follows(*old(fs), $1, t, d) by { lemma_indexed(*old(fs), $1, t, d); }
        }
        assert forall|s: Seq<Sample>| #[trigger] table_of(c0, s) implies clean_of(vals(s)) == vals(s) && vals(s).len() == tods(s).len() && vals(s).len() < i32::MAX - 4 by { lemma_kept(s); }
        assert forall|i: Img| is_container(sig() + #[trigger] rk_enc(i), flatc(i.c)) by { lemma_container(i); }
        assert forall|v: Vsri| v.wf() && v.ts().len() < i32::MAX - 4 implies is_index_of(#[trigger] index_text(v), v.ts()) by { lemma_index(v, v.ts()); }
    }
#closure 0 || -> (r: Path)
    ensures r == $1.input
#loop 0 for it
                invariant
                    wbro.wf(), flat(wbro.chunks@) == decompressed_data@.take(it.index()), it.seq().len() == decompressed_data@.len(), 0 <= it.index() <= decompressed_data@.len(), decompressed_data@.len() <= i32::MAX,
                    forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == decompressed_data@[k],
#bodyend 0
                proof { assert(decompressed_data@.take(it.index() + 1) =~= decompressed_data@.take(it.index()).push(decompressed_data@[it.index()])); }
#postlude
/// the stream next to the index, as compressing writes them
spec fn pair(g: Args, h: Args) -> bool {
    &&& !g.uncompress && g.output_vsri && !g.no_compression && h.uncompress
    &&& pid(&h.input) == beside(base(g), "bro"@) && beside(h.input, "vsri"@) == beside(base(g), "vsri"@)
}
/// what uncompressing leaves: the time of day of each sample with its value as the codecs give it back
spec fn restored(a: Fs, b: Fs, g: Args, h: Args, s: Seq<Sample>, r: Seq<Sample>, d: Seq<f64>) -> bool {
    let x = sid(set_ext(set_ext(ppath(&base(h)), "wbro"@), "csv"@));
    &&& table_of(a.files[pid(&g.input)], s)
    &&& b.files.dom().contains(x) && b.files[x] == csv_bytes(table(r)) && side(tods(s), d, r)
    &&& r.len() == kept(s).len()
}
proof fn lemma_packed(a: Fs, b: Fs, g: Args, h: Args, s: Seq<Sample>) -> (d: (Seq<f64>, Seq<CompressorFrame>, Seq<usize>))
    requires table_of(a.files[pid(&g.input)], s), packed(a, b, g, s), pair(g, h), apart(base(g), "vsri"@, "bro"@), args_ok(&g),
    ensures indexed(b, h, tods(s), d.0), back(d.0, vals(s), asked(g.compressor), percent(&g), speed(&g), d.1, d.2), bro(b.files[pid(&h.input)]), b.files.dom().contains(pid(&h.input)), d.0.len() == vals(s).len(),
{
    let o = b.files[beside(base(g), "bro"@)];
    let (v, k, max, sp) = (vals(s), asked(g.compressor), percent(&g), speed(&g));
    let (c, f, sizes) = choose|c: u8, f: Seq<CompressorFrame>, sizes: Seq<usize>| #![trigger stream_bytes(1, c, fvs(f)), frames_ok(sizes, true)]
        o == stream_bytes(1, c, fvs(f)) && frames_ok(sizes, true) && total(sizes) == v.len() && so_far(f, v, sizes, sizes.len() as int, k, max, sp);
    lemma_parts(v, k, max, sp, f, sizes, sizes.len() as int);
    lemma_kept(s);
    let d = series(fvs(f));
    assert(o == stream_bytes(1, c, fvs(f)) && decodable(fvs(f)) && series(fvs(f)) == d);
    assert(o.take(4) =~= seq![0x42u8, 0x52u8, 0x52u8, 0x4fu8]);
    (d, f, sizes)
}
/// C22: the samples of a CSV are back, each with its time of day, after compressing with an index and uncompressing
fn across(g: Args, h: Args, Tracked(fs): Tracked<&mut Fs>)
    requires
        pair(g, h), args_ok(&g), args_ok(&h), old(fs).healthy, old(fs).files.dom().contains(pid(&g.input)),
        exists|s: Seq<Sample>| table_of(old(fs).files[pid(&g.input)], s),
        apart(base(g), "vsri"@, "bro"@), apart(base(g), "wavbro"@, "bro"@), apart(base(g), "vsri"@, "wavbro"@),
        apart(base(h), "vsri"@, "bro"@), apart(base(h), "wavbro"@, "bro"@), apart(base(h), "vsri"@, "wavbro"@),
        beside(base(h), "wbro"@) != sid(set_ext(set_ext(ppath(&base(h)), "wbro"@), "csv"@)),
    ensures exists|s: Seq<Sample>, r: Seq<Sample>, d: Seq<f64>, f: Seq<CompressorFrame>, sizes: Seq<usize>|
        #[trigger] restored(*old(fs), *final(fs), g, h, s, r, d) && #[trigger] back(d, vals(s), asked(g.compressor), percent(&g), speed(&g), f, sizes),
{
    process_args(g, Tracked(&mut *fs));
    let ghost m = *fs;
    let ghost s = choose|s: Seq<Sample>| #[trigger] table_of(old(fs).files[pid(&g.input)], s) && packed(*old(fs), m, g, s);
    let ghost (d, f, sizes) = lemma_packed(*old(fs), m, g, h, s);
    process_args(h, Tracked(&mut *fs));
    proof {
        let x = sid(set_ext(set_ext(ppath(&base(h)), "wbro"@), "csv"@));
        assert(unpacked(m, *fs, h, tods(s), d));
        let r = choose|r: Seq<Sample>| fs.files.dom().contains(x) && fs.files[x] == csv_bytes(#[trigger] table(r)) && side(tods(s), d, r);
        lemma_kept(s);
        assert(restored(*old(fs), *fs, g, h, s, r, d));
    }
}
