#! Legacy WAV conversion (C24).  hound and clap are replaced by stand-ins.
#include iter.vxi
#include fs.vxi
#include float.vxi
#include wbspec.vxi
#prelude
mod hx { use super::*;
/// a valid 16-bit WAV file: its channels and its samples in file order
pub struct Wav { pub channels: int, pub samples: Seq<i16> }
pub uninterp spec fn wav_dec(c: Seq<u8>) -> Option<Wav>;
/// the file system holds no WAV file with as many as 2^32 - 1 samples
pub uninterp spec fn small(fs: Fs) -> bool;
pub open spec fn u16_of(x: i16) -> int { if x < 0 { x + 65536 } else { x as int } }
/// the float whose bits are these four samples, the first least significant
pub open spec fn is_join(x: f64, a: int, b: int, c: int, d: int) -> bool { bits(x) == a + b * 65536 + c * 0x1_0000_0000 + d * 0x1_0000_0000_0000 }
pub open spec fn joined(s: Seq<i16>, r: Seq<f64>) -> bool { r.len() == s.len() / 4 && forall|k: int| 0 <= k < r.len() ==> is_join(#[trigger] r[k], u16_of(s[4 * k]), u16_of(s[4 * k + 1]), u16_of(s[4 * k + 2]), u16_of(s[4 * k + 3])) }
pub open spec fn not_nan() -> spec_fn(f64) -> bool { |x: f64| !nan(x) }
#[verifier::external_body]
pub fn v_debug_assert(b: bool) ensures b { unimplemented!() }
}
use hx::*;
type PathBuf = Path;
impl Path {
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> sid(r->0@) == pid(self) { unimplemented!() }
    #[verifier::external_body]
    fn new<S: VName>(s: &S) -> (r: &Path) ensures pid(r) == sid(s.vname()) { unimplemented!() }
}
trait VName { spec fn vname(&self) -> Seq<char>; }
impl VName for String { spec fn vname(&self) -> Seq<char> { self@ } }
mod hound { use super::*;
    #[verifier::external_body]
    pub struct WavReader {}
    pub struct Error {}
    impl std::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> Result<(), std::fmt::Error> { Ok(()) } }
    pub struct WavSpec { pub channels: u16 }
    pub uninterp spec fn wav(r: WavReader) -> Wav;
    impl WavReader {
        #[verifier::external_body]
        pub fn open(name: &str, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<WavReader, Error>)
            ensures *final(fs) == *old(fs),
                r is Ok ==> old(fs).files.dom().contains(sid(name@)) && wav_dec(old(fs).files[sid(name@)]) == Some(wav(r->Ok_0)),
                r is Ok && small(*old(fs)) ==> wav(r->Ok_0).samples.len() < u32::MAX,
                old(fs).healthy && old(fs).files.dom().contains(sid(name@)) && wav_dec(old(fs).files[sid(name@)]) is Some ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn spec(&self) -> (r: WavSpec) ensures r.channels == wav(*self).channels { unimplemented!() }
        #[verifier::external_body]
        pub fn samples<S>(&mut self) -> (r: Vec<Result<i16, Error>>)
            ensures r@.len() == wav(*old(self)).samples.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == Ok::<i16, Error>(wav(*old(self)).samples[i])
        { unimplemented!() }
    }
}
spec fn riff(c: Seq<u8>) -> bool { c.len() >= 12 && c.subrange(0, 4) =~= seq![0x52u8, 0x49u8, 0x46u8, 0x46u8] && c.subrange(8, 12) =~= seq![0x57u8, 0x41u8, 0x56u8, 0x45u8] }
spec fn at_(r: Seq<Result<i16, hound::Error>>, i: int) -> i16 { r[i]->Ok_0 }
spec fn quad(x: f64, r: Seq<Result<i16, hound::Error>>, k: int) -> bool { is_join(x, u16_of(at_(r, 4 * k)), u16_of(at_(r, 4 * k + 1)), u16_of(at_(r, 4 * k + 2)), u16_of(at_(r, 4 * k + 3))) }
spec fn is_wav(fs: Fs, id: int, r: Seq<Result<i16, hound::Error>>) -> bool {
    let w = wav_dec(fs.files[id]);
    fs.files.dom().contains(id) && w is Some && r.len() == w->0.samples.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] at_(r, i) == w->0.samples[i] && r[i] is Ok
}
#file tools/src/bin/wav2wbro.rs
#fn is_wav_file
#opt world=File::open,read_exact beq shim=starts_with:v_starts_with,expect:v_expect
#spec
    ensures *final(fs) == *old(fs), ret == riff(old(fs).files[pid($1)]), old(fs).files.dom().contains(pid($1)),
#fn join_u16_into_f64
#spec
    ensures is_join(ret, $1[0] as int, $1[1] as int, $1[2] as int, $1[3] as int),
#pretail
    proof {
        let (a, b, c, d) = ($1[0], $1[1], $1[2], $1[3]);
        assert((a as u64) | ((b as u64) << 16) | ((c as u64) << 32) | ((d as u64) << 48) == (a as u64) + (b as u64) * 65536 + (c as u64) * 0x1_0000_0000 + (d as u64) * 0x1_0000_0000_0000) by (bit_vector);
    }
#fn read_metrics_from_wav
#opt world=hound::WavReader::open shim=unwrap:v_unwrap
#spec
    requires old(fs).files.dom().contains(sid($1@)) && wav_dec(old(fs).files[sid($1@)]) is Some ==> wav_dec(old(fs).files[sid($1@)])->0.channels == 4,
    ensures
        *final(fs) == *old(fs),
        old(fs).healthy && old(fs).files.dom().contains(sid($1@)) && wav_dec(old(fs).files[sid($1@)]) is Some ==> joined(wav_dec(old(fs).files[sid($1@)])->0.samples, ret@),
        small(*old(fs)) ==> ret@.len() < u32::MAX,
#loop 0 for it
        invariant
            num_channels == 4, is_wav(*old(fs), sid($1@), it.seq()),
            0 <= it.index() <= it.seq().len(),
            current_channel == it.index() % 4,
            raw_data@.len() == it.index() / 4,
            forall|k: int| 0 <= k < raw_data@.len() ==> quad(#[trigger] raw_data@[k], it.seq(), k),
            forall|j: int| 0 <= j < current_channel ==> u64_holder[j] == u16_of((#[trigger] at_(it.seq(), 4 * (it.index() / 4) + j))),
#body 0
            proof { let x = at_(it.seq(), it.index() as int); assert((x as u16) as int == u16_of(x)) by { assert(x >= 0 ==> x as u16 as i16 == x) by (bit_vector); assert(x < 0 ==> (x as u16) as i32 == (x as i32) + 65536) by (bit_vector); assert(x >= 0 ==> (x as u16) as i32 == x as i32) by (bit_vector); } }
            let ghost q = it.index() / 4;
            let ghost rs = it.seq();
            let ghost ix = it.index();
#bodyend 0
            proof {
                if ix % 4 == 3 {
                    assert(raw_data@.len() == q + 1);
                    assert(u64_holder[0] == u16_of(at_(rs, 4 * q + 0)));
                    assert(u64_holder[1] == u16_of(at_(rs, 4 * q + 1)));
                    assert(u64_holder[2] == u16_of(at_(rs, 4 * q + 2)));
                    assert(u64_holder[3] == u16_of(at_(rs, ix as int)));
                    assert(quad(raw_data@[q as int], rs, q as int));
                }
            }
#item struct Args
#prelude
mod env_logger { #[verifier::external_body] pub fn init() { } }
uninterp spec fn the_args() -> Args;
impl Args { #[verifier::external_body] fn parse() -> (r: Args) ensures r == the_args() { unimplemented!() } }
trait VStrip { spec fn vsp(&self) -> Seq<char>; fn v_strip_suffix(&self, p: &str) -> (r: Option<&str>) ensures r is Some ==> self.vsp() == r->0@ + p@; }
impl VStrip for str { spec fn vsp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_strip_suffix(&self, p: &str) -> (r: Option<&str>) { self.strip_suffix(p) } }
/// format!("{}<tail>", a) for a tail without braces
#[verifier::external_body]
fn v_format(f: &str, a: &str) -> (r: String)
    ensures f@.len() >= 2 && f@[0] == '{' && f@[1] == '}' && (forall|i: int| 2 <= i < f@.len() ==> f@[i] != '{' && f@[i] != '}') ==> r@ == a@ + f@.skip(2)
{ unimplemented!() }
#[verifier::external_body]
fn v_assert(c: bool) ensures c { assert!(c) }
#[verifier::external_body]
fn v_assert_eq<T>(a: T, b: T) { unimplemented!() }
spec fn wbro_name(a: Seq<char>, b: Seq<char>) -> bool { exists|s: Seq<char>| a == #[trigger] (s + "wav"@) && b == s + "wbro"@ }
spec fn converts(a: Fs, b: Fs, name: Seq<char>) -> bool {
    let w = wav_dec(a.files[sid(name)]);
    w is Some ==> exists|i: Img, all: Seq<f64>, out: Seq<char>| #![trigger rk_enc(i), joined(w->0.samples, all), sid(out)] wbro_name(name, out) && joined(w->0.samples, all) && flatc(i.c) == all.filter(not_nan())
        && b.files == a.files.insert(sid(out), sig() + rk_enc(i))
}
#file wavbrro/src/wavbrro.rs
#trusted WavBrro::new
#opt from=wavbrro
#trusted WavBrro::add_sample
#opt from=wavbrro
#trusted WavBrro::get_samples
#opt from=wavbrro
#trusted WavBrro::to_file
#opt from=wavbrro
#file tools/src/bin/wav2wbro.rs
#fn main
#opt rename=main_ world=is_wav_file,read_metrics_from_wav,to_file shim=unwrap:v_unwrap,strip_suffix:v_strip_suffix macro=assert,assert_eq,format
#spec
    requires
        old(fs).healthy, small(*old(fs)),
        forall|k: int| #[trigger] old(fs).files.dom().contains(k) && wav_dec(old(fs).files[k]) is Some ==> wav_dec(old(fs).files[k])->0.channels == 4,
    ensures
        exists|name: Seq<char>| sid(name) == pid(&the_args().input) && #[trigger] converts(*old(fs), *final(fs), name),
#each 0 it
        invariant
            wb.wf(), flat(wb.chunks@) == wav_data@.take(it.index()).filter(not_nan()), it.seq().len() == wav_data@.len(), it.index() <= wav_data@.len(), wav_data@.len() < u32::MAX,
            forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == wav_data@[k],
#eachbody 0
        proof {
            let t = wav_data@.take(it.index() + 1);
            assert(t.drop_last() =~= wav_data@.take(it.index()));
            reveal(Seq::filter);
            wav_data@.take(it.index()).lemma_filter_len(not_nan());
        }
#pretail
    proof {
        reveal_strlit("wav"); reveal_strlit("wbro"); reveal_strlit("{}wbro");
        assert("{}wbro"@.skip(2) =~= "wbro"@);
        assert(wav_data@.take(wav_data@.len() as int) =~= wav_data@);
        let w = wav_dec(old(fs).files[sid(filename@)]);
        if w is Some {
            assert(joined(w->0.samples, wav_data@));
            assert(wbro_name(filename@, wavbrro_file@));
            assert(flatc(wb.img().c) == wav_data@.filter(not_nan()));
            assert(fs.files =~= old(fs).files.insert(sid(wavbrro_file@), sig() + rk_enc(wb.img())));
        }
        assert(converts(*old(fs), *fs, filename@));
    }
