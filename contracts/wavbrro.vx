#! The sample container (C20)
#include iter.vxi
#include fs.vxi
#file wavbrro/src/wavbrro.rs
#item const MAX_CHUNK_SIZE
#include wbspec.vxi
#prelude
mod wx { use super::*;
/// the chunk with number i of `d`
pub open spec fn piece(d: Seq<f64>, n: int, i: int) -> Seq<f64> { d.subrange(i * n, if (i + 1) * n < d.len() { (i + 1) * n } else { d.len() as int }) }
pub open spec fn pieces(d: Seq<f64>, n: int) -> int { (d.len() + n - 1) / n }
pub open spec fn split(p: Seq<Vec<f64>>, d: Seq<f64>) -> bool { p.len() == pieces(d, 2048) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@ == piece(d, 2048, i) }
proof fn lemma_split_take(p: Seq<Vec<f64>>, d: Seq<f64>, k: int)
    requires split(p, d), 0 <= k <= p.len()
    ensures flat(p.take(k)) == d.take(if k * 2048 < d.len() { k * 2048 } else { d.len() as int })
    decreases k
{
    if k > 0 {
        lemma_split_take(p, d, k - 1);
        assert(p.take(k).drop_last() =~= p.take(k - 1));
        assert(p.take(k).last() == p[k - 1]);
        assert(p[k - 1]@ == piece(d, 2048, k - 1));
        assert((k - 1) * 2048 < d.len());
        assert(flat(p.take(k)) =~= d.take(if k * 2048 < d.len() { k * 2048 } else { d.len() as int }));
    } else { assert(p.take(0).len() == 0); assert(flat(p.take(0)) =~= Seq::<f64>::empty()); assert(d.take(0) =~= Seq::<f64>::empty()); }
}
/// the pieces of a series together are the series
pub broadcast proof fn lemma_split(p: Seq<Vec<f64>>, d: Seq<f64>)
    requires split(p, d)
    ensures #![trigger flat(p), pieces(d, 2048)] flat(p) == d, forall|i: int| 0 <= i < p.len() - 1 ==> (#[trigger] p[i])@.len() == 2048, p.len() > 0 ==> 0 < p.last()@.len() <= 2048
{
    lemma_split_take(p, d, p.len() as int);
    assert(p.take(p.len() as int) =~= p);
    assert(d.take(d.len() as int) =~= d);
    assert forall|i: int| 0 <= i < p.len() - 1 implies (#[trigger] p[i])@.len() == 2048 by { assert(p[i]@ == piece(d, 2048, i)); }
    if p.len() > 0 { assert(p.last()@ == piece(d, 2048, p.len() - 1)); }
}
}
use wx::*;
broadcast use wx::lemma_split;
impl VIt<Vec<f64>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: VIt<f64>) ensures r.sq() == flat(self.sq()) { VIt { v: self.v.into_iter().flatten().collect() } }
}
trait VChunks<'a>: Sized {
    spec fn vc_seq(&self) -> Seq<f64>;
    fn v_chunks(self, n: usize) -> (r: VIt<&'a [f64]>)
        requires n > 0,
        ensures r.sq().len() == pieces(self.vc_seq(), n as int), forall|i: int| 0 <= i < r.sq().len() ==> (#[trigger] r.sq()[i])@ == piece(self.vc_seq(), n as int, i);
}
impl<'a> VChunks<'a> for &'a [f64] {
    spec fn vc_seq(&self) -> Seq<f64> { self@ }
    #[verifier::external_body]
    fn v_chunks(self, n: usize) -> (r: VIt<&'a [f64]>) { VIt { v: self.chunks(n).collect() } }
}
trait VInto: Sized { spec fn vn_seq(&self) -> Seq<f64>; fn v_into(self) -> (r: Vec<f64>) ensures r@ == self.vn_seq(); }
impl<'a> VInto for &'a [f64] { spec fn vn_seq(&self) -> Seq<f64> { self@ } #[verifier::external_body] fn v_into(self) -> (r: Vec<f64>) { self.into() } }

#fn WavBrro::new
#spec
    ensures ret.wf(), flat(ret.chunks@) == Seq::<f64>::empty(),
#fn <WavBrro as Default>::default
#opt inherent
#spec
    ensures ret.wf(), flat(ret.chunks@) == Seq::<f64>::empty(),
#fn WavBrro::is_chunk_full
#spec
    ensures ret == (self.chunks@.len() == 0 || self.chunks@.last()@.len() >= 2048),
#fn WavBrro::create_chunk
#spec
    ensures final(self).sample_count == old(self).sample_count, final(self).bitdepth == old(self).bitdepth,
        exists|e: Vec<f64>| e@.len() == 0 && final(self).chunks@ == #[trigger] old(self).chunks@.push(e),
#fn WavBrro::add_sample
#spec
    requires old(self).wf(), old(self).sample_count < u32::MAX,
    ensures final(self).wf(), flat(final(self).chunks@) == flat(old(self).chunks@).push($1), final(self).sample_count == old(self).sample_count + 1,
#pretail
        proof {
            let (p, q) = (old(self).chunks@, self.chunks@);
            assert(flat(q) =~= flat(p).push($1)) by {
                if p.len() > 0 && p.last()@.len() < 2048 {
                    assert(q.drop_last() =~= p.drop_last());
                    assert(q.last()@ =~= p.last()@.push($1));
                } else {
                    assert(q.drop_last() =~= p);
                    assert(q.last()@ =~= seq![$1]);
                }
            }
        }
#fn WavBrro::get_samples
#opt shim=into_iter:v_into_iter
#spec
    ensures ret@ == flat(self.chunks@),
#fn WavBrro::from_slice
#opt shim=chunks:v_chunks,into:v_into
#spec
    requires $1@.len() <= u32::MAX,
    ensures ret.wf(), flat(ret.chunks@) == $1@,
#closure 0 |$c1: &[f64]| -> (r: Vec<f64>)
    ensures r@ == $c1@
#prelude
trait VImg: Sized { spec fn vimg(&self) -> Img; }
impl VImg for WavBrro { spec fn vimg(&self) -> Img { self.img() } }
mod rkyv { use super::*;
    pub type AlignedVec = Vec<u8>;
    pub struct DecodeError {}
    impl std::fmt::Debug for DecodeError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> Result<(), std::fmt::Error> { Ok(()) } }
    #[verifier::external_body]
    pub(super) fn to_bytes<T: VImg, const N: usize>(x: &T) -> (r: Result<Vec<u8>, DecodeError>) ensures r is Ok, r->Ok_0@ == rk_enc(x.vimg()) { unimplemented!() }
    #[verifier::external_body]
    pub(super) fn from_bytes<T: VImg>(b: &[u8]) -> (r: Result<T, DecodeError>)
        ensures r is Ok ==> rk_dec(b@) == Some(r->Ok_0.vimg()), rk_dec(b@) is Some ==> r is Ok
    { unimplemented!() }
}
#item enum Error pub
#prelude
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: io::Error) -> Error { Error::IoError(v) } }
#fn <Error as From<io::Error>>::from
#file wavbrro/src/read.rs
#fn is_wavbrro_file
#opt world=fs::File::open,File::open,read_exact beq
#spec
    ensures
        *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 12 && ret->Ok_0 == signed(old(fs).files[pid($1)]),
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) && old(fs).files[pid($1)].len() >= 12 ==> ret is Ok,
#fn read_wavbrro_file
#opt world=fs::File::open,File::open,seek,read_to_end
#spec
    ensures
        *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && ret->Ok_0@ == rest(old(fs).files[pid($1)], 12),
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) ==> ret is Ok,
#file wavbrro/src/write.rs
#fn write_wavbrro_file
#opt world=File::create,write_all_at,write_all shim=expect:v_expect
#spec
    ensures final(fs).files == old(fs).files.insert(pid($1), sig() + $2@), final(fs).healthy == old(fs).healthy,
#pretail
    proof { assert(fs.files[pid($1)] =~= sig() + $2@); assert(fs.files =~= old(fs).files.insert(pid($1), sig() + $2@)); }
#file wavbrro/src/wavbrro.rs
#fn WavBrro::to_bytes
#spec
    ensures ret@ == rk_enc(self.img()),
#fn WavBrro::from_file
#opt world=is_wavbrro_file,read_wavbrro_file
#spec
    ensures
        *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && signed(old(fs).files[pid($1)])
            && rk_dec(rest(old(fs).files[pid($1)], 12)) is Some && ret->Ok_0@ == flatc(rk_dec(rest(old(fs).files[pid($1)], 12))->0.c),
        old(fs).healthy && old(fs).files.dom().contains(pid($1)) && signed(old(fs).files[pid($1)]) && rk_dec(rest(old(fs).files[pid($1)], 12)) is Some ==> ret is Ok,
#closure 0 |$c1: rkyv::DecodeError| -> (r: Error)
    ensures r is FormatError
#fn WavBrro::to_file
#opt world=write_wavbrro_file
#spec
    ensures final(fs).files == old(fs).files.insert(pid($1), sig() + rk_enc(self.img())), final(fs).healthy == old(fs).healthy,
#fn WavBrro::to_file_with_data
#opt world=write_wavbrro_file
#spec
    requires $2@.len() <= u32::MAX,
    ensures
        final(fs).healthy == old(fs).healthy,
        exists|i: Img| final(fs).files == old(fs).files.insert(pid($1), sig() + #[trigger] rk_enc(i)) && flatc(i.c) == $2@,
#postlude
/// what is written comes back, and nothing else is touched
fn write_then_read(p: &Path, data: &[f64], Tracked(fs): Tracked<&mut Fs>)
    requires data@.len() <= u32::MAX, old(fs).healthy
{
    WavBrro::to_file_with_data(p, data, Tracked(&mut *fs));
    let r = WavBrro::from_file(p, Tracked(&mut *fs));
    assert(r is Ok && r->Ok_0@ == data@);
}
fn write_then_read_container(p: &Path, w: &WavBrro, Tracked(fs): Tracked<&mut Fs>)
    requires old(fs).healthy
{
    w.to_file(p, Tracked(&mut *fs));
    let r = WavBrro::from_file(p, Tracked(&mut *fs));
    assert(r is Ok && r->Ok_0@ == flat(w.chunks@));
}
