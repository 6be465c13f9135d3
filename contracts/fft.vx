#! FFT (C11, C12, C02): kept frequencies, decoded output, reported error
#include iter.vxi
#include float.vxi
#include float32.vxi
#include bincode.vxi
#include bitdepth.vxi
#include stats.vxi
#include result.vxi
#include errspec.vxi
#include decimals.vxi
#include promises.vxi
#include bounded.vxi
#file atsc/src/utils/error.rs
#trusted calculate_error
#opt from=error
#use
use core::cmp::Ordering;
#prelude
global size_of usize == 8;
// ---- sizes of transforms: 2^a 3^b
spec fn dec(n: int) -> bool
    decreases n
{ if n <= 0 { false } else if n % 2 == 0 { dec(n / 2) } else if n % 3 == 0 { dec(n / 3) } else { n == 1 } }
spec fn next_dec(n: int, r: int) -> bool { r > n && dec(r) && forall|m: int| n < m < r ==> !dec(m) }
spec fn nsz(n: int) -> int { choose|r: int| next_dec(n, r) }
proof fn lemma_nsz(n: int, r: int)
    requires next_dec(n, r)
    ensures nsz(n) == r
{ let q = nsz(n); assert(next_dec(n, q)); if q < r { assert(!dec(q)); } else if r < q { assert(!dec(r)); } }
spec fn up2(n: int) -> int
    decreases n
{ if n <= 0 { 1 } else { 2 * up2(n / 2) } }
proof fn lemma_up2(n: int)
    requires n >= 0
    ensures up2(n) > n, n > 0 ==> up2(n) <= 2 * n, dec(up2(n))
    decreases n
{ if n > 0 { lemma_up2(n / 2); assert(up2(n) % 2 == 0 && up2(n) / 2 == up2(n / 2)); } else { assert(dec(1)); } }
#file atsc/src/utils/mod.rs
#fn is_decomposable
#spec
    requires $1 > 0,
    ensures ret == dec($1 as int),
#start
        let ghost n0 = $1 as int;
#loop 0 while
            invariant $1 > 0, dec($1 as int) == dec(n0),
            decreases $1
#loop 1 while
            invariant $1 > 0, $1 % 2 != 0, dec($1 as int) == dec(n0),
            decreases $1
#fn next_size
#spec
    requires $1 < 0x1000_0000_0000_0000,
    ensures next_dec($1 as int, ret as int), ret == nsz($1 as int), ret <= 2 * $1 + 1,
#start
        let ghost n0 = $1 as int;
        proof { lemma_up2(n0); }
#loop 0 while
            invariant n0 < 0x1000_0000_0000_0000, n0 < $1 <= up2(n0), up2(n0) <= 2 * n0 + 1, dec(up2(n0)), forall|m: int| n0 < m < $1 ==> !dec(m),
            decreases up2(n0) - $1
#pretail
        proof { assert(next_dec(n0, $1 as int)); lemma_nsz(n0, $1 as int); }
#prelude
// ---- the crate rustfft
mod rfx { use super::*;
pub struct Complex<T> { pub re: T, pub im: T }
impl Copy for Complex<f32> {}
impl Clone for Complex<f32> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub uninterp spec fn nm(c: Complex<f32>) -> f32;
impl Complex<f32> {
    #[verifier::external_body]
    pub fn norm(&self) -> (r: f32) ensures r == nm(*self) { unimplemented!() }
}
/// the discrete Fourier transform the crate computes, and its unnormalised inverse
pub uninterp spec fn fwd(b: Seq<Complex<f32>>) -> Seq<Complex<f32>>;
pub uninterp spec fn inv(b: Seq<Complex<f32>>) -> Seq<Complex<f32>>;
#[verifier::external_body]
pub struct Plan;
impl Plan {
    pub uninterp spec fn len(self) -> int;
    pub uninterp spec fn forward(self) -> bool;
    #[verifier::external_body]
    pub fn process(&self, b: &mut Vec<Complex<f32>>)
        requires old(b)@.len() == self.len(),
        ensures final(b)@ == (if self.forward() { fwd(old(b)@) } else { inv(old(b)@) }), final(b)@.len() == old(b)@.len(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct FftPlanner;
impl FftPlanner {
    #[verifier::external_body]
    pub fn new() -> FftPlanner { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_forward(&mut self, n: usize) -> (r: Plan) ensures r.len() == n, r.forward() { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_inverse(&mut self, n: usize) -> (r: Plan) ensures r.len() == n, !r.forward() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn ax_inv_len(b: Seq<Complex<f32>>) ensures (#[trigger] inv(b)).len() == b.len() {}
#[verifier::external_body]
pub broadcast proof fn ax_fwd_len(b: Seq<Complex<f32>>) ensures (#[trigger] fwd(b)).len() == b.len() {}
// ---- std's BinaryHeap
/// what a heap goes by: the order that `Ord` and `PartialOrd` of the type give
pub trait VOrd: Sized {
    spec fn vcmp(a: Self, b: Self) -> Ordering;
    fn v_cmp(&self, o: &Self) -> (r: Ordering) ensures r == Self::vcmp(*self, *o);
    fn v_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(Self::vcmp(*self, *o));
}
pub open spec fn not_above<T: VOrd>(a: T, b: T) -> bool { T::vcmp(a, b) != Ordering::Greater }
/// a total order, up to ties
pub open spec fn ordered<T: VOrd>(s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] not_above(s[i], s[j]) || not_above(s[j], s[i])
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (T::vcmp(s[i], s[j]) == Ordering::Greater <==> #[trigger] T::vcmp(s[j], s[i]) == Ordering::Less)
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] not_above(s[i], s[j]) && #[trigger] not_above(s[j], s[k]) ==> not_above(s[i], s[k])
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { x: Vec<T> }
/// x is taken out at place m, and nothing is above it
pub open spec fn popped<T: VOrd>(s: Seq<T>, m: int, x: T, rest: Seq<T>) -> bool {
    0 <= m < s.len() && x == s[m] && rest == s.remove(m) && (ordered(s) ==> forall|i: int| 0 <= i < s.len() ==> not_above(#[trigger] s[i], x))
}
impl<T: VOrd> BinaryHeap<T> {
    pub uninterp spec fn items(self) -> Seq<T>;
    #[verifier::external_body]
    pub fn from(v: Vec<T>) -> (r: BinaryHeap<T>) ensures r.items() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r is Some && exists|m: int| #[trigger] popped(old(self).items(), m, r->0, final(self).items()),
    { unimplemented!() }
}
}
use rfx::*;
broadcast use rfx::ax_inv_len;
broadcast use rfx::ax_fwd_len;
type Cx = Complex<f32>;
#file atsc/src/compressor/fft.rs
#item const FFT_COMPRESSOR_ID
#item const DECIMAL_PRECISION
#item struct FrequencyPoint pub
#[derive(Copy, Clone)]
#item struct FFT
#prelude
spec fn cx(f: FrequencyPoint) -> Cx { Complex { re: f.freq_real, im: f.freq_img } }
spec fn conj(f: FrequencyPoint) -> Cx { Complex { re: f.freq_real, im: fmul32(f.freq_img, fneg32(1.0f32)) } }
spec fn fp_cmp(a: FrequencyPoint, b: FrequencyPoint) -> Ordering { if feq32(nm(cx(a)), nm(cx(b))) { Ordering::Equal } else if flt32(nm(cx(b)), nm(cx(a))) { Ordering::Greater } else { Ordering::Less } }
impl VOrd for FrequencyPoint {
    closed spec fn vcmp(a: Self, b: Self) -> Ordering { fp_cmp(a, b) }
    fn v_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
    fn v_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { self.partial_cmp(o) }
}
spec fn zero(c: Cx) -> bool { feq32(c.re, 0.0f32) && feq32(c.im, 0.0f32) }
spec fn point(b: Seq<Cx>, p: int) -> FrequencyPoint { FrequencyPoint { pos: p as u32, freq_real: b[p].re, freq_img: b[p].im } }
/// every point is that of its position, which no other has
spec fn points(b: Seq<Cx>, r: Seq<FrequencyPoint>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).pos < b.len() && r[k] == point(b, r[k].pos as int)
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> (#[trigger] r[j]).pos != (#[trigger] r[k]).pos
}
spec fn kept_at(r: Seq<FrequencyPoint>, p: int) -> bool { exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).pos == p }
/// no magnitude is a NaN
spec fn tidy(b: Seq<Cx>) -> bool { forall|p: int| 0 <= p < b.len() ==> !nan32(nm(#[trigger] b[p])) }
/// r has the m strongest frequencies of b (the mean, when only one is asked for)
spec fn strongest(b: Seq<Cx>, m: int, r: Seq<FrequencyPoint>) -> bool {
    if m == 1 { r.len() == 1 && r[0] == point(b, 0) } else {
        &&& r.len() <= m && points(b, r)
        &&& tidy(b) ==> forall|k: int, p: int| 0 <= k < r.len() && 0 <= p < b.len() && !#[trigger] kept_at(r, p) ==> fle32(nm(b[p]), nm(cx(#[trigger] r[k])))
        &&& r.len() < m && r.len() < b.len() ==> exists|z: int| 0 <= z < b.len() && !kept_at(r, z) && zero(#[trigger] b[z]) && (tidy(b) ==> forall|p: int| 0 <= p < b.len() && !#[trigger] kept_at(r, p) ==> fle32(nm(b[p]), nm(b[z])))
    }
}
#fn FrequencyPoint::from_complex_with_position
#spec
    ensures ret == (FrequencyPoint { pos: $2, freq_real: $1.re, freq_img: $1.im }),
#fn FrequencyPoint::to_complex
#spec
    ensures ret == cx(self),
#fn FrequencyPoint::to_inv_complex
#opt fneg
#spec
    ensures ret == conj(self),
#fn <FrequencyPoint as PartialEq>::eq
#opt inherent
#spec
    ensures ret == feq32(nm(cx(*self)), nm(cx(*$1))),
#fn <FrequencyPoint as PartialOrd>::partial_cmp
#opt inherent
#spec
    ensures ret == Some(fp_cmp(*self, *$1)),
#fn <FrequencyPoint as Ord>::cmp
#opt inherent eqcall=self
#spec
    ensures ret == fp_cmp(*self, *$1),
#fn FFT::f64_to_f32
#opt castf
#spec
    ensures ret == narrow($1),
#fn FFT::new
#spec
    ensures ret.frequencies@.len() == 0, ret.max_value == narrow($3), ret.min_value == narrow($2), ret.error is None, ret.id == FFT_COMPRESSOR_ID,
#prelude
// ---- the padded frame
spec fn fsize(n: int) -> int { if n >= 128 { nsz(n) } else { n } }
spec fn pre(n: int) -> int { (fsize(n) - n) / 2 }
/// g is d with something before and after, to the size of the transform
spec fn padded(g: Seq<f64>, d: Seq<f64>) -> bool { g.len() == fsize(d.len() as int) && forall|k: int| 0 <= k < d.len() ==> g[pre(d.len() as int) + k] == #[trigger] d[k] }
spec fn signal(g: Seq<f64>) -> Seq<Cx> { Seq::new(g.len(), |i: int| Complex { re: narrow(g[i]), im: 0.0f32 }) }
spec fn half(b: Seq<Cx>) -> Seq<Cx> { b.take(b.len() as int / 2 + 1) }
proof fn lemma_size(n: int)
    requires 0 < n < 0x1_0000_0000
    ensures n <= fsize(n) <= 2 * n + 1, 0 <= pre(n), pre(n) + n <= fsize(n), n >= 128 ==> next_dec(n, nsz(n))
{
    if n >= 128 { lemma_up2(n); lemma_least(n, up2(n)); }
}
/// there is a next one, not above any there is
proof fn lemma_least(n: int, r: int)
    requires r > n, dec(r)
    ensures next_dec(n, nsz(n)), nsz(n) <= r
    decreases r - n
{
    if exists|m: int| n < m < r && dec(m) { let m = choose|m: int| n < m < r && dec(m); lemma_least(n, m); }
    else { assert(next_dec(n, r)); lemma_nsz(n, r); }
}
#fn FFT::gibbs_sizing
#spec
    requires 128 <= $1@.len() < 0x1_0000_0000,
    ensures padded(ret@, $1@),
#start
        proof { lemma_size($1@.len() as int); }
#loop 0 for it
            invariant
                0 < $1@.len(), it.seq().len() == suffix_len, result@.len() == prefix_len + $1@.len() + it.index(), forall|k: int| 0 <= k < $1@.len() ==> result@[prefix_len + k] == #[trigger] $1@[k],
#fn FFT::optimize
#opt shim=iter:v_iter
#spec
    ensures ret@ =~= signal($1@),
#closure 0 |$c1: &f64| -> (r: Cx)
    ensures r == (Complex { re: narrow(*$c1), im: 0.0f32 })
#prelude
/// what is left in the heap and what was taken out are all the points
spec fn splits(b: Seq<Cx>, r: Seq<FrequencyPoint>, h: Seq<FrequencyPoint>) -> bool {
    &&& points(b, r) && points(b, h) && r.len() + h.len() == b.len()
    &&& forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < h.len() ==> (#[trigger] r[j]).pos != (#[trigger] h[k]).pos
    &&& forall|p: int| 0 <= p < b.len() ==> #[trigger] kept_at(r, p) || kept_at(h, p)
}
/// nothing left is above anything taken out
spec fn above(r: Seq<FrequencyPoint>, h: Seq<FrequencyPoint>) -> bool { forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < h.len() ==> fle32(nm(cx(#[trigger] h[k])), nm(cx(#[trigger] r[j]))) }
proof fn lemma_pop(b: Seq<Cx>, r: Seq<FrequencyPoint>, h: Seq<FrequencyPoint>, m: int, x: FrequencyPoint, h2: Seq<FrequencyPoint>)
    requires splits(b, r, h), popped(h, m, x, h2), tidy(b) ==> above(r, h)
    ensures
        splits(b, r.push(x), h2), tidy(b) ==> above(r.push(x), h2), x.pos < b.len(), x == point(b, x.pos as int), !kept_at(r, x.pos as int),
        tidy(b) ==> forall|p: int| 0 <= p < b.len() && !#[trigger] kept_at(r, p) ==> fle32(nm(b[p]), nm(cx(x))),
{
    let r2 = r.push(x);
    assert forall|k: int| 0 <= k < h2.len() implies #[trigger] h2[k] == h[if k < m { k } else { k + 1 }] by {}
    assert forall|p: int| 0 <= p < b.len() implies #[trigger] kept_at(r2, p) || kept_at(h2, p) by {
        if kept_at(r, p) { let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).pos == p; assert(r2[k].pos == p); }
        else { let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).pos == p; if k == m { assert(r2[r.len() as int].pos == p); } else { assert(h2[if k < m { k } else { k - 1 }].pos == p); } }
    }
    assert(points(b, h2));
    assert(points(b, r2));
    if tidy(b) {
        assert forall|k: int| 0 <= k < h.len() implies !nan32(nm(cx(#[trigger] h[k]))) by { assert(cx(h[k]) == b[h[k].pos as int]); }
        assert(ordered(h));
        assert forall|k: int| 0 <= k < h.len() implies fle32(nm(cx(#[trigger] h[k])), nm(cx(x))) by { assert(not_above(h[k], x)); }
        assert forall|p: int| 0 <= p < b.len() && !#[trigger] kept_at(r, p) implies fle32(nm(b[p]), nm(cx(x))) by {
            let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).pos == p;
            assert(cx(h[k]) == b[p]);
        }
    }
}
#prelude
/// what a popped point is good for
spec fn good(b: Seq<Cx>, m: int, r: Seq<FrequencyPoint>, x: FrequencyPoint, h2: Seq<FrequencyPoint>) -> bool {
    &&& splits(b, r.push(x), h2) && (tidy(b) ==> above(r.push(x), h2))
    &&& zero(cx(x)) && m != 1 && r.len() < m ==> strongest(b, m, r)
}
proof fn lemma_good(b: Seq<Cx>, m: int, r: Seq<FrequencyPoint>, h: Seq<FrequencyPoint>, i: int, x: FrequencyPoint, h2: Seq<FrequencyPoint>)
    requires splits(b, r, h), popped(h, i, x, h2), tidy(b) ==> above(r, h)
    ensures good(b, m, r, x, h2)
{
    lemma_pop(b, r, h, i, x, h2);
    if zero(cx(x)) && m != 1 && r.len() < m { assert(zero(b[x.pos as int])); lemma_above(b, r, h); }
}
proof fn lemma_above(b: Seq<Cx>, r: Seq<FrequencyPoint>, h: Seq<FrequencyPoint>)
    requires splits(b, r, h), tidy(b) ==> above(r, h)
    ensures tidy(b) ==> forall|k: int, p: int| 0 <= k < r.len() && 0 <= p < b.len() && !#[trigger] kept_at(r, p) ==> fle32(nm(b[p]), nm(cx(#[trigger] r[k]))),
{
    if tidy(b) { assert forall|k: int, p: int| 0 <= k < r.len() && 0 <= p < b.len() && !#[trigger] kept_at(r, p) implies fle32(nm(b[p]), nm(cx(#[trigger] r[k]))) by {
        let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).pos == p;
        assert(cx(h[j]) == b[p]);
    } }
}
impl<'a, T> VIter1<T> for &'a mut [T] {
    open spec fn vi_seq(&self) -> Seq<T> { (**self)@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: VIt<&T>) { VIt { v: self.iter().collect() } }
}
#fn FFT::fft_trim
#opt shim=iter:v_iter
#spec
    requires 0 < old($1)@.len() <= 0x1_0000_0000,
    ensures strongest(old($1)@, $2 as int, ret@), final($1)@ == old($1)@,
#closure 0 |$c1: (usize, &Cx)| -> (r: FrequencyPoint)
    ensures r == (FrequencyPoint { pos: #[verifier::truncate] ($c1.0 as u32), freq_real: $c1.1.re, freq_img: $c1.1.im })
#loop 0 for it
            invariant_except_break
                freq_vec@.len() <= it.index(), freq_vec@.len() == it.index() || heap.items().len() == 0, splits($1@, freq_vec@, heap.items()), tidy($1@) ==> above(freq_vec@, heap.items()),
            invariant
                it.seq().len() == $2, $1@ == old($1)@, $2 != 1,
            ensures
                strongest($1@, $2 as int, freq_vec@) || splits($1@, freq_vec@, heap.items()) && (tidy($1@) ==> above(freq_vec@, heap.items())) && freq_vec@.len() <= $2 && (freq_vec@.len() == $2 || heap.items().len() == 0),
#before 0
        proof { assert(tmp_vec@.len() == $1@.len()); assert forall|p: int| 0 <= p < $1@.len() implies #[trigger] kept_at(heap.items(), p) by { assert(heap.items()[p].pos == p); } assert(splits($1@, freq_vec@, heap.items())); }
#body 0
            proof {
                let (b, m, r, h) = ($1@, $2 as int, freq_vec@, heap.items());
                assert forall|i: int, x: FrequencyPoint, h2: Seq<FrequencyPoint>| #[trigger] popped(h, i, x, h2) implies good(b, m, r, x, h2) by { lemma_good(b, m, r, h, i, x, h2); }
            }
#after 0
        proof { if !strongest($1@, $2 as int, freq_vec@) { lemma_above($1@, freq_vec@, heap.items()); } }
#prelude
impl VInto<u32> for u8 { spec fn vt(self) -> u32 { self as u32 } fn v_into(self) -> (r: u32) { self as u32 } }
/// within the limits, and to d decimals if it was
spec fn lim32(x: f32, lo: f32, hi: f32, d: u32) -> f64 {
    let y = rnd(wide(x), d);
    if flt(wide(hi), y) { wide(hi) } else if flt(y, wide(lo)) || nan(y) { wide(lo) } else { y }
}
/// value at p of the spectrum of the first k points and their mirror images
spec fn spec_at(fs: Seq<FrequencyPoint>, k: int, len: int, p: int) -> Cx
    decreases k
{
    if k <= 0 { Complex { re: 0.0f32, im: 0.0f32 } }
    else if fs[k - 1].pos != 0 && p == len - fs[k - 1].pos { conj(fs[k - 1]) }
    else if p == fs[k - 1].pos { cx(fs[k - 1]) }
    else { spec_at(fs, k - 1, len, p) }
}
spec fn spectrum(fs: Seq<FrequencyPoint>, len: int) -> Seq<Cx> { Seq::new(len as nat, |p: int| spec_at(fs, fs.len() as int, len, p)) }
spec fn flat32(c: FFT) -> bool { feq32(c.max_value, c.min_value) }
spec fn below(fs: Seq<FrequencyPoint>, len: int) -> bool { forall|k: int| 0 <= k < fs.len() ==> (#[trigger] fs[k]).pos < len }
spec fn fits_frame(c: FFT, n: int) -> bool { 0 < n < 0x1_0000_0000 && (flat32(c) || below(c.frequencies@, fsize(n))) }
spec fn value(fs: Seq<FrequencyPoint>, lo: f32, hi: f32, n: int, i: int) -> f64 { lim32(fdiv32(inv(spectrum(fs, fsize(n)))[pre(n) + i].re, of_int32(fsize(n))), lo, hi, 5) }
spec fn values(fs: Seq<FrequencyPoint>, lo: f32, hi: f32, n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| value(fs, lo, hi, n, i)) }
impl FFT {
    spec fn out(self, n: int) -> Seq<f64> { if flat32(self) { Seq::new(n as nat, |i: int| wide(self.max_value)) } else { values(self.frequencies@, self.min_value, self.max_value, n) } }
}
#fn FFT::round
#opt shim=pow:v_pow castf
#spec
    requires $2 <= 9,
    ensures ret == lim32($1, self.min_value, self.max_value, $2),
#fn FFT::get_mirrored_freqs
#spec
    requires below(self.frequencies@, $1 as int),
    ensures ret@ =~= spectrum(self.frequencies@, $1 as int),
#loop 0 for it
            invariant
                below(self.frequencies@, $1 as int), it.seq().len() == self.frequencies@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.frequencies@[i],
                data@.len() == $1, forall|p: int| 0 <= p < $1 ==> #[trigger] data@[p] == spec_at(self.frequencies@, it.index(), $1 as int, p),
#prelude
#[verifier::external_body]
fn v_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
#fn FFT::to_data
#opt castf macro=vec shim=iter:v_iter
#spec
    requires fits_frame(*self, $1 as int),
    ensures ret@ =~= self.out($1 as int),
#start
        proof { lemma_size($1 as int); }
#closure 0 |$c1: &Cx| -> (r: f64)
    ensures r == lim32(fdiv32($c1.re, len), self.min_value, self.max_value, 5)
#prelude
pub assume_specification [usize::is_power_of_two] (n: usize) -> (r: bool);
/// the frequencies kept are the m strongest of the padded samples
spec fn made_of(fs: Seq<FrequencyPoint>, d: Seq<f64>, m: int) -> bool { exists|g: Seq<f64>| #[trigger] padded(g, d) && strongest(half(fwd(signal(g))), m, fs) }
/// how many `compress` asks for
spec fn usual(n: int) -> int { if n / 100 <= 3 { 3 } else { n / 100 } }
#fn FFT::compress_hinted
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        flat32(*old(self)) ==> *final(self) == *old(self),
        !flat32(*old(self)) ==> made_of(final(self).frequencies@, $1@, $2 as int),
        final(self).id == old(self).id, final(self).min_value == old(self).min_value, final(self).max_value == old(self).max_value, final(self).error == old(self).error,
#start
        proof { lemma_size($1@.len() as int); }
#pretail
        proof { assert(padded(g_data@, $1@)); }
#fn FFT::compress
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        flat32(*old(self)) ==> *final(self) == *old(self),
        !flat32(*old(self)) ==> made_of(final(self).frequencies@, $1@, usual($1@.len() as int)),
        final(self).id == old(self).id, final(self).min_value == old(self).min_value, final(self).max_value == old(self).max_value, final(self).error == old(self).error,
#start
        proof { lemma_size($1@.len() as int); }
#pretail
        proof { assert(padded(g_data@, $1@)); }
#prelude
proof fn lemma_strong(b: Seq<Cx>, m: int, fs: Seq<FrequencyPoint>)
    requires strongest(b, m, fs), b.len() > 0
    ensures below(fs, b.len() as int)
{ assert forall|k: int| 0 <= k < fs.len() implies (#[trigger] fs[k]).pos < b.len() by { if m == 1 { assert(fs[k] == point(b, 0)); } } }
proof fn lemma_below(fs: Seq<FrequencyPoint>, d: Seq<f64>, m: int)
    requires made_of(fs, d, m), 0 < d.len() < 0x1_0000_0000
    ensures below(fs, fsize(d.len() as int))
{
    lemma_size(d.len() as int);
    let g = choose|g: Seq<f64>| #[trigger] padded(g, d) && strongest(half(fwd(signal(g))), m, fs);
    lemma_strong(half(fwd(signal(g))), m, fs);
}
/// e is what the error measure gives for what is decoded
spec fn honest(c: FFT, d: Seq<f64>, e: Option<f64>) -> bool { e == Some(err(d, c.out(d.len() as int))) }
#fn FFT::compress_bounded
#opt castf fcast=i32:v_to_i32 shim=max:v_max,into:v_into,iter:v_iter
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        flat32(*old(self)) ==> final(self).frequencies@ == old(self).frequencies@,
        !flat32(*old(self)) ==> exists|m: int| 3 <= m && #[trigger] made_of(final(self).frequencies@, $1@, m),
        honest(*final(self), $1@, final(self).error),
        final(self).id == old(self).id, final(self).min_value == old(self).min_value, final(self).max_value == old(self).max_value,
#start
        proof { lemma_size($1@.len() as int); }
#loop 0 while
            invariant_except_break
                iterations == 0 || honest(*self, $1@, Some(current_err)) && (exists|m: int| 3 <= m && #[trigger] made_of(self.frequencies@, $1@, m)),
                0 <= iterations <= 23, jump <= iterations * ($1@.len() + 3),
            invariant
                0 < $1@.len() < 0x1_0000_0000, !flat32(*old(self)), 3 <= max_freq <= 3 + $1@.len(), padded(g_data@, $1@), prefix_len == pre($1@.len() as int), len == g_data@.len(), len_f32 == of_int32(len as int),
                ifft.len() == len, !ifft.forward(), buff_clone@ == half(fwd(signal(g_data@))), 0 < buff_clone@.len() <= 0x1_0000_0000, buff_clone@.len() <= len, len == fsize($1@.len() as int), 0 <= prefix_len, prefix_len + $1@.len() <= len,
                self.id == old(self).id, self.min_value == old(self).min_value, self.max_value == old(self).max_value,
            ensures
                honest(*self, $1@, Some(current_err)) && (exists|m: int| 3 <= m && #[trigger] made_of(self.frequencies@, $1@, m)),
            decreases 24 - iterations
#body 0
            proof {
                let (d, n, b, lo, hi, m, it) = ($1@, $1@.len() as int, buff_clone@, self.min_value, self.max_value, max_freq + jump, iterations as int);
                assert((it + 1) * (n + 3) == it * (n + 3) + n + 3 && it * (n + 3) <= 23 * (n + 3)) by (nonlinear_arith) requires 0 <= it <= 23, n > 0;
                assert forall|s: Seq<f64>, fs: Seq<FrequencyPoint>| #![trigger each(d, s, d_pct()), strongest(b, m, fs)] s.len() == n && (forall|i: int| 0 <= i < n ==> s[i] == value(fs, lo, hi, n, i)) implies s == values(fs, lo, hi, n) by { assert(s =~= values(fs, lo, hi, n)); }
                assert forall|fs: Seq<FrequencyPoint>| #[trigger] strongest(b, m, fs) implies below(fs, b.len() as int) && made_of(fs, d, m) by { lemma_strong(b, m, fs); }
            }
#after 0
        let ghost m1 = choose|m: int| 3 <= m && #[trigger] made_of(self.frequencies@, $1@, m);
#pretail
        proof { assert(made_of(self.frequencies@, $1@, m1)); }
#closure 0 |$c1: &Cx| -> (r: f64)
    ensures r == lim32(fdiv32($c1.re, len_f32), self.min_value, self.max_value, 5)
#prelude
// ---- stored form
impl Encode for Vec<FrequencyPoint> { closed spec fn toks(&self) -> Seq<Tok> { prim_toks(self@) } open spec fn enc_ok(&self) -> bool { true } #[verifier::external_body] fn encode<__E: bincode::enc::Encoder>(&self, encoder: &mut __E) -> (r: Result<(), bincode::error::EncodeError>) { unimplemented!() } }
impl Decode for Vec<FrequencyPoint> { closed spec fn can(t: Seq<Tok>) -> bool { prim_parse::<Seq<FrequencyPoint>>(t) is Some } closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool { prim_parse::<Seq<FrequencyPoint>>(t) == Some((v@, rest)) } #[verifier::external_body] fn decode<__D: bincode::de::Decoder>(decoder: &mut __D) -> (r: Result<Self, bincode::error::DecodeError>) { unimplemented!() } }
impl BorrowDecode for Vec<FrequencyPoint> { #[verifier::external_body] fn borrow_decode<__D: bincode::de::BorrowDecoder>(decoder: &mut __D) -> (r: Result<Self, bincode::error::DecodeError>) { unimplemented!() } }
spec fn fft_parse(t: Seq<Tok>) -> Option<(u8, Seq<FrequencyPoint>, f32, f32, Seq<Tok>)> {
    match prim_parse::<u8>(t) { None => None, Some((id, t1)) => match prim_parse::<Seq<FrequencyPoint>>(t1) { None => None, Some((s, t2)) => match prim_parse::<f32>(t2) { None => None, Some((hi, t3)) => match prim_parse::<f32>(t3) { None => None, Some((lo, t4)) => Some((id, s, hi, lo, t4)) } } } }
}
/// c is what the encoding of o decodes to
spec fn back_of(o: FFT, c: FFT) -> bool { c.id == o.id && c.frequencies@ == o.frequencies@ && c.max_value == o.max_value && c.min_value == o.min_value && c.error is None }
#fn <FFT as Encode>::encode
#implspec
    open spec fn enc_ok(&self) -> bool { true }
    closed spec fn toks(&self) -> Seq<Tok> { prim_toks(self.id) + (prim_toks(self.frequencies@) + (prim_toks(self.max_value) + prim_toks(self.min_value))) }
#pretail
        proof { assert(encoder.out() =~= old(encoder).out() + self.toks()); }
#fn <FFT as Decode>::decode
#implspec
    closed spec fn can(t: Seq<Tok>) -> bool { fft_parse(t) is Some }
    closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool { fft_parse(t) == Some((v.id, v.frequencies@, v.max_value, v.min_value, rest)) && v.error is None }
#fn <FFT as BorrowDecode>::borrow_decode
#spec
#lemma
proof fn lemma_round(o: FFT)
    ensures FFT::can(o.toks()), forall|v: FFT, rest: Seq<Tok>| #[trigger] FFT::got(o.toks(), v, rest) ==> back_of(o, v),
{
    let z = prim_toks(o.min_value);
    assert(z =~= z + Seq::<Tok>::empty());
}
#fn FFT::to_bytes
#spec
    ensures ret@ == bc_enc(self.toks()),
#fn FFT::decompress
#spec
    requires exists|o: FFT| $1@ == bc_enc(#[trigger] o.toks()),
    ensures forall|o: FFT| $1@ == bc_enc(#[trigger] o.toks()) ==> back_of(o, ret),
#start
        proof { assert forall|o: FFT| true implies FFT::can(#[trigger] o.toks()) && (forall|v: FFT, rest: Seq<Tok>| #[trigger] FFT::got(o.toks(), v, rest) ==> back_of(o, v)) by { lemma_round(o); } }
#prelude
// ---- the properties
/// the limits are those of the samples, in single precision
spec fn limits(o: FFT, d: Seq<f64>, lo: f64, hi: f64) -> bool { o.min_value == narrow(lo) && o.max_value == narrow(hi) && (all_finite(d) ==> bounds(d, lo, hi)) }
/// o was made from the samples d, and holds the m strongest frequencies
spec fn of_data(o: FFT, d: Seq<f64>, m: int) -> bool {
    &&& 0 < d.len() < 0x1_0000_0000 && (flat32(o) || made_of(o.frequencies@, d, m))
    &&& exists|lo: f64, hi: f64| #[trigger] limits(o, d, lo, hi)
}
/// C12: nothing leaves the range of the samples, in single precision
spec fn inside32(d: Seq<f64>, r: Seq<f64>) -> bool { forall|lo: f64, hi: f64| #[trigger] bounds(d, lo, hi) ==> inside(r, wide(narrow(lo)), wide(narrow(hi))) }
spec fn stored(b: Seq<u8>, o: FFT) -> bool { b == bc_enc(o.toks()) }
spec fn frame_of(o: FFT, n: int, b: Seq<u8>) -> bool { stored(b, o) && fits_frame(o, n) }
spec fn can_fft(n: int, b: Seq<u8>) -> bool { exists|o: FFT| #[trigger] frame_of(o, n, b) }
spec fn dec_fft(n: int, b: Seq<u8>) -> Seq<f64> { (choose|o: FFT| #[trigger] frame_of(o, n, b)).out(n) }
/// C11: b holds the m strongest frequencies of d, and decodes to what they make
spec fn fft_frame(d: Seq<f64>, m: int, b: Seq<u8>) -> bool { exists|o: FFT| #[trigger] stored(b, o) && of_data(o, d, m) && dec_fft(d.len() as int, b) == o.out(d.len() as int) }
/// what a run with a bound gives
spec fn fft_result(d: Seq<f64>, max: f64, b: Seq<u8>, e: f64) -> bool { (exists|m: int| 3 <= m && #[trigger] fft_frame(d, m, b)) && e == err(d, dec_fft(d.len() as int, b)) }
proof fn lemma_one(b: Seq<u8>, n: int, o: FFT)
    requires frame_of(o, n, b)
    ensures can_fft(n, b), dec_fft(n, b) == o.out(n)
{
    let o2 = choose|o: FFT| #[trigger] frame_of(o, n, b);
    lemma_round(o); lemma_round(o2);
    ax_one_way::<FFT>(o.toks(), o2.toks());
}
proof fn lemma_encoded(b: Seq<u8>, o: FFT, d: Seq<f64>, m: int)
    requires of_data(o, d, m), stored(b, o)
    ensures
        can_fft(d.len() as int, b), fft_frame(d, m, b), dec_fft(d.len() as int, b).len() == d.len(), all_finite(d) ==> inside32(d, dec_fft(d.len() as int, b)),
        forall|e: f64| #[trigger] honest(o, d, Some(e)) ==> e == err(d, dec_fft(d.len() as int, b)),
{
    let n = d.len() as int;
    if !flat32(o) { lemma_below(o.frequencies@, d, m); }
    assert(frame_of(o, n, b));
    lemma_one(b, n, o);
    let r = o.out(n);
    if all_finite(d) {
        let (l0, h0) = choose|lo: f64, hi: f64| #[trigger] limits(o, d, lo, hi);
        assert forall|lo: f64, hi: f64| #[trigger] bounds(d, lo, hi) implies inside(r, wide(narrow(lo)), wide(narrow(hi))) by {
            assert(fle(lo, d[0]) && fle(d[0], hi));
            ax_narrow_order(l0, h0); ax_narrow_order(lo, l0); ax_narrow_order(h0, hi);
            assert(fle(wide(narrow(l0)), wide(narrow(h0)))); assert(fle(wide(narrow(lo)), wide(narrow(l0)))); assert(fle(wide(narrow(h0)), wide(narrow(hi))));
            assert forall|i: int| 0 <= i < r.len() implies fle(wide(narrow(lo)), #[trigger] r[i]) && fle(r[i], wide(narrow(hi))) by {}
        }
    }
}
/// C11: the spectrum that is transformed back is the kept frequencies and their mirror images, and nothing else
proof fn lemma_spectrum(fs: Seq<FrequencyPoint>, k: int, len: int, p: int)
    requires 0 <= k <= fs.len(), 0 <= p < len, forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).pos != (#[trigger] fs[j]).pos, forall|i: int| 0 <= i < fs.len() ==> 2 * (#[trigger] fs[i]).pos <= len
    ensures
        forall|i: int| 0 <= i < k && (#[trigger] fs[i]).pos == p && 2 * p != len ==> spec_at(fs, k, len, p) == cx(fs[i]),
        forall|i: int| 0 <= i < k && (#[trigger] fs[i]).pos != 0 && fs[i].pos == len - p ==> spec_at(fs, k, len, p) == conj(fs[i]),
        (forall|i: int| 0 <= i < k ==> (#[trigger] fs[i]).pos != p && (fs[i].pos == 0 || fs[i].pos != len - p)) ==> spec_at(fs, k, len, p) == (Complex { re: 0.0f32, im: 0.0f32 }),
    decreases k
{ if k > 0 { lemma_spectrum(fs, k - 1, len, p); } }
#prelude
/// lo and hi are samples, and the first n are between
spec fn span(d: Seq<f64>, n: int, lo: f64, hi: f64) -> bool { (exists|i: int| 0 <= i < d.len() && lo == #[trigger] d[i]) && (exists|i: int| 0 <= i < d.len() && hi == #[trigger] d[i]) && forall|i: int| 0 <= i < n ==> fle(lo, #[trigger] d[i]) && fle(d[i], hi) }
#fn fft
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        can_fft($1@.len() as int, ret@), dec_fft($1@.len() as int, ret@).len() == $1@.len(), fft_frame($1@, usual($1@.len() as int), ret@),
        all_finite($1@) ==> inside32($1@, dec_fft($1@.len() as int, ret@)),
#loop 0 for it
            invariant
                it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $1@[i], 0 < $1@.len(),
                all_finite($1@) ==> span($1@, it.index(), min, max),
#after 0
        proof { assert(all_finite($1@) ==> bounds($1@, min, max)); }
        let ghost lo = min;
        let ghost hi = max;
#pretail
        proof { assert(limits(c, $1@, lo, hi)); lemma_encoded(bc_enc(c.toks()), c, $1@, usual($1@.len() as int)); }
#fn fft_set
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        can_fft($1@.len() as int, ret@), dec_fft($1@.len() as int, ret@).len() == $1@.len(), fft_frame($1@, $2 as int, ret@),
        all_finite($1@) ==> inside32($1@, dec_fft($1@.len() as int, ret@)),
#loop 0 for it
            invariant
                it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $1@[i], 0 < $1@.len(),
                all_finite($1@) ==> span($1@, it.index(), min, max),
#after 0
        proof { assert(all_finite($1@) ==> bounds($1@, min, max)); }
        let ghost lo = min;
        let ghost hi = max;
#pretail
        proof { assert(limits(c, $1@, lo, hi)); lemma_encoded(bc_enc(c.toks()), c, $1@, $2 as int); }
#fn fft_allowed_error
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        can_fft($1@.len() as int, ret.compressed_data@), dec_fft($1@.len() as int, ret.compressed_data@).len() == $1@.len(), fft_result($1@, $2, ret.compressed_data@, ret.error),
        all_finite($1@) ==> inside32($1@, dec_fft($1@.len() as int, ret.compressed_data@)),
        ret.error == err($1@, dec_fft($1@.len() as int, ret.compressed_data@)),
#loop 0 for it
            invariant
                it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $1@[i], 0 < $1@.len(),
                all_finite($1@) ==> span($1@, it.index(), min, max),
#after 0
        proof { assert(all_finite($1@) ==> bounds($1@, min, max)); }
        let ghost lo = min;
        let ghost hi = max;
#pretail
        proof { let m = if flat32(c) { 3 } else { choose|m: int| 3 <= m && #[trigger] made_of(c.frequencies@, $1@, m) }; assert(limits(c, $1@, lo, hi)); lemma_encoded(bc_enc(c.toks()), c, $1@, m); }
#fn fft_compressor
#spec
    requires 0 < $1@.len() < 0x1_0000_0000, stats_of($3, $1@),
    ensures
        can_fft($1@.len() as int, ret.compressed_data@), dec_fft($1@.len() as int, ret.compressed_data@).len() == $1@.len(), fft_result($1@, $2, ret.compressed_data@, ret.error),
        all_finite($1@) ==> inside32($1@, dec_fft($1@.len() as int, ret.compressed_data@)),
        ret.error == err($1@, dec_fft($1@.len() as int, ret.compressed_data@)),
#pretail
        proof { let m = if flat32(c) { 3 } else { choose|m: int| 3 <= m && #[trigger] made_of(c.frequencies@, $1@, m) }; assert(limits(c, $1@, $3.min, $3.max)); lemma_encoded(bc_enc(c.toks()), c, $1@, m); }
#fn fft_to_data
#spec
    requires can_fft($1 as int, $2@),
    ensures ret@ == dec_fft($1 as int, $2@),
#start
        proof { let o0 = choose|o: FFT| #[trigger] frame_of(o, $1 as int, $2@); assert(stored($2@, o0)); lemma_one($2@, $1 as int, o0); }
