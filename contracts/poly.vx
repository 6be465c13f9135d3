#! Polynomial and IDW (C12, C13, C02): kept samples, decoded output, reported error
#include iter.vxi
#include float.vxi
#include bincode.vxi
#include bitdepth.vxi
#include stats.vxi
#include result.vxi
#include errspec.vxi
#include round.vxi
#include promises.vxi
#include bounded.vxi
#file atsc/src/utils/error.rs
#trusted calculate_error
#opt from=error
#prelude
// ---- the crates splines and inverse_distance_weight
mod sx { use super::*;
pub enum Interpolation { CatmullRom, Linear }
pub struct Key { pub t: f64, pub value: f64, pub interpolation: Interpolation }
impl Key { pub fn new(t: f64, value: f64, interpolation: Interpolation) -> (r: Key) ensures r == (Key { t, value, interpolation }) { Key { t, value, interpolation } } }
#[verifier::external_body]
pub struct Spline;
pub uninterp spec fn spl_at(keys: Seq<Key>, t: f64) -> Option<f64>;
impl Spline {
    pub uninterp spec fn keys(self) -> Seq<Key>;
    #[verifier::external_body]
    pub fn from_vec(keys: Vec<Key>) -> (r: Spline) ensures r.keys() == keys@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clamped_sample(&self, t: f64) -> (r: Option<f64>) ensures r == spl_at(self.keys(), t) { unimplemented!() }
}
/// magnitude up to 1e300
pub open spec fn tame(x: f64) -> bool { mag(x) <= 0x7e37_e43c_8800_759c }
/// the keys are at the whole numbers p[0] < p[1] < .., and no Catmull-Rom segment lacks a neighbour
pub open spec fn well_keyed(keys: Seq<Key>, p: Seq<int>) -> bool {
    &&& keys.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < 0x1_0000_0000 && keys[k].t == of_int(p[k]) && tame(keys[k].value) && (keys[k].interpolation is CatmullRom ==> 0 < k && k + 2 < p.len())
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> #[trigger] p[j] < #[trigger] p[k]
}
/// assumed of the crate: at the place of a key, the interpolation is the value of the key
#[verifier::external_body]
pub proof fn ax_spline(keys: Seq<Key>, p: Seq<int>, k: int) requires well_keyed(keys, p), 0 <= k < p.len() ensures spl_at(keys, of_int(p[k])) is Some, feq(spl_at(keys, of_int(p[k]))->0, keys[k].value) {}
#[verifier::external_body]
pub struct IDW;
pub uninterp spec fn idw_at(points: Seq<f64>, values: Seq<f64>, t: f64) -> f64;
impl IDW {
    pub uninterp spec fn points(self) -> Seq<f64>;
    pub uninterp spec fn values(self) -> Seq<f64>;
    #[verifier::external_body]
    pub fn new(points: Vec<f64>, values: Vec<f64>) -> (r: IDW) requires points@.len() == values@.len(), points@.len() > 0, ensures r.points() == points@, r.values() == values@ { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate(&self, t: f64) -> (r: f64) ensures r == idw_at(self.points(), self.values(), t) { unimplemented!() }
}
/// assumed of the crate: at the place of a point, the result is the value of the point
#[verifier::external_body]
pub proof fn ax_idw(points: Seq<f64>, values: Seq<f64>, p: Seq<int>, k: int)
    requires points.len() == p.len(), values.len() == p.len(), 0 <= k < p.len(), forall|j: int| 0 <= j < p.len() ==> 0 <= #[trigger] p[j] < 0x1_0000_0000 && points[j] == of_int(p[j]), forall|j: int, l: int| 0 <= j < l < p.len() ==> #[trigger] p[j] < #[trigger] p[l],
    ensures idw_at(points, values, of_int(p[k])) == values[k] {}
}
use sx::*;
#file atsc/src/compressor/polynomial.rs
#item enum PolynomialType pub
#[derive(PartialEq)]
#item enum Method pub
#item struct Polynomial
#prelude
global size_of usize == 8;
impl Encode for PolynomialType { open spec fn toks(&self) -> Seq<Tok> { prim_toks(*self) } open spec fn enc_ok(&self) -> bool { true } #[verifier::external_body] fn encode<__E: bincode::enc::Encoder>(&self, encoder: &mut __E) -> (r: Result<(), bincode::error::EncodeError>) { unimplemented!() } }
impl Decode for PolynomialType { open spec fn can(t: Seq<Tok>) -> bool { prim_parse::<PolynomialType>(t) is Some } open spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool { prim_parse::<PolynomialType>(t) == Some((v, rest)) } #[verifier::external_body] fn decode<__D: bincode::de::Decoder>(decoder: &mut __D) -> (r: Result<Self, bincode::error::DecodeError>) { unimplemented!() } }
impl BorrowDecode for PolynomialType { #[verifier::external_body] fn borrow_decode<__D: bincode::de::BorrowDecoder>(decoder: &mut __D) -> (r: Result<Self, bincode::error::DecodeError>) { unimplemented!() } }
// ---- positions: 0, s, 2s .. below n, and the last one
spec fn npos(n: int, s: int) -> int { if st(reg(n, s) - 1, s) == n - 1 { reg(n, s) } else { reg(n, s) + 1 } }
spec fn pos(n: int, s: int, k: int) -> int { if k < reg(n, s) { st(k, s) } else { n - 1 } }
spec fn places(n: int, s: int) -> Seq<int> { Seq::new(npos(n, s) as nat, |k: int| pos(n, s, k)) }
proof fn lemma_pos(n: int, s: int)
    requires n > 0, s > 0
    ensures
        1 <= npos(n, s) <= n, npos(n, 1) == n, pos(n, s, 0) == 0, pos(n, s, npos(n, s) - 1) == n - 1,
        forall|k: int| 0 <= k < npos(n, s) ==> 0 <= #[trigger] pos(n, s, k) < n,
        forall|j: int, k: int| 0 <= j < k < npos(n, s) ==> #[trigger] pos(n, s, j) < #[trigger] pos(n, s, k),
        npos(n, s) == n ==> forall|k: int| 0 <= k < n ==> #[trigger] pos(n, s, k) == k,
{
    lemma_reg(n, s); lemma_reg(n, 1);
    let q = reg(n, s);
    assert(0 * s == 0);
    assert forall|j: int, k: int| 0 <= j < k < npos(n, s) implies #[trigger] pos(n, s, j) < #[trigger] pos(n, s, k) by {
        if k < q { assert(st(j, s) < st(k, s)); } else { assert(j * s <= (q - 1) * s) by (nonlinear_arith) requires 0 <= j <= q - 1, s > 0; }
    }
    assert(npos(n, s) <= n) by {
        if npos(n, s) == q + 1 && q == n { assert((n - 1) * s >= n - 1) by (nonlinear_arith) requires n > 0, s > 0; }
    }
    if npos(n, s) == n {
        assert forall|k: int| 0 <= k < n implies #[trigger] pos(n, s, k) == k by { lemma_squeeze(n, s, k); }
    }
}
proof fn lemma_squeeze(n: int, s: int, k: int)
    requires n > 0, s > 0, npos(n, s) == n, 0 <= k < n
    ensures pos(n, s, k) == k
{
    lemma_reg(n, s);
    let q = reg(n, s);
    if k >= q { assert(q == n - 1 && k == n - 1); }
    else if k > 0 && s > 1 {
        assert(q >= n - 1);
        assert((q - 1) * s <= n - 1);
        // q - 1 >= n - 2, and 2 (n - 2) <= n - 1 leaves n <= 3
        assert((q - 1) * s >= (q - 1) * 2) by (nonlinear_arith) requires q >= 1, s >= 2;
        if q == n { assert((n - 1) * s == n - 1); assert(n == 1) by (nonlinear_arith) requires (n - 1) * s == n - 1, s >= 2, n > 0; }
        else {
            assert(n <= 3);
            // n = 3, q = 2: the multiples are 0 and s = 2 = n - 1, so nothing is added; n = 2, q = 1: k = 0
            if n == 3 { assert(q == 2); assert(1 * s <= 2); assert(s == 2); assert((q - 1) * s == n - 1) by (nonlinear_arith) requires q == 2, s == 2, n == 3; }
        }
    } else if s == 1 { assert(k * 1 == k); } else { assert(0 * s == 0); }
}
/// the kept samples
spec fn kept(c: Polynomial, d: Seq<f64>) -> bool {
    &&& c.point_step > 0 && c.data_points@.len() == npos(d.len() as int, c.point_step as int)
    &&& forall|k: int| 0 <= k < c.data_points@.len() ==> #[trigger] c.data_points@[k] == d[pos(d.len() as int, c.point_step as int, k)]
}
spec fn flat_(c: Polynomial) -> bool { feq(c.max, c.min) }
spec fn fits_frame(c: Polynomial, n: int) -> bool { 0 < n < 0x1_0000_0000 && (flat_(c) || c.point_step > 0 && c.data_points@.len() == npos(n, c.point_step as int)) }
// ---- what is decoded
impl Polynomial {
    spec fn knot(self, n: int, k: int) -> Key { Key { t: of_int(pos(n, self.point_step as int, k)), value: self.data_points@[k], interpolation: if k > 0 && npos(n, self.point_step as int) - k > 2 { Interpolation::CatmullRom } else { Interpolation::Linear } } }
    spec fn knots(self, n: int) -> Seq<Key> { Seq::new(npos(n, self.point_step as int) as nat, |k: int| self.knot(n, k)) }
    spec fn curve(self, n: int, i: int) -> f64
        decreases i
    { match spl_at(self.knots(n), of_int(i)) { Some(v) => v, None => if i <= 0 { self.min } else { self.curve(n, i - 1) } } }
    spec fn poly_out(self, n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| lim(self.curve(n, i), self.min, self.max, 5)) }
    spec fn idw_pts(self, n: int) -> Seq<f64> { Seq::new(npos(n, self.point_step as int) as nat, |k: int| of_int(pos(n, self.point_step as int, k))) }
    spec fn idw_out(self, n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| lim(idw_at(self.idw_pts(n), self.data_points@, of_int(i)), self.min, self.max, 5)) }
    spec fn out(self, n: int) -> Seq<f64> {
        if flat_(self) { Seq::new(n as nat, |i: int| self.max) } else if self.data_points@.len() == n { self.data_points@ } else if self.id is Idw { self.idw_out(n) } else { self.poly_out(n) }
    }
}
#prelude
// ---- the note of the error is not part of what is decoded
spec fn noted(c: Polynomial, e: Option<f64>) -> Polynomial { Polynomial { id: c.id, data_points: c.data_points, min: c.min, max: c.max, point_step: c.point_step, error: e, bitdepth: c.bitdepth } }
spec fn alike(a: Polynomial, b: Polynomial) -> bool { a.id == b.id && a.data_points@ == b.data_points@ && a.min == b.min && a.max == b.max && a.point_step == b.point_step }
proof fn lemma_curve(a: Polynomial, b: Polynomial, n: int, i: int)
    requires alike(a, b)
    ensures a.curve(n, i) == b.curve(n, i)
    decreases i
{ assert(a.knots(n) =~= b.knots(n)); if i > 0 { lemma_curve(a, b, n, i - 1); } }
proof fn lemma_same(a: Polynomial, b: Polynomial, n: int)
    requires alike(a, b)
    ensures a.out(n) == b.out(n)
{
    assert forall|i: int| a.curve(n, i) == b.curve(n, i) by { lemma_curve(a, b, n, i); }
    assert(a.poly_out(n) =~= b.poly_out(n)); assert(a.idw_pts(n) =~= b.idw_pts(n)); assert(a.idw_out(n) =~= b.idw_out(n));
    assert(a.out(n) =~= b.out(n));
}
#fn Polynomial::new
#spec
    ensures ret.id == $4, ret.min == $2, ret.max == $3, ret.point_step == 1, ret.error is None, ret.bitdepth == $5, ret.data_points@.len() == 0,
#fn Polynomial::get_method
#spec
    ensures ret is Idw == self.id is Idw,
#fn Polynomial::compress_hinted
#opt castf fcast=usize:v_to_usize shim=iter:v_iter,max:v_max,step_by:v_step_by,last:v_last opteq
#spec
    requires $2 > 0, 0 < $1@.len() < 0x1_0000_0000, $1@.len() / ($2 as nat) < 256,
    ensures
        flat_(*old(self)) ==> *final(self) == *old(self),
        !flat_(*old(self)) ==> kept(*final(self), $1@) && final(self).point_step == (if $1@.len() / ($2 as nat) > 1 { $1@.len() / ($2 as nat) } else { 1 }),
        final(self).id == old(self).id, final(self).min == old(self).min, final(self).max == old(self).max, final(self).bitdepth == old(self).bitdepth, final(self).error == old(self).error,
#start
        let ghost n_ = $1@.len() as int;
        let ghost s_ = if n_ / ($2 as int) > 1 { n_ / ($2 as int) } else { 1 };
        proof { lemma_pos(n_, s_); lemma_reg(n_, s_); ax_int_less_one(n_); }
#closure 0 |$c1: usize| -> (r: f64)
    ensures r == of_int($c1 as int)
#closure 1 |$c1: &f64| -> (r: f64)
    requires to_usize(*$c1) < $1@.len(),
    ensures r == $1@[to_usize(*$c1) as int]
#fn Polynomial::compress
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        flat_(*old(self)) ==> *final(self) == *old(self),
        !flat_(*old(self)) ==> kept(*final(self), $1@),
        final(self).id == old(self).id, final(self).min == old(self).min, final(self).max == old(self).max, final(self).bitdepth == old(self).bitdepth, final(self).error == old(self).error,
#start
        proof { lemma_steps($1@.len() as int); }
#prelude
/// no step is too big for a byte
proof fn lemma_steps(n: int)
    requires n > 0
    ensures forall|p: int| p >= 3 && p >= n / 100 ==> #[trigger] (n / p) < 256
{
    assert forall|p: int| p >= 3 && p >= n / 100 implies #[trigger] (n / p) < 256 by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p);
        assert(n < 256 * p);
        assert(n / p < 256) by (nonlinear_arith) requires n == p * (n / p) + n % p, 0 <= n % p, n < 256 * p, p >= 3;
    }
}
#fn Polynomial::get_positions
#opt shim=step_by:v_step_by,last:v_last opteq forcollect=0
#spec
    requires 0 < $1 < 0x1_0000_0000, self.point_step > 0,
    ensures ret@.len() == npos($1 as int, self.point_step as int), forall|k: int| 0 <= k < ret@.len() ==> #[trigger] ret@[k] == pos($1 as int, self.point_step as int, k),
#start
        proof { lemma_pos($1 as int, self.point_step as int); lemma_reg($1 as int, self.point_step as int); }
#loop 0 for it
            invariant
                it.seq().len() == reg($1 as int, self.point_step as int), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == st(i, self.point_step as int),
                points@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> #[trigger] points@[i] == st(i, self.point_step as int),
#fn Polynomial::polynomial_to_data
#opt castf shim=iter:v_iter forcollect=0
#spec
    requires 0 < $1 < 0x1_0000_0000, self.point_step > 0, self.data_points@.len() == npos($1 as int, self.point_step as int),
    ensures ret@ == self.poly_out($1 as int),
#loop 0 for it
            invariant
                self.point_step > 0, points@.len() == npos($1 as int, self.point_step as int), self.data_points@.len() == points@.len(),
                forall|k: int| 0 <= k < points@.len() ==> #[trigger] points@[k] == pos($1 as int, self.point_step as int, k),
                it.seq().len() == points@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1.0 == points@[i] && *it.seq()[i].1.1 == self.data_points@[i],
                key_vec@.len() == it.index(), forall|k: int| 0 <= k < it.index() ==> #[trigger] key_vec@[k] == self.knot($1 as int, k),
#after 0
        proof { assert(key_vec@ =~= self.knots($1 as int)); }
#loop 1 for it
            invariant
                spline.keys() == self.knots($1 as int), out_vec@.len() == it.index(),
                forall|i: int| 0 <= i < it.index() ==> #[trigger] out_vec@[i] == lim(self.curve($1 as int, i), self.min, self.max, 5),
                prev == (if it.index() == 0 { self.min } else { self.curve($1 as int, it.index() - 1) }),
#after 1
        proof { assert(out_vec@ =~= self.poly_out($1 as int)); }
#fn Polynomial::idw_to_data
#opt castf shim=iter:v_iter,map:v_map
#spec
    requires 0 < $1 < 0x1_0000_0000, self.point_step > 0, self.data_points@.len() == npos($1 as int, self.point_step as int),
    ensures ret@ =~= self.idw_out($1 as int),
#start
        proof { lemma_pos($1 as int, self.point_step as int); }
#closure 0 |$c1: &usize| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#closure 1 |$c1: usize| -> (r: f64)
    ensures r == lim(idw_at(idw.points(), idw.values(), of_int($c1 as int)), self.min, self.max, 5)
#pretail
        proof { assert(idw.points() =~= self.idw_pts($1 as int)); }
#fn Polynomial::to_data
#spec
    requires fits_frame(*self, $1 as int),
    ensures ret@ =~= self.out($1 as int),
#prelude
/// by how many points the first jumps go up
spec fn tenth(n: int) -> int { if n / 10 > 1 { n / 10 } else { 1 } }
proof fn lemma_enough(n: int, i: int)
    requires 0 < n < 0x1_0000_0000, 0 <= i <= 17
    ensures (i + 1) * tenth(n) == i * tenth(n) + tenth(n), 0 <= i * tenth(n) <= 17 * n, i == 17 ==> forall|p: int| p >= 3 + 17 * tenth(n) ==> #[trigger] (n / p) <= 1
{
    assert((i + 1) * tenth(n) == i * tenth(n) + tenth(n)) by (nonlinear_arith);
    assert(0 <= i * tenth(n) <= 17 * n) by (nonlinear_arith) requires 0 <= i <= 17, 0 <= tenth(n) <= n;
    assert forall|p: int| p >= 3 + 17 * tenth(n) implies #[trigger] (n / p) <= 1 by {
        assert(p >= n);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p);
        assert(n / p <= 1) by (nonlinear_arith) requires n == p * (n / p) + n % p, 0 <= n % p, n <= p, p >= 3;
    }
}
/// e is the error of what is decoded (zero when every sample is stored)
spec fn honest(c: Polynomial, d: Seq<f64>, e: f64) -> bool { if c.data_points@.len() == d.len() { e == 0.0f64 } else { e == err(d, c.out(d.len() as int)) } }
#fn Polynomial::compress_bounded
#opt shim=max:v_max loops=1
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        flat_(*old(self)) ==> *final(self) == *old(self),
        !flat_(*old(self)) ==> kept(*final(self), $1@) && final(self).error is Some && honest(*final(self), $1@, final(self).error->0) && reached($2, final(self).error->0),
        final(self).id == old(self).id, final(self).min == old(self).min, final(self).max == old(self).max, final(self).bitdepth == old(self).bitdepth,
#start
        proof { lemma_steps($1@.len() as int); lemma_pos($1@.len() as int, 1); }
#loop 0 while
            invariant_except_break
                0 <= iterations <= 17, jump == iterations * tenth($1@.len() as int), iterations == 0 || kept(*self, $1@) && current_err == err($1@, self.out($1@.len() as int)) && self.data_points@.len() != $1@.len(),
            invariant
                0 < $1@.len() < 0x1_0000_0000, data_len == $1@.len(), !flat_(*old(self)), 3 <= baseline_points <= 3 + data_len, baseline_points >= data_len / 100,
                method is Idw == self.id is Idw, target_error == rnd($2, 3),
                self.id == old(self).id, self.min == old(self).min, self.max == old(self).max, self.bitdepth == old(self).bitdepth,
                forall|p: int| p >= 3 && p >= $1@.len() as int / 100 ==> #[trigger] ($1@.len() as int / p) < 256,
                npos($1@.len() as int, 1) == $1@.len(),
            ensures kept(*self, $1@), honest(*self, $1@, current_err), reached($2, current_err),
            decreases 18 - iterations
#after 0
        proof { lemma_same(*self, noted(*self, Some(current_err)), $1@.len() as int); }
#body 0
            proof { lemma_enough($1@.len() as int, iterations as int); }
#prelude
// ---- stored form
spec fn dn8(s: Seq<f64>) -> Seq<u8> { Seq::new(s.len(), |i: int| to_u8(s[i])) }
spec fn dn16(s: Seq<f64>) -> Seq<i16> { Seq::new(s.len(), |i: int| to_i16(s[i])) }
spec fn dn32(s: Seq<f64>) -> Seq<i32> { Seq::new(s.len(), |i: int| to_i32(s[i])) }
spec fn up8(s: Seq<u8>) -> Seq<f64> { Seq::new(s.len(), |i: int| of_int(s[i] as int)) }
spec fn up16(s: Seq<i16>) -> Seq<f64> { Seq::new(s.len(), |i: int| of_int(s[i] as int)) }
spec fn up32(s: Seq<i32>) -> Seq<f64> { Seq::new(s.len(), |i: int| of_int(s[i] as int)) }
spec fn pts_toks(b: Bitdepth, s: Seq<f64>) -> Seq<Tok> { match b { Bitdepth::U8 => prim_toks(dn8(s)), Bitdepth::I16 => prim_toks(dn16(s)), Bitdepth::I32 => prim_toks(dn32(s)), Bitdepth::F64 => prim_toks(s) } }
spec fn pts_parse(b: Bitdepth, t: Seq<Tok>) -> Option<(Seq<f64>, Seq<Tok>)> {
    match b {
        Bitdepth::U8 => match prim_parse::<Seq<u8>>(t) { Some((x, r)) => Some((up8(x), r)), None => None },
        Bitdepth::I16 => match prim_parse::<Seq<i16>>(t) { Some((x, r)) => Some((up16(x), r)), None => None },
        Bitdepth::I32 => match prim_parse::<Seq<i32>>(t) { Some((x, r)) => Some((up32(x), r)), None => None },
        Bitdepth::F64 => prim_parse::<Seq<f64>>(t),
    }
}
spec fn thru_all(b: Bitdepth, s: Seq<f64>) -> Seq<f64> { Seq::new(s.len(), |i: int| thru(b, s[i])) }
spec fn poly_parse(t: Seq<Tok>) -> Option<(PolynomialType, Bitdepth, Seq<f64>, f64, f64, u8, Seq<Tok>)> {
    match prim_parse::<PolynomialType>(t) { None => None, Some((id, t1)) => match prim_parse::<Bitdepth>(t1) { None => None, Some((b, t2)) => match pts_parse(b, t2) { None => None, Some((s, t3)) =>
        match prim_parse::<f64>(t3) { None => None, Some((lo, t4)) => match prim_parse::<f64>(t4) { None => None, Some((hi, t5)) => match prim_parse::<u8>(t5) { None => None, Some((st, t6)) => Some((id, b, s, lo, hi, st, t6)) } } } } } }
}
/// c is what the encoding of o decodes to
spec fn back_of(o: Polynomial, c: Polynomial) -> bool { c.id == o.id && c.bitdepth == o.bitdepth && c.data_points@ == thru_all(o.bitdepth, o.data_points@) && c.min == o.min && c.max == o.max && c.point_step == o.point_step && c.error is None }
#fn <Polynomial as Encode>::encode
#opt fcast=u8:v_to_u8,i16:v_to_i16,i32:v_to_i32 shim=iter:v_iter
#implspec
    open spec fn enc_ok(&self) -> bool { true }
    closed spec fn toks(&self) -> Seq<Tok> {
        prim_toks(self.id) + (prim_toks(self.bitdepth) + (pts_toks(self.bitdepth, self.data_points@) + (prim_toks(self.min) + (prim_toks(self.max) + prim_toks(self.point_step)))))
    }
#closure 0 |$c1: &f64| -> (r: u8)
    ensures r == to_u8(*$c1)
#closure 1 |$c1: &f64| -> (r: i16)
    ensures r == to_i16(*$c1)
#closure 2 |$c1: &f64| -> (r: i32)
    ensures r == to_i32(*$c1)
#start
        proof {
            let s = self.data_points@;
            assert forall|v: Seq<u8>| v.len() == s.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == to_u8(s[i])) implies #[trigger] prim_toks(v) == prim_toks(dn8(s)) by { assert(v =~= dn8(s)); }
            assert forall|v: Seq<i16>| v.len() == s.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == to_i16(s[i])) implies #[trigger] prim_toks(v) == prim_toks(dn16(s)) by { assert(v =~= dn16(s)); }
            assert forall|v: Seq<i32>| v.len() == s.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == to_i32(s[i])) implies #[trigger] prim_toks(v) == prim_toks(dn32(s)) by { assert(v =~= dn32(s)); }
        }
#pretail
        proof { assert(encoder.out() =~= old(encoder).out() + self.toks()); }
#fn <Polynomial as Decode>::decode
#opt castf shim=iter:v_iter
#implspec
    closed spec fn can(t: Seq<Tok>) -> bool { poly_parse(t) is Some }
    closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool { poly_parse(t) == Some((v.id, v.bitdepth, v.data_points@, v.min, v.max, v.point_step, rest)) && v.error is None }
#closure 0 |$c1: &u8| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#closure 1 |$c1: &i16| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#closure 2 |$c1: &i32| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#pretail
        proof {
            let t = old(decoder).rest(); let t1 = (prim_parse::<PolynomialType>(t)->0).1; let t2 = (prim_parse::<Bitdepth>(t1)->0).1;
            if Self::can(t) { match bitdepth {
                Bitdepth::U8 => { assert(data_points@ =~= up8((prim_parse::<Seq<u8>>(t2)->0).0)); }
                Bitdepth::I16 => { assert(data_points@ =~= up16((prim_parse::<Seq<i16>>(t2)->0).0)); }
                Bitdepth::I32 => { assert(data_points@ =~= up32((prim_parse::<Seq<i32>>(t2)->0).0)); }
                Bitdepth::F64 => { }
            } }
        }
#fn <Polynomial as BorrowDecode>::borrow_decode
#opt castf shim=iter:v_iter
#closure 0 |$c1: &u8| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#closure 1 |$c1: &i16| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#closure 2 |$c1: &i32| -> (r: f64)
    ensures r == of_int(*$c1 as int)
#pretail
        proof {
            let t = old(decoder).rest(); let t1 = (prim_parse::<PolynomialType>(t)->0).1; let t2 = (prim_parse::<Bitdepth>(t1)->0).1;
            if Self::can(t) { match bitdepth {
                Bitdepth::U8 => { assert(data_points@ =~= up8((prim_parse::<Seq<u8>>(t2)->0).0)); }
                Bitdepth::I16 => { assert(data_points@ =~= up16((prim_parse::<Seq<i16>>(t2)->0).0)); }
                Bitdepth::I32 => { assert(data_points@ =~= up32((prim_parse::<Seq<i32>>(t2)->0).0)); }
                Bitdepth::F64 => { }
            } }
        }
#lemma
proof fn lemma_round(o: Polynomial)
    ensures Polynomial::can(o.toks()), forall|v: Polynomial, rest: Seq<Tok>| #[trigger] Polynomial::got(o.toks(), v, rest) ==> back_of(o, v),
{
    let z = prim_toks(o.point_step);
    assert(z =~= z + Seq::<Tok>::empty());
    assert(up8(dn8(o.data_points@)) =~= Seq::new(o.data_points@.len(), |i: int| of_int(to_u8(o.data_points@[i]) as int)));
    let s = o.data_points@;
    match o.bitdepth { Bitdepth::U8 => { assert(up8(dn8(s)) =~= thru_all(o.bitdepth, s)); } Bitdepth::I16 => { assert(up16(dn16(s)) =~= thru_all(o.bitdepth, s)); } Bitdepth::I32 => { assert(up32(dn32(s)) =~= thru_all(o.bitdepth, s)); } Bitdepth::F64 => { assert(s =~= thru_all(o.bitdepth, s)); } }
}
#fn Polynomial::to_bytes
#spec
    ensures ret@ == bc_enc(self.toks()),
#fn Polynomial::decompress
#spec
    requires exists|o: Polynomial| $1@ == bc_enc(#[trigger] o.toks()),
    ensures forall|o: Polynomial| $1@ == bc_enc(#[trigger] o.toks()) ==> back_of(o, ret),
#start
        proof { assert forall|o: Polynomial| true implies Polynomial::can(#[trigger] o.toks()) && (forall|v: Polynomial, rest: Seq<Tok>| #[trigger] Polynomial::got(o.toks(), v, rest) ==> back_of(o, v)) by { lemma_round(o); } }
#prelude
// ---- the properties
/// o was made from the samples d
spec fn of_data(o: Polynomial, d: Seq<f64>) -> bool {
    &&& 0 < d.len() < 0x1_0000_0000 && (!flat_(o) ==> kept(o, d))
    &&& all_finite(d) ==> all_fit(o.bitdepth, d) && bounds(d, o.min, o.max)
    &&& (exists|i: int| 0 <= i < d.len() && !integral(#[trigger] d[i])) ==> o.bitdepth is F64
}
/// C13: r is v to 5 decimals (and not out of the range)
spec fn near5(r: f64, v: f64, lo: f64, hi: f64) -> bool { exists|w: f64| feq(w, v) && r == #[trigger] lim(w, lo, hi, 5) }
/// C13: the kept samples are at their places; the whole frame and a constant one come back exactly
spec fn restored(o: Polynomial, d: Seq<f64>, r: Seq<f64>) -> bool {
    let (n, s) = (d.len() as int, o.point_step as int);
    &&& r.len() == n
    &&& flat_(o) || o.data_points@.len() == n ==> forall|i: int| 0 <= i < n ==> same(#[trigger] r[i], d[i])
    &&& !flat_(o) && o.data_points@.len() != n && (forall|i: int| 0 <= i < n ==> tame(#[trigger] d[i])) ==> forall|k: int| 0 <= k < npos(n, s) ==> near5(r[#[trigger] pos(n, s, k)], d[pos(n, s, k)], o.min, o.max)
}
/// whole numbers are no negative zero, proved in kani/float.vk
#[verifier::external_body]
proof fn ax_int_zero(n: int) requires -0x8000_0000 <= n <= 0x7fff_ffff ensures bits(of_int(n)) != 0x8000_0000_0000_0000u64 {}
proof fn lemma_exact(b: Bitdepth, x: f64)
    requires fits(b, x), finite(x), b is F64 || bits(x) != 0x8000_0000_0000_0000u64
    ensures thru(b, x) == x
{
    match b { Bitdepth::U8 => { ax_int_zero(to_u8(x) as int); } Bitdepth::I16 => { ax_int_zero(to_i16(x) as int); } Bitdepth::I32 => { ax_int_zero(to_i32(x) as int); } Bitdepth::F64 => {} }
    let y = thru(b, x);
    if !(b is F64) {
        assert(key(x) == key(y));
        assert(bits(x) == bits(y));
        ax_of_bits(x); ax_of_bits(y);
    }
}
proof fn lemma_restored(o: Polynomial, c: Polynomial, d: Seq<f64>)
    requires of_data(o, d), back_of(o, c), all_finite(d)
    ensures fits_frame(c, d.len() as int), inside(c.out(d.len() as int), o.min, o.max), restored(o, d, c.out(d.len() as int)),
{
    let (n, s) = (d.len() as int, o.point_step as int);
    let r = c.out(n);
    if !flat_(o) {
        lemma_pos(n, s);
        assert forall|k: int| 0 <= k < c.data_points@.len() implies feq(#[trigger] c.data_points@[k], d[pos(n, s, k)]) by { assert(o.data_points@[k] == d[pos(n, s, k)]); assert(fits(o.bitdepth, d[pos(n, s, k)])); }
        if o.data_points@.len() == n {
            assert forall|i: int| 0 <= i < n implies same(#[trigger] r[i], d[i]) && fle(o.min, r[i]) && fle(r[i], o.max) by { assert(pos(n, s, i) == i); assert(feq(c.data_points@[i], d[pos(n, s, i)])); assert(fle(o.min, d[i]) && fle(d[i], o.max)); }
        } else {
            let p = places(n, s);
            assert(c.idw_pts(n).len() == p.len());
            if forall|i: int| 0 <= i < n ==> tame(#[trigger] d[i]) {
                assert(well_keyed(c.knots(n), p)) by {
                    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < 0x1_0000_0000 && c.knots(n)[k].t == of_int(p[k]) && tame(c.knots(n)[k].value) && (c.knots(n)[k].interpolation is CatmullRom ==> 0 < k && k + 2 < p.len()) by {
                        assert(feq(c.data_points@[k], d[pos(n, s, k)])); assert(tame(d[pos(n, s, k)]));
                    }
                }
                assert forall|k: int| 0 <= k < npos(n, s) implies near5(r[#[trigger] pos(n, s, k)], d[pos(n, s, k)], o.min, o.max) by {
                    let i = pos(n, s, k);
                    assert(p[k] == i);
                    assert(feq(c.data_points@[k], d[i]));
                    let w = if o.id is Idw { idw_at(c.idw_pts(n), c.data_points@, of_int(i)) } else { c.curve(n, i) };
                    if o.id is Idw { ax_idw(c.idw_pts(n), c.data_points@, p, k); } else { ax_spline(c.knots(n), p, k); }
                    assert(feq(w, d[i]) && r[i] == lim(w, o.min, o.max, 5));
                }
            }
        }
    }
    assert(inside(r, o.min, o.max)) by {
        assert(fle(o.min, d[0]) && fle(d[0], o.max));
        assert forall|i: int| 0 <= i < r.len() implies fle(o.min, #[trigger] r[i]) && fle(r[i], o.max) by {}
    }
    if flat_(o) { assert forall|i: int| 0 <= i < n implies same(#[trigger] r[i], d[i]) by { assert(fle(o.min, d[i]) && fle(d[i], o.max)); } }
}
proof fn lemma_true_error(o: Polynomial, c: Polynomial, d: Seq<f64>, e: f64)
    requires of_data(o, d), back_of(o, c), all_finite(d), plain(d), if flat_(o) { e == 0.0f64 } else { honest(o, d, e) }
    ensures true_error(d, c.out(d.len() as int), e)
{
    let (n, s) = (d.len() as int, o.point_step as int);
    lemma_restored(o, c, d);
    if !flat_(o) && o.data_points@.len() != n {
        lemma_pos(n, s);
        assert forall|k: int| 0 <= k < o.data_points@.len() implies #[trigger] o.data_points@[k] == c.data_points@[k] by { assert(o.data_points@[k] == d[pos(n, s, k)]); assert(fits(o.bitdepth, d[pos(n, s, k)])); lemma_exact(o.bitdepth, d[pos(n, s, k)]); }
        assert(o.data_points@ =~= c.data_points@);
        lemma_same(o, c, n);
    }
}
spec fn stored(b: Seq<u8>, o: Polynomial) -> bool { b == bc_enc(o.toks()) }
// ---- the interface
spec fn frame_of(o: Polynomial, n: int, b: Seq<u8>) -> bool { stored(b, o) && fits_frame(o, n) }
spec fn can_poly(n: int, b: Seq<u8>) -> bool { exists|o: Polynomial| #[trigger] frame_of(o, n, b) }
spec fn dec_poly(n: int, b: Seq<u8>) -> Seq<f64> { let o = choose|o: Polynomial| #[trigger] frame_of(o, n, b); (choose|c: Polynomial| #[trigger] back_of(o, c)).out(n) }
/// C13, C12: b keeps samples of d, which come back, and nothing leaves their range
spec fn poly_frame(d: Seq<f64>, idw: bool, b: Seq<u8>) -> bool { exists|o: Polynomial| #[trigger] stored(b, o) && of_data(o, d) && (o.id is Idw == idw) && (all_finite(d) ==> restored(o, d, dec_poly(d.len() as int, b)) && inside(dec_poly(d.len() as int, b), o.min, o.max)) }
/// what a run with a bound gives
spec fn poly_result(d: Seq<f64>, max: f64, idw: bool, b: Seq<u8>, e: f64) -> bool { poly_frame(d, idw, b) && reached(max, e) }
proof fn lemma_one(b: Seq<u8>, n: int, o: Polynomial)
    requires frame_of(o, n, b)
    ensures can_poly(n, b), exists|c: Polynomial| #[trigger] back_of(o, c) && dec_poly(n, b) == c.out(n), forall|c: Polynomial| #[trigger] back_of(o, c) ==> c.out(n) == dec_poly(n, b), dec_poly(n, b).len() == n
{
    let o2 = choose|o: Polynomial| #[trigger] frame_of(o, n, b);
    lemma_round(o); lemma_round(o2);
    ax_one_way::<Polynomial>(o.toks(), o2.toks());
    let (v, r, q) = choose|v: Polynomial, r: Seq<Tok>, q: Seq<Tok>| #[trigger] Polynomial::got(o.toks(), v, r) && #[trigger] Polynomial::got(o2.toks(), v, q);
    assert(back_of(o, v) && back_of(o2, v));
    let c2 = choose|c: Polynomial| #[trigger] back_of(o2, c);
    lemma_same(v, c2, n);
    assert forall|c: Polynomial| #[trigger] back_of(o, c) implies c.out(n) == dec_poly(n, b) by { lemma_same(v, c, n); }
    assert(fits_frame(c2, n));
    assert(c2.out(n).len() == n);
}
proof fn lemma_encoded(b: Seq<u8>, o: Polynomial, d: Seq<f64>)
    requires of_data(o, d), stored(b, o)
    ensures
        can_poly(d.len() as int, b), dec_poly(d.len() as int, b).len() == d.len(), poly_frame(d, o.id is Idw, b), all_finite(d) ==> forall|lo: f64, hi: f64| #[trigger] bounds(d, lo, hi) ==> inside(dec_poly(d.len() as int, b), lo, hi),
        all_finite(d) && plain(d) ==> forall|e: f64| (if flat_(o) { e == 0.0f64 } else { honest(o, d, e) }) ==> #[trigger] true_error(d, dec_poly(d.len() as int, b), e),
{
    let n = d.len() as int;
    if !flat_(o) { lemma_pos(n, o.point_step as int); }
    assert(frame_of(o, n, b));
    lemma_one(b, n, o);
    let c = choose|c: Polynomial| #[trigger] back_of(o, c) && dec_poly(n, b) == c.out(n);
    if all_finite(d) {
        lemma_restored(o, c, d);
        assert forall|lo: f64, hi: f64| #[trigger] bounds(d, lo, hi) implies inside(dec_poly(n, b), lo, hi) by {
            assert(fle(lo, o.min)); assert(fle(o.max, hi));
            assert forall|i: int| 0 <= i < n implies fle(lo, #[trigger] c.out(n)[i]) && fle(c.out(n)[i], hi) by {}
        }
        if plain(d) { assert forall|e: f64| (if flat_(o) { e == 0.0f64 } else { honest(o, d, e) }) implies #[trigger] true_error(d, c.out(n), e) by { lemma_true_error(o, c, d, e); } }
    }
}
#fn polynomial
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        can_poly($1@.len() as int, ret@), dec_poly($1@.len() as int, ret@).len() == $1@.len(), poly_frame($1@, $2 is Idw, ret@),
        all_finite($1@) ==> forall|lo: f64, hi: f64| #[trigger] bounds($1@, lo, hi) ==> inside(dec_poly($1@.len() as int, ret@), lo, hi),
#pretail
        proof { lemma_encoded(bc_enc(c.toks()), c, $1@); }
#fn polynomial_allowed_error
#spec
    requires 0 < $1@.len() < 0x1_0000_0000,
    ensures
        can_poly($1@.len() as int, ret.compressed_data@), dec_poly($1@.len() as int, ret.compressed_data@).len() == $1@.len(), poly_result($1@, $2, $3 is Idw, ret.compressed_data@, ret.error),
        all_finite($1@) ==> forall|lo: f64, hi: f64| #[trigger] bounds($1@, lo, hi) ==> inside(dec_poly($1@.len() as int, ret.compressed_data@), lo, hi),
        all_finite($1@) && plain($1@) ==> true_error($1@, dec_poly($1@.len() as int, ret.compressed_data@), ret.error),
        reached($2, ret.error),
#pretail
        proof { lemma_encoded(bc_enc(c.toks()), c, $1@); }
#fn to_data
#spec
    requires can_poly($1 as int, $2@),
    ensures ret@ == dec_poly($1 as int, $2@),
#start
        proof { let o0 = choose|o: Polynomial| #[trigger] frame_of(o, $1 as int, $2@); assert(stored($2@, o0)); lemma_one($2@, $1 as int, o0); }
