#! Index RLE (C03): lossless for every series
#include iter.vxi
#include float.vxi
#include bincode.vxi
#include bitdepth.vxi
#include stats.vxi
#include result.vxi
#include promises.vxi
#include itermut.vxi
#use
use std::collections::BTreeMap;
#file atsc/src/compressor/rle.rs
#item struct IndexRLE
#item const RLE_COMPRESSOR_ID
#prelude
// ---- the runs of a series
/// sample s is where a run starts
spec fn start(d: Seq<f64>, s: int) -> bool { 0 <= s < d.len() && (s == 0 || !feq(d[s - 1], d[s])) }
/// p is in the run that starts at s
spec fn run(d: Seq<f64>, s: int, p: int) -> bool { 0 <= s <= p < d.len() && forall|q: int| s < q <= p ==> feq(d[q - 1], #[trigger] d[q]) }
/// x is one of the samples
spec fn sample(d: Seq<f64>, x: f64) -> bool { exists|q: int| 0 <= q < d.len() && #[trigger] d[q] == x }
/// every sample of the run at s is numerically x, which is one of them
spec fn stands(d: Seq<f64>, s: int, x: f64) -> bool { sample(d, x) && forall|p: int| #[trigger] run(d, s, p) ==> same(x, d[p]) }
proof fn lemma_run_chain(d: Seq<f64>, s: int, p: int, i: int)
    requires run(d, s, i), s <= p <= i
    ensures same(d[i], d[p])
    decreases i - p
{ if p < i { assert(feq(d[p], d[p + 1])); lemma_run_chain(d, s, p + 1, i); } }
proof fn lemma_run_end(d: Seq<f64>, s: int, i: int)
    requires run(d, s, i), i + 1 < d.len() ==> !feq(d[i], d[i + 1])
    ensures stands(d, s, d[i])
{
    assert forall|p: int| #[trigger] run(d, s, p) implies same(d[i], d[p]) by {
        if p > i { assert(feq(d[i + 1 - 1], d[i + 1])); } else { lemma_run_chain(d, s, p, i); }
    }
}
// ---- entries: (value, positions) pairs
spec fn listed(v: Seq<(f64, Seq<usize>)>, k: int, j: int) -> bool { 0 <= k < v.len() && 0 <= j < v[k].1.len() }
/// the entries describe the series: each position is the start of a run of its value, and every run is there
spec fn describes(v: Seq<(f64, Seq<usize>)>, d: Seq<f64>) -> bool {
    &&& forall|k: int, j: int| #[trigger] listed(v, k, j) ==> start(d, v[k].1[j] as int) && stands(d, v[k].1[j] as int, v[k].0)
    &&& forall|s: int| #[trigger] start(d, s) ==> exists|k: int, j: int| #[trigger] listed(v, k, j) && v[k].1[j] == s
}
/// no position is listed twice
spec fn once(v: Seq<(f64, Seq<usize>)>) -> bool { forall|k: int, j: int, a: int, b: int| #[trigger] listed(v, k, j) && #[trigger] listed(v, a, b) && v[k].1[j] == v[a].1[b] ==> k == a && j == b }
// ---- the map the encoder builds
spec fn in_map(m: Map<u64, Vec<usize>>, k: u64, j: int) -> bool { m.dom().contains(k) && 0 <= j < m[k]@.len() }
spec fn map_ok(m: Map<u64, Vec<usize>>, d: Seq<f64>, done: int) -> bool {
    &&& forall|k: u64, j: int| #[trigger] in_map(m, k, j) ==> start(d, m[k]@[j] as int) && m[k]@[j] < done && stands(d, m[k]@[j] as int, of_bits(k))
    &&& forall|s: int| 0 <= s < done && #[trigger] start(d, s) ==> exists|k: u64, j: int| #[trigger] in_map(m, k, j) && m[k]@[j] == s
    &&& forall|k: u64, j: int, a: u64, b: int| #[trigger] in_map(m, k, j) && #[trigger] in_map(m, a, b) && m[k]@[j] == m[a]@[b] ==> k == a && j == b
}
proof fn lemma_map_step(m: Map<u64, Vec<usize>>, m2: Map<u64, Vec<usize>>, d: Seq<f64>, cur: int, i: int, key: u64)
    requires map_ok(m, d, cur), run(d, cur, i), start(d, cur), i + 1 < d.len() ==> !feq(d[i], d[i + 1]), of_bits(key) == d[i], cur <= usize::MAX,
        m2.dom() == m.dom().insert(key), forall|k: u64| k != key && m.dom().contains(k) ==> m2[k] == m[k],
        m2[key]@ == (if m.dom().contains(key) { m[key]@ } else { Seq::<usize>::empty() }).push(cur as usize),
    ensures map_ok(m2, d, i + 1)
{
    lemma_run_end(d, cur, i);
    assert forall|k: u64, j: int| #[trigger] in_map(m2, k, j) implies start(d, m2[k]@[j] as int) && m2[k]@[j] < i + 1 && stands(d, m2[k]@[j] as int, of_bits(k)) by {
        if k != key || j < m2[key]@.len() - 1 { assert(in_map(m, k, j)); }
    }
    assert forall|k: u64, j: int, a: u64, b: int| #[trigger] in_map(m2, k, j) && #[trigger] in_map(m2, a, b) && m2[k]@[j] == m2[a]@[b] implies k == a && j == b by {
        if k != key || j < m2[key]@.len() - 1 { assert(in_map(m, k, j) && m[k]@[j] == m2[k]@[j]); }
        if a != key || b < m2[key]@.len() - 1 { assert(in_map(m, a, b) && m[a]@[b] == m2[a]@[b]); }
    }
    assert forall|s: int| 0 <= s < i + 1 && #[trigger] start(d, s) implies exists|k: u64, j: int| #[trigger] in_map(m2, k, j) && m2[k]@[j] == s by {
        if s < cur {
            let (k, j) = choose|k: u64, j: int| #[trigger] in_map(m, k, j) && m[k]@[j] == s;
            assert(in_map(m2, k, j) && m2[k]@[j] == s);
        } else {
            if s > cur { assert(feq(d[s - 1], d[s])); }
            assert(in_map(m2, key, m2[key]@.len() - 1));
        }
    }
}
/// the pairs of the map, in some order
spec fn pairs_of(e: Seq<(u64, Vec<usize>)>, m: Map<u64, Vec<usize>>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: u64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
}
#[verifier::external_body]
fn v_entries(m: BTreeMap<u64, Vec<usize>>) -> (r: Vec<(u64, Vec<usize>)>)
    ensures pairs_of(r@, m@)
{ m.into_iter().collect() }
proof fn lemma_describes(e: Seq<(u64, Vec<usize>)>, v: Seq<(f64, Seq<usize>)>, m: Map<u64, Vec<usize>>, d: Seq<f64>)
    requires pairs_of(e, m), map_ok(m, d, d.len() as int), v.len() == e.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == (of_bits(e[i].0), e[i].1@)
    ensures describes(v, d), once(v)
{
    assert forall|k: int, j: int, a: int, b: int| #[trigger] listed(v, k, j) && #[trigger] listed(v, a, b) && v[k].1[j] == v[a].1[b] implies k == a && j == b by { assert(in_map(m, e[k].0, j)); assert(in_map(m, e[a].0, b)); }
    assert forall|k: int, j: int| #[trigger] listed(v, k, j) implies start(d, v[k].1[j] as int) && stands(d, v[k].1[j] as int, v[k].0) by { assert(in_map(m, e[k].0, j)); }
    assert forall|s: int| #[trigger] start(d, s) implies exists|k: int, j: int| #[trigger] listed(v, k, j) && v[k].1[j] == s by {
        let (key, j) = choose|k: u64, j: int| #[trigger] in_map(m, k, j) && m[k]@[j] == s;
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == key;
        assert(v[i] == (of_bits(e[i].0), e[i].1@));
        assert(listed(v, i, j));
    }
}
#prelude
spec fn conv(v: Seq<(f64, Seq<usize>)>, e: Seq<(u64, Vec<usize>)>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]) == (of_bits(e[i].0), e[i].1@) }
#fn IndexRLE::new
#opt forwrap=1:v_entries
#spec
    ensures describes(dv(ret.rle), $1@), once(dv(ret.rle)), ret.bitdepth == $2,
#loop 0 while
            invariant
                len == $1@.len(), i <= len, current_index <= i,
                i < len ==> start($1@, current_index as int) && run($1@, current_index as int, i as int),
                i == len ==> current_index == len,
                map_ok(encoded@, $1@, current_index as int),
            decreases len - i,
#body 0
            let ghost m0 = encoded@;
            let ghost cur0 = current_index as int;
            let ghost i0 = i as int;
            proof { assert($1.len() <= usize::MAX); }
#bodyend 0
            proof {
                if current_index != cur0 {
                    let key = bits($1@[i0]);
                    assert(encoded@.dom() =~= m0.dom().insert(key));
                    if m0.dom().contains(key) { assert(encoded@[key]@ =~= m0[key]@.push(cur0 as usize)); }
                    else { assert(encoded@[key]@ =~= Seq::<usize>::empty().push(cur0 as usize)); }
                    lemma_map_step(m0, encoded@, $1@, cur0, i0, bits($1@[i0]));
                } else if i < len { assert forall|q: int| cur0 < q <= i implies feq($1@[q - 1], #[trigger] $1@[q]) by {} }
            }
#before 1
        let ghost m1 = encoded@;
#loop 1 for it
            invariant
                pairs_of(it.seq(), m1), conv(dv(result), it.seq(), it.index()), 0 <= it.index() <= it.seq().len(),
#body 1
            let ghost r0 = dv(result);
#bodyend 1
            proof { assert(dv(result) =~= r0.push((of_bits(it.seq()[it.index()].0), it.seq()[it.index()].1@))); }
#after 1
        proof {
            let e = choose|e: Seq<(u64, Vec<usize>)>| #[trigger] pairs_of(e, m1) && conv(dv(result), e, e.len() as int);
            lemma_describes(e, dv(result), m1, $1@);
        }
#prelude
spec fn as_u8(v: Seq<(f64, Seq<usize>)>) -> Seq<(u8, Seq<usize>)> { Seq::new(v.len(), |i: int| (to_u8(v[i].0), v[i].1)) }
spec fn as_i16(v: Seq<(f64, Seq<usize>)>) -> Seq<(i16, Seq<usize>)> { Seq::new(v.len(), |i: int| (to_i16(v[i].0), v[i].1)) }
spec fn as_i32(v: Seq<(f64, Seq<usize>)>) -> Seq<(i32, Seq<usize>)> { Seq::new(v.len(), |i: int| (to_i32(v[i].0), v[i].1)) }
spec fn of_u8(v: Seq<(u8, Seq<usize>)>) -> Seq<(f64, Seq<usize>)> { Seq::new(v.len(), |i: int| (of_int(v[i].0 as int), v[i].1)) }
spec fn of_i16(v: Seq<(i16, Seq<usize>)>) -> Seq<(f64, Seq<usize>)> { Seq::new(v.len(), |i: int| (of_int(v[i].0 as int), v[i].1)) }
spec fn of_i32(v: Seq<(i32, Seq<usize>)>) -> Seq<(f64, Seq<usize>)> { Seq::new(v.len(), |i: int| (of_int(v[i].0 as int), v[i].1)) }
/// the entries with their values as the width gives them back
spec fn thru_all(b: Bitdepth, v: Seq<(f64, Seq<usize>)>) -> Seq<(f64, Seq<usize>)> { Seq::new(v.len(), |i: int| (thru(b, v[i].0), v[i].1)) }
impl IndexRLE {
    /// r is what decoding the encoded form of self gives
    spec fn back(self, r: IndexRLE) -> bool { r.id == self.id && r.bitdepth == self.bitdepth && dv(r.rle) == thru_all(self.bitdepth, dv(self.rle)) }
}
#fn IndexRLE::rle_as_u8
#opt fcast=u8:v_to_u8
#spec
    ensures dv(ret) == as_u8(dv(self.rle)),
#loop 0 for it
            invariant
                it.seq().len() == self.rle@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rle@[i],
                0 <= it.index() <= it.seq().len(),
                dv(result) == as_u8(dv(self.rle)).take(it.index()),
#body 0
            let ghost r0 = dv(result);
#bodyend 0
            proof { assert(result@.last().1@ =~= self.rle@[it.index()].1@); assert(dv(result) =~= r0.push((to_u8(self.rle@[it.index()].0), self.rle@[it.index()].1@))); assert(dv(result) =~= as_u8(dv(self.rle)).take(it.index() + 1)); }
#pretail
        proof { assert(dv(result) =~= as_u8(dv(self.rle))); }
#fn IndexRLE::rle_as_i16
#opt fcast=i16:v_to_i16
#spec
    ensures dv(ret) == as_i16(dv(self.rle)),
#loop 0 for it
            invariant
                it.seq().len() == self.rle@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rle@[i],
                0 <= it.index() <= it.seq().len(),
                dv(result) == as_i16(dv(self.rle)).take(it.index()),
#body 0
            let ghost r0 = dv(result);
#bodyend 0
            proof { assert(result@.last().1@ =~= self.rle@[it.index()].1@); assert(dv(result) =~= r0.push((to_i16(self.rle@[it.index()].0), self.rle@[it.index()].1@))); assert(dv(result) =~= as_i16(dv(self.rle)).take(it.index() + 1)); }
#pretail
        proof { assert(dv(result) =~= as_i16(dv(self.rle))); }
#fn IndexRLE::rle_as_i32
#opt fcast=i32:v_to_i32
#spec
    ensures dv(ret) == as_i32(dv(self.rle)),
#loop 0 for it
            invariant
                it.seq().len() == self.rle@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rle@[i],
                0 <= it.index() <= it.seq().len(),
                dv(result) == as_i32(dv(self.rle)).take(it.index()),
#body 0
            let ghost r0 = dv(result);
#bodyend 0
            proof { assert(result@.last().1@ =~= self.rle@[it.index()].1@); assert(dv(result) =~= r0.push((to_i32(self.rle@[it.index()].0), self.rle@[it.index()].1@))); assert(dv(result) =~= as_i32(dv(self.rle)).take(it.index() + 1)); }
#pretail
        proof { assert(dv(result) =~= as_i32(dv(self.rle))); }
#fn <IndexRLE as Encode>::encode
#implspec
    open spec fn enc_ok(&self) -> bool { true }
    closed spec fn toks(&self) -> Seq<Tok> {
        prim_toks(self.id) + (prim_toks(self.bitdepth) + (match self.bitdepth {
            Bitdepth::U8 => prim_toks(as_u8(dv(self.rle))),
            Bitdepth::I16 => prim_toks(as_i16(dv(self.rle))),
            Bitdepth::I32 => prim_toks(as_i32(dv(self.rle))),
            Bitdepth::F64 => prim_toks(dv(self.rle)),
        }))
    }
#fn <IndexRLE as Decode>::decode
#opt castf shim=into_iter:v_into_iter
#implspec
    closed spec fn can(t: Seq<Tok>) -> bool { prim_parse::<u8>(t) is Some && prim_parse::<Bitdepth>((prim_parse::<u8>(t)->0).1) is Some && ({
        let (b, t2) = prim_parse::<Bitdepth>((prim_parse::<u8>(t)->0).1)->0;
        match b { Bitdepth::U8 => prim_parse::<Seq<(u8, Seq<usize>)>>(t2) is Some, Bitdepth::I16 => prim_parse::<Seq<(i16, Seq<usize>)>>(t2) is Some, Bitdepth::I32 => prim_parse::<Seq<(i32, Seq<usize>)>>(t2) is Some, Bitdepth::F64 => prim_parse::<Seq<(f64, Seq<usize>)>>(t2) is Some }
    }) }
    closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool {
        let t1 = (prim_parse::<u8>(t)->0).1;
        let t2 = (prim_parse::<Bitdepth>(t1)->0).1;
        &&& prim_parse::<u8>(t) == Some((v.id, t1)) && prim_parse::<Bitdepth>(t1) == Some((v.bitdepth, t2))
        &&& match v.bitdepth {
            Bitdepth::U8 => match prim_parse::<Seq<(u8, Seq<usize>)>>(t2) { Some((x, r)) => dv(v.rle) == of_u8(x) && rest == r, None => false },
            Bitdepth::I16 => match prim_parse::<Seq<(i16, Seq<usize>)>>(t2) { Some((x, r)) => dv(v.rle) == of_i16(x) && rest == r, None => false },
            Bitdepth::I32 => match prim_parse::<Seq<(i32, Seq<usize>)>>(t2) { Some((x, r)) => dv(v.rle) == of_i32(x) && rest == r, None => false },
            Bitdepth::F64 => prim_parse::<Seq<(f64, Seq<usize>)>>(t2) == Some((dv(v.rle), rest)),
        }
    }
#closure 0 |$c1: (u8, Vec<usize>)| -> (r: (f64, Vec<usize>))
    ensures r.0 == of_int($c1.0 as int), r.1 == $c1.1
#closure 1 |$c1: (i16, Vec<usize>)| -> (r: (f64, Vec<usize>))
    ensures r.0 == of_int($c1.0 as int), r.1 == $c1.1
#closure 2 |$c1: (i32, Vec<usize>)| -> (r: (f64, Vec<usize>))
    ensures r.0 == of_int($c1.0 as int), r.1 == $c1.1
#pretail
        proof {
            let t = old(decoder).rest(); let t1 = (prim_parse::<u8>(t)->0).1; let t2 = (prim_parse::<Bitdepth>(t1)->0).1;
            if Self::can(t) { match bitdepth {
                Bitdepth::U8 => { assert(dv(rle) =~= of_u8((prim_parse::<Seq<(u8, Seq<usize>)>>(t2)->0).0)); }
                Bitdepth::I16 => { assert(dv(rle) =~= of_i16((prim_parse::<Seq<(i16, Seq<usize>)>>(t2)->0).0)); }
                Bitdepth::I32 => { assert(dv(rle) =~= of_i32((prim_parse::<Seq<(i32, Seq<usize>)>>(t2)->0).0)); }
                Bitdepth::F64 => { }
            } }
        }
#lemma
proof fn lemma_round(c: IndexRLE)
    ensures IndexRLE::can(c.toks()), forall|v: IndexRLE, rest: Seq<Tok>| #[trigger] IndexRLE::got(c.toks(), v, rest) ==> c.back(v),
{
    let e = Seq::<Tok>::empty();
    let v = dv(c.rle);
    match c.bitdepth {
        Bitdepth::U8 => { let z = prim_toks(as_u8(v)); assert(z =~= z + e); assert(of_u8(as_u8(v)) =~= thru_all(c.bitdepth, v)); }
        Bitdepth::I16 => { let z = prim_toks(as_i16(v)); assert(z =~= z + e); assert(of_i16(as_i16(v)) =~= thru_all(c.bitdepth, v)); }
        Bitdepth::I32 => { let z = prim_toks(as_i32(v)); assert(z =~= z + e); assert(of_i32(as_i32(v)) =~= thru_all(c.bitdepth, v)); }
        Bitdepth::F64 => { let z = prim_toks(v); assert(z =~= z + e); assert(v =~= thru_all(c.bitdepth, v)); }
    }
}
#fn IndexRLE::to_bytes
#spec
    ensures ret@ == bc_enc(self.toks()),
#fn IndexRLE::decompress
#spec
    requires exists|c: IndexRLE| $1@ == bc_enc(#[trigger] c.toks()),
    ensures forall|c: IndexRLE| $1@ == bc_enc(#[trigger] c.toks()) ==> c.back(ret),
#start
        proof { assert forall|c: IndexRLE| true implies IndexRLE::can(#[trigger] c.toks()) && (forall|v: IndexRLE, rest: Seq<Tok>| #[trigger] IndexRLE::got(c.toks(), v, rest) ==> c.back(v)) by { lemma_round(c); } }
#prelude
impl VIt<usize> {
    /// nothing is said about the sum: it only sizes an allocation
    #[verifier::external_body]
    pub fn v_sum(self) -> usize { self.v.into_iter().sum() }
}
spec fn keys_sorted(keys: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < keys.len() ==> keys[i] <= keys[j] }
trait VSort<T>: Sized {
    spec fn vs_seq(&self) -> Seq<T>;
    /// the same items, by ascending key
    fn v_sort_unstable_by_key<F: Fn(&T) -> usize>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vs_seq().len() ==> call_requires(f, (&#[trigger] old(self).vs_seq()[i],)),
        ensures final(self).vs_seq().len() == old(self).vs_seq().len(),
            forall|x: T| #[trigger] final(self).vs_seq().contains(x) ==> old(self).vs_seq().contains(x),
            forall|x: T| #[trigger] old(self).vs_seq().contains(x) ==> final(self).vs_seq().contains(x),
            exists|keys: Seq<usize>| #[trigger] keys_sorted(keys) && keys.len() == final(self).vs_seq().len() && forall|i: int| #![trigger keys[i]] #![trigger final(self).vs_seq()[i]] 0 <= i < keys.len() ==> call_ensures(f, (&final(self).vs_seq()[i],), keys[i]);
}
impl<T> VSort<T> for Vec<T> {
    spec fn vs_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sort_unstable_by_key<F: Fn(&T) -> usize>(&mut self, f: F) { self.sort_unstable_by_key(f) }
}
spec fn from_entry(v: Seq<(f64, Seq<usize>)>, x: (usize, f64)) -> bool { exists|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] == x.0 && v[a].0 == x.1 }
/// the pairs (position, value) of the entries before position j of entry k
spec fn flat_upto(f: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>, k: int, j: int) -> bool {
    &&& forall|i: int| 0 <= i < f@.len() ==> from_entry(v, #[trigger] f@[i])
    &&& forall|a: int, b: int| #[trigger] listed(v, a, b) && (a < k || a == k && b < j) ==> f@.contains((v[a].1[b], v[a].0))
}
spec fn flat_all(f: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>) -> bool { flat_upto(f, v, v.len() as int, 0) }
proof fn lemma_flat_push(f0: &Vec<(usize, f64)>, f1: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>, k: int, j: int)
    requires flat_upto(f0, v, k, j), listed(v, k, j), f1@ == f0@.push((v[k].1[j], v[k].0))
    ensures flat_upto(f1, v, k, j + 1)
{
    assert forall|i: int| 0 <= i < f1@.len() implies from_entry(v, #[trigger] f1@[i]) by {
        if i < f0@.len() { assert(f0@[i] == f1@[i]); } else { assert(listed(v, k, j)); }
    }
    assert forall|a: int, b: int| #[trigger] listed(v, a, b) && (a < k || a == k && b < j + 1) implies f1@.contains((v[a].1[b], v[a].0)) by {
        if a == k && b == j { assert(f1@[f0@.len() as int] == (v[k].1[j], v[k].0)); }
        else { let i = choose|i: int| 0 <= i < f0@.len() && f0@[i] == (v[a].1[b], v[a].0); assert(f1@[i] == f0@[i]); }
    }
}
proof fn lemma_flat_next(f: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>, k: int)
    requires 0 <= k < v.len(), flat_upto(f, v, k, v[k].1.len() as int)
    ensures flat_upto(f, v, k + 1, 0)
{
    assert forall|a: int, b: int| #[trigger] listed(v, a, b) && (a < k + 1 || a == k + 1 && b < 0) implies f@.contains((v[a].1[b], v[a].0)) by { }
}
proof fn lemma_flat_perm(f0: &Vec<(usize, f64)>, f1: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>)
    requires flat_all(f0, v), f1@.len() == f0@.len(), forall|x: (usize, f64)| #[trigger] f1@.contains(x) ==> f0@.contains(x), forall|x: (usize, f64)| #[trigger] f0@.contains(x) ==> f1@.contains(x),
    ensures flat_all(f1, v)
{
    assert forall|i: int| 0 <= i < f1@.len() implies from_entry(v, #[trigger] f1@[i]) by {
        assert(f1@.contains(f1@[i]));
        let q = choose|q: int| 0 <= q < f0@.len() && f0@[q] == f1@[i]; assert(from_entry(v, f0@[q]));
    }
}
spec fn by_position(f: &Vec<(usize, f64)>) -> bool { forall|i: int, j: int| 0 <= i <= j < f@.len() ==> f@[i].0 <= f@[j].0 }
/// where the samples of pair i end
spec fn until(f: &Vec<(usize, f64)>, i: int, n: int) -> int { if i + 1 < f@.len() { f@[i + 1].0 as int } else { n } }
spec fn filled(data: Seq<f64>, f: &Vec<(usize, f64)>, k: int, n: int) -> bool {
    &&& data.len() == n
    &&& forall|i: int, p: int| 0 <= i < k && f@[i].0 <= p < until(f, i, n) && p < n ==> #[trigger] at2(data, f, i, p)
}
spec fn at2(data: Seq<f64>, f: &Vec<(usize, f64)>, i: int, p: int) -> bool { data[p] == f@[i].1 }
proof fn lemma_fill(d0: Seq<f64>, d1: Seq<f64>, f: &Vec<(usize, f64)>, k: int, n: int)
    requires by_position(f), 0 <= k < f@.len(), filled(d0, f, k, n), d1.len() == n,
        forall|p: int| f@[k].0 <= p < until(f, k, n) && p < n ==> d1[p] == f@[k].1,
        forall|p: int| 0 <= p < n && !(f@[k].0 <= p < until(f, k, n)) ==> #[trigger] d1[p] == d0[p],
    ensures filled(d1, f, k + 1, n)
{
    assert forall|i: int, p: int| 0 <= i < k + 1 && f@[i].0 <= p < until(f, i, n) && p < n implies #[trigger] at2(d1, f, i, p) by {
        if i < k { assert(f@[i + 1].0 <= f@[k].0); assert(at2(d0, f, i, p)); assert(d1[p] == d0[p]); }
    }
}
/// entry (k, j) is the last one at or before p
spec fn latest(v: Seq<(f64, Seq<usize>)>, k: int, j: int, p: int) -> bool {
    &&& listed(v, k, j) && v[k].1[j] <= p
    &&& forall|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] <= p ==> v[a].1[b] <= v[k].1[j]
}
spec fn ends_with(v: Seq<(f64, Seq<usize>)>, p: int, x: f64) -> bool { exists|k: int, j: int| #[trigger] latest(v, k, j, p) && x == v[k].0 }
spec fn begun(v: Seq<(f64, Seq<usize>)>, p: int) -> bool { exists|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] <= p }
/// each sample has the value of the last entry at or before it
spec fn placed(o: Seq<f64>, v: Seq<(f64, Seq<usize>)>, n: int) -> bool {
    &&& o.len() == n
    &&& forall|p: int| 0 <= p < n && begun(v, p) ==> ends_with(v, p, #[trigger] o[p])
}
proof fn lemma_last_le(f: &Vec<(usize, f64)>, i: int, p: int) -> (r: int)
    requires by_position(f), 0 <= i < f@.len(), f@[i].0 <= p
    ensures i <= r < f@.len(), f@[r].0 <= p, r + 1 < f@.len() ==> f@[r + 1].0 > p
    decreases f@.len() - i
{ if i + 1 < f@.len() && f@[i + 1].0 <= p { lemma_last_le(f, i + 1, p) } else { i } }
proof fn lemma_placed(o: Seq<f64>, f: &Vec<(usize, f64)>, v: Seq<(f64, Seq<usize>)>, n: int)
    requires by_position(f), flat_all(f, v), filled(o, f, f@.len() as int, n)
    ensures placed(o, v, n)
{
    assert forall|p: int| 0 <= p < n && begun(v, p) implies ends_with(v, p, #[trigger] o[p]) by {
        let (a, b) = choose|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] <= p;
        assert(f@.contains((v[a].1[b], v[a].0)));
        let i0 = choose|i: int| 0 <= i < f@.len() && f@[i] == (v[a].1[b], v[a].0);
        let i = lemma_last_le(f, i0, p);
        assert(at2(o, f, i, p));
        let (k, j) = choose|k: int, j: int| #[trigger] listed(v, k, j) && v[k].1[j] == f@[i].0 && v[k].0 == f@[i].1;
        assert forall|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] <= p implies v[a].1[b] <= v[k].1[j] by {
            assert(f@.contains((v[a].1[b], v[a].0)));
            let q = choose|q: int| 0 <= q < f@.len() && f@[q] == (v[a].1[b], v[a].0);
            if q > i { assert(f@[i + 1].0 <= f@[q].0); } else { assert(f@[q].0 <= f@[i].0); }
        }
        assert(latest(v, k, j, p));
    }
}
#fn IndexRLE::to_data
#opt loops=4 shim=iter:v_iter,sum:v_sum,sort_unstable_by_key:v_sort_unstable_by_key,iter_mut:v_iter_mut,take:v_take_mut,skip:v_skip_mut forcollect=1,3
#spec
    ensures placed(ret@, dv(self.rle), $1 as int),
#closure 0 |$c1: &(f64, Vec<usize>)| -> (r: usize)
#closure 1 |$c1: &(usize, f64)| -> (r: usize)
    ensures r == $c1.0
#loop 0 for it
            invariant
                data@.len() == $1,
                it.seq().len() == self.rle@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rle@[i],
                0 <= it.index() <= it.seq().len(),
                flat_upto(&flattened, dv(self.rle), it.index(), 0),
#body 0
            let ghost k = it.index();
            let ghost v = dv(self.rle);
            proof { assert(v[k] == (self.rle@[k].0, self.rle@[k].1@)); }
#loop 1 for jt
                invariant
                    data@.len() == $1,
                    v == dv(self.rle), 0 <= k < v.len(), v[k].0 == *value, v[k].1 == indices@,
                    jt.seq().len() == indices@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == indices@[i],
                    0 <= jt.index() <= jt.seq().len(),
                    flat_upto(&flattened, v, k, jt.index()),
#body 1
                let ghost f0 = flattened;
#bodyend 1
                proof { assert(listed(v, k, jt.index())); lemma_flat_push(&f0, &flattened, v, k, jt.index()); }
#bodyend 0
            proof { lemma_flat_next(&flattened, v, k); }
#after 0
        let ghost f1 = flattened;
#before 2
        proof {
            assert(by_position(&flattened));
            assert(flat_all(&f1, dv(self.rle)));
            lemma_flat_perm(&f1, &flattened, dv(self.rle));
            assert(flat_all(&flattened, dv(self.rle)));
        }
#loop 2 for
            invariant
                by_position(&flattened), flat_all(&flattened, dv(self.rle)),
                filled(data@, &flattened, i as int, $1 as int), i <= flattened@.len(),
#body 2
            let ghost d0 = data@;
#loop 3 for it
                invariant
                    forall|q: int| 0 <= q < it.index() ==> *final(#[trigger] it.seq()[q]) == value,
#bodyend 2
            proof { lemma_fill(d0, data@, &flattened, i as int, $1 as int); }
#pretail
        proof { lemma_placed(data@, &flattened, dv(self.rle), $1 as int); }

#prelude
spec fn stored(b: Seq<u8>, c: IndexRLE) -> bool { b == bc_enc(c.toks()) }
/// c is a lossless encoding of d
spec fn encodes(c: IndexRLE, d: Seq<f64>) -> bool { describes(dv(c.rle), d) && once(dv(c.rle)) && (all_finite(d) ==> all_fit(c.bitdepth, d)) }
#lemma
/// C03: what comes out of an encoding of d is numerically d, at every position
proof fn lemma_rle_lossless(c: IndexRLE, d: Seq<f64>, o: Seq<f64>)
    requires encodes(c, d), all_finite(d), outcome(c, d.len() as int, o)
    ensures o.len() == d.len(), forall|p: int| 0 <= p < d.len() ==> same(#[trigger] o[p], d[p])
{
    let v = dv(c.rle);
    let w = thru_all(c.bitdepth, v);
    assert forall|p: int| 0 <= p < d.len() implies same(#[trigger] o[p], d[p]) by {
        let s0 = lemma_start_of(d, p);
        let (a, b) = choose|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] == s0;
        assert(listed(w, a, b));
        assert(begun(w, p));
        let (k, j) = choose|k: int, j: int| #[trigger] latest(w, k, j, p) && o[p] == w[k].0;
        assert(listed(v, k, j));
        let s = v[k].1[j] as int;
        assert(s0 <= s <= p);
        // there is no start after s up to p
        assert forall|q: int| s < q <= p implies feq(d[q - 1], #[trigger] d[q]) by {
            if !feq(d[q - 1], d[q]) {
                assert(start(d, q));
                let (a, b) = choose|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] == q;
                assert(listed(w, a, b));
            }
        }
        assert(run(d, s, p));
        let q = choose|q: int| 0 <= q < d.len() && #[trigger] d[q] == v[k].0;
        assert(fits(c.bitdepth, d[q]));
        assert(same(v[k].0, d[p]));
    }
}
proof fn lemma_start_of(d: Seq<f64>, p: int) -> (s: int)
    requires 0 <= p < d.len()
    ensures 0 <= s <= p, start(d, s)
    decreases p
{ if start(d, p) { p } else { lemma_start_of(d, p - 1) } }
// ---- the interface
/// what a run gives
spec fn rle_result(d: Seq<f64>, b: Seq<u8>, e: f64) -> bool { e == 0.0f64 && exists|c: IndexRLE| #[trigger] stored(b, c) && encodes(c, d) }
spec fn frame_of(c: IndexRLE, n: int, b: Seq<u8>) -> bool { stored(b, c) && once(dv(c.rle)) && n >= 0 && forall|p: int| 0 <= p < n ==> #[trigger] begun(dv(c.rle), p) }
spec fn can_rle(n: int, b: Seq<u8>) -> bool { exists|c: IndexRLE| #[trigger] frame_of(c, n, b) }
spec fn outcome(c: IndexRLE, n: int, o: Seq<f64>) -> bool { placed(o, thru_all(c.bitdepth, dv(c.rle)), n) }
spec fn dec_rle(n: int, b: Seq<u8>) -> Seq<f64> { let c = choose|c: IndexRLE| #[trigger] frame_of(c, n, b); choose|o: Seq<f64>| #[trigger] outcome(c, n, o) }
/// the value at p
spec fn ending(v: Seq<(f64, Seq<usize>)>, p: int) -> f64 { choose|x: f64| #[trigger] ends_with(v, p, x) }
proof fn lemma_latest(v: Seq<(f64, Seq<usize>)>, p: int)
    requires begun(v, p), p >= 0
    ensures ends_with(v, p, ending(v, p))
    decreases p
{
    if exists|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] == p {
        let (a, b) = choose|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] == p;
        assert(latest(v, a, b, p)); assert(ends_with(v, p, v[a].0));
    } else {
        let (a, b) = choose|a: int, b: int| #[trigger] listed(v, a, b) && v[a].1[b] <= p;
        assert(v[a].1[b] <= p - 1);
        lemma_latest(v, p - 1);
        let x = ending(v, p - 1);
        let (k, j) = choose|k: int, j: int| #[trigger] latest(v, k, j, p - 1) && x == v[k].0;
        assert(latest(v, k, j, p)); assert(ends_with(v, p, x));
    }
}
proof fn lemma_one_outcome(v: Seq<(f64, Seq<usize>)>, n: int, o: Seq<f64>, q: Seq<f64>)
    requires once(v), n >= 0, forall|p: int| 0 <= p < n ==> #[trigger] begun(v, p), placed(o, v, n), placed(q, v, n)
    ensures o == q
{
    assert forall|p: int| 0 <= p < n implies #[trigger] o[p] == q[p] by {
        assert(begun(v, p));
        let (k, j) = choose|k: int, j: int| #[trigger] latest(v, k, j, p) && o[p] == v[k].0;
        assert(ends_with(v, p, q[p]));
        let (a, b) = choose|a: int, b: int| #[trigger] latest(v, a, b, p) && q[p] == v[a].0;
        assert(listed(v, k, j) && listed(v, a, b));
    }
    assert(o =~= q);
}
proof fn lemma_thru(b: Bitdepth, v: Seq<(f64, Seq<usize>)>, n: int)
    requires once(v), forall|p: int| 0 <= p < n ==> #[trigger] begun(v, p)
    ensures once(thru_all(b, v)), forall|p: int| 0 <= p < n ==> #[trigger] begun(thru_all(b, v), p)
{
    let w = thru_all(b, v);
    assert forall|k: int, j: int, a: int, c: int| #[trigger] listed(w, k, j) && #[trigger] listed(w, a, c) && w[k].1[j] == w[a].1[c] implies k == a && j == c by { assert(listed(v, k, j) && listed(v, a, c)); }
    assert forall|p: int| 0 <= p < n implies #[trigger] begun(w, p) by { assert(begun(v, p)); let (k, j) = choose|k: int, j: int| #[trigger] listed(v, k, j) && v[k].1[j] <= p; assert(listed(w, k, j)); }
}
/// whatever was stored, the outcome is the one the bytes stand for
proof fn lemma_one(b: Seq<u8>, n: int, c: IndexRLE)
    requires frame_of(c, n, b)
    ensures can_rle(n, b), outcome(c, n, dec_rle(n, b)), forall|o: Seq<f64>| #[trigger] outcome(c, n, o) ==> o == dec_rle(n, b)
{
    let c2 = choose|c: IndexRLE| #[trigger] frame_of(c, n, b);
    lemma_round(c); lemma_round(c2);
    ax_one_way::<IndexRLE>(c.toks(), c2.toks());
    let v = thru_all(c.bitdepth, dv(c.rle));
    assert(v == thru_all(c2.bitdepth, dv(c2.rle)));
    lemma_thru(c.bitdepth, dv(c.rle), n);
    let o = Seq::new(n as nat, |p: int| ending(v, p));
    assert forall|p: int| 0 <= p < n && begun(v, p) implies ends_with(v, p, #[trigger] o[p]) by { lemma_latest(v, p); }
    assert(outcome(c2, n, o));
    assert forall|o: Seq<f64>| #[trigger] outcome(c, n, o) implies o == dec_rle(n, b) by { lemma_one_outcome(v, n, o, dec_rle(n, b)); }
}
proof fn lemma_encoded(b: Seq<u8>, c: IndexRLE, d: Seq<f64>)
    requires stored(b, c), encodes(c, d)
    ensures can_rle(d.len() as int, b), dec_rle(d.len() as int, b).len() == d.len(), all_finite(d) ==> as_given(d, dec_rle(d.len() as int, b))
{
    let n = d.len() as int;
    assert forall|p: int| 0 <= p < n implies #[trigger] begun(dv(c.rle), p) by {
        assert(start(d, 0));
        let (k, j) = choose|k: int, j: int| #[trigger] listed(dv(c.rle), k, j) && dv(c.rle)[k].1[j] == 0;
    }
    assert(frame_of(c, n, b));
    lemma_one(b, n, c);
    if all_finite(d) { lemma_rle_lossless(c, d, dec_rle(n, b)); }
}
#fn rle_compressor
#spec
    requires stats_of($2, $1@),
    ensures
        can_rle($1@.len() as int, ret.compressed_data@), dec_rle($1@.len() as int, ret.compressed_data@).len() == $1@.len(),
        all_finite($1@) ==> as_given($1@, dec_rle($1@.len() as int, ret.compressed_data@)),
        ret.error == 0.0f64, rle_result($1@, ret.compressed_data@, ret.error),
#pretail
        proof { assert(stored(bc_enc(c.toks()), c)); lemma_encoded(bc_enc(c.toks()), c, $1@); }
#fn rle_to_data
#spec
    requires can_rle($1 as int, $2@),
    ensures ret@ == dec_rle($1 as int, $2@),
#start
        proof { let c0 = choose|c: IndexRLE| #[trigger] frame_of(c, $1 as int, $2@); assert(stored($2@, c0)); lemma_one($2@, $1 as int, c0);
            assert forall|c: IndexRLE, o: Seq<f64>| c0.back(c) && #[trigger] placed(o, dv(c.rle), $1 as int) implies o == dec_rle($1 as int, $2@) by { assert(outcome(c0, $1 as int, o)); } }
