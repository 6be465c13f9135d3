#! Cleaning and framing (C06, C07)
#include iter.vxi
#include float.vxi
#file atsc/src/compressor/mod.rs
#item enum Compressor
#[derive(Clone, Copy, PartialEq, Eq)]
#include chunks.vxi
#file atsc/src/utils/mod.rs
#prelude
global size_of usize == 8;
pub assume_specification [usize::leading_zeros] (n: usize) -> (r: u32)
    ensures r == vstd::std_specs::bits::u64_leading_zeros(n as u64);

proof fn lemma_top_bit(n: u64, m: u64, h: u64)
    requires n > 0, m == n | 1, h < 64, (m >> h) & 1 == 1, h < 63 ==> m >> ((h + 1) as u64) == 0,
    ensures (1u64 << h) & n == 1u64 << h, n >= 1u64 << h, h < 63 ==> n < 1u64 << ((h + 1) as u64),
{
    assert((1u64 << h) & n == 1u64 << h && n >= 1u64 << h) by (bit_vector) requires n > 0, m == n | 1, h < 64, (m >> h) & 1 == 1, h < 63 ==> m >> ((h + 1) as u64) == 0;
    if h < 63 {
        let k = (h + 1) as u64;
        assert(n < 1u64 << k) by (bit_vector) requires m == n | 1, k < 64, m >> k == 0;
    }
}
proof fn lemma_same_top(n: u64, m: u64, h: u64, k: u64)
    requires n > 0, m == n | 1, h < 64, k < 64, (m >> h) & 1 == 1, h < 63 ==> m >> ((h + 1) as u64) == 0, (n >> k) & 1 == 1, k < 63 ==> n >> ((k + 1) as u64) == 0,
    ensures h == k,
{
    let (h1, k1) = (add(h, 1), add(k, 1));
    assert(h == k) by (bit_vector) requires n > 0, m == n | 1, h < 64, k < 64, (m >> h) & 1 == 1, h < 63 ==> m >> h1 == 0, (n >> k) & 1 == 1, k < 63 ==> n >> k1 == 0, h1 == add(h, 1), k1 == add(k, 1);
}
#fn prev_power_of_two
#spec
    ensures $1 > 0 ==> is_pow2(ret as int) && ret <= $1 && $1 < 2 * ret, $1 == 0 ==> ret == 0,
#start
        proof {
            let m = ($1 | 1) as u64;
            vstd::std_specs::bits::axiom_u64_leading_zeros(m);
            let lz = vstd::std_specs::bits::u64_leading_zeros(m);
            assert(m != 0) by (bit_vector) requires m == ($1 as u64) | 1;
            let h = sub(63u64, lz as u64);
            assert(h == 63 - lz);
            let q = m >> h;
            assert(q & 1u64 != 0u64 ==> (q & 1u64) == 1u64) by (bit_vector);
            assert(h < 63 ==> (1u64 << ((h + 1) as u64)) == 2 * (1u64 << h)) by (bit_vector) requires h < 64;
            assert((1u64 << 63) == 0x8000_0000_0000_0000) by (bit_vector);
            assert((1usize << (h as u32)) as u64 == 1u64 << h);
            if $1 == 0 { assert forall|x: usize| #[trigger] (x & $1) == 0 by { assert(x & 0usize == 0) by (bit_vector); } }
            if $1 > 0 {
                lemma_top_bit($1 as u64, m, h);
                // the top bit of the number itself is the same
                let o = $1 as u64;
                vstd::std_specs::bits::axiom_u64_leading_zeros(o);
                let k = sub(63u64, vstd::std_specs::bits::u64_leading_zeros(o) as u64);
                assert(k == 63 - vstd::std_specs::bits::u64_leading_zeros(o));
                assert((o >> k) & 1u64 != 0u64 ==> ((o >> k) & 1u64) == 1u64) by (bit_vector);
                lemma_same_top(o, m, h, k);
            }
        }

#file atsc/src/optimizer/mod.rs
#file atsc/src/utils/mod.rs
#fn f64_to_u64
#opt castf
#spec
    requires $2 <= 6,
#file atsc/src/optimizer/mod.rs
#fn OptimizerPlan::get_chunks_sizes
#spec
    ensures total(ret@) == $1, frames_ok(ret@, true),
#loop 0 while
            invariant
                frames_ok(chunk_sizes@, len == 0),
                total(chunk_sizes@) + len == n0,
            decreases len,
#start
        let ghost n0 = len as int;
        proof { lemma_consts(); }
#body 0
            proof {
                lemma_consts();
                assert forall|x: usize| total(#[trigger] chunk_sizes@.push(x)) == total(chunk_sizes@) + x by { lemma_push_total(chunk_sizes@, x); }
            }

#prelude
#[verifier::external_body]
fn v_panic() requires false { unimplemented!() }
#prelude
spec fn p_finite<'a>() -> spec_fn(&'a f64) -> bool { |x: &'a f64| finite(*x) }
spec fn refs(r: Seq<&f64>, d: Seq<f64>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == d[i] }
spec fn is_clean(a: Seq<&f64>, d: Seq<f64>) -> bool { refs(a, clean_of(d)) }
proof fn lemma_filter_ref(r: Seq<&f64>, d: Seq<f64>)
    requires refs(r, d)
    ensures is_clean(r.filter(p_finite()), d)
    decreases r.len()
{
    reveal(Seq::filter);
    if r.len() > 0 { assert(refs(r.drop_last(), d.drop_last())); assert(*r[r.len() - 1] == d[d.len() - 1]); lemma_filter_ref(r.drop_last(), d.drop_last()); }
}
#fn OptimizerPlan::clean_data
#opt shim=iter:v_iter
#closure 0 |$c1: &&f64| -> (b: bool)
    ensures b == finite(**$c1)
#spec
    ensures ret@ == clean_of($1@),
#start
        proof {
            assert forall|t: VIt<&f64>| refs(t.sq(), $1@) implies is_clean((#[trigger] t.sq()).filter(p_finite()), $1@) by { lemma_filter_ref(t.sq(), $1@); }
        }

#fn OptimizerPlan::get_compressor
#opt shim=iter:v_iter,map:v_map
#closure 0 |$c1: &f64| -> (r: u64)
#fn OptimizerPlan::assign_compressor
#spec
    requires total($2@) == $1@.len(), $3 is None,
    ensures ret@.len() == $2@.len(),
#loop 0 for it
                    invariant
                        it.seq().len() == $2@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == $2@[i],
                        0 <= it.index() <= $2@.len(),
                        total($2@) == $1@.len(),
                        s == at($2@, it.index()),
                        selection@.len() == it.index(),
#body 0
                    proof { assert($1.len() <= usize::MAX); lemma_at($2@, it.index()); lemma_at_mono($2@, it.index(), it.index() + 1); lemma_at_mono($2@, it.index() + 1, $2@.len() as int); }
#fn OptimizerPlan::plan
#spec
    ensures ret.wf(), ret.data@ == clean_of($1@),
#fn OptimizerPlan::set_compressor
#spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data == old(self).data, final(self).chunk_sizes == old(self).chunk_sizes,
        forall|k: int| 0 <= k < final(self).compressors@.len() ==> final(self).compressors@[k] == $1,
#fn OptimizerPlan::get_execution
#opt shim=iter:v_iter forcollect=0
#spec
    requires self.wf(),
    ensures exec_of(&ret, *self, self.chunk_sizes@.len() as int),
#loop 0 for it
            invariant
                self.wf(),
                it.seq().len() == self.chunk_sizes@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1 == self.chunk_sizes@[i],
                0 <= it.index() <= self.chunk_sizes@.len(),
                s == at(self.chunk_sizes@, it.index()),
                exec_of(&output, *self, it.index()),
#body 0
            proof {
                assert(self.data.len() <= usize::MAX);
                lemma_at(self.chunk_sizes@, it.index());
                lemma_at_mono(self.chunk_sizes@, it.index(), it.index() + 1);
                lemma_at_mono(self.chunk_sizes@, it.index() + 1, self.chunk_sizes@.len() as int);
            }
