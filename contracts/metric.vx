#! The metric: values with their times of day (C22)
#include std.vxi
#include iter.vxi
#include fs.vxi
#include float.vxi
#include dayspec.vxi
#include wbspec.vxi
#include vsrispec.vxi
#file vsri/src/lib.rs
#default Vsri
    ensures r.wf(), r.ts() =~= Seq::<int>::empty(), r.max_ts == 0,
#trusted Vsri::update_for_point
#opt from=vsri
#trusted Vsri::get_time
#opt from=vsri
#trusted day_elapsed_seconds
#opt from=days
#file wavbrro/src/wavbrro.rs
#trusted <WavBrro as Default>::default
#opt from=wavbrro inherent
#trusted WavBrro::add_sample
#opt from=wavbrro
#trusted WavBrro::get_samples
#opt from=wavbrro
#file csv-compressor/src/csv.rs
#item struct Sample
#[derive(Clone)]
#fn Sample::new
#spec
    ensures ret.timestamp == $1, ret.value == $2,
#include metricspec.vxi
#prelude
proof fn lemma_kept(s: Seq<Sample>, x: Sample)
    ensures
        finite(x.value) ==> kept(s.push(x)) == kept(s).push(x) && vals(s.push(x)) =~= vals(s).push(x.value) && tods(s.push(x)) =~= tods(s).push(tod(x)),
        !finite(x.value) ==> kept(s.push(x)) == kept(s) && vals(s.push(x)) =~= vals(s) && tods(s.push(x)) =~= tods(s),
        kept(s).len() <= s.len(),
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
    s.lemma_filter_len(has_value());
}
proof fn lemma_push_order(m: int, t: Seq<int>, x: int)
    ensures ordered(m, t.push(x)) <==> ordered(m, t) && x >= if t.len() == 0 { m } else { t.last() }
{
    let u = t.push(x);
    if ordered(m, u) {
        assert(u[t.len() as int] == x);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] >= if i == 0 { m } else { t[i - 1] } by { assert(u[i] == t[i]); if i > 0 { assert(u[i - 1] == t[i - 1]); } }
    }
    if ordered(m, t) && x >= if t.len() == 0 { m } else { t.last() } {
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] >= if i == 0 { m } else { u[i - 1] } by { if i < t.len() { assert(u[i] == t[i]); } if i > 0 { assert(u[i - 1] == t[i - 1]); } }
    }
}
/// an order that breaks stays broken
proof fn lemma_broken(m: int, s: Seq<Sample>, k: int)
    requires 0 <= k <= s.len(), ordered(m, tods(s))
    ensures ordered(m, tods(s.take(k)))
    decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else {
        lemma_broken(m, s, k + 1);
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
        lemma_kept(s.take(k), s[k]);
        if finite(s[k].value) { lemma_push_order(m, tods(s.take(k)), tod(s[k])); }
    }
}
mod metric { use super::*;
    broadcast use {fx::fl, cx::ax_secs};
#file csv-compressor/src/metric.rs
#item struct Metric
#item enum Error
#default Metric
    ensures r.wf(), r.vals() =~= Seq::<f64>::empty(), r.vsri.ts() =~= Seq::<int>::empty(), r.vsri.max_ts == 0,
#include metricwf.vxi
#file csv-compressor/src/metric.rs
#fn Metric::new
#spec
    ensures ret.wbro == $1, ret.vsri == $2,
#fn Metric::append_samples
#spec
    requires old(self).wf(), dated($1@), old(self).vals().len() + $1@.len() <= i32::MAX,
    ensures
        final(self).wf(),
        ret is Ok <==> ordered(old(self).vsri.max_ts as int, tods($1@)),
        ret is Ok ==> final(self).vals() == old(self).vals() + vals($1@) && final(self).vsri.ts() == old(self).vsri.ts() + tods($1@),
#closure 0 |$c1: super::Error| -> (r: Error)
#loop 0 for it
            invariant
                it.seq() == Seq::new($1@.len(), |i: int| &$1@[i]), 0 <= it.index() <= it.seq().len(),
                self.wf(), dated($1@), old(self).vals().len() + $1@.len() <= i32::MAX,
                ordered(old(self).vsri.max_ts as int, tods($1@.take(it.index()))),
                self.vals() == old(self).vals() + vals($1@.take(it.index())),
                self.vsri.ts() == old(self).vsri.ts() + tods($1@.take(it.index())),
                self.vsri.max_ts == if tods($1@.take(it.index())).len() == 0 { old(self).vsri.max_ts as int } else { tods($1@.take(it.index())).last() },
#before 0
        proof {
            lemma_len(self.vsri.segs());
            assert($1@.take(0) =~= Seq::<Sample>::empty());
            reveal(Seq::filter);
            assert(kept($1@.take(0)).len() == 0);
            assert(self.vals() =~= old(self).vals() + vals($1@.take(0)));
            assert(self.vsri.ts() =~= old(self).vsri.ts() + tods($1@.take(0)));
        }
#body 0
            let ghost k = it.index();
            proof {
                let (p, x) = ($1@.take(k), $1@[k]);
                assert($1@.take(k + 1) =~= p.push(x));
                lemma_kept(p, x);
                lemma_push_order(old(self).vsri.max_ts as int, tods(p), tod(x));
                if ordered(old(self).vsri.max_ts as int, tods($1@)) { lemma_broken(old(self).vsri.max_ts as int, $1@, k + 1); }
                lemma_len(self.vsri.segs());
                if finite(x.value) {
                    assert(tods($1@.take(k + 1)).last() == tod(x));
                    assert((old(self).vals() + vals(p)).push(x.value) =~= old(self).vals() + vals(p.push(x)));
                    assert((old(self).vsri.ts() + tods(p)).push(tod(x)) =~= old(self).vsri.ts() + tods(p.push(x)));
                }
            }
#pretail
        proof { assert($1@.take($1@.len() as int) =~= $1@); }
#fn Metric::from_samples
#spec
    requires dated($1@), $1@.len() <= i32::MAX,
    ensures
        ret is Ok <==> ordered(0, tods($1@)),
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.vals() == vals($1@) && ret->Ok_0.vsri.ts() == tods($1@),
#pretail
        proof { assert(Seq::<f64>::empty() + vals($1@) =~= vals($1@)); assert(Seq::<int>::empty() + tods($1@) =~= tods($1@)); }
#fn Metric::get_samples
#opt shim=iter:v_iter
#spec
    requires self.wf(),
    ensures ret@.len() == self.vals().len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).value == self.vals()[i] && ret@[i].timestamp == self.vsri.ts()[i],
#closure 0 |$c1: (usize, &f64)| -> (r: Sample)
    requires $c1.0 < self.vsri.ts().len(), self.vsri.wf(), self.vsri.ts().len() <= i32::MAX,
    ensures r.value == *$c1.1, r.timestamp == self.vsri.ts()[$c1.0 as int],
#start
        proof { lemma_len(self.vsri.segs()); }
#prelude
/// what goes into a metric comes out
fn in_and_out(s: &[Sample])
    requires dated(s@), s@.len() <= i32::MAX, ordered(0, tods(s@))
{
    let m = match Metric::from_samples(s) { Ok(m) => m, Err(_) => { assert(false); return; } };
    let r = m.get_samples();
    assert(r@.len() == kept(s@).len());
    assert(forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).value == kept(s@)[i].value && r@[i].timestamp == tod(kept(s@)[i]));
}
}
