#! Contracts for the time index (vsri crate): C15..C18
#include std.vxi
#include vsrispec.vxi
#fn Vsri::new
#spec
    ensures ret.wf(), ret.ts() =~= Seq::<int>::empty(), ret.segs().len() == 0,

#fn Vsri::min
#spec
    ensures ret == self.min_ts,
#fn Vsri::max
#spec
    ensures ret == self.max_ts,

#fn Vsri::current_segment
#spec
    ensures
        self.segs().len() == 0 ==> ret == [0i32, 0i32, 0i32, 0i32],
        self.segs().len() > 0 ==> ret == self.segs()[self.segs().len() - 1],

#fn Vsri::get_sample_count
#spec
    requires segs_ok(self.segs()),
    ensures ret == self.ts().len(),
#start
        proof { lemma_len(self.segs()); }

#fn Vsri::is_fake_segment
#spec
    ensures
        self.segs().len() > 0 ==> ret == (self.segs()[self.segs().len() - 1][0] == 0 && self.segs()[self.segs().len() - 1][3] < 2),

#fn Vsri::create_fake_segment
#spec
    requires segs_ok(self.segs()),
    ensures ret == [0i32, self.ts().len() as i32, $1, 1i32],
#start
        proof { lemma_len(self.segs()); }

#fn Vsri::generate_segment
#spec
    requires segs_ok(self.segs()), self.segs().len() > 0, self.segs()[self.segs().len() - 1][3] == 1,
        $1 >= seg_end(self.segs()[self.segs().len() - 1]),
    ensures
        ({ let l = self.segs()[self.segs().len() - 1]; ret[0] == $1 - l[2] && ret[1] == l[1] && ret[2] == l[2] && ret[3] == 2 && ret[0] >= 0 }),
#start
        proof { assert(seg_at(self.segs(), self.segs().len() - 1)); }

#fn Vsri::fits_segment
#spec
    requires segs_ok(self.segs()), self.segs().len() > 0,
    ensures ({ let l = self.segs()[self.segs().len() - 1]; ret == ($1 == l[2] + l[0] * l[3]) }),
#start
        proof {
            let s = self.segs()[self.segs().len() - 1];
            assert(seg_at(self.segs(), self.segs().len() - 1));
            assert(s[0] * s[3] <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= s[0] <= 0x7fff_ffff, 0 <= s[3] <= 0x7fff_ffff;
            assert(s[0] * s[3] >= 0) by (nonlinear_arith) requires 0 <= s[0], 0 <= s[3];
        }

#fn Vsri::update_for_point
#spec
    requires old(self).wf(), old(self).ts().len() < i32::MAX,
    ensures
        $1 < old(self).max_ts ==> ret.is_err() && *final(self) == *old(self),
        $1 >= old(self).max_ts ==> ret.is_ok() && final(self).ts() == old(self).ts().push($1 as int) && final(self).max_ts == $1,
        old(self).segs().len() > 0 ==> final(self).min_ts == old(self).min_ts,
        final(self).wf(),
        final(self).index_file == old(self).index_file,
#start
        let ghost g = old(self).segs();
        proof {
            lemma_len(g);
            if $1 >= old(self).max_ts {
            assert forall|s: [i32; 4]| s[0] == 0 && s[1] == times(g).len() && s[2] == $1 && s[3] == 1
                implies times(#[trigger] g.push(s)) == times(g).push(s[2] as int) && segs_ok(g.push(s)) && seg_end(s) == s[2] by { lemma_push(g, s); }
            if g.len() > 0 {
                let last = g.len() - 1;
                let l = g[last];
                assert(seg_at(g, last));
                assert(l[0] * l[3] == l[0] * (l[3] - 1) + l[0]) by (nonlinear_arith);
                assert forall|s: [i32; 4]| s[3] == l[3] + 1 && s[2] == l[2] && s[1] == l[1] && s[0] >= 0 && (s[0] == l[0] || l[3] == 1) && $1 == s[2] + s[0] * l[3]
                    implies times(#[trigger] g.update(last, s)) == times(g).push($1 as int) && segs_ok(g.update(last, s)) && seg_end(s) == $1 by { lemma_grow(g, s, $1 as int); }
            }
            }
        }

#fn Vsri::get_time
#spec
    requires self.wf(),
    ensures
        0 <= $1 < self.ts().len() ==> ret is Some && ret->0 == self.ts()[$1 as int],
        !(0 <= $1 < self.ts().len()) ==> ret is None,
#start
        proof {
            let g = self.segs();
            lemma_len(g);
            if g.len() > 0 { lemma_split(g, 0); }
        }
#loop 0 for it
                invariant
                    self.wf(),
                    it.seq() == Seq::new(self.segs().len(), |i: int| &self.segs()[i]),
                    0 <= $1 < self.ts().len() ==> (it.index() < self.segs().len() && $1 >= self.segs()[it.index()][1]),
                    $1 < 0 ==> it.index() <= self.segs().len(),
                    $1 < self.ts().len(),
                    0 <= it.index() <= self.segs().len(),
#body 0
            proof {
                let g = self.segs();
                let k = it.index();
                lemma_split(g, k);
                if g[k][1] <= $1 < g[k][1] + g[k][3] {
                    lemma_ts_at(g, k, $1 as int);
                    lemma_mul_mono(g[k][0] as int, 0, $1 - g[k][1]);
                }
            }

#fn Vsri::get_sample
#spec
    requires self.wf(),
    ensures
        match ret {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] == $1 && strictly_below(self.segs(), i as int, $1 as int),
            None => differs(self.segs(), self.ts().len() as int, $1 as int),
        },
#start
        proof { lemma_len(self.segs()); if self.segs().len() > 0 { lemma_split(self.segs(), 0); } }
#loop 0 for it
            invariant
                self.wf(),
                it.seq() == Seq::new(self.segs().len(), |i: int| &self.segs()[i]),
                0 <= it.index() <= self.segs().len(),
                differs(self.segs(), start_of(self.segs(), it.index()), $1 as int),
#body 0
            proof {
                let g = self.segs();
                let k = it.index();
                lemma_split(g, k);
                if g[k][0] == 0 { assert(g[k][0] * (g[k][3] - 1) == 0) by (nonlinear_arith) requires g[k][0] == 0; }
                if g[k][0] > 0 && g[k][2] <= $1 <= seg_end(g[k]) { lemma_grid(g, k, $1 as int); }
            }

#fn Vsri::get_next_sample
#spec
    requires self.wf(),
    ensures
        match ret {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] > $1 && below(self.segs(), i as int, $1 as int),
            None => below(self.segs(), self.ts().len() as int, $1 as int),
        },
#start
        proof {
            let g = self.segs();
            lemma_len(g);
            if g.len() > 0 { lemma_split(g, 0); lemma_split(g, g.len() - 1); }
        }
#loop 0 for it
            invariant
                self.wf(),
                it.seq() == Seq::new(self.segs().len(), |i: int| &self.segs()[i]),
                0 <= it.index() <= self.segs().len(),
                below(self.segs(), start_of(self.segs(), it.index()), $1 as int),
#body 0
            proof {
                let g = self.segs();
                let k = it.index();
                lemma_split(g, k);
                if g[k][2] <= $1 < seg_end(g[k]) { lemma_floor(g, k, $1 as int); }
            }

#fn Vsri::get_previous_sample
#spec
    requires self.wf(),
    ensures
        match ret {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] <= $1 && strictly_above(self.segs(), i + 1, $1 as int),
            None => strictly_above(self.segs(), 0, $1 as int),
        },
#start
        proof {
            let g = self.segs();
            lemma_len(g);
            if g.len() > 0 { lemma_split(g, 0); lemma_split(g, g.len() - 1); lemma_below(g, 0, $1 as int); }
        }
#loop 0 for it
            invariant
                self.wf(),
                it.seq() == Seq::new(self.segs().len(), |i: int| &self.segs()[i]),
                0 <= it.index() <= self.segs().len(),
                self.segs().len() > 0,
                $1 >= self.segs()[0][2],
                $1 < seg_end(self.segs()[self.segs().len() - 1]),
                below(self.segs(), start_of(self.segs(), it.index()), $1 as int),
#body 0
            proof {
                let g = self.segs();
                let k = it.index();
                lemma_split(g, k);
                lemma_split(g, g.len() - 1);
                if k > 0 { lemma_split(g, k - 1); }
                lemma_below(g, g[k][1] as int, $1 as int);
                if g[k][2] <= $1 < seg_end(g[k]) { lemma_floor(g, k, $1 as int); }
            }

#fn Vsri::get_this_or_next
#closure 0 || -> (r: Option<i32>)
    requires self.wf(),
    ensures match r {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] > $1 && below(self.segs(), i as int, $1 as int),
            None => below(self.segs(), self.ts().len() as int, $1 as int),
        }
#spec
    requires self.wf(),
    ensures
        match ret {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] >= $1 && strictly_below(self.segs(), i as int, $1 as int),
            None => strictly_below(self.segs(), self.ts().len() as int, $1 as int),
        },

#fn Vsri::get_this_or_previous
#spec
    requires self.wf(),
    ensures
        match ret {
            Some(i) => 0 <= i < self.ts().len() && self.ts()[i as int] <= $1,
            None => strictly_above(self.segs(), 0, $1 as int),
        },

#fn Vsri::is_empty
#opt shim=enumerate
#spec
    requires self.wf(), $1[0] <= $1[1],
    ensures ret == forall|k: int| 0 <= k < self.segs().len() ==> $1[1] < (#[trigger] self.segs()[k])[2] || $1[0] > seg_end(self.segs()[k]),
#start
        proof { if self.segs().len() > 0 { lemma_split(self.segs(), 0); } }
#loop 0 for it
                    invariant
                        self.wf(),
                        $1[0] <= $1[1],
                        it.seq().len() == self.segs().len(),
                        forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == (i as usize, &self.segs()[i]),
                        0 <= it.index() <= self.segs().len(),
                        forall|k: int| 0 <= k < it.index() ==> $1[1] < (#[trigger] self.segs()[k])[2] || $1[0] > seg_end(self.segs()[k]),
                        it.index() > 0 ==> previous_seg_end == seg_end(self.segs()[it.index() - 1]),
#body 0
            proof {
                let g = self.segs();
                let j = it.index();
                lemma_split(g, j);
                assert forall|k: int| 0 <= k < g.len() && k != j implies
                    (k > j ==> seg_end(g[j]) <= (#[trigger] g[k])[2]) && (k < j ==> seg_end(g[k]) <= seg_end(g[j - 1])) && g[k][2] <= seg_end(g[k]) by {
                    lemma_split(g, k);
                    if k > j { lemma_seg_order(g, j, k); }
                    if k < j - 1 { lemma_seg_order(g, k, j - 1); assert(seg_at(g, j - 1)); }
                }
            }

#fn Vsri::get_all_timestamps
#opt shim=extend
#closure 0 |$c1: i32| -> (r: i32)
    requires seg_ok(*segment), 0 <= $c1 < segment[3], time_step == segment[0], initial_ts == segment[2],
    ensures r == segment[2] + segment[0] * $c1
#spec
    requires self.wf(),
    ensures ret@.len() == self.ts().len(), forall|j: int| 0 <= j < ret@.len() ==> #[trigger] ret@[j] == self.ts()[j],
#start
        proof { lemma_len(self.segs()); if self.segs().len() > 0 { lemma_split(self.segs(), 0); } }
#loop 0 for it
            invariant
                self.wf(),
                it.seq() == Seq::new(self.segs().len(), |i: int| &self.segs()[i]),
                0 <= it.index() <= self.segs().len(),
                time_vec@.len() == start_of(self.segs(), it.index()),
                forall|j: int| 0 <= j < time_vec@.len() ==> #[trigger] time_vec@[j] == self.ts()[j],
#body 0
            let ghost before = time_vec@;
            proof { let g = self.segs(); let k = it.index(); lemma_split(g, k);
            assert forall|i: int| g[k][1] <= i < g[k][1] + g[k][3] implies #[trigger] times(g)[i] == g[k][2] + g[k][0] * (i - g[k][1]) by { lemma_ts_at(g, k, i); }
            assert forall|f: int| 0 <= f < g[k][3] implies 0 <= #[trigger] (f * g[k][0]) && f * g[k][0] + g[k][2] <= i32::MAX && f * g[k][0] == g[k][0] * f by { lemma_ts_at(g, k, g[k][1] + f); lemma_mul_mono(g[k][0] as int, 0, f); assert(f * g[k][0] == g[k][0] * f) by (nonlinear_arith); }
            }
