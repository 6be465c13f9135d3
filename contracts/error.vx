#! Error metrics (C14)
#include iter.vxi
#include float.vxi
#prelude
#[verifier::external_body]
fn v_panic() requires false { unimplemented!() }
#[verifier::external_body]
fn v_refuse() ensures false { panic!() }
mod cmp { use super::*; pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } } }
#include errspec.vxi
#file atsc/src/utils/error.rs
#fn error_mse
#opt castf shim=map:v_map
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(vsum(each($2@, $1@, d_sq())), cnt($1@)),
#closure 0 |$c1: usize| -> (r: f64)
    requires $c1 < $1@.len(), $c1 < $2@.len(),
    ensures r == d_sq()($2@[$c1 as int], $1@[$c1 as int])
#fn error_mse
#opt panic=v_refuse rename=error_mse_any castf shim=map:v_map
#spec
    ensures $1@.len() == $2@.len(), ret == fdiv(vsum(each($2@, $1@, d_sq())), cnt($1@)),
#closure 0 |$c1: usize| -> (r: f64)
    requires $c1 < $1@.len(), $c1 < $2@.len(),
    ensures r == d_sq()($2@[$c1 as int], $1@[$c1 as int])
#fn error_mae
#opt castf shim=iter:v_iter
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(vsum(each($1@, $2@, d_abs())), cnt($1@)),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_abs()(*$c1.0, *$c1.1)
#fn error_mae
#opt panic=v_refuse rename=error_mae_any castf shim=iter:v_iter
#spec
    ensures $1@.len() == $2@.len(), ret == fdiv(vsum(each($1@, $2@, d_abs())), cnt($1@)),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_abs()(*$c1.0, *$c1.1)
#fn error_nmsqe
#opt castf shim=iter:v_iter
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(vsum(each($1@, $2@, d_sq())), vsum(each($1@, $2@, o_sq()))),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_sq()(*$c1.0, *$c1.1)
#closure 1 |$c1: &f64| -> (r: f64)
    ensures r == o_sq()(*$c1, *$c1)
#fn error_nmsqe
#opt panic=v_refuse rename=error_nmsqe_any castf shim=iter:v_iter
#spec
    ensures $1@.len() == $2@.len(), ret == fdiv(vsum(each($1@, $2@, d_sq())), vsum(each($1@, $2@, o_sq()))),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_sq()(*$c1.0, *$c1.1)
#closure 1 |$c1: &f64| -> (r: f64)
    ensures r == o_sq()(*$c1, *$c1)
#fn error_mape
#opt castf shim=iter:v_iter
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(vsum(each($1@, $2@, d_pct())), cnt($1@)),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_pct()(*$c1.0, *$c1.1)
#fn error_mape
#opt panic=v_refuse rename=error_mape_any castf shim=iter:v_iter
#spec
    ensures $1@.len() == $2@.len(), ret == fdiv(vsum(each($1@, $2@, d_pct())), cnt($1@)),
#closure 0 |$c1: (&f64, &f64)| -> (r: f64)
    ensures r == d_pct()(*$c1.0, *$c1.1)
#prelude
spec fn smape_sum(o: Seq<f64>, g: Seq<f64>) -> f64
    decreases o.len()
{
    if o.len() == 0 { 0.0f64 } else {
        let (p, a, b) = (smape_sum(o.drop_last(), g.drop_last()), o.last(), g.last());
        if feq(b, a) { p } else { fadd(p, fdiv(fabs(fsub(b, a)), fadd(fabs(a), fabs(b)))) }
    }
}
#fn error_smape
#opt castf fops shim=iter:v_iter forcollect=0
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(smape_sum($1@, $2@), cnt($1@)),
#loop 0 for it
            invariant
                $1@.len() == $2@.len(), it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == $1@[i] && *it.seq()[i].1 == $2@[i],
                0 <= it.index() <= $1@.len(),
                sum == smape_sum($1@.take(it.index()), $2@.take(it.index())),
#body 0
            proof { assert($1@.take(it.index() + 1).drop_last() =~= $1@.take(it.index())); assert($2@.take(it.index() + 1).drop_last() =~= $2@.take(it.index())); }
#after 0
        proof { assert($1@.take($1@.len() as int) =~= $1@); assert($2@.take($2@.len() as int) =~= $2@); }
#fn error_smape
#opt panic=v_refuse rename=error_smape_any castf fops shim=iter:v_iter forcollect=0
#spec
    ensures $1@.len() == $2@.len(), ret == fdiv(smape_sum($1@, $2@), cnt($1@)),
#loop 0 for it
            invariant
                $1@.len() == $2@.len(), it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == $1@[i] && *it.seq()[i].1 == $2@[i],
                0 <= it.index() <= $1@.len(),
                sum == smape_sum($1@.take(it.index()), $2@.take(it.index())),
#body 0
            proof { assert($1@.take(it.index() + 1).drop_last() =~= $1@.take(it.index())); assert($2@.take(it.index() + 1).drop_last() =~= $2@.take(it.index())); }
#after 0
        proof { assert($1@.take($1@.len() as int) =~= $1@); assert($2@.take($2@.len() as int) =~= $2@); }
#item enum ErrorMethod
#[derive(Clone)]
#default ErrorMethod
#fn ErrorMethod::error
#spec
    requires $1@.len() == $2@.len(),
    ensures
        self is Mse ==> ret == fdiv(vsum(each($2@, $1@, d_sq())), cnt($1@)),
        self is Nmse ==> ret == fdiv(vsum(each($1@, $2@, d_sq())), vsum(each($1@, $2@, o_sq()))),
        self is Mae ==> ret == fdiv(vsum(each($1@, $2@, d_abs())), cnt($1@)),
        self is Mape ==> ret == fdiv(vsum(each($1@, $2@, d_pct())), cnt($1@)),
        self is Smape ==> ret == fdiv(smape_sum($1@, $2@), cnt($1@)),
#fn calculate_error
#spec
    requires $1@.len() == $2@.len(),
    ensures ret == fdiv(vsum(each($1@, $2@, d_pct())), cnt($1@)),
