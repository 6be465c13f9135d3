#! Constant (C03): the value comes back at every position
#include iter.vxi
#include float.vxi
#include bincode.vxi
#include bitdepth.vxi
#include stats.vxi
#include result.vxi
#include promises.vxi
#file atsc/src/compressor/constant.rs
#item struct Constant
#item const CONSTANT_COMPRESSOR_ID
#prelude
impl Constant {
    /// what decoding the encoded form gives
    spec fn back(self) -> Constant { Constant { id: self.id, constant: thru(self.bitdepth, self.constant), bitdepth: self.bitdepth } }
}
#fn <Constant as Encode>::encode
#opt fcast=u8:v_to_u8,i16:v_to_i16,i32:v_to_i32
#implspec
    open spec fn enc_ok(&self) -> bool { true }
    closed spec fn toks(&self) -> Seq<Tok> {
        prim_toks(self.id) + (prim_toks(self.bitdepth) + (match self.bitdepth {
            Bitdepth::U8 => prim_toks(to_u8(self.constant)),
            Bitdepth::I16 => prim_toks(to_i16(self.constant)),
            Bitdepth::I32 => prim_toks(to_i32(self.constant)),
            Bitdepth::F64 => prim_toks(self.constant),
        }))
    }
#fn <Constant as Decode>::decode
#opt castf
#implspec
    closed spec fn can(t: Seq<Tok>) -> bool { prim_parse::<u8>(t) is Some && prim_parse::<Bitdepth>((prim_parse::<u8>(t)->0).1) is Some && ({
        let (b, t2) = prim_parse::<Bitdepth>((prim_parse::<u8>(t)->0).1)->0;
        match b { Bitdepth::U8 => prim_parse::<u8>(t2) is Some, Bitdepth::I16 => prim_parse::<i16>(t2) is Some, Bitdepth::I32 => prim_parse::<i32>(t2) is Some, Bitdepth::F64 => prim_parse::<f64>(t2) is Some }
    }) }
    closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool {
        let t1 = (prim_parse::<u8>(t)->0).1;
        let t2 = (prim_parse::<Bitdepth>(t1)->0).1;
        &&& prim_parse::<u8>(t) == Some((v.id, t1)) && prim_parse::<Bitdepth>(t1) == Some((v.bitdepth, t2))
        &&& match v.bitdepth {
            Bitdepth::U8 => prim_parse::<u8>(t2) is Some && v.constant == of_int((prim_parse::<u8>(t2)->0).0 as int) && rest == (prim_parse::<u8>(t2)->0).1,
            Bitdepth::I16 => prim_parse::<i16>(t2) is Some && v.constant == of_int((prim_parse::<i16>(t2)->0).0 as int) && rest == (prim_parse::<i16>(t2)->0).1,
            Bitdepth::I32 => prim_parse::<i32>(t2) is Some && v.constant == of_int((prim_parse::<i32>(t2)->0).0 as int) && rest == (prim_parse::<i32>(t2)->0).1,
            Bitdepth::F64 => prim_parse::<f64>(t2) == Some((v.constant, rest)),
        }
    }
#lemma
proof fn lemma_round(c: Constant)
    ensures Constant::can(c.toks()), forall|v: Constant, rest: Seq<Tok>| #[trigger] Constant::got(c.toks(), v, rest) ==> v == c.back(),
{
    let e = Seq::<Tok>::empty();
    match c.bitdepth {
        Bitdepth::U8 => { let z = prim_toks(to_u8(c.constant)); assert(z =~= z + e); }
        Bitdepth::I16 => { let z = prim_toks(to_i16(c.constant)); assert(z =~= z + e); }
        Bitdepth::I32 => { let z = prim_toks(to_i32(c.constant)); assert(z =~= z + e); }
        Bitdepth::F64 => { let z = prim_toks(c.constant); assert(z =~= z + e); }
    }
}
#fn Constant::new
#spec
    ensures ret.constant == $2, ret.bitdepth == $3,
#fn Constant::to_bytes
#spec
    ensures ret@ == bc_enc(self.toks()),
#fn Constant::decompress
#spec
    requires exists|c: Constant| $1@ == bc_enc(#[trigger] c.toks()),
    ensures forall|c: Constant| $1@ == bc_enc(#[trigger] c.toks()) ==> ret == c.back(),
#start
        proof { assert forall|c: Constant| true implies Constant::can(#[trigger] c.toks()) && (forall|v: Constant, rest: Seq<Tok>| #[trigger] Constant::got(c.toks(), v, rest) ==> v == c.back()) by { lemma_round(c); } }
#fn Constant::to_data
#spec
    ensures ret@.len() == $1, forall|i: int| 0 <= i < ret@.len() ==> ret@[i] == self.constant,
#prelude
spec fn stored(b: Seq<u8>, c: Constant) -> bool { b == bc_enc(c.toks()) }
spec fn can_constant(n: int, b: Seq<u8>) -> bool { n >= 0 && exists|c: Constant| #[trigger] stored(b, c) }
spec fn dec_constant(n: int, b: Seq<u8>) -> Seq<f64> { let c = choose|c: Constant| #[trigger] stored(b, c); Seq::new(n as nat, |i: int| c.back().constant) }
#lemma
proof fn lemma_one(b: Seq<u8>, n: int, c: Constant)
    requires stored(b, c), n >= 0
    ensures can_constant(n, b), dec_constant(n, b) == Seq::new(n as nat, |i: int| c.back().constant)
{
    let c2 = choose|c: Constant| #[trigger] stored(b, c);
    lemma_round(c); lemma_round(c2);
    ax_one_way::<Constant>(c.toks(), c2.toks());
    assert(c.back() == c2.back());
}
/// C03 for the Constant compressor: the statistics' minimum stored with the statistics' width comes back equal to every sample
proof fn lemma_constant_lossless(d: Seq<f64>, s: DataStats, c: Constant)
    requires one_value(d), stats_of(s, d), c.constant == s.min, c.bitdepth == s.bitdepth,
    ensures forall|i: int| 0 <= i < d.len() ==> same(c.back().constant, #[trigger] d[i])
{
    let j = choose|i: int| 0 <= i < d.len() && s.min == #[trigger] d[i];
    assert forall|i: int| 0 <= i < d.len() implies same(c.back().constant, #[trigger] d[i]) by {
        assert(fits(s.bitdepth, d[j]));
        assert(feq(d[i], d[0]) && feq(d[j], d[0]));
    }
}
#fn constant_to_data
#spec
    requires can_constant($1 as int, $2@),
    ensures ret@ == dec_constant($1 as int, $2@),
#start
    proof { let c0 = choose|c: Constant| #[trigger] stored($2@, c); assert($2@ == bc_enc(c0.toks())); lemma_one($2@, $1 as int, c0); }
#pretail
    proof { assert(forall|v: Vec<f64>| v@.len() == $1 && (forall|i: int| 0 <= i < v@.len() ==> v@[i] == c.constant) ==> (#[trigger] v@) =~= Seq::new($1 as nat, |i: int| c.constant)); }
#fn constant_compressor
#spec
    requires $1@.len() > 0, stats_of($2, $1@),
    ensures
        can_constant($1@.len() as int, ret.compressed_data@), dec_constant($1@.len() as int, ret.compressed_data@).len() == $1@.len(),
        one_value($1@) ==> as_given($1@, dec_constant($1@.len() as int, ret.compressed_data@)),
#pretail
    proof { assert(stored(bc_enc(c.toks()), c)); lemma_one(bc_enc(c.toks()), $1@.len() as int, c); if one_value($1@) { lemma_constant_lossless($1@, $2, c); } }
