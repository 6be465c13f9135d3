#! Noop (C04): every sample rounded to the nearest integer
#include iter.vxi
#include float.vxi
#include bincode.vxi
#include codec.vxi
#file atsc/src/compressor/noop.rs
#item struct Noop
#item const NOOP_COMPRESSOR_ID
#prelude
/// derived: the fields in order
impl Encode for Noop { open spec fn enc_ok(&self) -> bool { true } closed spec fn toks(&self) -> Seq<Tok> { prim_toks(self.id) + prim_toks(self.data@) } #[verifier::external_body] fn encode<__E: bincode::enc::Encoder>(&self, encoder: &mut __E) -> (r: Result<(), bincode::error::EncodeError>) { unimplemented!() } }
impl Decode for Noop {
    closed spec fn can(t: Seq<Tok>) -> bool { prim_parse::<u8>(t) is Some && prim_parse::<Seq<i64>>((prim_parse::<u8>(t)->0).1) is Some }
    closed spec fn got(t: Seq<Tok>, v: Self, rest: Seq<Tok>) -> bool { prim_parse::<u8>(t) == Some((v.id, (prim_parse::<u8>(t)->0).1)) && prim_parse::<Seq<i64>>((prim_parse::<u8>(t)->0).1) == Some((v.data@, rest)) }
    #[verifier::external_body] fn decode<__D: bincode::de::Decoder>(decoder: &mut __D) -> (r: Result<Self, bincode::error::DecodeError>) { unimplemented!() }
}
spec fn stored(b: Seq<u8>, c: Noop) -> bool { b == bc_enc(c.toks()) }
proof fn lemma_round(c: Noop)
    ensures Noop::can(c.toks()), forall|v: Noop, rest: Seq<Tok>| #[trigger] Noop::got(c.toks(), v, rest) ==> v.id == c.id && v.data@ == c.data@,
{ let z = prim_toks(c.data@); assert(z =~= z + Seq::<Tok>::empty()); }
spec fn nearest_all(d: Seq<f64>) -> Seq<i64> { Seq::new(d.len(), |i: int| nearest(d[i])) }
#fn Noop::new
#fn Noop::optimize
#opt fcast=i64:v_to_i64
#spec
    ensures ret@ == nearest_all($1@),
#loop 0 for it
            invariant
                it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $1@[i],
                0 <= it.index() <= it.seq().len(),
                out_vec@ == nearest_all($1@).take(it.index()),
#body 0
            let ghost o0 = out_vec@;
#bodyend 0
            proof { assert(out_vec@ =~= nearest_all($1@).take(it.index() + 1)); }
#pretail
        proof { assert(out_vec@ =~= nearest_all($1@)); }
#fn Noop::compress
#spec
    ensures final(self).data@ == nearest_all($1@), final(self).id == old(self).id,
#fn Noop::decompress
#spec
    requires exists|c: Noop| #[trigger] stored($1@, c),
    ensures forall|c: Noop| #[trigger] stored($1@, c) ==> ret.data@ == c.data@,
#start
        proof { let c0 = choose|c: Noop| #[trigger] stored($1@, c); assert($1@ == bc_enc(c0.toks()));
            assert forall|c: Noop| true implies Noop::can(#[trigger] c.toks()) && (forall|v: Noop, rest: Seq<Tok>| #[trigger] Noop::got(c.toks(), v, rest) ==> v.data@ == c.data@) by { lemma_round(c); } }
#fn Noop::to_bytes
#spec
    ensures stored(ret@, *self),
#fn Noop::to_data
#spec
    ensures ret@ == self.data@,
#pretail
        proof { assert(forall|v: Vec<i64>| v@.len() == self.data@.len() && (forall|i: int| 0 <= i < v@.len() ==> v@[i] == self.data@[i]) ==> (#[trigger] v@) =~= self.data@); }
#prelude
// ---- the interface
spec fn floats(s: Seq<i64>) -> Seq<f64> { Seq::new(s.len(), |i: int| of_int(s[i] as int)) }
spec fn frame_of(c: Noop, n: int, b: Seq<u8>) -> bool { stored(b, c) && c.data@.len() == n }
spec fn can_noop(n: int, b: Seq<u8>) -> bool { exists|c: Noop| #[trigger] frame_of(c, n, b) }
spec fn dec_noop(n: int, b: Seq<u8>) -> Seq<f64> { floats((choose|c: Noop| #[trigger] frame_of(c, n, b)).data@) }
proof fn lemma_one(b: Seq<u8>, n: int, c: Noop)
    requires frame_of(c, n, b)
    ensures can_noop(n, b), dec_noop(n, b) == floats(c.data@)
{
    let c2 = choose|c: Noop| #[trigger] frame_of(c, n, b);
    lemma_round(c); lemma_round(c2);
    ax_one_way::<Noop>(c.toks(), c2.toks());
}
#fn noop
#spec
    ensures can_noop($1@.len() as int, ret@), dec_noop($1@.len() as int, ret@) == rounded($1@),
#start
    proof { assert forall|c: Noop, b: Seq<u8>| #[trigger] stored(b, c) && c.data@ == nearest_all($1@) implies can_noop($1@.len() as int, b) && dec_noop($1@.len() as int, b) == rounded($1@) by { lemma_one(b, $1@.len() as int, c); assert(floats(c.data@) =~= rounded($1@)); } }
#fn noop_to_data
#opt castf shim=iter:v_iter
#spec
    requires can_noop($1 as int, $2@),
    ensures ret@ == dec_noop($1 as int, $2@),
#start
    proof { let c0 = choose|c: Noop| #[trigger] frame_of(c, $1 as int, $2@); assert(stored($2@, c0)); lemma_one($2@, $1 as int, c0);
        assert(forall|v: Seq<f64>| v.len() == c0.data@.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == of_int(c0.data@[i] as int)) ==> (#[trigger] v.len()) == v.len() && v =~= floats(c0.data@)); }
#closure 0 |$c1: &i64| -> (r: f64)
    ensures r == of_int(*$c1 as int)
