#! Compressors, frames and streams (C01, C02, C05, C10): the choice of the compressor, and what a
#! stream decodes to, in memory and after a trip through its bytes
#include streams.vxi
#file atsc/src/compressor/mod.rs
#fn Compressor::compress
#opt panic=v_todo
#spec
    requires sized($1@), !(self is Auto),
    ensures holds(*self, $1@, ret@),
#fn Compressor::compress_bounded
#opt panic=v_todo
#spec
    requires sized($1@), !(self is Auto),
    ensures
        holds(*self, $1@, ret@),
        self is Polynomial || self is Idw ==> exists|c: CompressorResult| c.compressed_data@ == ret@ && truthful(*self, $1@, ret@, c.error) && #[trigger] reached($2, c.error),
#fn Compressor::get_compress_bounded_results
#opt panic=v_todo
#spec
    requires sized($1@), !(self is Auto),
    ensures
        holds(*self, $1@, ret.compressed_data@), truthful(*self, $1@, ret.compressed_data@, ret.error), result_of(*self, $1@, $2, ret.compressed_data@, ret.error),
        self is Polynomial || self is Idw ==> reached($2, ret.error),
        self is RLE ==> ret.error == 0.0f64,
#fn Compressor::decompress
#opt panic=v_todo
#spec
    requires can(*self, $1 as int, $2@),
    ensures ret@ == dec(*self, $1 as int, $2@),
#file atsc/src/frame/mod.rs
#fn CompressorFrame::new
#opt shim=unwrap_or_default:v_or_default
#spec
    ensures ret.sample_count == 0, ret.compressor == (if $1 is Some { $1->0 } else { Compressor::Noop }), ret.data@.len() == 0,
#fn CompressorFrame::close
#spec
    ensures final(self).sample_count == old(self).sample_count, final(self).compressor == old(self).compressor, final(self).data@ == old(self).data@,
#fn CompressorFrame::compress
#spec
    requires sized($1@), !(old(self).compressor is Auto),
    ensures final(self).compressor == old(self).compressor, stores(*final(self), $1@),
#fn CompressorFrame::compress_bounded
#opt castf
#spec
    requires sized($1@), !(old(self).compressor is Auto),
    ensures
        final(self).compressor == old(self).compressor, stores(*final(self), $1@),
        old(self).compressor is Polynomial || old(self).compressor is Idw ==> near(*final(self), $1@, wide($2)),
#fn CompressorFrame::compress_best
#opt castf shim=iter:v_iter,into_iter:v_into_iter
#spec
    requires sized($1@), $3 <= 6, fle(0.0f64, wide($2)),
    ensures
        stores(*final(self), $1@), chosen(*final(self), $1@, wide($2), COMPRESSION_SPEED@[$3 as int] as int),
#start
        proof {
            ax_field();
            assert forall|s: VIt<(CompressorResult, &Compressor)>| #![trigger s.sq()] marked(s.sq()[2]) by {}
            assert forall|s: VIt<&(CompressorResult, Compressor)>| #![trigger s.sq()] marked(s.sq()[2]) by {}
            assert forall|v: Vec<(CompressorResult, Compressor)>| #![trigger v@] marked(v@[0]) && marked(v@[1]) && marked(v@[2]) by {}
            assert forall|v: Vec<(CompressorResult, Compressor)>, c: CompressorResult| #![trigger v@, c.compressed_data@] marked(smallest($1@, wide($2), c.compressed_data@, v@)) by {}
            let t = COMPRESSION_SPEED@;
            assert(t.len() == 7 && t[0] >= 128 && t[1] >= 128 && t[2] >= 128 && t[3] >= 128 && t[4] >= 128 && t[5] >= 128 && t[6] >= 128);
            assert forall|i: int| 0 <= i < 7 implies #[trigger] COMPRESSION_SPEED@[i] >= 128 by {}
            assert forall|lo: f64, hi: f64| #[trigger] bounds($1@, lo, hi) && feq(lo, hi) && all_finite($1@) implies one_value($1@) by { lemma_flat($1@, lo, hi); }
        }
#closure 0 |$c1| -> (r: (CompressorResult, &Compressor))
    requires !(*$c1 is Auto), sized(data@.take(data_sample as int)), data_sample <= data@.len(),
    ensures r.1 == $c1, fair(*$c1, data@.take(data_sample as int), wide(max_error), r.0)
#closure 1 |$c1| -> (r: bool)
    ensures r == fle($c1.0.error, wide(max_error))
#closure 2 |$c1| -> (r: usize)
    ensures r == $c1.0.compressed_data@.len()
#closure 3 |$c1| -> (r: (CompressorResult, Compressor))
    requires !(*$c1 is Auto), sized(data@),
    ensures r.1 == *$c1, fair(*$c1, data@, wide(max_error), r.0)
#closure 4 |$c1| -> (r: bool)
    ensures r == !fle($c1.0.error, wide(max_error))
#closure 5 |$c1| -> (r: usize)
    ensures r == $c1.0.compressed_data@.len()
#closure 6 |$c1| -> (r: bool)
    ensures r == fle($c1.0.error, wide(max_error))
#closure 7 |$c1| -> (r: usize)
    ensures r == $c1.0.compressed_data@.len()
#fn CompressorFrame::decompress
#spec
    requires can(self.compressor, self.sample_count as int, self.data@),
    ensures ret@ == dec(self.compressor, self.sample_count as int, self.data@),
#file atsc/src/data.rs
#fn CompressedStream::new
#spec
    ensures ret.data_frames@.len() == 0, ret.header.version == 1, ret.header.frame_count == 0,
#fn CompressedStream::compress_chunk
#spec
    requires sized($1@),
    ensures
        final(self).header.version == old(self).header.version,
        final(self).data_frames@.len() == old(self).data_frames@.len() + 1, final(self).data_frames@.drop_last() == old(self).data_frames@,
        final(self).data_frames@.last().compressor is Noop, stores(final(self).data_frames@.last(), $1@),
#fn CompressedStream::compress_chunk_with
#spec
    requires sized($1@), !($2 is Auto),
    ensures
        final(self).header.version == old(self).header.version,
        final(self).data_frames@.len() == old(self).data_frames@.len() + 1, final(self).data_frames@.drop_last() == old(self).data_frames@,
        final(self).data_frames@.last().compressor == $2, stores(final(self).data_frames@.last(), $1@),
#fn CompressedStream::compress_chunk_bounded_with
#spec
    requires sized($1@), $2 is Auto ==> $4 <= 6 && fle(0.0f64, wide($3)),
    ensures
        final(self).header.version == old(self).header.version,
        final(self).data_frames@.len() == old(self).data_frames@.len() + 1, final(self).data_frames@.drop_last() == old(self).data_frames@,
        !($2 is Auto) ==> final(self).data_frames@.last().compressor == $2, stores(final(self).data_frames@.last(), $1@),
        $2 is Polynomial || $2 is Idw ==> near(final(self).data_frames@.last(), $1@, wide($3)),
        $2 is Auto ==> chosen(final(self).data_frames@.last(), $1@, wide($3), COMPRESSION_SPEED@[$4 as int] as int),
#fn CompressedStream::to_bytes
#spec
    ensures ret@ == stream_bytes(self.header.version, self.header.frame_count, fvs(self.data_frames@)),
#fn CompressedStream::from_bytes
#opt shim=try_into:v_try_into
#spec
    requires written($1@),
    ensures forall|v: u32, c: u8, x: Seq<(usize, usize, Compressor, Seq<u8>)>| $1@ == #[trigger] stream_bytes(v, c, x) ==> ret.header.version == v && ret.header.frame_count == c && fvs(ret.data_frames@) == x,
#start
        proof {
            assert forall|v: u32, c: u8, x: Seq<(usize, usize, Compressor, Seq<u8>)>| $1@ == #[trigger] stream_bytes(v, c, x) implies $1@.len() >= 9 && $1@.take(9) == header_bytes(v, c) && $1@.skip(9) == bc_enc(prim_toks(x)) && prim_parse::<Seq<(usize, usize, Compressor, Seq<u8>)>>(prim_toks(x)) == Some((x, Seq::<Tok>::empty())) by { lemma_stream(v, c, x); }
            assert forall|v: u32, c: u8| v <= 1 && $1@.take(9) == #[trigger] header_bytes(v, c) implies good($1@.take(9)) by { lemma_good(v, c); }
            assert forall|v: u32, c: u8, w: u32, e: u8| #[trigger] header_bytes(v, c) == #[trigger] header_bytes(w, e) implies v == w && c == e by { lemma_head(v, c, w, e); }
        }
#fn CompressedStream::decompress
#opt shim=iter:v_iter
#spec
    requires decodable(fvs(self.data_frames@)),
    ensures ret@ == series(fvs(self.data_frames@)),
#start
        proof {
            assert forall|i: int| 0 <= i < self.data_frames@.len() implies can((#[trigger] self.data_frames@[i]).compressor, self.data_frames@[i].sample_count as int, self.data_frames@[i].data@) by { assert(fvs(self.data_frames@)[i] == fv(self.data_frames@[i])); }
            assert forall|p: Seq<Vec<f64>>| p.len() == self.data_frames@.len() && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@ == dec(self.data_frames@[i].compressor, self.data_frames@[i].sample_count as int, self.data_frames@[i].data@)) implies #[trigger] flat(p) == series(fvs(self.data_frames@)) by { lemma_flat_series(p, fvs(self.data_frames@)); }
        }
#closure 0 |$c1| -> (r: Vec<f64>)
    requires can($c1.compressor, $c1.sample_count as int, $c1.data@),
    ensures r@ == dec($c1.compressor, $c1.sample_count as int, $c1.data@)

#postlude
/// C10: a stream that was written and read back decodes as the one in memory
fn written_and_read(s: CompressedStream) -> (r: (Vec<f64>, Vec<f64>))
    requires s.header.version <= 1, decodable(fvs(s.data_frames@)),
    ensures r.0@ == r.1@, r.0@ == series(fvs(s.data_frames@)),
{
    let a = s.decompress();
    let ghost x = fvs(s.data_frames@);
    let b = s.to_bytes();
    let t = CompressedStream::from_bytes(&b);
    assert(fvs(t.data_frames@) == x);
    let c = t.decompress();
    (a, c)
}
