#! From the samples of a command to the bytes it writes and back (C01, C02, C05)
#include flow.vxi
#file atsc/src/main.rs
#prelude
#[verifier::external_body]
struct PathBuf;
#item enum CompressorType pub
#item struct Args
#prelude
spec fn asked(t: CompressorType) -> Compressor {
    match t { CompressorType::Auto => Compressor::Auto, CompressorType::Noop => Compressor::Noop, CompressorType::Fft => Compressor::FFT, CompressorType::Constant => Compressor::Constant, CompressorType::Polynomial => Compressor::Polynomial, CompressorType::Idw => Compressor::Idw, CompressorType::Rle => Compressor::RLE }
}
#fn compress_data
#opt castf shim=to_owned:v_owned
#spec
    requires $2.error <= 50, $2.compression_selection_sample_level <= 6, $1@.len() < 0x80_0000_0000,
    ensures made(ret@, clean_of($1@), asked($2.compressor), wide(fdiv32(of_int32($2.error as int), 100.0f32)), COMPRESSION_SPEED@[$2.compression_selection_sample_level as int] as int),
#loop 0 for it
        invariant
            op.wf(), op.data@ == clean_of($1@), frames_ok(op.chunk_sizes@, true),
            $2.error <= 50, $2.compression_selection_sample_level <= 6,
            it.seq().len() == op.chunk_sizes@.len(),
            forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).1@ == op.data@.subrange(at(op.chunk_sizes@, k), at(op.chunk_sizes@, k + 1)) && *it.seq()[k].0 == asked($2.compressor),
            0 <= it.index() <= it.seq().len(),
            cs.header.version == 1,
            -1000 <= frame_number - it.index() <= 1000, it.seq().len() <= 0x4000_0001,
            so_far(cs.data_frames@, op.data@, op.chunk_sizes@, it.index(), asked($2.compressor), wide(fdiv32(of_int32($2.error as int), 100.0f32)), COMPRESSION_SPEED@[$2.compression_selection_sample_level as int] as int),
#start
        proof {
            $1@.lemma_filter_len(|x: f64| finite(x));
            assert forall|s: Seq<usize>| #[trigger] frames_ok(s, true) implies 512 * (s.len() - 1) <= total(s) by { lemma_few(s); }
        }
#body 0
        let ghost f0 = cs.data_frames@;
        proof {
            ax_percent($2.error);
            lemma_at(op.chunk_sizes@, it.index());
            lemma_at_mono(op.chunk_sizes@, it.index(), it.index() + 1);
            lemma_at_mono(op.chunk_sizes@, it.index() + 1, op.chunk_sizes@.len() as int);
        }
#bodyend 0
        proof {
            assert(cs.data_frames@.drop_last() == f0);
            assert forall|i: int| 0 <= i < it.index() implies #[trigger] cs.data_frames@[i] == f0[i] by { assert(cs.data_frames@.drop_last()[i] == cs.data_frames@[i]); }
        }
#fn decompress_data
#spec
    requires readable($1@),
    ensures forall|v: u32, c: u8, x: Seq<(usize, usize, Compressor, Seq<u8>)>| $1@ == #[trigger] stream_bytes(v, c, x) ==> ret@ == series(x),
#postlude
/// C01, C02, C05: what the command compresses is back, in order, one value for each finite sample
fn there_and_back(vec: &[f64], arguments: &Args) -> (ret: Vec<f64>)
    requires arguments.error <= 50, arguments.compression_selection_sample_level <= 6, vec@.len() < 0x80_0000_0000,
    ensures exists|f: Seq<CompressorFrame>, sizes: Seq<usize>| #[trigger] back(ret@, clean_of(vec@), asked(arguments.compressor), wide(fdiv32(of_int32(arguments.error as int), 100.0f32)), COMPRESSION_SPEED@[arguments.compression_selection_sample_level as int] as int, f, sizes),
{
    let b = compress_data(vec, arguments);
    let ghost (k, max, speed) = (asked(arguments.compressor), wide(fdiv32(of_int32(arguments.error as int), 100.0f32)), COMPRESSION_SPEED@[arguments.compression_selection_sample_level as int] as int);
    let ghost (c, f, sizes) = choose|c: u8, f: Seq<CompressorFrame>, sizes: Seq<usize>| #![trigger stream_bytes(1, c, fvs(f)), frames_ok(sizes, true)]
        b@ == stream_bytes(1, c, fvs(f)) && frames_ok(sizes, true) && total(sizes) == clean_of(vec@).len() && so_far(f, clean_of(vec@), sizes, sizes.len() as int, k, max, speed);
    proof { lemma_parts(clean_of(vec@), k, max, speed, f, sizes, sizes.len() as int); }
    let r = decompress_data(&b);
    assert(r@ == series(fvs(f)));
    assert(back(r@, clean_of(vec@), k, max, speed, f, sizes));
    r
}
