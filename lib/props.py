"""What decides each property: Verus units with the functions whose obligations carry it, Kani
harness files, and the runner that looks for failing inputs on the compiled code."""

class P:
    def __init__(self, units=None, kani=(), runner=None, bins=(), level="proof", technique=None, note="", budget=(20, 300), bounded=()):
        self.units, self.kani, self.runner, self.bins = units or {}, list(kani), runner, list(bins)
        self.level, self.note, self.budget, self.bounded = level, note, budget, list(bounded)
        self.technique = technique or "deductive verification of the source (Verus contracts woven into /repo's functions)"

TOOLS = {"Verus": "Verus 0.2026.09.13 with Z3"}

PROPS = {}
CLI = [("atsc", "atsc"), ("csv-compressor", "csv-compressor"), ("tools", "wav2wbro")]

PROPS["C03"] = P({"constant": ["Constant::new", "Constant::encode", "Constant::decode", "Constant::to_bytes", "BinConfig::get", "Constant::decompress", "Constant::to_data", "constant_compressor", "constant_to_data", "lemma_constant_lossless", "lemma_one"],
                  "rle": ["IndexRLE::new", "IndexRLE::rle_as_u8", "IndexRLE::rle_as_i16", "IndexRLE::rle_as_i32", "IndexRLE::encode", "IndexRLE::decode", "IndexRLE::to_bytes", "BinConfig::get", "IndexRLE::decompress", "IndexRLE::to_data", "rle_compressor", "rle_to_data", "lemma_rle_lossless", "lemma_one", "lemma_encoded"]}, runner="atsc",
    note="Both codecs proved end to end, from the samples through the encoded token stream back to the samples, for every series and statistics that describe it; trusted: the bincode primitives (each writes what it reads back), the float cast axioms, vstd.")
PROPS["C04"] = P({"noop": ["Noop::new", "Noop::optimize", "Noop::compress", "Noop::decompress", "Noop::to_bytes", "BinConfig::get", "Noop::to_data", "noop", "noop_to_data", "lemma_round", "lemma_one"]}, runner="atsc",
    note="Proved end to end for every series; trusted: derived bincode code of the struct, round and float-integer casts.")
PROPS["C06"] = P({"chunks": ["prev_power_of_two", "OptimizerPlan::get_compressor", "f64_to_u64", "OptimizerPlan::get_chunks_sizes", "OptimizerPlan::plan", "OptimizerPlan::assign_compressor", "OptimizerPlan::set_compressor", "OptimizerPlan::get_execution"]}, runner="atsc",
    note="Proved for every length, including termination of the planning loop.")
PROPS["C07"] = P({"chunks": ["OptimizerPlan::clean_data", "OptimizerPlan::plan"]}, runner="atsc",
    note="Proved for every series: the planned data is the subsequence of finite values.")
PROPS["C08"] = P({"stats": ["DataStats::bitdepth", "DataStats::new"]}, runner="atsc",
    note="Proved for every non-empty series of finite samples; trusted: float casts and comparisons.")
PROPS["C09"] = P({"header": ["CompressorHeader::new", "CompressorHeader::add_frame", "CompressorHeader::get_frame_count", "CompressorHeader::to_bytes", "CompressorHeader::from_bytes", "CompressorHeader::from_bytes_any", "verify_header_versions", "verify_header_versions_any", "lemma_header_round_trip"]}, runner="atsc",
    note="Writing, reading and refusing proved for every header and every nine bytes; trusted: to_le_bytes and from_le_bytes.")
V_CORE = ["Vsri::new", "Vsri::update_for_point", "Vsri::fits_segment", "Vsri::generate_segment", "Vsri::create_fake_segment", "Vsri::is_fake_segment", "Vsri::current_segment", "Vsri::get_sample_count", "Vsri::min", "Vsri::max"]
PROPS["C15"] = P({"vsri": V_CORE + ["Vsri::get_all_timestamps"]}, runner="vsri",
    note="Every obligation of the update path is discharged for all histories (representation invariant wf, abstraction ts()); trusted: Vec/iterator specifications of vstd and two iterator shims.")
PROPS["C16"] = P({"vsri": ["Vsri::get_time", "Vsri::get_sample", "Vsri::get_all_timestamps", "Vsri::get_sample_count"], "vsriio": ["Vsri::get_sample_location"]}, runner="vsri",
    note="Lookups proved against the abstract timestamp sequence for every index that satisfies the invariant C15 establishes.")
PROPS["C17"] = P({"vsri": ["Vsri::get_next_sample", "Vsri::get_previous_sample", "Vsri::get_this_or_next", "Vsri::get_this_or_previous", "Vsri::get_sample"]}, runner="vsri",
    note="Lookups proved against the abstract timestamp sequence for every index that satisfies the invariant C15 establishes.")
PROPS["C18"] = P({"vsri": ["Vsri::is_empty"]}, runner="vsri",
    note="The window test is proved equivalent to disjointness from every segment span, for every index that satisfies the invariant.")
PROPS["C14"] = P({"error": ["error_mse", "error_nmsqe", "error_mae", "error_mape", "error_smape", "error_mse_any", "error_nmsqe_any", "error_mae_any", "error_mape_any", "error_smape_any", "ErrorMethod::error", "calculate_error"]}, runner="atsc",
    note="Each measure is proved to be its defining formula, as a sum from the left of the machine's own operations, for all pairs of series of equal length, and to return for no other pair; trusted: sum, powi, zip and map of std.")
PROPS["C19"] = P({"vsriio": ["Vsri::flush_to", "Vsri::flush", "Vsri::load", "Vsri::get_sample_location", "flush_then_load", "lemma_unique"]}, runner="vsri",
    note="Proved over a ghost file system and a model of text lines: what flush writes determines the index, load reads exactly it, and a lookup in the file answers as the index in memory; trusted: the contracts of std::fs, writeln!, lines, split, trim and parse.")
PROPS["C20"] = P({"wavbrro": ["WavBrro::new", "WavBrro::is_chunk_full", "WavBrro::create_chunk", "WavBrro::add_sample", "WavBrro::from_slice", "WavBrro::get_samples"]}, runner="wav",
    note="Container invariant and contents proved for every history of up to 2^32-1 samples; trusted: slice chunks, flatten and collect of std.")
PROPS["C21"] = P({"wavbrro": ["is_wavbrro_file", "read_wavbrro_file", "write_wavbrro_file", "WavBrro::to_bytes", "WavBrro::from_file", "WavBrro::to_file", "WavBrro::to_file_with_data", "WavBrro::from_slice", "WavBrro::get_samples", "Error::from", "write_then_read", "write_then_read_container"]}, runner="wav",
    note="Proved over a ghost file system (contents of all files) that every file function takes along; trusted: the contracts of the std::fs calls, and that rkyv reads back what it wrote.")
PROPS["C22"] = P({"metric": ["Metric::new", "Metric::default", "Metric::append_samples", "Metric::from_samples", "Metric::get_samples", "Sample::new", "in_and_out"], "cmdcsv": ["process_csv", "process_args", "Metric::flush_wavbrro", "Metric::flush_indexes", "across", "lemma_packed", "lemma_kept", "lemma_indexed", "lemma_parts", "lemma_segs", "lemma_read_once", "lemma_all_clean"]}, runner="cli", bins=CLI,
    note="The metric proved end to end, from samples to samples, over the contracts of the index (C15, C16), the container (C20) and the time of day (C26), and the command from a CSV to a stream with its index and back to a CSV, over the contracts of the flow (C01), the index's file (C19) and the CSV (C23); trusted: the text of paths, the file system, serde's derived code of a record.")
PROPS["C24"] = P({"wav2wbro": ["join_u16_into_f64", "read_metrics_from_wav", "is_wav_file", "main_"]}, runner="cli", bins=CLI,
    note="The whole conversion, from the samples of the WAV file to the file written, proved over the ghost file system; trusted: hound's reading of the samples in file order, clap, rkyv, the container's contracts (proved for C20 and C21).")
PROPS["C25"] = P({"cmd": ["process_args", "process_directory", "process_single_file", "read_file", "is_bro_file", "process_bro_file", "a_file", "a_directory", "lemma_each", "lemma_untouched", "lemma_quiet", "lemma_output", "lemma_step", "lemma_split", "lemma_column", "lemma_named"]}, runner="cli", bins=CLI,
    note="For every file system, directory and order of its entries, and every point at which a call fails: the walk over a directory is a chain of steps, each of which writes nothing but the file next to its own, with what the contracts of C01, C20, C21 and C23 say; trusted: std::fs, the text of paths (set_extension), clap's ranges of the arguments; a BRRO file to uncompress has to hold a stream (known finding corrupt-bro).")
PROPS["C26"] = P({"days": ["day_elapsed_seconds", "start_day_ts"]}, runner="vsri",
    note="Proved for every second chrono has a date for; trusted: chrono's hour, minute and second are those of the seconds since midnight UTC.")
FFT_ = ["FFT::new", "FFT::f64_to_f32", "FFT::gibbs_sizing", "FFT::round", "FFT::optimize", "FFT::fft_trim", "FFT::compress_hinted", "FFT::compress_bounded", "FFT::compress", "FFT::decompress", "FFT::to_bytes", "BinConfig::get", "FFT::get_mirrored_freqs", "FFT::to_data", "FFT::encode", "FFT::decode", "FrequencyPoint::from_complex_with_position", "FrequencyPoint::to_complex", "FrequencyPoint::to_inv_complex", "FrequencyPoint::eq", "FrequencyPoint::partial_cmp", "FrequencyPoint::cmp", "next_size", "is_decomposable", "fft", "fft_set", "fft_allowed_error", "fft_compressor", "fft_to_data", "lemma_one", "lemma_encoded", "lemma_spectrum", "lemma_size", "lemma_round"]
POLY_ = ["Polynomial::new", "Polynomial::get_method", "Polynomial::compress_hinted", "Polynomial::compress", "Polynomial::get_positions", "Polynomial::polynomial_to_data", "Polynomial::idw_to_data", "Polynomial::to_data", "Polynomial::compress_bounded", "Polynomial::encode", "Polynomial::decode", "Polynomial::to_bytes", "BinConfig::get", "Polynomial::decompress", "polynomial", "polynomial_allowed_error", "to_data", "round_and_limit_f64", "round_f64", "lemma_restored", "lemma_true_error", "lemma_one", "lemma_encoded"]
PROPS["C11"] = P({"fft": FFT_}, runner="atsc",
    note="Which frequencies are kept, how they are spread over the spectrum and which part of the inverse transform is the output is proved for every frame; trusted: rustfft computes the transform its plan names (an uninterpreted function), std's BinaryHeap pops a greatest item of a total order, the bincode primitives. That all frequencies together give the input back is rustfft's arithmetic and is searched for on the compiled code.")
PROPS["C12"] = P({"fft": ["FFT::new", "FFT::f64_to_f32", "FFT::round", "FFT::to_data", "FFT::encode", "FFT::decode", "FFT::to_bytes", "BinConfig::get", "FFT::decompress", "FFT::compress", "FFT::compress_hinted", "FFT::compress_bounded", "fft", "fft_set", "fft_allowed_error", "fft_compressor", "fft_to_data", "lemma_one", "lemma_encoded", "lemma_round"], "poly": ["Polynomial::new", "Polynomial::compress_hinted", "Polynomial::compress", "Polynomial::compress_bounded", "Polynomial::polynomial_to_data", "Polynomial::idw_to_data", "Polynomial::to_data", "Polynomial::encode", "Polynomial::decode", "Polynomial::to_bytes", "BinConfig::get", "Polynomial::decompress", "polynomial", "polynomial_allowed_error", "to_data", "round_and_limit_f64", "lemma_restored", "lemma_true_error", "lemma_one", "lemma_encoded"]}, runner="atsc",
    note="Proved for every frame of finite samples, whatever the interpolation or the transform computes; trusted: rounding to single precision keeps the order, the bincode primitives.")
PROPS["C13"] = P({"poly": POLY_}, runner="atsc",
    note="Kept samples, their way through the encoding and the output at their positions proved for every frame; trusted: the splines and inverse_distance_weight crates give the value of a key at the key, a few facts about floats that are whole numbers, the bincode primitives.")
DEC = {"noop": ["Noop::decompress", "Noop::to_bytes", "BinConfig::get", "Noop::to_data", "noop", "noop_to_data", "lemma_one"],
       "constant": ["Constant::encode", "Constant::decode", "Constant::to_bytes", "BinConfig::get", "Constant::decompress", "Constant::to_data", "constant_compressor", "constant_to_data", "lemma_one"],
       "rle": ["IndexRLE::encode", "IndexRLE::decode", "IndexRLE::to_bytes", "BinConfig::get", "IndexRLE::decompress", "IndexRLE::to_data", "rle_compressor", "rle_to_data", "lemma_one", "lemma_encoded"],
       "fft": ["FFT::encode", "FFT::decode", "FFT::borrow_decode", "FFT::to_bytes", "BinConfig::get", "FFT::decompress", "FFT::to_data", "fft_to_data", "lemma_one", "lemma_encoded"],
       "poly": ["Polynomial::encode", "Polynomial::decode", "Polynomial::borrow_decode", "Polynomial::to_bytes", "BinConfig::get", "Polynomial::decompress", "Polynomial::to_data", "to_data", "lemma_one", "lemma_encoded"]}
FLOW = ["compress_data", "decompress_data", "there_and_back", "lemma_parts"]
FRAME_ = ["Compressor::compress", "Compressor::compress_bounded", "Compressor::get_compress_bounded_results", "Compressor::decompress", "CompressorFrame::new", "CompressorFrame::close", "CompressorFrame::compress", "CompressorFrame::compress_bounded", "CompressorFrame::compress_best", "CompressorFrame::decompress"]
STREAM_ = ["CompressedStream::new", "CompressedStream::compress_chunk", "CompressedStream::compress_chunk_with", "CompressedStream::compress_chunk_bounded_with", "CompressedStream::to_bytes", "BinConfig::get", "CompressedStream::from_bytes", "CompressedStream::decompress", "written_and_read", "lemma_flat_series"]
PROPS["C01"] = P({"stream": FRAME_ + STREAM_, "flow": FLOW, "flowcsv": FLOW, "chunks": ["OptimizerPlan::clean_data", "OptimizerPlan::plan", "OptimizerPlan::get_execution"], "noop": ["Noop::to_data", "noop_to_data"], "constant": ["Constant::to_data", "constant_to_data"], "rle": ["IndexRLE::to_data", "rle_to_data"], "fft": ["FFT::to_data", "fft_to_data"], "poly": ["Polynomial::to_data", "to_data"]}, runner="atsc", bins=CLI[:2],
    note="Proved from the samples a command is given to the samples it gives back, for every series, compressor, error and level: the frames are those of the plan, each decodes to one value for each of its samples, and the stream is their concatenation; trusted: bincode's derived code of the frames reads back what it wrote.")
PROPS["C02"] = P({"stream": ["Compressor::compress_bounded", "Compressor::get_compress_bounded_results", "CompressorFrame::compress_bounded", "CompressorFrame::compress_best", "CompressedStream::compress_chunk_bounded_with"], "flow": ["compress_data"], "flowcsv": ["compress_data"], "fft": ["FFT::compress_bounded", "fft_compressor"], "poly": ["Polynomial::compress_bounded", "polynomial_allowed_error", "lemma_true_error"], "error": ["error_mape", "ErrorMethod::error", "calculate_error"]}, runner="atsc", bins=CLI[:2],
    budget=(35, 300), note="Proved for every finite series whose negative zeros, if any, come with a fractional value: the error reported is the error of what is decoded, and what is stored is exact or within the maximum (to the precision of the error, for a method chosen by hand).")
PROPS["C05"] = P({"stream": ["CompressorFrame::compress_best", "Compressor::get_compress_bounded_results", "CompressedStream::compress_chunk_bounded_with"], "flow": ["compress_data"], "flowcsv": ["compress_data"], "stats": ["DataStats::new"]}, runner="atsc", bins=CLI[:2],
    budget=(35, 300), note="Proved for every finite series, error and level; that the same data gives the same bytes again is searched, not proved (the contracts do not say that the codecs are functions).")
PROPS["C10"] = P(dict(DEC, stream=["CompressorFrame::decompress", "Compressor::decompress", "CompressedStream::to_bytes", "BinConfig::get", "CompressedStream::from_bytes", "CompressedStream::decompress", "written_and_read", "lemma_flat_series"], header=["CompressorHeader::to_bytes", "CompressorHeader::from_bytes"]), runner="atsc",
    note="Proved for every stream: each codec reads its tokens with the types that wrote them, and the stream read back has the frames that were written; trusted: bincode's primitives and derived code read back what they wrote.")
PROPS["C23"] = P({"csv": ["open_csv_reader", "read_samples", "read_samples_with_headers"], "csvcmp": ["read_samples_from_csv_file", "write_samples_to_csv_file", "write_then_read", "lemma_record", "lemma_table"]}, runner="cli", bins=CLI,
    note="For every file, column and history of the file system: the values of all records, or the error of the first record that has none, and no panic; trusted: the csv crate finds the records of a file (an uninterpreted function of its bytes) and reads back what it wrote, serde's derived code of Sample, str::parse.")
# what the contracts of these units take for granted about the machine's floats is proved for every bit pattern
FLOATS = {"constant", "rle", "noop", "chunks", "stats", "error", "fft", "poly", "stream", "flow", "flowcsv", "metric", "wav2wbro", "csvcmp", "cmd", "cmdcsv"}
for _p in PROPS.values():
    if FLOATS & set(_p.units):
        _p.kani = ["float"]
