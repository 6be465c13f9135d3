"""Writes properties.jsonl (kept as a script so that the lines stay well formed)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

A = "atsc/src/"
prop("C01", "Decompression gives back exactly one value per finite input sample, in order",
 "For every series of samples, compressing it and decompressing the result yields exactly as many values as the series has finite values, and the value at position k is the one that stands for the k-th finite input value. This holds for every compressor (chosen by hand or automatically), every allowed error and every way the series is split into frames; a frame always decodes to the same values whatever frames surround it.",
 ["inputs", "configurations"], "all finite-length sample series (including lengths around every frame and padding boundary), all compressors, error bounds 0-50% and selection levels 0-6",
 "The tests compress a few short constant or linear vectors with each compressor; they reach almost none of the lengths at which frames are split or FFT frames padded.",
 [A+"data.rs", A+"frame/mod.rs", A+"compressor/mod.rs", A+"compressor/fft.rs", A+"compressor/polynomial.rs", A+"compressor/rle.rs", A+"optimizer/mod.rs", A+"main.rs"],
 [("CompressedStream::decompress concatenates the frames in order", A+"data.rs"), ("CompressorFrame remembers the sample count it passes to the decoder", A+"frame/mod.rs"), ("each codec's to_data produces frame_size values", A+"compressor/")])
prop("C02", "The requested maximum error is respected and the reported error is the true one",
 "With automatic selection the decoded frame never has a mean absolute percentage error above the requested maximum, and with Polynomial or IDW chosen by hand never above it by more than their error precision (0.1%). FFT chosen by hand makes a bounded effort, but the error that any of these reports for a compression is always the error that its decoded output really has.",
 ["inputs", "configurations"], "all non-empty finite series, all error bounds 0-50%, all selection levels",
 "The e2e tests check two fixed files at three error levels; the search loops, early exits and the sampled selection depend on the whole input.",
 [A+"frame/mod.rs", A+"compressor/fft.rs", A+"compressor/polynomial.rs", A+"utils/error.rs"],
 [("error-driven search loops of compress_bounded", A+"compressor/fft.rs, "+A+"compressor/polynomial.rs"), ("candidate filter by error and fallback to RLE", A+"frame/mod.rs")])
prop("C03", "RLE is lossless for every series and Constant is lossless for constant series",
 "A series compressed with the RLE compressor decompresses to numerically identical values at every position, whatever the values (integers of any size, fractions, huge or tiny magnitudes, repeated or alternating runs). A series made of one repeated value compressed with the Constant compressor decompresses to that value at every position.",
 ["inputs"], "all non-empty series of finite 64-bit floats, of any length up to the frame size and any run structure",
 "Tests use a handful of short vectors per integer width; losslessness quantifies over all values and run structures.",
 [A+"compressor/rle.rs", A+"compressor/constant.rs", A+"optimizer/utils.rs"],
 [("IndexRLE::new records the start of every run", A+"compressor/rle.rs"), ("IndexRLE::to_data fills from each start to the next", A+"compressor/rle.rs"), ("bit depth chosen from the statistics decides the stored integer type", A+"optimizer/utils.rs")])
prop("C04", "The Noop compressor stores every sample rounded to the nearest integer",
 "A series compressed with the Noop compressor decompresses to the same number of values, each being the nearest integer to the corresponding input (ties away from zero, saturating at the ends of the signed 64-bit range).",
 ["inputs"], "all series of finite 64-bit floats",
 "Tests use vectors of ones.",
 [A+"compressor/noop.rs"], [("Noop::optimize rounds, Noop::to_data converts back", A+"compressor/noop.rs")])
prop("C05", "Automatic selection stores the smallest eligible encoding and a concrete method",
 "A constant frame compressed with automatic selection is stored as a constant. Otherwise, when all the data is used for the selection, the stored frame is never larger than what FFT, Polynomial or RLE would produce for it within the requested error, and one of those is what is stored, so that every automatically compressed frame can be decompressed; compressing the same data again gives the same bytes.",
 ["inputs", "configurations"], "all non-empty finite frames, all error bounds and selection levels",
 "No test compares the selected encoding with the alternatives.",
 [A+"frame/mod.rs", A+"compressor/mod.rs"], [("CompressorFrame::compress_best", A+"frame/mod.rs")])
prop("C06", "Frames cut the series into consecutive pieces of bounded, suitable size",
 "The frames planned for a series are not empty, follow one another without gap or overlap and cover exactly the whole cleaned series. No frame is larger than 131072 samples, and every frame but the last one has a power of two of samples that is at least 512.",
 ["inputs"], "every series length from 0 up",
 "Tests check four lengths; the partition property is about all of them.",
 [A+"optimizer/mod.rs", A+"utils/mod.rs"], [("OptimizerPlan::get_chunks_sizes", A+"optimizer/mod.rs"), ("OptimizerPlan::get_execution", A+"optimizer/mod.rs"), ("prev_power_of_two", A+"utils/mod.rs")],
 [("chunk_sizes", "number of samples of each frame", A+"optimizer/mod.rs")])
prop("C07", "Cleaning removes exactly the non-finite values and keeps the rest in order",
 "The series that gets compressed is the input without its NaN and infinite values: every finite value is kept bit for bit, in the same order, and nothing else is added or removed.",
 ["inputs"], "all series of 64-bit floats, including any mix of NaN (any payload), infinities, zeros of both signs and subnormals",
 "No test feeds NaN or infinities to the planning step.",
 [A+"optimizer/mod.rs"], [("OptimizerPlan::clean_data", A+"optimizer/mod.rs")])
prop("C08", "Frame statistics are right and the chosen integer width holds every sample",
 "The statistics computed for a frame give its true minimum and maximum with the position where each first occurs, its mean, and whether any sample has a fractional part. When an integer width is chosen, every sample of the frame is an integer that the width represents exactly; a frame with a sample that is not an integer, or too big, is stored as floats.",
 ["inputs"], "all non-empty series of finite 64-bit floats, in particular values on both sides of each integer width limit",
 "Three unit tests with small positive numbers; width limits, negative ranges and huge values are never reached.",
 [A+"optimizer/utils.rs"], [("DataStats::new", A+"optimizer/utils.rs"), ("DataStats::bitdepth", A+"optimizer/utils.rs")])
prop("C09", "The stream header identifies the format, its version and the number of frames",
 "Every compressed stream starts with the bytes BRRO, the format version as a little-endian 32-bit number and one byte with the number of frames (the count stops at 255 when there are more, which are still all stored). Reading recovers those fields, accepts every version up to the current one, and refuses a stream with other magic bytes or a newer version.",
 ["inputs", "histories"], "all 9-byte headers; all sequences of frame additions, including more than 255",
 "Two tests: the current version, and version 9; the frame count is checked for one frame.",
 [A+"header.rs", A+"data.rs", A+"utils/readers/bro_reader.rs"], [("CompressorHeader::to_bytes / from_bytes", A+"header.rs"), ("verify_header_versions", A+"header.rs"), ("add_frame", A+"header.rs")])
prop("C10", "Serializing a compressed stream and reading it back loses nothing",
 "The stream read back from the bytes of a compressed stream decompresses to exactly the same samples as the stream in memory, whatever compressors its frames use, and whatever numbers (integer widths, floats, positions, sample counts) they store. Encoded frames are decoded with the type they were encoded with, for every integer width.",
 ["inputs", "histories"], "all streams built by any sequence of chunks and compressors, all stored values",
 "Tests serialize one constant frame and fixed vectors per codec.",
 [A+"data.rs", A+"frame/mod.rs", A+"compressor/rle.rs", A+"compressor/constant.rs", A+"compressor/polynomial.rs", A+"compressor/fft.rs", A+"compressor/noop.rs"],
 [("hand-written Encode/Decode of the codecs", A+"compressor/"), ("CompressedStream::to_bytes / from_bytes", A+"data.rs")])
prop("C11", "FFT keeps the strongest frequencies and decoding inverts the padded transform",
 "The FFT compressor keeps no more frequencies than it is asked for, those of largest magnitude (only the mean when asked for one), and decoding gives the inverse transform of exactly the kept frequencies and their mirror images, with the padding removed so that sample k of the output is sample k of the input. With all frequencies kept, the output equals the input up to single-precision rounding.",
 ["inputs", "configurations"], "all non-empty frames (lengths below and above the padding threshold, powers of two or not), all frequency counts",
 "Tests run frames of 12 and a few hundred samples with loose comparisons.",
 [A+"compressor/fft.rs", A+"utils/mod.rs"], [("FFT::gibbs_sizing", A+"compressor/fft.rs"), ("FFT::fft_trim", A+"compressor/fft.rs"), ("FFT::get_mirrored_freqs", A+"compressor/fft.rs"), ("next_size / is_decomposable", A+"utils/mod.rs")])
prop("C12", "Lossy decoding never leaves the range of the original frame",
 "Every value decoded from an FFT, Polynomial or IDW frame lies between the minimum and the maximum of the samples the frame was made from (both rounded to single precision for FFT).",
 ["inputs", "configurations"], "all non-empty finite frames (of magnitudes a single-precision float holds, for FFT), all error bounds",
 "Tests compare a few outputs; overshoot of the interpolation depends on the data.",
 [A+"compressor/fft.rs", A+"compressor/polynomial.rs", A+"utils/mod.rs"], [("FFT::round", A+"compressor/fft.rs"), ("round_and_limit_f64", A+"utils/mod.rs")])
prop("C13", "Polynomial and IDW keep regularly spaced samples and always the first and last",
 "A frame compressed with Polynomial or IDW keeps the samples at positions 0, s, 2s, ... for one step s, and the last one, and its decoded output has those samples at those positions to 5 decimals. When the whole frame is kept, or the frame is constant, the output is the input exactly.",
 ["inputs", "configurations"], "all non-empty finite frames of up to 131072 samples of magnitude at most 1e300, all error bounds",
 "Tests use 12-sample vectors where most points are kept.",
 [A+"compressor/polynomial.rs"], [("Polynomial::compress_hinted", A+"compressor/polynomial.rs"), ("Polynomial::get_positions", A+"compressor/polynomial.rs"), ("polynomial_to_data / idw_to_data", A+"compressor/polynomial.rs")])
prop("C14", "The error metrics compute what they are named after",
 "For two series of the same length, the five error measures give the mean squared error, the normalized mean squared error, the mean absolute error, the mean absolute percentage error and the symmetric mean absolute percentage error of the second with respect to the first; a value reproduced exactly contributes nothing to the percentage errors. Series of different lengths are refused.",
 ["inputs"], "all pairs of series of finite 64-bit floats",
 "One pair of short vectors per metric.",
 [A+"utils/error.rs"], [("error_mse, error_nmsqe, error_mae, error_mape, error_smape, ErrorMethod::error", A+"utils/error.rs")])
V = "vsri/src/lib.rs"
prop("C15", "The time index appends exactly one timestamp per accepted point",
 "Adding a point whose time is not before the last one succeeds and appends exactly that timestamp to the indexed sequence, leaving every earlier one as it was, whatever the spacing, gaps or repetitions. A point before the last one is refused and changes nothing; the minimum and maximum reported are the first and last timestamps, and the sample count is the number of accepted points.",
 ["histories"], "all sequences of updates with non-negative 32-bit times, up to 2^31-1 points",
 "Tests add a few regular points and one gap; the index must be right after every possible history.",
 [V], [("Vsri::update_for_point, fits_segment, generate_segment, create_fake_segment", V)],
 [("vsri_segments", "runs of equally spaced timestamps [step, first sample, first time, samples]", V)])
prop("C16", "Index lookups translate between samples and timestamps without error",
 "For every index built by adding points, the time of sample k is the k-th accepted timestamp for every k below the sample count and nothing otherwise; looking up a timestamp gives the first sample with exactly that timestamp, or nothing when no sample has it. The list of all timestamps is the accepted sequence.",
 ["histories", "inputs"], "all indexes built by any sequence of updates, all 32-bit positions and times (including negative ones)",
 "Tests query a few positions of a two-segment index.",
 [V], [("Vsri::get_time, get_sample, get_all_timestamps, get_sample_count", V)])
prop("C17", "Next and previous lookups give the closest sample on that side",
 "For every index and every time, the next sample is the first one strictly later than the time and the previous sample is the last one not later than it, or nothing when there is none. 'This or next' is the first sample at or after the time, and 'this or previous' a sample with the latest timestamp not after it.",
 ["histories", "inputs"], "all indexes built by any sequence of updates, all 32-bit times, including times in gaps, on segment ends and outside the range",
 "Tests query a few times.",
 [V], [("Vsri::get_next_sample, get_previous_sample, get_this_or_next, get_this_or_previous", V)])
prop("C18", "A time window is reported empty exactly when it touches no indexed segment",
 "For every index and every window from a to b (a not after b), the window is reported empty if and only if it has no instant in common with the span, first to last sample, of any segment of equally spaced samples; so a window that contains an indexed timestamp is never reported empty.",
 ["histories", "inputs"], "all indexes, all 32-bit windows with a <= b",
 "Tests try a few windows over two segments.",
 [V], [("Vsri::is_empty", V)])
prop("C19", "An index written to disk and loaded back answers every query the same",
 "Loading the file written for an index gives an index with the same timestamps, minimum, maximum and segments, to which further points can be added as if it had never left memory; looking up a time directly in the file gives what the index in memory gives.",
 ["histories"], "all indexes built by any sequence of updates, including empty ones, and with further updates after loading",
 "One round trip of a fixed index is tested.",
 [V], [("Vsri::flush, flush_to, load, get_sample_location", V)])
W = "wavbrro/src/"
prop("C20", "The sample container keeps every sample, in order, in full chunks",
 "Adding samples one by one or building from a slice gives a container that holds exactly those samples in that order, with a sample count equal to their number and all chunks of 2048 samples but the last; taking the samples out returns them bit for bit.",
 ["histories", "inputs"], "all sequences of samples (any 64-bit float, NaN included), lengths around multiples of the chunk size",
 "Tests add a few samples and one length just over a chunk.",
 [W+"wavbrro.rs"], [("WavBrro::add_sample, from_slice, get_samples, create_chunk, is_chunk_full", W+"wavbrro.rs")],
 [("chunks", "samples in groups of 2048", W+"wavbrro.rs")])
prop("C21", "Sample files survive a write and a read, and foreign files are refused",
 "A file written from samples reads back as the same samples bit for bit, starts with the 12-byte signature and contains nothing of what was in the file before. A file of at least 12 bytes without that signature, or with a body that is not a container, is refused with an error, and a missing or shorter file gives an error.",
 ["inputs"], "all series of 64-bit floats; all file prefixes",
 "Tests round-trip one small file.",
 [W+"wavbrro.rs", W+"read.rs", W+"write.rs"], [("WavBrro::to_file, to_file_with_data, from_file, to_bytes, from_bytes", W+"wavbrro.rs"), ("is_wavbrro_file, read_wavbrro_file", W+"read.rs"), ("write_wavbrro_file", W+"write.rs")])
K = "csv-compressor/src/"
prop("C22", "A metric keeps each value with its time of day, also across compression",
 "A metric made from samples in time order within one day gives back, for each sample with a finite value, the same value with its time of day in whole seconds, in order; samples that go back in time are refused. Compressing a CSV with the index and decompressing it gives a CSV with the same times of day, each next to the decoded value of its own sample.",
 ["inputs", "histories"], "all sample sequences with non-negative millisecond timestamps within a day, with gaps, repetitions and non-finite values",
 "One e2e test with a fixed CSV.",
 [K+"metric.rs", K+"main.rs", V, W+"wavbrro.rs"], [("Metric::append_samples, get_samples", K+"metric.rs"), ("process_args", K+"main.rs")])
prop("C23", "CSV readers return every record in order or an error, never a wrong value",
 "Reading a CSV gives the value of every record of the requested column, in file order and as the float that the text denotes. A missing file, a missing column (which csv-compressor notices with the first record), a record or header that cannot be read or a value that is not a number gives the corresponding error and never a partial result or a crash; writing samples as CSV and reading them back gives the same samples (NaN is read back as NaN).",
 ["inputs"], "all CSV files: any column order, any record count, ragged records, any text in the cells",
 "Tests use two-record files.",
 [A+"csv.rs", K+"csv.rs"], [("read_samples_with_headers, read_samples", A+"csv.rs"), ("read_samples_from_csv_file, write_samples_to_csv_file", K+"csv.rs")])
prop("C24", "Legacy WAV conversion rebuilds each float from its four 16-bit channels",
 "Converting a legacy four-channel WAV gives, for each frame in order, the 64-bit float whose bits are the four 16-bit samples, first channel least significant, dropping only NaN values; the other values are kept bit for bit.",
 ["inputs"], "all 64-bit patterns and all series of them",
 "There is no test of the converter.",
 ["tools/src/bin/wav2wbro.rs", W+"wavbrro.rs"], [("join_u16_into_f64, read_metrics_from_wav, main", "tools/src/bin/wav2wbro.rs")])
prop("C25", "The command line writes each result next to its input and survives bad files",
 "Compressing a file writes exactly the file with the extension bro next to it, and uncompressing writes the one with the extension wbro, leaving the input and every other file untouched. Processing a directory gives for every file what processing that file alone would give, and a file that is not valid input neither stops the others nor leaves an output behind.",
 ["inputs", "configurations", "histories"], "all directories mixing valid inputs, foreign files, empty files and sub-directories, in any order; all compressors",
 "The e2e tests run the binary on single valid files.",
 [A+"main.rs", A+"utils/readers/bro_reader.rs"], [("process_args, process_directory, process_single_file", A+"main.rs"), ("bro_reader::read_file", A+"utils/readers/bro_reader.rs")])
prop("C26", "Time of day is the number of seconds since midnight UTC",
 "The time of day of a timestamp is its number of seconds modulo 86400, always between 0 and 86399, and the start of its day is the timestamp minus that, for every day of the calendar.",
 ["inputs"], "all timestamps of the calendar range, negative ones included",
 "Tests check one or two dates.",
 [V], [("day_elapsed_seconds, start_day_ts", V)])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
