"""Edits of /repo that keep its behaviour: the checks have to stay quiet on them (tools/tryref.py)."""
REFS = []


def ref(id, *edits):
    REFS.append(dict(id=id, edits=edits))


C = "atsc/src/compressor/"
ref("constant-helper", (C + "constant.rs", """        let data = vec![self.constant; frame_size];
        data
    }""", """        Constant::fill(self.constant, frame_size)
    }

    /// A frame of equal samples
    fn fill(value: f64, size: usize) -> Vec<f64> {
        let mut data = Vec::with_capacity(size);
        data.resize(size, value);
        data
    }"""))
ref("constant-inline", (C + "constant.rs", """    let c = Constant::new(data.len(), stats.min, stats.bitdepth);
    CompressorResult::new(c.to_bytes(), 0.0)""", """    let DataStats { min, bitdepth, .. } = stats;
    let bytes = Constant::new(data.len(), min, bitdepth).to_bytes();
    CompressorResult::new(bytes, 0.0)"""),
    (C + "constant.rs", """    let c = Constant::decompress(compressed_data);
    c.to_data(sample_number)""", """    Constant::decompress(compressed_data).to_data(sample_number)"""))
ref("noop-iter", (C + "noop.rs", """        let mut out_vec = Vec::with_capacity(data.len());
        for &element in data {
            out_vec.push(element.round() as i64);
        }
        out_vec""", """        data.iter().map(|element| element.round() as i64).collect()"""))
ref("noop-while", (C + "noop.rs", """        let mut out_vec = Vec::with_capacity(data.len());
        for &element in data {
            out_vec.push(element.round() as i64);
        }
        out_vec""", """        let mut out_vec = Vec::with_capacity(data.len());
        let mut i = 0;
        while i < data.len() {
            out_vec.push(data[i].round() as i64);
            i += 1;
        }
        out_vec"""))
ref("noop-loop-out", (C + "noop.rs", """    let out_i64 = c.to_data(sample_number);
    out_i64.iter().map(|&x| x as f64).collect()""", """    let mut out = Vec::with_capacity(sample_number);
    for x in c.to_data(sample_number) {
        out.push(x as f64);
    }
    out"""))
ref("rle-entry", (C + "rle.rs", """                match encoded.get(&value.to_bits()) {
                    Some(indices) => {
                        trace!("Found value in map: {:?}", indices);
                        // We have the value in the map, so we need to add the current index
                        let mut indices = indices.clone();
                        indices.push(current_index);
                        encoded.insert(value.to_bits(), indices);
                    }
                    None => {
                        trace!("Not found value in map!");
                        // We don't have the value in the map, so we need to create a new entry
                        encoded.insert(value.to_bits(), vec![current_index]);
                    }
                }""", """                encoded
                    .entry(value.to_bits())
                    .or_default()
                    .push(current_index);"""))
ref("rle-for", (C + "rle.rs", """        while i < len {
            let value = data[i];

            if i""", """        for (i, &value) in data.iter().enumerate() {
            if i"""), (C + "rle.rs", """                current_index = i + 1;
            }
            i += 1;
        }""", """                current_index = i + 1;
            }
        }"""), (C + "rle.rs", """        let mut i = 0;
        // This is where""", """        // This is where"""))
ref("rle-slice-fill", (C + "rle.rs", """            for idx in data.iter_mut().take(end_index).skip(start_index) {
                *idx = value;
            }""", """            data[start_index..end_index].fill(value);"""))
ref("rle-helpers-map", (C + "rle.rs", """        let mut result: Vec<(u8, Vec<usize>)> = Vec::with_capacity(self.rle.len());
        for (value, indices) in &self.rle {
            result.push((*value as u8, indices.clone()));
        }
        result""", """        self.rle
            .iter()
            .map(|(value, indices)| (*value as u8, indices.clone()))
            .collect()"""))
ref("rle-flatten-fn", (C + "rle.rs", """        // Optimize allocation, 1st: Calculate the total number of elements in the flattened vector
        let total_elements: usize = self.rle.iter().map(|(_, indices)| indices.len()).sum();

        // 2nd: Reserve the exact capacity for the flattened vector
        let mut flattened: Vec<(usize, f64)> = Vec::with_capacity(total_elements);

        // Flatten the RLE representation into a vector of (index, value) pairs
        for (value, indices) in &self.rle {
            for &index in indices.iter() {
                flattened.push((index, *value));
            }
        }

        // Sort the flattened vector by index
        flattened.sort_unstable_by_key(|&(index, _)| index);
""", """        let flattened = self.flattened();
"""), (C + "rle.rs", """    pub fn to_data(&self, frame_size: usize) -> Vec<f64> {""", """    /// The (index, value) pairs of all runs, in the order of the samples
    fn flattened(&self) -> Vec<(usize, f64)> {
        let total_elements: usize = self.rle.iter().map(|(_, indices)| indices.len()).sum();
        let mut flattened: Vec<(usize, f64)> = Vec::with_capacity(total_elements);
        for (value, indices) in &self.rle {
            for &index in indices.iter() {
                flattened.push((index, *value));
            }
        }
        flattened.sort_unstable_by_key(|&(index, _)| index);
        flattened
    }

    pub fn to_data(&self, frame_size: usize) -> Vec<f64> {"""))
ref("fft-norm-fn", (C + "fft.rs", """        let c1 = Complex {
            re: self.freq_real,
            im: self.freq_img,
        };
        let c2 = Complex {
            re: other.freq_real,
            im: other.freq_img,
        };
        c1.norm() == c2.norm()""", """        self.magnitude() == other.magnitude()"""),
    (C + "fft.rs", """        let c1 = Complex {
            re: self.freq_real,
            im: self.freq_img,
        };
        let c2 = Complex {
            re: other.freq_real,
            im: other.freq_img,
        };
        if self == other {
            Ordering::Equal
        } else if c1.norm() > c2.norm() {
            return Ordering::Greater;
        } else {
            return Ordering::Less;
        }""", """        if self == other {
            Ordering::Equal
        } else if self.magnitude() > other.magnitude() {
            Ordering::Greater
        } else {
            Ordering::Less
        }"""), (C + "fft.rs", """    pub fn to_complex(self) -> Complex<f32> {""", """    fn magnitude(&self) -> f32 {
        self.to_complex().norm()
    }

    pub fn to_complex(self) -> Complex<f32> {"""))
ref("fft-gibbs-extend", (C + "fft.rs", """        if let Some(first) = data.first() {
            result.resize(prefix_len, *first);
            result.extend_from_slice(data);

            if let Some(last) = data.last() {
                for _ in 0..suffix_len {
                    result.push(*last);
                }
            }
        }
        result""", """        if let (Some(first), Some(last)) = (data.first(), data.last()) {
            result.extend(std::iter::repeat(*first).take(prefix_len));
            result.extend_from_slice(data);
            result.extend(std::iter::repeat(*last).take(suffix_len));
        }
        result"""))
ref("fft-max-freq-fn", (C + "fft.rs", """        let max_freq = if 3 >= (data.len() / 100) {
            3
        } else {
            data.len() / 100
        };
""", """        let max_freq = FFT::default_freqs(data.len());
"""), (C + "fft.rs", """        let max_freq = if 3 >= (v / 100) { 3 } else { v / 100 };
""", """        let max_freq = FFT::default_freqs(v);
"""), (C + "fft.rs", """    fn f64_to_f32(x: f64) -> f32 {""", """    fn default_freqs(len: usize) -> usize {
        (len / 100).max(3)
    }

    fn f64_to_f32(x: f64) -> f32 {"""))
ref("fft-trim-while", (C + "fft.rs", """        for _ in 0..max_freq {
            if let Some(item) = heap.pop() {
                // If the frequency is 0, we don't need it or any other
                if item.freq_img == 0.0 && item.freq_real == 0.0 {
                    break;
                }
                freq_vec.push(item)
            }
        }""", """        while freq_vec.len() < max_freq {
            match heap.pop() {
                Some(item) if item.freq_img != 0.0 || item.freq_real != 0.0 => freq_vec.push(item),
                // If the frequency is 0, we don't need it or any other
                _ => break,
            }
        }"""))
ref("fft-hinted-from-compress", (C + "fft.rs", """        if !v.is_power_of_two() {
            warn!("Slow FFT, data segment is not a power of 2!");
        }
        // The decompression expects the same sizing
        let g_data: &[f64] = if v >= 128 {
            &FFT::gibbs_sizing(data)
        } else {
            data
        };
        let mut planner = FftPlanner::new();
        let fft = planner.plan_fft_forward(g_data.len());
        let mut buffer = FFT::optimize(g_data);
        // The data is processed in place, it gets back to the buffer
        fft.process(&mut buffer);
        // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
        // and the first one being the dc component
        let size = (buffer.len() / 2) + 1;
        buffer.truncate(size);
        self.frequencies = FFT::fft_trim(&mut buffer, max_freq);
    }
    pub""", """        self.compress_hinted(data, max_freq);
    }
    pub"""))
ref("fft-mirror-if", (C + "fft.rs", """            // fo doesn't mirror
            if pos == 0 {
                continue;
            }
            // Mirror and invert the imaginary part
            data[len - pos] = f.to_inv_complex()""", """            // fo doesn't mirror
            if pos != 0 {
                // Mirror and invert the imaginary part
                data[len - pos] = f.to_inv_complex();
            }"""))
ref("fft-round-clamp", (C + "fft.rs", """        if out > self.max_value as f64 {
            return self.max_value as f64;
        }
        // The sums of the transform might overflow, that is no reason to leave the range
        if out < self.min_value as f64 || out.is_nan() {
            return self.min_value as f64;
        }
        out""", """        let (low, high) = (self.min_value as f64, self.max_value as f64);
        if out.is_nan() || out < low {
            low
        } else if out > high {
            high
        } else {
            out
        }"""))
ref("poly-names", (C + "polynomial.rs", """        let data_len = data.len();
        // Instead of calculation, we use the provided count
        let point_count = points;
        // Step size
        let step = (data_len / point_count).max(1);""", """        let len = data.len();
        let step = std::cmp::max(1, len / points);
        let data_len = len;"""))
ref("poly-values-loop", (C + "polynomial.rs", """        let values: Vec<f64> = points.iter().map(|&f| data[f as usize]).collect();
""", """        let mut values = Vec::with_capacity(points.len());
        for point in points.iter() {
            values.push(data[*point as usize]);
        }
"""))
ref("poly-int-points", (C + "polynomial.rs", """        let mut points: Vec<f64> = (0..data_len).step_by(step).map(|f| f as f64).collect();
        // Pushing the last value if needed (and if data is not empty)
        if points.last() != Some(&(data_len as f64 - 1.)) {
            points.push(data_len as f64 - 1.);
        }
        // I need to extract the values for those points
        let values: Vec<f64> = points.iter().map(|&f| data[f as usize]).collect();
""", """        let mut points: Vec<usize> = (0..data_len).step_by(step).collect();
        // Pushing the last value if needed (and if data is not empty)
        if points.last() != Some(&(data_len - 1)) {
            points.push(data_len - 1);
        }
        // I need to extract the values for those points
        let values: Vec<f64> = points.iter().map(|&f| data[f]).collect();
"""))
ref("poly-interp-fn", (C + "polynomial.rs", """            // CatmullRom needs at least 1 key behind and 2 ahead so this check.
            let interpolation = if current_key > 0 && points.len() - current_key > 2 {
                Interpolation::CatmullRom
            } else {
                Interpolation::Linear
            };
            key_vec.push(Key::new(*point as f64, *value, interpolation));""", """            let interpolation = Polynomial::interpolation(current_key, points.len());
            key_vec.push(Key::new(*point as f64, *value, interpolation));"""),
    (C + "polynomial.rs", """    pub fn polynomial_to_data(&self""", """    /// CatmullRom needs at least 1 key behind and 2 ahead so this check.
    fn interpolation(key: usize, keys: usize) -> Interpolation<f64, f64> {
        if key > 0 && keys - key > 2 {
            Interpolation::CatmullRom
        } else {
            Interpolation::Linear
        }
    }

    pub fn polynomial_to_data(&self"""))
ref("poly-out-map", (C + "polynomial.rs", """        let mut out_vec = Vec::with_capacity(frame_size);
        let mut prev = self.min;
        for value in 0..frame_size {
            let spline_value = spline.clamped_sample(value as f64).unwrap_or(prev);
            prev = spline_value;
            out_vec.push(round_and_limit_f64(
                spline_value,
                self.min,
                self.max,
                DECIMAL_PRECISION,
            ));
        }
        out_vec""", """        let mut prev = self.min;
        (0..frame_size)
            .map(|value| {
                prev = spline.clamped_sample(value as f64).unwrap_or(prev);
                round_and_limit_f64(prev, self.min, self.max, DECIMAL_PRECISION)
            })
            .collect()"""))
ref("poly-idw-loop", (C + "polynomial.rs", """        (0..frame_size)
            .map(|f| {
                round_and_limit_f64(
                    idw.evaluate(f as f64),
                    self.min,
                    self.max,
                    DECIMAL_PRECISION,
                )
            })
            .collect()
    }""", """        let mut out = Vec::with_capacity(frame_size);
        for position in 0..frame_size {
            let value = idw.evaluate(position as f64);
            out.push(round_and_limit_f64(value, self.min, self.max, DECIMAL_PRECISION));
        }
        out
    }"""))
ref("poly-bounded-loop", (C + "polynomial.rs", """            let out_data = match method {
                Method::CatmullRom => self.polynomial_to_data(data_len),
                Method::Idw => self.idw_to_data(data_len),
            };
            trace!("Calculated Values: {:?}", out_data);
            trace!("Data Values: {:?}", data);
            current_err = calculate_error(data, &out_data);""", """            current_err = self.error_of(&method, data);"""),
    (C + "polynomial.rs", """    pub fn compress_bounded(&mut self""", """    fn error_of(&self, method: &Method, data: &[f64]) -> f64 {
        let out_data = match method {
            Method::CatmullRom => self.polynomial_to_data(data.len()),
            Method::Idw => self.idw_to_data(data.len()),
        };
        calculate_error(data, &out_data)
    }

    pub fn compress_bounded(&mut self"""))
ref("poly-todata-match", (C + "polynomial.rs", """        if self.data_points.len() == frame_size {
            // Every sample is stored, there is nothing to interpolate (or to round)
            return self.data_points.clone();
        }
        match self.id {
            PolynomialType::Idw => self.idw_to_data(frame_size),
            PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
        }""", """        // Every sample is stored, there is nothing to interpolate (or to round)
        let complete = self.data_points.len() == frame_size;
        match self.id {
            _ if complete => self.data_points.to_vec(),
            PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
            PolynomialType::Idw => self.idw_to_data(frame_size),
        }"""))
ref("compressor-order", (C + "mod.rs", """            Compressor::Polynomial => to_data(samples, data),
            Compressor::Idw => to_data(samples, data),
            Compressor::RLE => rle_to_data(samples, data),
            _ => todo!(),""", """            Compressor::Polynomial | Compressor::Idw => to_data(samples, data),
            Compressor::RLE => rle_to_data(samples, data),
            Compressor::Auto => todo!(),"""))
ref("compressor-bounded-from-results", (C + "mod.rs", """        let stats = DataStats::new(data);
        match self {
            Compressor::Noop => noop(data),
            Compressor::FFT => fft_compressor(data, max_error, stats).compressed_data,
            Compressor::Constant => constant_compressor(data, stats).compressed_data,
            Compressor::Polynomial => {
                polynomial_allowed_error(data, max_error, PolynomialType::Polynomial)
                    .compressed_data
            }
            Compressor::Idw => {
                polynomial_allowed_error(data, max_error, PolynomialType::Idw).compressed_data
            }
            Compressor::RLE => rle_compressor(data, stats).compressed_data,
            _ => todo!(),
        }""", """        self.get_compress_bounded_results(data, max_error)
            .compressed_data"""))
D = "atsc/src/data.rs"
ref("stream-push-frame", (D, """        let mut compressor_frame = CompressorFrame::new(None);
        compressor_frame.compress(chunk);
        compressor_frame.close();
        self.data_frames.push(compressor_frame);
        self.header.add_frame();
    }
""", """        let mut compressor_frame = CompressorFrame::new(None);
        compressor_frame.compress(chunk);
        self.push_frame(compressor_frame);
    }

    /// Closes a frame and adds it to the stream
    fn push_frame(&mut self, mut frame: CompressorFrame) {
        frame.close();
        self.header.add_frame();
        self.data_frames.push(frame);
    }
"""), (D, """        let mut compressor_frame = CompressorFrame::new(Some(compressor));
        compressor_frame.compress(chunk);
        compressor_frame.close();
        self.data_frames.push(compressor_frame);
        self.header.add_frame();""", """        let mut compressor_frame = CompressorFrame::new(Some(compressor));
        compressor_frame.compress(chunk);
        self.push_frame(compressor_frame);"""), (D, """        compressor_frame.close();
        self.data_frames.push(compressor_frame);
        self.header.add_frame();
    }

    /// Transforms""", """        self.push_frame(compressor_frame);
    }

    /// Transforms"""))
ref("stream-decompress-loop", (D, """        self.data_frames
            .iter()
            .flat_map(|f| f.decompress())
            .collect()""", """        let mut out = Vec::new();
        for frame in &self.data_frames {
            out.extend(frame.decompress());
        }
        out"""))
ref("stream-if-auto", (D, """        match compressor {
            // Auto means the frame will pick the best
            Compressor::Auto => compressor_frame.compress_best(chunk, max_error, compression_speed),
            _ => compressor_frame.compress_bounded(chunk, max_error),
        }""", """        // Auto means the frame will pick the best
        if compressor == Compressor::Auto {
            compressor_frame.compress_best(chunk, max_error, compression_speed);
        } else {
            compressor_frame.compress_bounded(chunk, max_error);
        }"""))
ref("stream-split", (D, """        let (binary_header, binary_data) = data.split_at(9);
        let header = CompressorHeader::from_bytes(
            binary_header
                .try_into()
                .expect("Header with incorrect length!"),
        );
        let (data_frames, _) = bincode::decode_from_slice(binary_data, config).unwrap();""", """        let mut binary_header = [0u8; 9];
        binary_header.copy_from_slice(&data[..9]);
        let header = CompressorHeader::from_bytes(binary_header);
        let (data_frames, _) = bincode::decode_from_slice(&data[9..], config).unwrap();"""))
F = "atsc/src/frame/mod.rs"
ref("frame-reorder", (F, """        self.sample_count = data.len();
        self.data = self.compressor.compress(data);""", """        self.data = self.compressor.compress(data);
        self.sample_count = data.len();"""), (F, """        self.sample_count = data.len();
        self.data = self.compressor.compress_bounded(data, max_error as f64);""", """        let max_error = f64::from(max_error);
        self.data = self.compressor.compress_bounded(data, max_error);
        self.sample_count = data.len();"""))
ref("frame-best-any", (F, """            let best_compressor = if compressor_results
                .iter()
                .all(|(result, _)| !(result.error <= max_error as f64))
            {
                // To ensure we always have at least one result,
                // if all results are above the max error just pick the smallest.
                compressor_results
                    .into_iter()
                    .min_by_key(|x| x.0.compressed_data.len())
            } else {
                compressor_results
                    .into_iter()
                    .filter(|(result, _)| result.error <= max_error as f64)
                    .min_by_key(|x| x.0.compressed_data.len())
            };
""", """            let best_compressor = if compressor_results
                .iter()
                .any(|(result, _)| result.error <= max_error as f64)
            {
                compressor_results
                    .into_iter()
                    .filter(|(result, _)| result.error <= max_error as f64)
                    .min_by_key(|x| x.0.compressed_data.len())
            } else {
                // To ensure we always have at least one result,
                // if all results are above the max error just pick the smallest.
                compressor_results
                    .into_iter()
                    .min_by_key(|x| x.0.compressed_data.len())
            };
"""))
ref("frame-best-split", (F, """            let (result, compressor) = best_compressor.unwrap();
            self.data = result.compressed_data;
            self.compressor = compressor;
        }
        debug!("Auto Compressor Selection: {:?}", self.compressor);
    }
""", """            let (result, compressor) = best_compressor.unwrap();
            self.store(result.compressed_data, compressor);
        }
        debug!("Auto Compressor Selection: {:?}", self.compressor);
    }

    fn store(&mut self, data: Vec<u8>, compressor: Compressor) {
        self.data = data;
        self.compressor = compressor;
    }
"""))
ref("frame-best-loop", (F, """            let compressor_results: Vec<_> = compressor_list
                .iter()
                .map(|compressor| {
                    (
                        compressor.get_compress_bounded_results(data, max_error as f64),
                        *compressor,
                    )
                })
                .collect();
""", """            let mut compressor_results = Vec::with_capacity(compressor_list.len());
            for compressor in compressor_list {
                let result = compressor.get_compress_bounded_results(data, max_error as f64);
                compressor_results.push((result, compressor));
            }
"""))
H = "atsc/src/header.rs"
ref("header-if", (H, """    match current_version.cmp(&version) {
        std::cmp::Ordering::Less => panic!(
            "Can't decompress! File is version ({}) which is higher than compressor version ({})!",
            version, current_version
        ),
        std::cmp::Ordering::Equal | std::cmp::Ordering::Greater => {
            debug!("File version: {}", version)
        }
    }""", """    if version > current_version {
        panic!(
            "Can't decompress! File is version ({}) which is higher than compressor version ({})!",
            version, current_version
        );
    }
    debug!("File version: {}", version);"""))
ref("header-slices", (H, """        let initial_segment = [data[0], data[1], data[2], data[3]];
        if initial_segment != *b"BRRO" {
            panic!("Magic bytes are not correct!");
        }
        // Extract version (u32 from 4 bytes)
        let version = u32::from_le_bytes([data[4], data[5], data[6], data[7]]);
        // Extract frame_count
        let frame_count = data[8];
        verify_header_versions(version);
        CompressorHeader {
            version,
            frame_count,
        }""", """        assert!(data.starts_with(b"BRRO"), "Magic bytes are not correct!");
        let mut version = [0u8; 4];
        version.copy_from_slice(&data[4..8]);
        let header = CompressorHeader {
            version: u32::from_le_bytes(version),
            frame_count: data[8],
        };
        verify_header_versions(header.version);
        header"""))
ref("header-write", (H, """        // Add initial_segment
        writer.extend_from_slice(b"BRRO");
        // Add version (u32 as 4 bytes)
        writer.extend_from_slice(&self.version.to_le_bytes());""", """        let [a, b, c, d] = self.version.to_le_bytes();
        writer.extend([b'B', b'R', b'R', b'O', a, b, c, d]);"""))
O = "atsc/src/optimizer/mod.rs"
ref("clean-finite", (O, """            .filter(|x| !(x.is_nan() || x.is_infinite()))
            .copied()
            .collect()""", """            .copied()
            .filter(|x| x.is_finite())
            .collect()"""))
ref("clean-loop", (O, """        wav_data
            .iter()
            .filter(|x| !(x.is_nan() || x.is_infinite()))
            .copied()
            .collect()""", """        let mut clean = Vec::new();
        for &x in wav_data {
            if x.is_finite() {
                clean.push(x);
            }
        }
        clean"""))
ref("chunks-size-first", (O, """            match len {
                _ if len >= MAX_FRAME_SIZE => {
                    chunk_sizes.push(MAX_FRAME_SIZE);
                    len -= MAX_FRAME_SIZE;
                }
                _ if len <= MIN_FRAME_SIZE => {
                    chunk_sizes.push(len);
                    len = 0;
                }
                _ => {
                    let size = prev_power_of_two(len);
                    chunk_sizes.push(size);
                    len -= size;
                }
            }
        }""", """            let size = if len >= MAX_FRAME_SIZE {
                MAX_FRAME_SIZE
            } else if len <= MIN_FRAME_SIZE {
                len
            } else {
                prev_power_of_two(len)
            };
            chunk_sizes.push(size);
            len -= size;
        }"""))
ref("chunks-helper", (O, """            match len {
                _ if len >= MAX_FRAME_SIZE => {
                    chunk_sizes.push(MAX_FRAME_SIZE);
                    len -= MAX_FRAME_SIZE;
                }
                _ if len <= MIN_FRAME_SIZE => {
                    chunk_sizes.push(len);
                    len = 0;
                }
                _ => {
                    let size = prev_power_of_two(len);
                    chunk_sizes.push(size);
                    len -= size;
                }
            }
        }""", """            let size = OptimizerPlan::next_chunk(len);
            chunk_sizes.push(size);
            len -= size;
        }"""), (O, """    /// Returns a vector with the data slice and the compressor associated""", """    fn next_chunk(len: usize) -> usize {
        match len {
            _ if len >= MAX_FRAME_SIZE => MAX_FRAME_SIZE,
            _ if len <= MIN_FRAME_SIZE => len,
            _ => prev_power_of_two(len),
        }
    }

    /// Returns a vector with the data slice and the compressor associated"""))
ref("execution-split", (O, """        let mut s = 0;
        for (i, size) in self.chunk_sizes.iter().enumerate() {
            output.push((&self.compressors[i], &self.data[s..(s + *size)]));
            s += *size;
        }
        output""", """        let mut rest: &[f64] = &self.data;
        for (compressor, size) in self.compressors.iter().zip(&self.chunk_sizes) {
            let (chunk, tail) = rest.split_at(*size);
            output.push((compressor, chunk));
            rest = tail;
        }
        output"""))
U = "atsc/src/optimizer/utils.rs"
ref("stats-elseif", (U, """            if t_value.fract() != 0.0 {
                fractional = true;
            }
            if t_value > max {
                max = t_value;
                max_loc = i;
            };
            if t_value < min {
                min = t_value;
                min_loc = i;
            };""", """            fractional |= t_value.fract() != 0.0;
            if t_value > max {
                (max, max_loc) = (t_value, i);
            } else if t_value < min {
                (min, min_loc) = (t_value, i);
            }"""))
ref("stats-bitdepth", (U, """        let bitdepth = match max_int {
            _ if max_int <= u8::MAX.into() => 8,
            _ if max_int <= i16::MAX.into() => 16,
            _ if max_int <= i32::MAX.into() => 32,
            _ => 64,
        };
""", """        let bitdepth = if max_int <= 255 {
            8
        } else if max_int <= 32767 {
            16
        } else if max_int <= 2147483647 {
            32
        } else {
            64
        };
"""))
ref("stats-three-passes", (U, """        for (i, value) in data.iter().enumerate() {
            let t_value = *value;
            mean += value;
            if t_value.fract() != 0.0 {
                fractional = true;
            }
""", """        for value in data {
            mean += value;
            if value.fract() != 0.0 {
                fractional = true;
            }
        }
        for (i, value) in data.iter().enumerate() {
            let t_value = *value;
"""))
R = "atsc/src/utils/error.rs"
ref("mse-zip", (R, """    let min_length = cmp::min(vec1.len(), vec2.len());
    let squared_error: f64 = (0..min_length).map(|i| (vec1[i] - vec2[i]).powi(2)).sum();
    squared_error / min_length as f64""", """    let squared_error: f64 = vec1.iter().zip(vec2).map(|(a, b)| (a - b).powi(2)).sum();
    squared_error / vec1.len() as f64"""), (R, """use std::cmp;
""", ""))
ref("error-check-fn", (R, """    if original.len() != generated.len() {
        panic!("Can't compute error! Arrays with different lenghts.")
    }

    let abs_error: f64 = original
        .iter()
        .zip(generated.iter())
        .map(|(original, generated)| (generated - original).abs())
        .sum();""", """    check_lengths(original, generated);

    let abs_error: f64 = original
        .iter()
        .zip(generated.iter())
        .map(|(original, generated)| (generated - original).abs())
        .sum();"""), (R, """/// Computes the Normalized Mean""", """fn check_lengths(original: &[f64], generated: &[f64]) {
    if original.len() != generated.len() {
        panic!("Can't compute error! Arrays with different lenghts.")
    }
}

/// Computes the Normalized Mean"""))
ref("mape-loop", (R, """    let abs_error: f64 = original
        .iter()
        .zip(generated.iter())
        .map(|(original, generated)| {
            // An exact value has no error, even if it is 0 (0/0 is NaN)
            if generated == original {
                0.0
            } else {
                ((generated - original) / original).abs()
            }
        })
        .sum();""", """    let mut abs_error = 0.0;
    for (original, generated) in original.iter().zip(generated) {
        // An exact value has no error, even if it is 0 (0/0 is NaN)
        if generated != original {
            abs_error += ((generated - original) / original).abs();
        }
    }"""))
ref("smape-if", (R, """        if value_generated == value_original {
            continue;
        }
        sum += (value_generated - value_original).abs()
            / (value_original.abs() + value_generated.abs());""", """        if value_generated != value_original {
            let total = value_original.abs() + value_generated.abs();
            sum += (value_generated - value_original).abs() / total;
        }"""))
M = "atsc/src/utils/mod.rs"
ref("power-of-two", (M, """    // n = 0 gives highest_bit_set_idx = 0.
    let highest_bit_set_idx = 63 - (n | 1).leading_zeros();
    // Binary AND of highest bit with n is a no-op, except zero gets wiped.
    (1 << highest_bit_set_idx) & n""", """    if n == 0 {
        return 0;
    }
    1 << (63 - n.leading_zeros())"""))
ref("next-size-loop", (M, """    n += 1;
    while !is_decomposable(n) {
        n += 1;
    }
    n
""", """    loop {
        n += 1;
        if is_decomposable(n) {
            return n;
        }
    }
"""))
ref("limit-clamp", (M, """    match out {
        _ if out < min => min,
        _ if out > max => max,
        // An interpolation that overflows is no reason to leave the range
        _ if out.is_nan() => min,
        _ => out,
    }""", """    if out.is_nan() || out < min {
        min
    } else if out > max {
        max
    } else {
        out
    }"""))
V = "vsri/src/lib.rs"
ref("vsri-segment-end-fn", (V, """            let sample_rate = segment[0];
            let y0 = segment[2];
            let num_samples = segment[3];

            let segment_end_y = y0 + (sample_rate * (num_samples - 1));

            if y >= y0""", """            let sample_rate = segment[0];
            let y0 = segment[2];

            let segment_end_y = Vsri::segment_end(segment);

            if y >= y0"""), (V, """    /// Minimum time stamp
""", """    /// Time of the last sample of a segment
    fn segment_end(segment: &[i32; 4]) -> i32 {
        segment[2] + (segment[0] * (segment[3] - 1))
    }

    /// Minimum time stamp
"""))
ref("vsri-destructure", (V, """            let sample_rate = segment[0];
            let y0 = segment[2];
            let num_samples = segment[3];

            let segment_end_y = y0 + (sample_rate * (num_samples - 1));

            if y >= y0 && y <= segment_end_y {
                if sample_rate == 0 {
                    // All the samples of the segment have the same timestamp
                    return Some(segment[1]);
                }
                let offset = y - y0;
                if offset % sample_rate != 0 {
                    // It falls between 2 samples of the segment
                    return None;
                }
                return Some(segment[1] + offset / sample_rate);
            }""", """            let [sample_rate, x0, y0, num_samples] = *segment;
            let segment_end_y = y0 + (sample_rate * (num_samples - 1));

            if y < y0 || y > segment_end_y {
                continue;
            }
            if sample_rate == 0 {
                // All the samples of the segment have the same timestamp
                return Some(x0);
            }
            let offset = y - y0;
            // It might fall between 2 samples of the segment
            return if offset % sample_rate == 0 {
                Some(x0 + offset / sample_rate)
            } else {
                None
            };"""))
ref("vsri-time-find", (V, """                for segment in &self.vsri_segments {
                    if x >= segment[1] && x < (segment[1] + segment[3]) {
                        // Belongs here! Return Segment TS + the TS interval * position in the segment
                        let y = segment[2] + segment[0] * (x - segment[1]);
                        return Some(y);
                    }
                    continue;
                }
                None""", """                self.vsri_segments
                    .iter()
                    .find(|segment| x >= segment[1] && x < (segment[1] + segment[3]))
                    .map(|segment| segment[2] + segment[0] * (x - segment[1]))"""))
ref("vsri-timestamps-loop", (V, """            let time_iter = (0..samples).map(|f| (f * time_step) + initial_ts);
            time_vec.extend(time_iter);""", """            for i in 0..samples {
                time_vec.push(initial_ts + i * time_step);
            }"""))
ref("vsri-current-last", (V, """        match self.vsri_segments.len() {
            0 => [0, 0, 0, 0],
            _ => self.vsri_segments[self.vsri_segments.len() - 1],
        }""", """        self.vsri_segments.last().copied().unwrap_or_default()"""))
ref("vsri-update-order", (V, """        if self.is_fake_segment() {
            // In the presence of a fake segment (where m is 0), and a new point, we are now
            // in a situation we can calculate a decent segment
            self.vsri_segments[segment_count - 1] = self.generate_segment(y);
        } else {
            // Check ownership by the current segment
            if self.fits_segment(y) {
                // It fits, increase the sample count and it's done
                debug!("[INDEX] Same segment, updating. TS: {}", y);
                self.vsri_segments[segment_count - 1][3] += 1;
                return Ok(());
            }
            // If it doesn't fit, create a new fake segment
            self.vsri_segments.push(self.create_fake_segment(y));
        }
        Ok(())""", """        let last = segment_count - 1;
        if self.is_fake_segment() {
            self.vsri_segments[last] = self.generate_segment(y);
        } else if self.fits_segment(y) {
            self.vsri_segments[last][3] += 1;
        } else {
            let segment = self.create_fake_segment(y);
            self.vsri_segments.push(segment);
        }
        Ok(())"""))
ref("vsri-empty-any", (V, """        match &self.vsri_segments.len() {
            1 => {""", """        let [from, to] = time_segment;
        if from <= to {
            return !self.vsri_segments.iter().any(|segment| {
                let end = segment[2] + segment[0] * (segment[3] - 1);
                from <= end && to >= segment[2]
            });
        }
        match &self.vsri_segments.len() {
            1 => {"""))
ref("vsri-empty-touch-fn", (V, """                    // Could this be simplified with Karnaugh map? I'll dig my books later
                    // It starts or ends inside the segment
                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                    {
                        return false;
                    }
                    // Or it contains the whole segment
                    if time_segment[0] < y0 && time_segment[1] > segment_end_y {
                        return false;
                    }""", """                    if Vsri::touches(time_segment, y0, segment_end_y) {
                        return false;
                    }"""), (V, """    /// Minimum time stamp
""", """    fn touches(time_segment: [i32; 2], start: i32, end: i32) -> bool {
        // It starts or ends inside the segment
        (time_segment[0] >= start && time_segment[0] <= end)
            || (time_segment[1] <= end && time_segment[1] >= start)
            // Or it contains the whole segment
            || (time_segment[0] < start && time_segment[1] > end)
    }

    /// Minimum time stamp
"""))
ref("vsri-next-elseless", (V, """        if self.vsri_segments.is_empty() || y >= self.max() {
            return None;
        } else if y < self.min() {
            return Some(0);
        }
        // It wasn't""", """        if self.vsri_segments.is_empty() {
            return None;
        }
        if y < self.min() {
            return Some(0);
        }
        if y >= self.max() {
            return None;
        }
        // It wasn't"""))
ref("vsri-previous-rev", (V, """        // Cycle through the segments
        for segment in &self.vsri_segments {
            let sample_rate = segment[0];
            let first_sample = segment[1];
            let y0 = segment[2];
            if y < y0 {
                // Return the last sample of the previous segment
                return Some(first_sample - 1);
            }
            // Inside the segment, it is the last sample at or before y
            if y < y0 + sample_rate * (segment[3] - 1) {
                return Some(first_sample + (y - y0) / sample_rate);
            }
        }
        None""", """        // The last segment that starts at or before y
        let segment = self.vsri_segments.iter().rev().find(|s| s[2] <= y)?;
        let end = segment[2] + segment[0] * (segment[3] - 1);
        if y >= end {
            return Some(segment[1] + segment[3] - 1);
        }
        Some(segment[1] + (y - segment[2]) / segment[0])"""))
ref("vsri-flush-string", (V, """        let file = File::create(path)?;
        let mut writer = BufWriter::new(file);

        // Write index_file, min_ts, max_ts on the first three lines
        writeln!(writer, "{}", self.min_ts)?;
        writeln!(writer, "{}", self.max_ts)?;

        // Write each vsri_segment on a separate line
        for segment in &self.vsri_segments {
            writeln!(
                writer,
                "{},{},{},{}",
                segment[0], segment[1], segment[2], segment[3]
            )?;
        }

        writer.flush()?;
        Ok(())""", """        let mut out = format!("{}\\n{}\\n", self.min_ts, self.max_ts);
        for [m, x, y, n] in &self.vsri_segments {
            out.push_str(&format!("{m},{x},{y},{n}\\n"));
        }
        let mut writer = BufWriter::new(File::create(path)?);
        writer.write_all(out.as_bytes())?;
        writer.flush()"""))
ref("vsri-load-enumerate", (V, """        let mut i = 1; // Line 1,2 are not segments.
        for line in reader.lines() {
            let line = line?;
            match i {
                1 => {
                    min_ts""", """        // Line 1,2 are not segments.
        for (i, line) in reader.lines().enumerate() {
            let line = line?;
            match i + 1 {
                1 => {
                    min_ts"""), (V, """                    segments.push(values.try_into().unwrap());
                }
            }
            i += 1;
        }""", """                    segments.push(values.try_into().unwrap());
                }
            }
        }"""))
ref("vsri-load-parse-fn", (V, """                1 => {
                    min_ts = line.trim().parse::<i32>().unwrap();
                }
                2 => {
                    max_ts = line.trim().parse::<i32>().unwrap();
                }
                _ => {
                    let values = line
                        .split(',')
                        .map(|value| value.trim().parse::<i32>())
                        .collect::<Result<Vec<i32>, _>>()
                        .unwrap();
                    segments.push(values.try_into().unwrap());
                }""", """                1 => min_ts = parse_field(&line),
                2 => max_ts = parse_field(&line),
                _ => {
                    let values: Vec<i32> = line.split(',').map(parse_field).collect();
                    segments.push(values.try_into().unwrap());
                }"""), (V, """#[derive(Debug)]
pub enum Error {""", """fn parse_field(text: &str) -> i32 {
    text.trim().parse().unwrap()
}

#[derive(Debug)]
pub enum Error {"""))
ref("vsri-location-iflet", (V, """        let vsri = match Vsri::load(filename) {
            Ok(vsri) => vsri,
            Err(_err) => return None,
        };
        if vsri.min() <= y && y <= vsri.max() {
            return vsri.get_sample(y);
        }
        None""", """        let vsri = Vsri::load(filename).ok()?;
        if y < vsri.min() || y > vsri.max() {
            return None;
        }
        vsri.get_sample(y)"""))
ref("days-modulo", (V, """    let datetime = DateTime::<Utc>::from_timestamp(timestamp_sec, 0).unwrap();
    // Extract the time components (hour, minute, and second) from the DateTime
    let hour = datetime.time().hour();
    let minute = datetime.time().minute();
    let second = datetime.time().second();
    // Calculate the total seconds since the start of the day
    (hour * 3600 + minute * 60 + second) as i32""", """    let datetime = DateTime::<Utc>::from_timestamp(timestamp_sec, 0).unwrap();
    datetime.time().num_seconds_from_midnight() as i32"""))
ref("days-common", (V, """    let hour = datetime.time().hour();
    let minute = datetime.time().minute();
    let second = datetime.time().second();
    // Calculate the total seconds since the start of the day
    (hour * 3600 + minute * 60 + second) as i32
}
""", """    seconds_of_day(&datetime) as i32
}

/// Calculates the total seconds since the start of the day
fn seconds_of_day(datetime: &DateTime<Utc>) -> u32 {
    let time = datetime.time();
    time.hour() * 3600 + time.minute() * 60 + time.second()
}
"""), (V, """    let hour = dt.time().hour();
    let minute = dt.time().minute();
    let second = dt.time().second();
    dt.timestamp() - (hour * 3600 + minute * 60 + second) as i64""", """    dt.timestamp() - seconds_of_day(&dt) as i64"""))
W = "wavbrro/src/wavbrro.rs"
ref("wbro-isfull", (W, """        match self.chunks.last() {
            Some(c) => c.len() >= MAX_CHUNK_SIZE,
            None => true,
        }""", """        self.chunks.last().map_or(true, |c| c.len() >= MAX_CHUNK_SIZE)"""))
ref("wbro-add-inline", (W, """        if self.is_chunk_full() {
            self.create_chunk()
        }
        self.chunks.last_mut().unwrap().push(sample);
        self.sample_count += 1;""", """        self.sample_count += 1;
        match self.chunks.last_mut() {
            Some(chunk) if chunk.len() < MAX_CHUNK_SIZE => chunk.push(sample),
            _ => {
                self.create_chunk();
                self.chunks.last_mut().unwrap().push(sample);
            }
        }"""), (W, """    fn is_chunk_full(&self)""", """    #[allow(dead_code)]
    fn is_chunk_full(&self)"""))
ref("wbro-samples-loop", (W, """        self.chunks.into_iter().flatten().collect::<Vec<f64>>()""", """        let mut samples = Vec::with_capacity(self.sample_count as usize);
        for chunk in self.chunks {
            samples.extend(chunk);
        }
        samples"""))
ref("wbro-slice-loop", (W, """        let sample_count = data.len();
        WavBrro {
            sample_count: sample_count as u32,
            bitdepth: 5,
            chunks: data.chunks(MAX_CHUNK_SIZE).map(|s| s.into()).collect(),
        }""", """        let mut chunks = Vec::new();
        for s in data.chunks(MAX_CHUNK_SIZE) {
            chunks.push(s.to_vec());
        }
        WavBrro {
            chunks,
            sample_count: data.len() as u32,
            ..WavBrro::new()
        }"""))
ref("wbro-fromfile-match", (W, """        if !is_wavbrro_file(file_path)? {
            return Err(Error::FormatError);
        };
        let bytes = read_wavbrro_file(file_path)?;
        let obj = rkyv::from_bytes::<WavBrro>(&bytes).map_err(|_| Error::FormatError)?;
        Ok(obj.get_samples())""", """        match is_wavbrro_file(file_path)? {
            true => {
                let bytes = read_wavbrro_file(file_path)?;
                match rkyv::from_bytes::<WavBrro>(&bytes) {
                    Ok(obj) => Ok(obj.get_samples()),
                    Err(_) => Err(Error::FormatError),
                }
            }
            false => Err(Error::FormatError),
        }"""))
ref("wbro-tofile-shared", (W, """        let wb = WavBrro::from_slice(data);
        let bytes = wb.to_bytes();
        write_wavbrro_file(file_path, &bytes);""", """        WavBrro::from_slice(data).to_file(file_path);"""))
ref("wbro-header-starts", ("wavbrro/src/read.rs", """    Ok(&header[0..4] == b"WBRO" && &header[8..12] == b"WBRO")""", """    let signature = b"WBRO";
    Ok(header.starts_with(signature) && header.ends_with(signature))"""))
ref("wbro-read-whole", ("wavbrro/src/read.rs", """    let mut file = File::open(file_path)?;
    let mut contents = Vec::new();
    file.seek(SeekFrom::Start(12))?;
    file.read_to_end(&mut contents)?;
    Ok(contents)""", """    let mut file = File::open(file_path)?;
    file.seek(SeekFrom::Start(12))?;
    let mut contents = Vec::new();
    match file.read_to_end(&mut contents) {
        Ok(_) => Ok(contents),
        Err(err) => Err(err),
    }"""))
ref("wbro-write-const", ("wavbrro/src/write.rs", """    let header: [u8; 12] = *b"WBRO0000WBRO";
    let file = File::create(file_path).expect("Can't create file!");
    file.write_all_at(&header, 0).expect("Fail to write header");
    file.write_all_at(content, header.len() as u64)
        .expect("Fail to write content");""", """    let file = File::create(file_path).expect("Can't create file!");
    file.write_all_at(HEADER, 0).expect("Fail to write header");
    file.write_all_at(content, HEADER.len() as u64)
        .expect("Fail to write content");"""), ("wavbrro/src/write.rs", """pub fn write""", """const HEADER: &[u8] = b"WBRO0000WBRO";

pub fn write"""))
A = "atsc/src/main.rs"
ref("cmd-compressor-fn", (A, """    match arguments.compressor {
        CompressorType::Noop => op.set_compressor(Compressor::Noop),
        CompressorType::Constant => op.set_compressor(Compressor::Constant),
        CompressorType::Rle => op.set_compressor(Compressor::RLE),
        CompressorType::Fft => op.set_compressor(Compressor::FFT),
        CompressorType::Polynomial => op.set_compressor(Compressor::Polynomial),
        CompressorType::Idw => op.set_compressor(Compressor::Idw),
        CompressorType::Auto => op.set_compressor(Compressor::Auto),
    }""", """    op.set_compressor(selected(&arguments.compressor));"""), (A, """/// Compresses the data based on the provided tag and arguments.
fn compress_data""", """fn selected(compressor: &CompressorType) -> Compressor {
    match compressor {
        CompressorType::Noop => Compressor::Noop,
        CompressorType::Constant => Compressor::Constant,
        CompressorType::Rle => Compressor::RLE,
        CompressorType::Fft => Compressor::FFT,
        CompressorType::Polynomial => Compressor::Polynomial,
        CompressorType::Idw => Compressor::Idw,
        CompressorType::Auto => Compressor::Auto,
    }
}

/// Compresses the data based on the provided tag and arguments.
fn compress_data"""))
ref("cmd-lossy-flag", (A, """        match arguments.compressor {
            CompressorType::Fft
            | CompressorType::Polynomial
            | CompressorType::Idw
            | CompressorType::Auto => cs.compress_chunk_bounded_with(
                data,
                cpr.to_owned(),
                arguments.error as f32 / 100.0,
                arguments.compression_selection_sample_level as usize,
            ),
            // If compressor is a lossless one, just compress
            _ => cs.compress_chunk_with(data, cpr.to_owned()),
        }""", """        let lossless = matches!(
            arguments.compressor,
            CompressorType::Noop | CompressorType::Constant | CompressorType::Rle
        );
        if lossless {
            cs.compress_chunk_with(data, *cpr);
        } else {
            let max_error = arguments.error as f32 / 100.0;
            let level = arguments.compression_selection_sample_level as usize;
            cs.compress_chunk_bounded_with(data, *cpr, max_error, level);
        }"""))
ref("cmd-split-single", (A, """    debug!("Processing single file...");
    if arguments.uncompress {
        //read
        if let Some(vec) = bro_reader::read_file(&file_path)? {
            let arr: &[u8] = &vec;
            //decompress
            let decompressed_data = decompress_data(arr);
            if arguments.verbose {
                println!("Output={:?}", decompressed_data);
            }
            file_path.set_extension("wbro");
            WavBrro::to_file_with_data(&file_path, &decompressed_data)
        }
    } else""", """    debug!("Processing single file...");
    if arguments.uncompress {
        return uncompress_file(file_path, arguments.verbose);
    }
   """), (A, """fn process_single_file(""", """fn uncompress_file(mut file_path: PathBuf, verbose: bool) -> Result<(), Box<dyn Error>> {
    if let Some(vec) = bro_reader::read_file(&file_path)? {
        let decompressed_data = decompress_data(&vec);
        if verbose {
            println!("Output={:?}", decompressed_data);
        }
        file_path.set_extension("wbro");
        WavBrro::to_file_with_data(&file_path, &decompressed_data)
    }
    Ok(())
}

fn process_single_file("""))
ref("cmd-one-writer", (A, """        let data: Vec<f64> = samples.into_iter().map(|sample| sample.value).collect();

        if arguments.verbose {
            println!("Input={:?}", data);
        }

        // Compress
        let compressed_data = compress_data(&data, arguments);

        // Write
        file_path.set_extension("bro");
        std::fs::write(file_path, compressed_data)?;
    } else {
        // Read an WavBRRO file and compress it
        let data = WavBrro::from_file(&file_path)?;
        if arguments.verbose {
            println!("Input={:?}", data);
        }

        //compress
        let compressed_data = compress_data(&data, arguments);

        //write
        file_path.set_extension("bro");
        std::fs::write(file_path, compressed_data)?;
    }
    Ok(())
}
""", """        let data: Vec<f64> = samples.into_iter().map(|sample| sample.value).collect();
        write_compressed(file_path, &data, arguments)?;
    } else {
        // Read an WavBRRO file and compress it
        let data = WavBrro::from_file(&file_path)?;
        write_compressed(file_path, &data, arguments)?;
    }
    Ok(())
}

fn write_compressed(
    mut file_path: PathBuf,
    data: &[f64],
    arguments: &Args,
) -> Result<(), Box<dyn Error>> {
    if arguments.verbose {
        println!("Input={:?}", data);
    }
    let compressed_data = compress_data(data, arguments);
    file_path.set_extension("bro");
    std::fs::write(file_path, compressed_data)?;
    Ok(())
}
"""))
ref("cmd-dir-iflet", (A, """            match process_single_file(path.clone(), arguments) {
                Ok(_) => continue,
                //TODO: Files are created while this walks the dir, gives a funny output
                //NOTE: Due to the way read_dir works, it seems we can't do much about this except collecting
                //      before and then iterating. But that might lead to a MASSIVE array. So it keeps a `funny` output
                //      output for the time beeing.
                Err(err) => error!("{} File: {}", err, path.display()),
            }""", """            if let Err(err) = process_single_file(path.clone(), arguments) {
                error!("{} File: {}", err, path.display());
            }"""))
ref("cmd-args-early", (A, """    // If the input path points to a single file
    if metadata.is_file() {
        debug!("Target is a file");
        process_single_file(arguments.input.clone(), arguments)?;
    }
    // If the input path points to a directory
    else if metadata.is_dir() {
        debug!("Target is a directory");
        process_directory(arguments)?;
    }
    // If the input path is neither a file nor a directory
    else {
        return Err("The provided path is neither a file nor a directory.".into());
    }

    Ok(())""", """    if metadata.is_dir() {
        return process_directory(arguments);
    }
    if metadata.is_file() {
        return process_single_file(arguments.input.clone(), arguments);
    }
    Err("The provided path is neither a file nor a directory.".into())"""))
ref("bro-read-direct", ("atsc/src/utils/readers/bro_reader.rs", """    if is_bro_file(file_path)? {
        // If it's a WAV file, process it using the process_wav_file function
        Ok(Some(process_bro_file(file_path)?))
    } else {
        Ok(None)
    }""", """    if !is_bro_file(file_path)? {
        return Ok(None);
    }
    process_bro_file(file_path).map(Some)"""))
ref("bro-fs-read", ("atsc/src/utils/readers/bro_reader.rs", """    let mut file = File::open(file_path)?;
    let mut contents = Vec::new();
    file.read_to_end(&mut contents)?;
    Ok(contents)""", """    fs::read(file_path)"""))
CS = "atsc/src/csv.rs"
ref("csv-parse-fn", (CS, """        let value: f64 = record
            .get(value_idx)
            .unwrap()
            .parse()
            .map_err(|_| Error::ParsingValueFailed)?;

        samples.push(Sample {
            timestamp: 0,
            value,
        });""", """        samples.push(parse_sample(&record, value_idx)?);"""), (CS, """        let value: f64 = record
            .get(0) // assuming that there is only a single field with values inside
            .unwrap()
            .parse()
            .map_err(|_| Error::ParsingValueFailed)?;

        samples.push(Sample {
            timestamp: 0,
            value,
        });""", """        // assuming that there is only a single field with values inside
        samples.push(parse_sample(&record, 0)?);"""), (CS, """fn open_csv_reader(""", """fn parse_sample(record: &csv::StringRecord, value_idx: usize) -> Result<Sample> {
    let value: f64 = record
        .get(value_idx)
        .unwrap()
        .parse()
        .map_err(|_| Error::ParsingValueFailed)?;
    Ok(Sample {
        timestamp: 0,
        value,
    })
}

fn open_csv_reader("""))
ref("csv-collect", (CS, """    let mut samples = Vec::new();
    for record in reader.records() {
        let record = record.map_err(|_| Error::Unexpected)?;
        let value: f64 = record
            .get(0) // assuming that there is only a single field with values inside
            .unwrap()
            .parse()
            .map_err(|_| Error::ParsingValueFailed)?;

        samples.push(Sample {
            timestamp: 0,
            value,
        });
    }

    Ok(samples)""", """    reader
        .records()
        .map(|record| {
            let record = record.map_err(|_| Error::Unexpected)?;
            let value = record[0].parse().map_err(|_| Error::ParsingValueFailed)?;
            Ok(Sample {
                timestamp: 0,
                value,
            })
        })
        .collect()"""))
ref("csv-order", (CS, """    let file = OpenOptions::new()
        .read(true)
        .open(filepath)
        .map_err(|_| Error::OpenFileFailed)?;
""", """    let file = File::open(filepath).map_err(|_| Error::OpenFileFailed)?;
"""), (CS, "use std::fs::{File, OpenOptions};", "use std::fs::File;"))
K = "csv-compressor/src/"
ref("metric-if", (K + "metric.rs", """            // The compression drops the values that are not finite, the index can't keep them
            if !sample.value.is_finite() {
                continue;
            }
            // For solution simplification it generates only 1 WavBrro and 1 VSRI
            let ts = day_elapsed_seconds(sample.timestamp / 1000);
            self.vsri
                .update_for_point(ts)
                .map_err(|_| Error::UpdateForPointError(sample.clone()))?;

            self.wbro.add_sample(sample.value);
        }
""", """            // The compression drops the values that are not finite, the index can't keep them
            if sample.value.is_finite() {
                self.append_sample(sample)?;
            }
        }
"""), (K + "metric.rs", """    /// Creates default metric from""", """    fn append_sample(&mut self, sample: &Sample) -> Result<(), Error> {
        let ts = day_elapsed_seconds(sample.timestamp / 1000);
        self.vsri
            .update_for_point(ts)
            .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
        self.wbro.add_sample(sample.value);
        Ok(())
    }

    /// Creates default metric from"""))
ref("metric-filter", (K + "metric.rs", """        for sample in samples {
            // The compression drops the values that are not finite, the index can't keep them
            if !sample.value.is_finite() {
                continue;
            }
""", """        // The compression drops the values that are not finite, the index can't keep them
        for sample in samples.iter().filter(|s| s.value.is_finite()) {
"""))
ref("metric-loop", (K + "metric.rs", """        self.wbro
            .get_samples()
            .iter()
            .enumerate()
            .map(|(i, value)| {
                let ts = self.vsri.get_time(i as i32);
                Sample::new(ts.unwrap() as i64, *value)
            })
            .collect()""", """        let values = self.wbro.get_samples();
        let mut samples = Vec::with_capacity(values.len());
        for (i, value) in values.into_iter().enumerate() {
            let ts = self.vsri.get_time(i as i32).unwrap();
            samples.push(Sample::new(i64::from(ts), value));
        }
        samples"""))
ref("csvcmp-collect", (K + "csv.rs", """    let file = OpenOptions::new().read(true).open(dest)?;
    let mut reader = csv::Reader::from_reader(file);
    // Without readable headers the fields would be taken by their position
    reader.headers()?;
    reader.deserialize().collect()""", """    let mut reader = csv::Reader::from_reader(File::open(dest)?);
    // Without readable headers the fields would be taken by their position
    reader.headers()?;
    let mut samples = Vec::new();
    for sample in reader.deserialize() {
        samples.push(sample?);
    }
    Ok(samples)"""), (K + "csv.rs", "use std::fs::{File, OpenOptions};", "use std::fs::File;"))
ref("csvcmp-tryforeach", (K + "csv.rs", """    for sample in samples {
        writer.serialize(sample)?;
    }

    Ok(())""", """    samples.iter().try_for_each(|sample| writer.serialize(sample))"""))
ref("cmdcsv-split", (K + "main.rs", """    if args.uncompress {
        debug!("Starting uncompressing of {:?}", &args.input);
        if let Some(data) = read_file(&args.input).expect("failed to read bro file") {
            // decomressing data and creating wavbrro from it
            let decompressed_data = decompress_data(&data);
            let mut wbro = WavBrro::new();
            for data in decompressed_data.iter() {
                wbro.add_sample(*data);
            }
""", """    if args.uncompress {
        debug!("Starting uncompressing of {:?}", &args.input);
        if let Some(data) = read_file(&args.input).expect("failed to read bro file") {
            // decomressing data and creating wavbrro from it
            let decompressed_data = decompress_data(&data);
            let wbro = container(&decompressed_data);
"""), (K + "main.rs", """fn process_args(args""", """fn container(data: &[f64]) -> WavBrro {
    let mut wbro = WavBrro::new();
    data.iter().for_each(|value| wbro.add_sample(*value));
    wbro
}

fn process_args(args"""))
ref("cmdcsv-withext", (K + "main.rs", """            let mut file_path = output_base.clone();
            file_path.set_extension("bro");

            fs::write(""", """            let file_path = output_base.with_extension("bro");
            fs::write("""), (K + "main.rs", """            let mut wavbro_file_path = output_base.clone();
            wavbro_file_path.set_extension("wavbro");
            metric""", """            let wavbro_file_path = output_base.with_extension("wavbro");
            metric"""))
T = "tools/src/bin/wav2wbro.rs"
ref("wav-chunks", (T, """    let mut raw_data: Vec<f64> = Vec::new();
    let mut u64_holder: [u16; 4] = [0, 0, 0, 0];

    // Iterate over the samples and channels and push each sample to the vector
    let mut current_channel: usize = 0;
    for sample in reader.samples::<i16>() {
        u64_holder[current_channel] = sample.unwrap() as u16;
        current_channel += 1;
        if current_channel == num_channels {
            raw_data.push(join_u16_into_f64(u64_holder));
            current_channel = 0;
        }
    }
    raw_data""", """    let mut raw_data: Vec<f64> = Vec::new();
    let mut u64_holder: [u16; 4] = [0; 4];

    // Iterate over the samples and channels and push each sample to the vector
    for (i, sample) in reader.samples::<i16>().enumerate() {
        let channel = i % num_channels;
        u64_holder[channel] = sample.unwrap() as u16;
        if channel + 1 == num_channels {
            raw_data.push(join_u16_into_f64(u64_holder));
        }
    }
    raw_data"""))
ref("wav-join-fold", (T, """    let u64_bits = (bits[0] as u64)
        | ((bits[1] as u64) << 16)
        | ((bits[2] as u64) << 32)
        | ((bits[3] as u64) << 48);

    let out""", """    let u64_bits = bits
        .iter()
        .rev()
        .fold(0u64, |acc, &part| (acc << 16) | u64::from(part));

    let out"""))
ref("wav-main-loop", (T, """    wav_data.iter().for_each(|x| {
        if !x.is_nan() {
            wb.add_sample(*x)
        }
    });""", """    for x in wav_data.iter().filter(|x| !x.is_nan()) {
        wb.add_sample(*x);
    }"""))
