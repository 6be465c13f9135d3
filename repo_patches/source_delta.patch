From 1c5bd65231d269ddcb86a73dfbfcd8b9e49d196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 01/30] fix: vsri get_time returns the timestamp of the sample
 in every segment

The offset inside a segment was computed from the absolute sample position,
which is only right in the first segment, and positions at or past the
sample count (or in an empty index) got a timestamp.
---
 vsri/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..de01d01 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -329,16 +329,16 @@ impl Vsri {
     /// For a given sample position, return the timestamp associated
     pub fn get_time(&self, x: i32) -> Option<i32> {
         match x {
+            // Sample positions go from 0 to the sample count, exclusive
+            _ if x >= self.get_sample_count() => None,
             0 => Some(self.min()),
-            _ if x > self.get_sample_count() => None,
-            _ if x == self.get_sample_count() => Some(self.max()),
             // it is somewhere in the middle
             _ => {
                 // Find the segment where X fits
                 for segment in &self.vsri_segments {
                     if x >= segment[1] && x < (segment[1] + segment[3]) {
-                        // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
+                        // Belongs here! Return Segment TS + the TS interval * position in the segment
+                        let y = segment[2] + segment[0] * (x - segment[1]);
                         return Some(y);
                     }
                     continue;
-- 
2.43.0


From 017414eb34d252de2c329f8cb100507b7d77eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 02/30] fix: vsri only extends a segment with a point that is
 on its line

The integer division accepted any point between two multiples of the
sampling rate, so its timestamp was replaced by another one, and the
intercept could overflow.
---
 vsri/src/lib.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index de01d01..b24eae5 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -402,21 +402,14 @@ impl Vsri {
     /// Returns true if a point fits the last segment of the index
     fn fits_segment(&self, y: i32) -> bool {
         let last_segment = self.current_segment();
-        let b = self.calculate_b(&last_segment);
-        // What we have to check, is with the given y, calculate x.
-        // Then check if x fits the interval for the current line
-        // and it has to be the next one in the line
-        // x = (y - b)/ m
-        // TODO: Can return float, watch out
-        let x_value = (y - b) / last_segment[0];
+        // The point has to be exactly the next one in the line of the segment
+        // y = y0 + m * n, with n being the number of samples already in the segment
+        let next_y = last_segment[2] as i64 + last_segment[0] as i64 * last_segment[3] as i64;
         debug!(
-            "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
-            last_segment,
-            b,
-            (last_segment[3] + last_segment[1]),
-            x_value
+            "[INDEX] Fit Calculation (Segment {:?}). y: {}, expected y: {}",
+            last_segment, y, next_y
         );
-        x_value == last_segment[3] + last_segment[1]
+        y as i64 == next_y
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 4f3d7ffbea0300aef767f7cb59209d421a67a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 03/30] fix: vsri get_sample handles single point segments and
 points between samples

A segment with a single point made it divide by zero, and a timestamp
between two samples was given the sample before it instead of None.
---
 vsri/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index b24eae5..ff440f1 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -293,12 +293,6 @@ impl Vsri {
         self.max_ts
     }
 
-    fn calculate_b(&self, segment: &[i32; 4]) -> i32 {
-        // b = y - mx
-
-        segment[2] - segment[0] * segment[1]
-    }
-
     /// Returns the most recent (the last) calculated segment
     fn current_segment(&self) -> [i32; 4] {
         match self.vsri_segments.len() {
@@ -317,10 +311,16 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
-                // x = (y - b)/ m
-                // TODO: This can return floats!
-                let x_value = (y - self.calculate_b(segment)) / sample_rate;
-                return Some(x_value);
+                if sample_rate == 0 {
+                    // All the samples of the segment have the same timestamp
+                    return Some(segment[1]);
+                }
+                let offset = y - y0;
+                if offset % sample_rate != 0 {
+                    // It falls between 2 samples of the segment
+                    return None;
+                }
+                return Some(segment[1] + offset / sample_rate);
             }
         }
         None // No matching segment found for the given Y value
-- 
2.43.0


From 55844660734a82830439a11a300f36e6311e6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 04/30] fix: vsri get_next_sample returns the closest later
 sample

With more than two segments it returned the start of the last segment, and
it returned None for a timestamp inside a segment.
---
 vsri/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index ff440f1..e003c24 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -152,18 +152,23 @@ impl Vsri {
     /// is in between segments. It will return None in case the timestamp is over
     /// the maximum timestamp of the index.
     pub fn get_next_sample(&self, y: i32) -> Option<i32> {
-        if y < self.min() {
-            return Some(0);
-        } else if y >= self.max() {
+        if self.vsri_segments.is_empty() || y >= self.max() {
             return None;
+        } else if y < self.min() {
+            return Some(0);
         }
         // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        for segment in &self.vsri_segments {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
-            if y <= y0 {
+            if y < y0 {
                 return Some(first_sample);
             }
+            // Inside the segment, it is the sample after the last one at or before y
+            if y < y0 + sample_rate * (segment[3] - 1) {
+                return Some(first_sample + (y - y0) / sample_rate + 1);
+            }
         }
         None
     }
-- 
2.43.0


From d0c77f57f36e08a5dfdc4bcb95bb657b6321b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 05/30] fix: vsri get_previous_sample returns the closest
 earlier sample

At or after the end of the index it returned one position too many, and it
returned None, or a sample of another segment, for a timestamp inside a
segment.
---
 vsri/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index e003c24..f99167c 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -178,20 +178,25 @@ impl Vsri {
     /// is in between segments. It will return None in case the timestamp is bellow
     /// the minimum timestamp of the index.
     pub fn get_previous_sample(&self, y: i32) -> Option<i32> {
-        if y < self.min() {
+        if self.vsri_segments.is_empty() || y < self.min() {
             return None;
         } else if y >= self.max() {
-            // Return the last segment, # of samples. That is the total # of samples in a file
-            return Some(self.get_sample_count());
+            // Return the last sample of the last segment
+            return Some(self.get_sample_count() - 1);
         }
         // Cycle through the segments
         for segment in &self.vsri_segments {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
             if y < y0 {
                 // Return the last sample of the previous segment
                 return Some(first_sample - 1);
             }
+            // Inside the segment, it is the last sample at or before y
+            if y < y0 + sample_rate * (segment[3] - 1) {
+                return Some(first_sample + (y - y0) / sample_rate);
+            }
         }
         None
     }
-- 
2.43.0


From 89e20cf6b01d57233f7c8859946bb12dd66631bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 06/30] fix: vsri is_empty sees the last sample of each segment

With more than one segment, a time segment touching only the end of an
indexed segment (or a segment of a single point) was reported as empty.
---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index f99167c..344fd0e 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -236,8 +236,8 @@ impl Vsri {
                     }
                     // Could this be simplified with Karnaugh map? I'll dig my books later
                     // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
+                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
+                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                     {
                         return false;
                     }
-- 
2.43.0


From 11bc6e4114ce9e5c615c5b2aaea3085de370a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 07/30] fix: vsri keeps the samples that repeat a timestamp

The segment created by a repeated timestamp has no sampling rate, so the
next point regenerated it with 2 samples, losing one position.
---
 vsri/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 344fd0e..b9fd729 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -406,7 +406,9 @@ impl Vsri {
     /// Checks if the most recent segment is a fake segment
     fn is_fake_segment(&self) -> bool {
         let last_segment = self.current_segment();
-        last_segment[0] == 0
+        // A segment without sampling rate but more than one sample is made of samples with
+        // the same timestamp
+        last_segment[0] == 0 && last_segment[3] < 2
     }
 
     /// Returns true if a point fits the last segment of the index
-- 
2.43.0


From 102f19b5f1f6930b3019856d8089336cdb4a3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 08/30] fix: a 0 reproduced exactly does not make the error NaN

0/0 turned the whole error into NaN, and no comparison with NaN holds, so the
bounded compressors stopped at their first try whatever the error was.
---
 atsc/src/utils/error.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..7b1d340 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,9 +109,15 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
-        .map(|(original, generated)| ((generated - original) / original).abs())
+        .map(|(original, generated)| {
+            // An exact value has no error, even if it is 0 (0/0 is NaN)
+            if generated == original {
+                0.0
+            } else {
+                ((generated - original) / original).abs()
+            }
+        })
         .sum();
-    // TODO: NaN needs to be handled
     abs_error / original.len() as f64
 }
 
-- 
2.43.0


From 99777aa190874852f3a1b1839a13fa8afac22320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 09/30] fix: FFT keeps the position of every frequency of the
 biggest frames

A frame of 131072 samples is padded to 139968, which has 69985 frequencies,
and the positions over 65535 were truncated. Integers are stored with a
variable length, so the format does not change.
---
 atsc/src/compressor/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..56f05c3 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -33,13 +33,13 @@ const DECIMAL_PRECISION: u8 = 5;
 #[derive(Encode, Decode, Debug, Copy, Clone)]
 pub struct FrequencyPoint {
     /// Frequency position
-    pos: u16, // This is the reason that frame size is limited to 65535, probably enough
+    pos: u32, // A padded frame of the maximum size has more than 65536 frequencies
     freq_real: f32,
     freq_img: f32,
 }
 
 impl FrequencyPoint {
-    pub fn from_complex_with_position(complex: Complex<f32>, pos: u16) -> Self {
+    pub fn from_complex_with_position(complex: Complex<f32>, pos: u32) -> Self {
         FrequencyPoint {
             pos,
             freq_real: complex.re,
@@ -239,7 +239,7 @@ impl FFT {
         let tmp_vec: Vec<FrequencyPoint> = buffer
             .iter()
             .enumerate()
-            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u16))
+            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u32))
             .collect();
         // This part, is because Binary heap is very good at "give me the top N elements"
         let mut heap = BinaryHeap::from(tmp_vec);
-- 
2.43.0


From 685295bb176f7bf4dabe4c9b52a80c20fa60c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 10/30] fix: FFT reports the error of data that is only
 constant as f32

The error was reported as 0 without looking at the data, so different values
that are the same (or infinite, or 0) as f32 were stored as lossless.
---
 atsc/src/compressor/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 56f05c3..acfea19 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,8 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // They might only be the same after the conversion to f32
+            self.error = Some(calculate_error(data, &self.to_data(data.len())));
             return;
         }
 
-- 
2.43.0


From 4183b6815c571ccaf87564c025de84fa22f4012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 11/30] fix: FFT measures the error of the data, not of its
 padding

The padding was part of the measured error, so the error of the data that is
given back could be over the maximum allowed.
---
 atsc/src/compressor/fft.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index acfea19..1f70e69 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -309,6 +309,8 @@ impl FFT {
         } else {
             data
         };
+        // The padding is not part of the data, it can't count for the error
+        let prefix_len = (g_data.len() - data.len()) / 2;
 
         let len = g_data.len();
         let len_f32 = len as f32;
@@ -342,9 +344,11 @@ impl FFT {
             ifft.process(&mut idata);
             let out_data: Vec<f64> = idata
                 .iter()
+                .skip(prefix_len)
+                .take(data.len())
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            current_err = calculate_error(data, &out_data);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From d0b14826eabd4e932bd0641e084a1f5ef0ddf13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 12/30] fix: FFT without a maximum error pads the data as its
 decompression expects

The decompression of 128 samples or more removes a padding that only the
bounded compression was adding, so it gave back something else.
---
 atsc/src/compressor/fft.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 1f70e69..9579be6 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -265,13 +265,18 @@ impl FFT {
             return;
         }
         // First thing, always try to get the data len as a power of 2.
-        let v = data.len();
-        if !v.is_power_of_two() {
+        if !data.len().is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // The decompression expects the same sizing
+        let g_data: &[f64] = if data.len() >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
@@ -381,9 +386,15 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // The decompression expects the same sizing
+        let g_data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
-- 
2.43.0


From e9c255007b5874804edd20dc620cfbdf6950c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 13/30] fix: polynomial and IDW give back the samples as they
 are when all are stored

Storing everything is reported as no error, but the samples were rounded to 5
decimals at the decompression, so small values were lost.
---
 atsc/src/compressor/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..04ca3e3 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -397,6 +397,10 @@ impl Polynomial {
             debug!("Same max and min, faster decompression!");
             return vec![self.max; frame_size];
         }
+        if self.data_points.len() == frame_size {
+            // Every sample is stored, there is nothing to interpolate (or to round)
+            return self.data_points.clone();
+        }
         match self.id {
             PolynomialType::Idw => self.idw_to_data(frame_size),
             PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
-- 
2.43.0


From 0def65f85aeb8f58a3959f133d004ce521622606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 14/30] fix: polynomial and IDW do not stop on an error that is
 not a number

The interpolation of very large values overflows, the error is NaN and the
compression finished as if it was under the target.
---
 atsc/src/compressor/polynomial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 04ca3e3..c14c155 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -228,7 +228,8 @@ impl Polynomial {
         let mut iterations = 0;
         // Locking max target error precision to 0.1%
         let target_error = round_f64(max_err, 3);
-        while target_error < round_f64(current_err, 4) {
+        // An error that is not a number is not under the target
+        while current_err.is_nan() || target_error < round_f64(current_err, 4) {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
-- 
2.43.0


From 1844ea859ea59e0e9f164de197234815f3355fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 15/30] fix: auto respects the maximum error when it samples
 the data

The compressor is chosen with the first samples, and its result with the full
data was used even if its error was over the maximum.
---
 atsc/src/frame/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..81f5863 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,17 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let mut result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            // The error of the sample says nothing about the rest of the data
+            if result.error.is_nan() || result.error > max_error as f64 {
+                self.compressor = Compressor::RLE;
+                result = self
+                    .compressor
+                    .get_compress_bounded_results(data, max_error as f64);
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 4daa640fee328ee4a0c66ad2ad4b1d829fe0ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 16/30] fix: a stream with more than 255 frames can be written

The frame count of the header overflowed.
---
 atsc/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..fdcf2d4 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,8 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        // The count is a single byte in the file, and not needed to decompress
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From b3382cb7ba663584e97db4c5c26a7d6ec3b1c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 17/30] fix: write the whole content of a WavBrro file

write_at might write less than what it is given, truncating the file.
---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From 3674c7971835db7acd83918eba35dfb25e6f6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 18/30] fix: a file that fails does not stop the processing of
 a directory

A file with an error was processed again, and its second error aborted the
rest of the directory.
---
 atsc/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..6dc4277 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -52,6 +52,7 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
     for entry in std::fs::read_dir(arguments.input.clone())? {
         let path = entry?.path();
         if path.is_file() {
+            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
             match process_single_file(path.clone(), arguments) {
                 Ok(_) => continue,
                 //TODO: Files are created while this walks the dir, gives a funny output
@@ -60,8 +61,6 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //      output for the time beeing.
                 Err(err) => error!("{} File: {}", err, path.display()),
             }
-            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
     Ok(())
-- 
2.43.0


From a1cb50d7f10bc9e9b1360c2b9c3c11b4e0618e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/30] fix: --fields with a single name is an error instead of
 a panic

---
 atsc/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 6dc4277..3e4d93b 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -92,6 +92,9 @@ fn process_single_file(mut file_path: PathBuf, arguments: &Args) -> Result<(), B
                 None => "time, value".to_string(),
             };
             let headers: Vec<_> = headers_option.split(",").collect();
+            if headers.len() < 2 {
+                return Err("The fields need a time field name and a value field name.".into());
+            }
             // Assuming that header[0] is a time field and header[1] is value field
             read_samples_with_headers(&file_path, headers[0], headers[1])?
         };
-- 
2.43.0


From a3dd71b84b58dd504ce924d38a6ad3c94530f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 20/30] fix: a malformed CSV record is an error instead of a
 panic

---
 atsc/src/csv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..1a9c8e4 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -55,7 +55,7 @@ pub fn read_samples_with_headers(
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         // let timestamp: DateTime<Utc> = record.get(timestamp_idx).unwrap().parse()?;
         let value: f64 = record
             .get(value_idx)
@@ -81,7 +81,7 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         let value: f64 = record
             .get(0) // assuming that there is only a single field with values inside
             .unwrap()
-- 
2.43.0


From 78b62943228a02c57ba0b63ae7939ee043e0592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 21/30] fix: read a BRRO file without frames

It has 10 bytes, and the reader needed 12 to check the 4 magic bytes.
---
 atsc/src/utils/readers/bro_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..da2b3ee 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,9 +37,9 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the first 4 bytes (magic bytes) of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From 41103127dfee586a6935a9d4a22d3b38d3e814f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 22/30] fix: a value is only taken as an integer when it is one

---
 atsc/src/optimizer/utils.rs | 52 +++----------------------------------
 1 file changed, 3 insertions(+), 49 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..f33cde8 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -50,7 +50,7 @@ impl DataStats {
         for (i, value) in data.iter().enumerate() {
             let t_value = *value;
             mean += value;
-            if split_n(t_value).1 != 0.0 {
+            if t_value.fract() != 0.0 {
                 fractional = true;
             }
             if t_value > max {
@@ -66,8 +66,8 @@ impl DataStats {
         // Check max size of values
         // TODO: for very large numbers (i32 and i64), it might be ideal to detect the dc component
         // of the signal. And then remove it later
-        let max_int = split_n(max).0; // This is the DC component
-        let min_int = split_n(min).0;
+        let max_int = max as i64; // This is the DC component
+        let min_int = min as i64;
 
         // Finding the bitdepth without the DC component
         if !fractional {
@@ -112,52 +112,6 @@ impl DataStats {
         }
     }
 }
-fn split_n(x: f64) -> (i64, f64) {
-    const FRACT_SCALE: f64 = 1.0 / (65536.0 * 65536.0 * 65536.0 * 65536.0); // 1_f64.exp(-64)
-    const STORED_MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS - 1;
-    const STORED_MANTISSA_MASK: u64 = (1 << STORED_MANTISSA_DIGITS) - 1;
-    const MANTISSA_MSB: u64 = 1 << STORED_MANTISSA_DIGITS;
-
-    const EXPONENT_BITS: u32 = 64 - 1 - STORED_MANTISSA_DIGITS;
-    const EXPONENT_MASK: u32 = (1 << EXPONENT_BITS) - 1;
-    const EXPONENT_BIAS: i32 = (1 << (EXPONENT_BITS - 1)) - 1;
-
-    let bits = x.to_bits();
-    let is_negative = (bits as i64) < 0;
-    let exponent = ((bits >> STORED_MANTISSA_DIGITS) as u32 & EXPONENT_MASK) as i32;
-
-    let mantissa = (bits & STORED_MANTISSA_MASK) | MANTISSA_MSB;
-    let mantissa = if is_negative {
-        -(mantissa as i64)
-    } else {
-        mantissa as i64
-    };
-
-    let shl = exponent + (64 - f64::MANTISSA_DIGITS as i32 - EXPONENT_BIAS + 1);
-    if shl <= 0 {
-        let shr = -shl;
-        if shr < 64 {
-            // x >> 0..64
-            let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
-        } else {
-            // x >> 64..
-            (0, 0.0)
-        }
-    } else if shl < 64 {
-        // x << 1..64
-        let int = mantissa >> (64 - shl);
-        let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
-        (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
-    } else {
-        // x << 128..
-        (0, 0.0)
-    }
-}
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 0206c7356ab0cd52ba76f09c25ce2f714efc7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 23/30] fix: csv-compressor keeps the timestamps aligned when a
 value is not finite

---
 csv-compressor/src/metric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index f508d00..3d4a594 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -54,6 +54,10 @@ impl Metric {
 
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
+            // The compression drops the values that are not finite, the index can't keep them
+            if !sample.value.is_finite() {
+                continue;
+            }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
             let ts = day_elapsed_seconds(sample.timestamp / 1000);
             self.vsri
-- 
2.43.0


From 5159beb7ad1804a6c968a0e8ae24f129d1be3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 24/30] fix: SMAPE is the mean of the symmetric percentage
 error of each value

---
 atsc/src/utils/error.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index 7b1d340..a222826 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -130,16 +130,15 @@ pub fn error_smape(original: &[f64], generated: &[f64]) -> f64 {
         panic!("Can't compute error! Arrays with different lenghts.")
     }
 
-    let mut sum_up = 0.0;
-    let mut sum_down = 0.0;
+    let mut sum = 0.0;
     for (&value_original, &value_generated) in original.iter().zip(generated) {
-        if value_generated == 0.0 && value_original == 0.0 {
+        if value_generated == value_original {
             continue;
         }
-        sum_up += (value_generated - value_original).abs();
-        sum_down += value_original.abs() + value_generated.abs();
+        sum += (value_generated - value_original).abs()
+            / (value_original.abs() + value_generated.abs());
     }
-    (sum_up / sum_down) / original.len() as f64
+    sum / original.len() as f64
 }
 
 #[cfg(test)]
-- 
2.43.0


From c8d50a487a4cbb2013b8aa0d5d4c7be24ab14fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 25/30] fix: a WavBrro file with a damaged body is refused
 instead of a panic

---
 wavbrro/src/wavbrro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wavbrro/src/wavbrro.rs b/wavbrro/src/wavbrro.rs
index 651a910..db33954 100644
--- a/wavbrro/src/wavbrro.rs
+++ b/wavbrro/src/wavbrro.rs
@@ -106,7 +106,7 @@ impl WavBrro {
             return Err(Error::FormatError);
         };
         let bytes = read_wavbrro_file(file_path)?;
-        let obj = WavBrro::from_bytes(&bytes);
+        let obj = rkyv::from_bytes::<WavBrro>(&bytes).map_err(|_| Error::FormatError)?;
         Ok(obj.get_samples())
     }
 
-- 
2.43.0


From 38ccef5dd7991c08aea1cd34fdc7390b4aca1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 26/30] fix: keep polynomial and IDW decoding within range when
 the interpolation overflows

---
 atsc/src/utils/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/utils/mod.rs b/atsc/src/utils/mod.rs
index c00015d..5b65cbc 100644
--- a/atsc/src/utils/mod.rs
+++ b/atsc/src/utils/mod.rs
@@ -69,6 +69,8 @@ pub fn round_and_limit_f64(x: f64, min: f64, max: f64, decimals: u32) -> f64 {
     match out {
         _ if out < min => min,
         _ if out > max => max,
+        // An interpolation that overflows is no reason to leave the range
+        _ if out.is_nan() => min,
         _ => out,
     }
 }
-- 
2.43.0


From 3654655cc58280410f704639b281d6a9c12d17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 27/30] fix: keep FFT decoding within range when the transform
 overflows

---
 atsc/src/compressor/fft.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 9579be6..90078f7 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -211,7 +211,8 @@ impl FFT {
         if out > self.max_value as f64 {
             return self.max_value as f64;
         }
-        if out < self.min_value as f64 {
+        // The sums of the transform might overflow, that is no reason to leave the range
+        if out < self.min_value as f64 || out.is_nan() {
             return self.min_value as f64;
         }
         out
-- 
2.43.0


From f111febda8debfa7ccb90fb7df6a37aae260f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 28/30] fix: Polynomial, FFT: run at least one cycle whatever
 the allowed error

---
 atsc/src/compressor/fft.rs        | 5 +++--
 atsc/src/compressor/polynomial.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 90078f7..9bfc801 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -340,8 +340,9 @@ impl FFT {
         let mut current_err = max_err + 1.0;
         let mut jump: usize = 0;
         let mut iterations = 0;
-        // Aproximation. Faster convergence
-        while ((max_err * 1000.0) as i32) < ((current_err * 1000.0) as i32) {
+        // Aproximation. Faster convergence. The first cycle always runs, even if a huge allowed error
+        // already covers the initial value.
+        while iterations == 0 || ((max_err * 1000.0) as i32) < ((current_err * 1000.0) as i32) {
             iterations += 1;
             self.frequencies = FFT::fft_trim(&mut buff_clone, max_freq + jump);
             // Inverse FFT and error check
diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index c14c155..59b191a 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -228,8 +228,9 @@ impl Polynomial {
         let mut iterations = 0;
         // Locking max target error precision to 0.1%
         let target_error = round_f64(max_err, 3);
+        // The first cycle always runs, even if a huge allowed error already covers the initial value.
         // An error that is not a number is not under the target
-        while current_err.is_nan() || target_error < round_f64(current_err, 4) {
+        while iterations == 0 || current_err.is_nan() || target_error < round_f64(current_err, 4) {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
-- 
2.43.0


From c9d8974dcd9395ce3f1e1c9f2f1f5d26c4bd9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 29/30] fix: a CSV header that cannot be read is an error
 instead of fields taken by position

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..563cfba 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -43,6 +43,8 @@ impl Sample {
 pub fn read_samples_from_csv_file(dest: &Path) -> Result<Vec<Sample>, csv::Error> {
     let file = OpenOptions::new().read(true).open(dest)?;
     let mut reader = csv::Reader::from_reader(file);
+    // Without readable headers the fields would be taken by their position
+    reader.headers()?;
     reader.deserialize().collect()
 }
 
-- 
2.43.0


From 6f806dfd3a7a0cb1d70119fe34bde39ad56914ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 30/30] fix: csv-compressor rounds milliseconds before 1970
 down to the second

Truncation towards zero gave the samples before 1970 the time of the next
second, and the last ones of 31 December 1969 the midnight after them, so
that they were refused as going back in time.
---
 csv-compressor/src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index 3d4a594..7b58e02 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -59,7 +59,7 @@ impl Metric {
                 continue;
             }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
-            let ts = day_elapsed_seconds(sample.timestamp / 1000);
+            let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
                 .update_for_point(ts)
                 .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
-- 
2.43.0

