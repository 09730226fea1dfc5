From f54e175ca57bb854c88f33e3eddbdcfd195f5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 01/27] fix: keep the magnitude of very large and very small
 values when choosing the bitdepth

Integers from 2^63 up were split into a wrapped (or zero) integer part, and
values below 2^-64 into a zero fraction, so both could be stored as u8/i16/i32.
---
 atsc/src/optimizer/utils.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..d79482a 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -139,23 +139,20 @@ fn split_n(x: f64) -> (i64, f64) {
         if shr < 64 {
             // x >> 0..64
             let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
+            // A non zero value always has a fraction here, no matter how small
+            (0, fraction.max(FRACT_SCALE))
         } else {
             // x >> 64..
-            (0, 0.0)
+            (0, if x == 0.0 { 0.0 } else { FRACT_SCALE })
         }
     } else if shl < 64 {
         // x << 1..64
         let int = mantissa >> (64 - shl);
         let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
         (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
     } else {
-        // x << 128..
-        (0, 0.0)
+        // x << 64.., the cast saturates when the integer doesn't fit in 64 bits
+        (x as i64, 0.0)
     }
 }
 
-- 
2.43.0


From 29c846db6cb9acd1eccf8873bde869358ba952e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 02/27] fix: return the stored samples when a polynomial/IDW
 frame holds all of them

Storing every point is reported as zero error, but decompression still rounded
them to 5 decimals, which destroys small values and overflows for large ones.
---
 atsc/src/compressor/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..da66497 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -397,6 +397,10 @@ impl Polynomial {
             debug!("Same max and min, faster decompression!");
             return vec![self.max; frame_size];
         }
+        if self.data_points.len() == frame_size {
+            debug!("Every sample is stored, nothing to interpolate!");
+            return self.data_points.clone();
+        }
         match self.id {
             PolynomialType::Idw => self.idw_to_data(frame_size),
             PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
-- 
2.43.0


From ff72a6382c47b683ea1a62cddfe5e9053c4df9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 03/27] fix: a reproduced zero has no percentage error, instead
 of NaN

0/0 made the whole error NaN, and the error bounded compressors take NaN as
"target reached": any data with a zero in it was stored without meeting the error.
---
 atsc/src/utils/error.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..871d006 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,9 +109,15 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
-        .map(|(original, generated)| ((generated - original) / original).abs())
+        .map(|(original, generated)| {
+            if original == generated {
+                // Avoids 0/0 (NaN) when a zero is exactly reproduced
+                0.0
+            } else {
+                ((generated - original) / original).abs()
+            }
+        })
         .sum();
-    // TODO: NaN needs to be handled
     abs_error / original.len() as f64
 }
 
-- 
2.43.0


From 6dc6084db00afdea8d8846b7b254ea55c363ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 04/27] fix: keep adding points until a polynomial/IDW frame
 really is within the allowed error

The target was compared with the error rounded to 4 decimals, so a frame up to
0.005% above the target (any tiny error, when lossless was asked for) and a NaN
error were both taken as good enough.
---
 atsc/src/compressor/polynomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index da66497..7eec49a 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -228,7 +228,8 @@ impl Polynomial {
         let mut iterations = 0;
         // Locking max target error precision to 0.1%
         let target_error = round_f64(max_err, 3);
-        while target_error < round_f64(current_err, 4) {
+        // Anything above the target (or NaN) needs more points
+        while current_err.is_nan() || current_err > target_error {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
@@ -252,7 +253,7 @@ impl Polynomial {
                 1..=17 => jump += (data_len / 10).max(1),
                 18..=22 => jump += (data_len / 100).max(1),
                 // No more jumping, but we landed right in the end
-                _ if target_error > round_f64(current_err, 4) => break,
+                _ if current_err <= target_error => break,
                 // We can't hit the target, store everything
                 _ => {
                     self.compress_hinted(data, data_len);
-- 
2.43.0


From 12d1f1de2ba2fec9ca8df780f6c6e856e2e6f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 05/27] fix: report the FFT error of the samples that are
 rebuilt

The error was measured on the padded frame, whose copies of the first and last
values dilute it, and was taken as 0 when minimum and maximum are the same f32
(the frame is then one value), so Auto accepted FFT frames over the allowed error.
---
 atsc/src/compressor/fft.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..dadae44 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,9 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // Every sample is rebuilt from this single f32, which might not be exactly the data
+            let out_data = vec![self.max_value as f64; data.len()];
+            self.error = Some(calculate_error(data, &out_data));
             return;
         }
 
@@ -310,6 +313,7 @@ impl FFT {
 
         let len = g_data.len();
         let len_f32 = len as f32;
+        let prefix_len = (len - data.len()) / 2;
 
         // Clean the data
         let mut buffer = FFT::optimize(g_data);
@@ -340,9 +344,12 @@ impl FFT {
             ifft.process(&mut idata);
             let out_data: Vec<f64> = idata
                 .iter()
+                // The padding is dropped on decompression, it doesn't count for the error
+                .skip(prefix_len)
+                .take(data.len())
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            current_err = calculate_error(data, &out_data);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From d1b534d4a29d90c6bb242566325b9324ecd5bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 06/27] fix: pad the frame in the unbounded FFT as its
 decompression expects

---
 atsc/src/compressor/fft.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index dadae44..17ed5bf 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -269,8 +269,14 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects the same padding as in compress_bounded
+        let data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
+        let fft = planner.plan_fft_forward(data.len());
         let mut buffer = FFT::optimize(data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
@@ -382,8 +388,14 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects the same padding as in compress_bounded
+        let data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
+        let fft = planner.plan_fft_forward(data.len());
         let mut buffer = FFT::optimize(data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
-- 
2.43.0


From eeff1d845607cfb6c37c97bb6e262fd79bc7372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 07/27] fix: adding the 256th frame to a stream overflows the
 frame count

---
 atsc/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..8dc74cb 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,8 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        // It is a single byte in the header, a longer stream is still valid
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From fbfe752a8bf20836c7db207a90a257ecfcd5ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 08/27] fix: a bro file without frames is shorter than the 12
 bytes read to detect it

---
 atsc/src/utils/readers/bro_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..bd08e9c 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -39,7 +39,7 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
     // Open the file for reading and read the first 12 bytes (header) of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From ffb7aa4fcbae1dd3dc374a405c8df6a34d755d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/27] fix: one file failing no longer stops the rest of the
 directory

---
 atsc/src/main.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..ecede3d 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -60,8 +60,6 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //      output for the time beeing.
                 Err(err) => error!("{} File: {}", err, path.display()),
             }
-            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
     Ok(())
-- 
2.43.0


From 3778e358d256e517c5082640bc825f33706030ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/27] fix: a malformed CSV row is an error, not a panic

---
 atsc/src/csv.rs                      | 4 ++--
 atsc/src/utils/readers/bro_reader.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..1a9c8e4 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -55,7 +55,7 @@ pub fn read_samples_with_headers(
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         // let timestamp: DateTime<Utc> = record.get(timestamp_idx).unwrap().parse()?;
         let value: f64 = record
             .get(value_idx)
@@ -81,7 +81,7 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         let value: f64 = record
             .get(0) // assuming that there is only a single field with values inside
             .unwrap()
diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index bd08e9c..7842417 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,7 +37,7 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the magic bytes of the file
     let mut file = fs::File::open(file_path)?;
     let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
-- 
2.43.0


From de64e94cef73ca4a7e25f7b7cab1872ca958c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 11/27] fix: VSRI get_time counts the samples from the start of
 the segment

The timestamps of the second and later segments were off by sample rate * first sample.
---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..b73d2c7 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -338,7 +338,7 @@ impl Vsri {
                 for segment in &self.vsri_segments {
                     if x >= segment[1] && x < (segment[1] + segment[3]) {
                         // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
+                        let y = segment[2] + segment[0] * (x - segment[1]);
                         return Some(y);
                     }
                     continue;
-- 
2.43.0


From d667d4c5de9b9a57726940d42d99f04286a85312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 12/27] fix: VSRI get_sample only finds timestamps that were
 indexed

A segment with a single sample was a division by zero, and a timestamp in between
two samples was located at the sample before it.
---
 vsri/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index b73d2c7..e3f72c8 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -317,8 +317,15 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
+                // A single point in time, there is no sample rate to calculate x with
+                if sample_rate == 0 {
+                    return Some(segment[1]);
+                }
+                // There is no sample in between two samples
+                if (y - y0) % sample_rate != 0 {
+                    return None;
+                }
                 // x = (y - b)/ m
-                // TODO: This can return floats!
                 let x_value = (y - self.calculate_b(segment)) / sample_rate;
                 return Some(x_value);
             }
-- 
2.43.0


From 367983ae7021884d206b446863625a0b35afc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 13/27] fix: VSRI keeps every indexed point at its own
 timestamp

A late point was moved to the sample rate of the segment it follows, and a segment
of points for the same time lost points when a new one was added.
---
 vsri/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index e3f72c8..30fa660 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -379,7 +379,7 @@ impl Vsri {
         // Retrieve the last segment
         let last_segment = self.current_segment();
         // double check for correctness
-        if last_segment[0] != 0 {
+        if last_segment[0] != 0 || last_segment[3] != 1 {
             return last_segment;
         }
         // Calculate the new segment
@@ -403,7 +403,7 @@ impl Vsri {
     /// Checks if the most recent segment is a fake segment
     fn is_fake_segment(&self) -> bool {
         let last_segment = self.current_segment();
-        last_segment[0] == 0
+        last_segment[0] == 0 && last_segment[3] == 1
     }
 
     /// Returns true if a point fits the last segment of the index
@@ -414,7 +414,14 @@ impl Vsri {
         // Then check if x fits the interval for the current line
         // and it has to be the next one in the line
         // x = (y - b)/ m
-        // TODO: Can return float, watch out
+        // Several points for the same time, there is no sample rate to calculate x with
+        if last_segment[0] == 0 {
+            return y == last_segment[2];
+        }
+        // A point in between two samples of the line is not in the line
+        if (y - b) % last_segment[0] != 0 {
+            return false;
+        }
         let x_value = (y - b) / last_segment[0];
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
-- 
2.43.0


From e5d70f98e9164a230d841befd91af55b192419a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 14/27] fix: VSRI next and previous sample look for the closest
 sample

The next sample was always searched in the last segment first, and both skipped the
rest of the segment the timestamp is in.
---
 vsri/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 30fa660..8208d44 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -158,12 +158,17 @@ impl Vsri {
             return None;
         }
         // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        for segment in &self.vsri_segments {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
             if y <= y0 {
                 return Some(first_sample);
             }
+            // Inside the segment, the first sample that is not before y
+            if y <= y0 + (sample_rate * (segment[3] - 1)) {
+                return Some(first_sample + (y - y0 + sample_rate - 1) / sample_rate);
+            }
         }
         None
     }
@@ -181,12 +186,17 @@ impl Vsri {
         }
         // Cycle through the segments
         for segment in &self.vsri_segments {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
             if y < y0 {
                 // Return the last sample of the previous segment
                 return Some(first_sample - 1);
             }
+            // Inside the segment, the last sample that is not after y
+            if y < y0 + (sample_rate * (segment[3] - 1)) {
+                return Some(first_sample + (y - y0) / sample_rate);
+            }
         }
         None
     }
-- 
2.43.0


From 3a9dbf75cb3417ac8d049998caf11d4bf8629a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 15/27] fix: the last sample of a VSRI segment counts as part
 of it in is_empty

---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 8208d44..3d4cb4c 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -236,8 +236,8 @@ impl Vsri {
                     }
                     // Could this be simplified with Karnaugh map? I'll dig my books later
                     // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
+                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
+                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                     {
                         return false;
                     }
-- 
2.43.0


From 466b8844f0f69a902e351d0989734190fb4838a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 16/27] fix: keep the allowed error when the compressor is
 selected with a sample of the data

---
 atsc/src/frame/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..f0a0b45 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,25 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let mut result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            // What works for the sample might not work for all the data. RLE has no error, there is
+            // always one that does.
+            if result.error.is_nan() || result.error > max_error as f64 {
+                (result, self.compressor) = compressor_list
+                    .iter()
+                    .map(|compressor| {
+                        (
+                            compressor.get_compress_bounded_results(data, max_error as f64),
+                            *compressor,
+                        )
+                    })
+                    .filter(|(result, _)| result.error <= max_error as f64)
+                    .min_by_key(|x| x.0.compressed_data.len())
+                    .unwrap();
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 36c85260ea0095db9c85ec41b766d52883affdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 17/27] fix: frequency positions over 65535 wrap around in
 large FFT frames

---
 atsc/src/compressor/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 17ed5bf..fcb0734 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -33,13 +33,13 @@ const DECIMAL_PRECISION: u8 = 5;
 #[derive(Encode, Decode, Debug, Copy, Clone)]
 pub struct FrequencyPoint {
     /// Frequency position
-    pos: u16, // This is the reason that frame size is limited to 65535, probably enough
+    pos: u32, // A frame can have up to 131072 samples, and it is padded to the next size
     freq_real: f32,
     freq_img: f32,
 }
 
 impl FrequencyPoint {
-    pub fn from_complex_with_position(complex: Complex<f32>, pos: u16) -> Self {
+    pub fn from_complex_with_position(complex: Complex<f32>, pos: u32) -> Self {
         FrequencyPoint {
             pos,
             freq_real: complex.re,
@@ -239,7 +239,7 @@ impl FFT {
         let tmp_vec: Vec<FrequencyPoint> = buffer
             .iter()
             .enumerate()
-            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u16))
+            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u32))
             .collect();
         // This part, is because Binary heap is very good at "give me the top N elements"
         let mut heap = BinaryHeap::from(tmp_vec);
-- 
2.43.0


From 14d03d97484d430a7e4fc07e0da2449460a3b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 18/27] fix: a damaged file no longer stops the rest of the
 directory

---
 atsc/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index ecede3d..e9b042b 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -22,6 +22,7 @@ use atsc::utils::readers::bro_reader;
 use clap::{arg, command, Parser};
 use log::{debug, error};
 use std::error::Error;
+use std::panic;
 use std::path::PathBuf;
 use wavbrro::wavbrro::WavBrro;
 
@@ -52,7 +53,12 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
     for entry in std::fs::read_dir(arguments.input.clone())? {
         let path = entry?.path();
         if path.is_file() {
-            match process_single_file(path.clone(), arguments) {
+            // Damaged files make the (de)compression panic, that can't stop the rest of the directory
+            let result = panic::catch_unwind(panic::AssertUnwindSafe(|| {
+                process_single_file(path.clone(), arguments)
+            }))
+            .unwrap_or_else(|_| Err("Can't process the file!".into()));
+            match result {
                 Ok(_) => continue,
                 //TODO: Files are created while this walks the dir, gives a funny output
                 //NOTE: Due to the way read_dir works, it seems we can't do much about this except collecting
-- 
2.43.0


From 01de84e2f40fa03154cdcc827fa9c1d2eaf9c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 19/27] fix: the second of the day of timestamps before 1970 is
 rounded up

---
 csv-compressor/src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index f508d00..cf9156e 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -55,7 +55,7 @@ impl Metric {
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
-            let ts = day_elapsed_seconds(sample.timestamp / 1000);
+            let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
                 .update_for_point(ts)
                 .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
-- 
2.43.0


From a5a96508d7c8013b3ead617ae63e6c5e1f603dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 20/27] fix: a NaN or infinite value shifts the timestamps
 after it in csv-compressor

---
 csv-compressor/src/metric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index cf9156e..657c341 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -54,6 +54,10 @@ impl Metric {
 
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
+            // They are dropped on compression, indexing them would shift the timestamps of the others
+            if !sample.value.is_finite() {
+                continue;
+            }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
             let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
-- 
2.43.0


From b34e92865641be6ce48cc9d164738b7da8bd630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 21/27] fix: VSRI look-ups overflow when a long step comes
 after many samples

---
 vsri/src/lib.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 3d4cb4c..bc65a68 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -167,7 +167,7 @@ impl Vsri {
             }
             // Inside the segment, the first sample that is not before y
             if y <= y0 + (sample_rate * (segment[3] - 1)) {
-                return Some(first_sample + (y - y0 + sample_rate - 1) / sample_rate);
+                return Some(first_sample + (y - y0 - 1) / sample_rate + 1);
             }
         }
         None
@@ -303,10 +303,10 @@ impl Vsri {
         self.max_ts
     }
 
-    fn calculate_b(&self, segment: &[i32; 4]) -> i32 {
-        // b = y - mx
+    fn calculate_b(&self, segment: &[i32; 4]) -> i64 {
+        // b = y - mx, it might be far bellow the timestamps
 
-        segment[2] - segment[0] * segment[1]
+        i64::from(segment[2]) - i64::from(segment[0]) * i64::from(segment[1])
     }
 
     /// Returns the most recent (the last) calculated segment
@@ -336,8 +336,8 @@ impl Vsri {
                     return None;
                 }
                 // x = (y - b)/ m
-                let x_value = (y - self.calculate_b(segment)) / sample_rate;
-                return Some(x_value);
+                let x_value = (i64::from(y) - self.calculate_b(segment)) / i64::from(sample_rate);
+                return Some(x_value as i32);
             }
         }
         None // No matching segment found for the given Y value
@@ -420,19 +420,20 @@ impl Vsri {
     fn fits_segment(&self, y: i32) -> bool {
         let last_segment = self.current_segment();
         let b = self.calculate_b(&last_segment);
+        let (y, m) = (i64::from(y), i64::from(last_segment[0]));
         // What we have to check, is with the given y, calculate x.
         // Then check if x fits the interval for the current line
         // and it has to be the next one in the line
         // x = (y - b)/ m
         // Several points for the same time, there is no sample rate to calculate x with
-        if last_segment[0] == 0 {
-            return y == last_segment[2];
+        if m == 0 {
+            return y == i64::from(last_segment[2]);
         }
         // A point in between two samples of the line is not in the line
-        if (y - b) % last_segment[0] != 0 {
+        if (y - b) % m != 0 {
             return false;
         }
-        let x_value = (y - b) / last_segment[0];
+        let x_value = (y - b) / m;
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
             last_segment,
@@ -440,7 +441,7 @@ impl Vsri {
             (last_segment[3] + last_segment[1]),
             x_value
         );
-        x_value == last_segment[3] + last_segment[1]
+        x_value == i64::from(last_segment[3] + last_segment[1])
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 5be227eab09fcf657df3d9d9cc61767a75aad05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 22/27] fix: csv-compressor ignores that the end of a CSV can't
 be written

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..10f9137 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -53,6 +53,8 @@ pub fn write_samples_to_csv_file(dest: &Path, samples: &[Sample]) -> Result<(),
     for sample in samples {
         writer.serialize(sample)?;
     }
+    // A failure is ignored when the writer is dropped
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 89503095b539fd5ff9fd6abc8ee4493eaf90c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 23/27] fix: a partly written WBRO file passes for a complete
 one

---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From 6d2842ff37bae82bee1c2c6d8df0b6d927777e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 24/27] fix: wav2wbro writes an empty WBRO file for a WAV file
 it can't read

---
 tools/src/bin/wav2wbro.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index 7d9c7f2..eaae225 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -33,13 +33,7 @@ fn is_wav_file(file_path: &Path) -> bool {
 }
 
 fn read_metrics_from_wav(filename: &str) -> Vec<f64> {
-    let r_reader = hound::WavReader::open(filename);
-    let mut reader = match r_reader {
-        Ok(reader) => reader,
-        Err(_err) => {
-            return Vec::new();
-        }
-    };
+    let mut reader = hound::WavReader::open(filename).expect("Can't read the WAV file!");
     let num_channels = reader.spec().channels as usize;
 
     let mut raw_data: Vec<f64> = Vec::new();
-- 
2.43.0


From ccceb63c0cc4259e563e36fd1e3ae2acfb7ada0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 25/27] fix: the error of no-op and constant frames is reported
 as 0 whatever they lose

---
 atsc/src/compressor/constant.rs | 5 ++++-
 atsc/src/compressor/mod.rs      | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/constant.rs b/atsc/src/compressor/constant.rs
index cc82e21..c99e347 100644
--- a/atsc/src/compressor/constant.rs
+++ b/atsc/src/compressor/constant.rs
@@ -17,6 +17,7 @@ limitations under the License.
 use crate::{
     compressor::CompressorResult,
     optimizer::utils::{Bitdepth, DataStats},
+    utils::error::calculate_error,
 };
 
 use super::BinConfig;
@@ -135,7 +136,9 @@ impl Constant {
 pub fn constant_compressor(data: &[f64], stats: DataStats) -> CompressorResult {
     debug!("Initializing Constant Compressor. Error and Stats provided");
     let c = Constant::new(data.len(), stats.min, stats.bitdepth);
-    CompressorResult::new(c.to_bytes(), 0.0)
+    // There is an error when the data isn't constant
+    let error = calculate_error(data, &c.to_data(data.len()));
+    CompressorResult::new(c.to_bytes(), error)
 }
 
 pub fn constant_to_data(sample_number: usize, compressed_data: &[u8]) -> Vec<f64> {
diff --git a/atsc/src/compressor/mod.rs b/atsc/src/compressor/mod.rs
index b04ee69..f07b4f5 100644
--- a/atsc/src/compressor/mod.rs
+++ b/atsc/src/compressor/mod.rs
@@ -17,7 +17,7 @@ limitations under the License.
 use bincode::config::{self, Configuration};
 use bincode::{Decode, Encode};
 
-use crate::optimizer::utils::DataStats;
+use crate::{optimizer::utils::DataStats, utils::error::calculate_error};
 
 use self::constant::{constant_compressor, constant_to_data};
 use self::fft::{fft, fft_compressor, fft_to_data};
@@ -94,7 +94,12 @@ impl Compressor {
     pub fn get_compress_bounded_results(&self, data: &[f64], max_error: f64) -> CompressorResult {
         let stats = DataStats::new(data);
         match self {
-            Compressor::Noop => CompressorResult::new(noop(data), 0.0),
+            Compressor::Noop => {
+                let compressed_data = noop(data);
+                // It rounds the samples
+                let error = calculate_error(data, &noop_to_data(data.len(), &compressed_data));
+                CompressorResult::new(compressed_data, error)
+            }
             Compressor::FFT => fft_compressor(data, max_error, stats),
             Compressor::Constant => constant_compressor(data, stats),
             Compressor::RLE => rle_compressor(data, stats),
-- 
2.43.0


From d7e394f7e8bc87a9aaf877a8a469b54e8bb06570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 26/27] fix: a step over 255 wraps around when a long
 polynomial/IDW frame gets few points

---
 atsc/src/compressor/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 7eec49a..ce78a44 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -287,8 +287,8 @@ impl Polynomial {
         let data_len = data.len();
         // Instead of calculation, we use the provided count
         let point_count = points;
-        // Step size
-        let step = (data_len / point_count).max(1);
+        // Step size, it is stored in a single byte
+        let step = (data_len / point_count).clamp(1, u8::MAX.into());
         // I can calculate the positions from here
         let mut points: Vec<f64> = (0..data_len).step_by(step).map(|f| f as f64).collect();
         // Pushing the last value if needed (and if data is not empty)
-- 
2.43.0


From da4eac34a34dde65f8f1a54c7bddb813406a6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 27/27] fix: wav2wbro --validate reports a mismatch for files
 that match

---
 tools/src/bin/wav2wbro.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index eaae225..36eec8e 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -93,9 +93,11 @@ fn main() {
     wb.to_file(Path::new(&wavbrro_file));
     if arguments.validate {
         let brro_data = wb.get_samples();
-        assert_eq!(wav_data, brro_data);
-        println!(
-            "File generated but data doesn't match! Tip: Check if NaN or Infinite is in the data."
-        );
+        if wav_data != brro_data {
+            println!(
+                "File generated but data doesn't match! Tip: Check if NaN or Infinite is in the data."
+            );
+            std::process::exit(1);
+        }
     }
 }
-- 
2.43.0

