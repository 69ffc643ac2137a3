From f021d7dd376860aaf7e864c02470b50212466c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 01/18] fix: Walsh code set hands out a key for every user
 number

HadamardMatrix::key(n) indexed one past the matrix whenever n was
congruent to size-1, and panicked. Wrap over the size-1 usable rows.
---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 6f036a4b881a9400d2be224c635392ed692c15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 02/18] fix: decoding a coded stream cut inside the check bytes
 no longer panics

A last frame of five bytes or fewer (a reception cut short) underflowed
the length of its data part. It holds no data byte: drop it.
---
 src/bch.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..894917f 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -21,6 +21,7 @@ pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
 pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
+        .filter(|chunk| chunk.len() > ECC_VALUE) // A shorter frame holds no data.
         .flat_map(|chunk| {
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
-- 
2.43.0


From 734351a18b96ce086a1c8ebfa86a646a7710d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 03/18] fix: a hop table of a single frequency no longer runs
 out of bounds

With one frequency the first hop moved the index past the end of the
table and the second one panicked.
---
 src/fh.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..6e36e65 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,15 +42,10 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
-        } else if self.idx == self.hopping_table.len() - 1 {
-            self.idx = 0;
-            Some(self.hopping_table[self.hopping_table.len() - 1])
-        } else {
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
         }
+        let hop = self.hopping_table[self.idx];
+        self.idx = (self.idx + 1) % self.hopping_table.len();
+        Some(hop)
     }
 }
 
-- 
2.43.0


From 025bbc0b9b310b46011a87933edc7a6b0eb73c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 04/18] fix: OFDM works with an odd number of subcarriers

The transmitter shifted the carriers with fftshift, which the receiver's
fftshift only undoes for even lengths: with an odd number of subcarriers
every symbol came back on the wrong carrier.
---
 src/lib.rs  | 9 +++++++++
 src/ofdm.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..6d629cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,15 @@ fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
     v
 }
 
+/// Undoes `fftshift` (they differ when the length is odd).
+fn ifftshift<T: Clone>(x: &[T]) -> Vec<T> {
+    let mut v = Vec::with_capacity(x.len());
+    let pivot = x.len() / 2;
+    v.extend_from_slice(&x[pivot..]);
+    v.extend_from_slice(&x[..pivot]);
+    v
+}
+
 fn fftshift_mut<T: Copy>(x: &mut [T]) {
     let pivot = x.len().div_ceil(2);
     let v: Vec<T> = Vec::from(&x[..pivot]);
diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..fd9911b 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -1,6 +1,6 @@
 use crate::iter::Iter;
 use crate::qpsk::{rx_baseband_qpsk_signal, tx_baseband_qpsk_signal};
-use crate::{fftshift, is_int, Bit};
+use crate::{fftshift, ifftshift, is_int, Bit};
 use rustfft::num_traits::Zero;
 use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
@@ -41,7 +41,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            let mut ofdm_symbols = ifftshift(&ofdm_symbol_data);
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From 3ba766e483a01f7af41d0a5925950d3d052d2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 05/18] fix: the OFDM-QPSK receiver integrates each sample
 period on its own

The moving sum was read one sample late, so every baseband sample mixed
in the first sample of the next one (the next OFDM symbol, at the end)
and lost its own first; the last one was missing altogether at one
sample per symbol.
---
 src/ofdm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index fd9911b..9cd2687 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -127,7 +127,6 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
-    let filter: Vec<f64> = (0..samples_per_symbol).map(|_| 1f64).collect();
     let ofdm_symbols = message
         .enumerate()
         .map(move |(idx, sample)| {
@@ -137,10 +136,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
 
             [ii, qi]
         })
-        .nonvolve(filter)
-        .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .nintegrate_and_dump(samples_per_symbol)
+        .map(|s_i| Complex::new(s_i[0], s_i[1]));
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From ef478cca003ca84358d387c1a889bb05243cff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 06/18] fix: stream convolution is the full discrete
 convolution

The newest sample met the last filter tap, so asymmetric filters were
applied reversed, and the tail was cut short (or wrong) when the signal
was shorter than the filter.
---
 src/iter/convolution.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..ec0a9b1 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    drained: usize, // Zeros appended after the end of the source.
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,13 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                self.drained += 1;
+                if self.buffer.len() + self.drained > self.filter.len() {
+                    self.buffer.pop_back();
+                }
+                if self.buffer.is_empty() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._convolve())
                 }
             }
@@ -80,6 +84,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    drained: usize, // Zeros appended after the end of the source.
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +98,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
@@ -100,7 +106,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +136,13 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                self.drained += 1;
+                if self.buffer.len() + self.drained > self.filter.len() {
+                    self.buffer.pop_back();
+                }
+                if self.buffer.is_empty() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From e950f9749d6896753ef3746bfa068ce590783268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 07/18] fix: inflating by zero copies yields nothing

The copy counter had already passed zero, so the first item was repeated
without end.
---
 src/iter/inflate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..258bf8f 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,9 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 379fbb5c50220e8dc185045eaca944a728768759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 08/18] fix: complex noise reaches the imaginary part too

awgn_complex added its noise to the real part only, so the quadrature
of a noisy complex signal was noise-free.
---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6d629cb..c3190b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,13 +226,11 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
+    let normal = Normal::new(0f64, sigma).unwrap();
     signal
-        .zip(
-            Normal::new(0f64, sigma)
-                .unwrap()
-                .sample_iter(rand::thread_rng()),
-        )
-        .map(|(sample, noise)| sample + noise)
+        .zip(normal.sample_iter(rand::thread_rng()))
+        .zip(normal.sample_iter(rand::thread_rng()))
+        .map(|((sample, noise_re), noise_im)| sample + Complex::new(noise_re, noise_im))
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From afcd094e12d4d991af538272728b4f3e0253df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 09/18] fix: power averages over all samples

The index of the last sample was taken for the number of samples, which
divided by one too few (and by zero for a single sample).
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3190b4..15ddcd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,8 +260,8 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 }
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
-    let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+    let (count, power) = signal.fold((0usize, 0f64), |acc, sample| {
+        (acc.0 + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From aa961ec7bb3f6c8c52824912dbd60b5deaaecba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 10/18] fix: the Chebyshev map stays in its interval

The sign of the linear term made the orbit grow without bound: after a
few iterations it was infinite, then not a number.
---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 0eca850406266da6dc62018170cc519800d14f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 11/18] fix: FH-OFDM-DCSK data is keyed on the block's
 reference chip

The data subcarriers carried other chips than the reference subcarrier
the receiver correlates them with, so bits came out with the sign of an
unrelated chaotic value.
---
 src/fh_ofdm_dcsk.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..96f415d 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -30,11 +30,11 @@ pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
             let pre_hop_symbols: Vec<Complex<f64>> = iter::once(chaotic_sequence[0])
                 .map(Complex::from)
                 .chain(
-                    // Multiply the data symbols by the remaining chaotic sequence chunk.
-                    chaotic_sequence[1..]
+                    // Multiply the data symbols by the reference chip, which the receiver
+                    // correlates them with.
+                    bpsk_symbols
                         .iter()
-                        .zip(bpsk_symbols.iter())
-                        .map(|(&c_i, &s_i)| s_i * Complex::new(c_i, 0f64)),
+                        .map(|&s_i| s_i * Complex::new(chaotic_sequence[0], 0f64)),
                 )
                 .collect();
 
-- 
2.43.0


From 27cfa2d52323fb326356a25cb4bd9e471d3c9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 12/18] fix: a centred down-chirp sweeps downwards

linear_downchirp_centered was identical to the up-chirp.
---
 src/fh_css.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..07f3c05 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -34,8 +34,8 @@ pub fn linear_downchirp_centered(
     bandwidth: f64,
     sample_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    let f0: f64 = center_freq - bandwidth / 2f64;
-    let f1: f64 = center_freq + bandwidth / 2f64;
+    let f0: f64 = center_freq + bandwidth / 2f64;
+    let f1: f64 = center_freq - bandwidth / 2f64;
     linear_chirp(chirp_rate, sample_rate, f0, f1)
 }
 
-- 
2.43.0


From df29cbc8533d881da466181db40ff32adac2e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 13/18] fix: the OFDM receiver survives a reception cut inside
 a symbol

An incomplete last OFDM symbol panicked (too short for the FFT, or for
the cyclic prefix). Only whole symbols are demodulated now.
---
 src/ofdm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9cd2687..eba386d 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
 
     message
         .chunks(subcarriers + cp_len) // S/P
+        .filter(move |chunk| chunk.len() == subcarriers + cp_len) // Whole symbols only.
         .flat_map(move |ofdm_symbol_data| {
             // let mut buffer: Vec<Complex<f64>> = fftshift(&ofdm_symbol_data[cp_len..]); // CP Removal
             let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal
-- 
2.43.0


From a957c57d7c60e0b1d03d2b8863bb48f68b770d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 14/18] fix: the FH-OFDM-DCSK receiver survives a reception cut
 inside a block

An incomplete last block panicked (too short for the FFT, or for the
cyclic prefix). Only whole blocks are demodulated now.
---
 src/fh_ofdm_dcsk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 96f415d..5c70b61 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
 
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
+        .filter(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN) // Whole blocks only.
         .flat_map(move |chunk| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
-- 
2.43.0


From 3fc93bf87c4321d8f3d91af84e7406a2e37eb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 15/18] fix: the Python QPSK transmitter uses the carrier it
 was given

A factor of two was missing: the signal sat on half the carrier
frequency, which no receiver here demodulates.
---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..ebcf579 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From 7f989991e3b6fc5c81cb63afe0347f0d4d777e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 16/18] fix: the Python receivers sum each symbol's own samples

The moving sum was read one sample late: each decision lacked the
symbol's first sample and included the first one of the next symbol, and
the last symbol was lost at one sample per symbol.
---
 kom_py/cdma.py | 4 +++-
 kom_py/psk.py  | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..f29789f 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -46,7 +46,9 @@ def rx_bpsk_cdma(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [
+        th_i > 0 for th_i in sig[samples_per_symbol - 1 : len(if_sig) : samples_per_symbol]
+    ]
 
 
 if __name__ == "__main__":
diff --git a/kom_py/psk.py b/kom_py/psk.py
index ebcf579..e4e134d 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -56,7 +56,9 @@ def rx_bpsk(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [
+        th_i > 0 for th_i in sig[samples_per_symbol - 1 : len(if_sig) : samples_per_symbol]
+    ]
 
 
 def tx_qpsk(
@@ -101,7 +103,8 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    symbols = slice(samples_per_symbol - 1, len(signal), samples_per_symbol)
+    i_bits = [i > 0 for i in ii[symbols]]
+    q_bits = [i > 0 for i in qi[symbols]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From e98faa73c95ca105fb9e13ec0f5bd7f6b3b51f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 17/18] fix: the Python CDMA receiver despreads

It never multiplied the signal by the key, so what it decided on was the
spread signal, in which the key cancels the bit.
---
 kom_py/cdma.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index f29789f..9c57e5f 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -37,10 +37,13 @@ def rx_bpsk_cdma(
     assert samp_rate % symb_rate == 0
     assert (samp_rate / symb_rate).is_integer()
     assert (samp_rate / (symb_rate * len(KEY))).is_integer()
+    samples_per_chip = int(samples_per_symbol / len(KEY))
     filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
-        s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
+        s_i
+        * KEY[i // samples_per_chip % len(KEY)]
+        * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
-- 
2.43.0


From 9b359e60a72f4f9e4a344e4c6bf823104ed837ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 18/18] fix: forked workers do not replay buffered noise

rand only notices a fork when its buffer runs dry, so processes forked from one
parent (kom_py uses multiprocessing) drew the same first noise values.
---
 src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 15ddcd1..57e1695 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -222,14 +222,22 @@ pub fn ber(tx: &[Bit], rx: &[Bit]) -> f64 {
     (errors as f64) / (len as f64)
 }
 
+/// The thread's generator, past the values it has buffered: a forked worker starts with a copy of
+/// its parent's buffer, and would draw from it what the parent and its other workers draw too.
+fn noise_rng() -> rand::rngs::ThreadRng {
+    let mut rng = rand::thread_rng();
+    rng.fill(&mut [0u32; 64]);
+    rng
+}
+
 pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
     let normal = Normal::new(0f64, sigma).unwrap();
     signal
-        .zip(normal.sample_iter(rand::thread_rng()))
-        .zip(normal.sample_iter(rand::thread_rng()))
+        .zip(normal.sample_iter(noise_rng()))
+        .zip(normal.sample_iter(noise_rng()))
         .map(|((sample, noise_re), noise_im)| sample + Complex::new(noise_re, noise_im))
 }
 
@@ -238,7 +246,7 @@ pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Ite
         .zip(
             Normal::new(0f64, sigma)
                 .unwrap()
-                .sample_iter(rand::thread_rng()),
+                .sample_iter(noise_rng()),
         )
         .map(|(sample, noise)| sample + noise)
 }
@@ -394,7 +402,7 @@ pub fn ssca_py(
 
 #[pyfunction]
 pub fn random_data(py: Python<'_>, num_bits: usize) -> Bound<'_, PyArray1<Bit>> {
-    let mut rng = rand::thread_rng();
+    let mut rng = noise_rng();
     PyArray1::from_iter_bound(py, (0..num_bits).map(|_| rng.gen::<Bit>()))
 }
 
@@ -411,7 +419,7 @@ fn awgn_py(signal: Vec<f64>, sigma: f64) -> Vec<f64> {
         .zip(
             Normal::new(0f64, sigma)
                 .unwrap()
-                .sample_iter(rand::thread_rng()),
+                .sample_iter(noise_rng()),
         )
         .map(|(sample, noise)| sample + noise)
         .collect()
@@ -421,7 +429,7 @@ fn awgn_py(signal: Vec<f64>, sigma: f64) -> Vec<f64> {
 fn pure_awgn(size: usize, sigma: f64) -> Vec<f64> {
     Normal::new(0f64, sigma)
         .unwrap()
-        .sample_iter(rand::thread_rng())
+        .sample_iter(noise_rng())
         .take(size)
         .collect()
 }
-- 
2.43.0

