#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "An interrupted transmission is an exact prefix of the scheme's waveform",
 "For every transmitter, and wherever its bit source ends, stalls or fails or its reader stops, the samples delivered are exactly the scheme's waveform for the complete symbols (blocks or frames, the last one padded as the scheme specifies) formed from the bits consumed: the documented symbol mapping, sample_rate/symbol_rate samples per symbol, and a carrier phase that runs from the start of the transmission (of the hop, for hopping schemes). No sample is lost, repeated or altered by where the interruption fell, by how long the stream already was, or by how the reader polled it.",
 ["inputs","crash_points","fault_sequences","configurations"],
 "All bit streams, all valid rates, carriers, keys, subcarrier and hop-set sizes, and every position of an end of input, stall, source panic or reader drop; BPSK, QPSK, CDMA (baseband, BPSK, QPSK, coded), OFDM, FH-BPSK, FH-CSS, chirps, BFSK/MFSK/FSK, FM and FM-FSK, CSK and DCSK.",
 "The tests transmit one fixed-length message per scheme at one or two rates and only look at the bits that come back; none stops a source in mid-symbol, and a transmitter and receiver that are wrong in the same way pass.",
 ["src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/ofdm.rs","src/fh.rs","src/fh_css.rs","src/fsk.rs","src/fm.rs","src/csk.rs","src/dcsk.rs","src/iter/inflate.rs","src/iter/chunks.rs"],
 [("lazy pull pipelines: map / inflate / enumerate over the bit iterator","src/*.rs tx_* functions"),("symbol grouping by chunks()/tuples()","src/iter/chunks.rs, itertools")],
 ["the iterator returned by each tx_* function, sample by sample"])

prop("C02", "Modems stream: bounded look-ahead and bounded memory while input stalls",
 "A transmitter or receiver consumes at most one symbol (block or frame) more input than the output it has produced depends on, so when its source stalls a reader has already been able to take every output the delivered input determines, up to that one unit. Memory held by a stream does not grow with the number of symbols that have passed through it, and nothing is consumed before the reader first asks.",
 ["schedules","fault_sequences","inputs","configurations"],
 "Every stall position in the input of every transmitter and receiver (and of the stream combinators and the noise adapters), and streams of any length.",
 "Every test collects a complete finite message, so an implementation that buffers the whole stream, or reads an unbounded amount ahead, passes them all.",
 ["src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/bch.rs","src/ofdm.rs","src/fh.rs","src/fm.rs","src/fsk.rs","src/dcsk.rs","src/fh_ofdm_dcsk.rs","src/bpf.rs","src/iter/mod.rs","src/lib.rs"],
 [("lazy iterator adapters; buffers only of one chunk / symbol / frame","src/iter/*.rs")],
 ["number of source items pulled at each emitted output","live heap bytes of the stream at each position"])

prop("C03", "BPSK and QPSK receivers decide each symbol from its own samples only",
 "Each bit a BPSK or QPSK receiver (baseband or passband) outputs is the sign of the correlation of that symbol's own sample_rate/symbol_rate samples with its in-phase (or, for the second QPSK bit, quadrature) carrier, whatever faults hit other symbols. Symbols the channel left intact are therefore received correctly however the rest is corrupted, any positive gain changes no decision, an inverted symbol flips exactly its own bits, and a reception cut anywhere yields exactly the bits of the symbols received whole.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "All messages, all rates and carriers, and all sequences of channel faults (noise bursts, erasures, fades and gains, inversions, clipping, DC steps, end of reception) at arbitrary sample positions.",
 "The tests receive an undisturbed copy of one message at one rate; nothing corrupts a symbol and looks at its neighbours.",
 ["src/bpsk.rs","src/qpsk.rs","src/iter/integrate.rs"],
 [("integrate_and_dump / nintegrate_and_dump with one accumulator per symbol","src/iter/integrate.rs"),("coherent mixing with the absolute sample index","src/bpsk.rs, src/qpsk.rs")],
 ["bits produced by rx_bpsk_signal, rx_qpsk_signal and the baseband receivers, against the channel fault trace"])

prop("C04", "CDMA despreading tolerates chip errors and separates synchronous users",
 "A baseband CDMA receiver recovers every bit whose fewer-than-half chips were flipped by the channel, and corruption confined to one bit's chips never affects another bit. When any set of users holding distinct keys of one Walsh code set transmit synchronously over one medium, joining, leaving, fading or being much stronger at arbitrary bit boundaries, each CDMA-BPSK (and in phase or quadrature CDMA-QPSK) receiver still recovers its own user's bits exactly, provided every chip spans whole half-cycles of the carrier. A Walsh code set of size n hands out, for every user number, a valid key of n chips orthogonal to every other key, distinct for n-1 consecutive user numbers.",
 ["schedules","fault_sequences","inputs","configurations"],
 "All user sets, keys, powers, join/leave times, task interleavings of the transmitting users, chip error patterns below half of the spreading factor, and code sizes from 2 to 256.",
 "Multi-user tests run every user with equal power for the whole message with one carrier (two of those cases fail at this commit for lack of whole carrier cycles per chip); chip errors, joins, leaves and near-far are never exercised, and user number n-1 is never asked for a key.",
 ["src/cdma.rs","src/hadamard.rs","src/bpsk.rs","src/qpsk.rs","src/iter/chunks.rs","src/iter/inflate.rs"],
 [("chip-synchronous XOR / sign multiplication with the cycled key","src/cdma.rs"),("majority vote over key.len() chips","src/cdma.rs rx_baseband_cdma"),("Sylvester Hadamard construction and key numbering","src/hadamard.rs")],
 ["bits of each user's receiver over a superposed simulated medium"])

prop("C05", "The coded CDMA link corrects two corrupted bytes per frame and contains the rest",
 "Over the coded CDMA link every 12-byte frame (7 data bytes and 5 check bytes) arrives intact when the channel corrupts at most two of its bytes, wherever the errors fall, including in the check bytes and in a shortened last frame. A frame corrupted beyond that never changes the content, position or size of any other frame, and a message ends padded only to its last whole byte. Losing the signal at any sample never crashes the receiver and never affects the frames already received.",
 ["inputs","fault_sequences","crash_points"],
 "All messages and lengths, all placements of up to two byte errors per frame and of heavier bursts, all cut points of the received signal, all keys and rates.",
 "Tests send 1,000 to 4,000 bits with no error at all, so the decoder's correction never runs, and never cut a frame.",
 ["src/bch.rs","src/cdma.rs","src/lib.rs"],
 [("Reed-Solomon frames of 7+5 bytes via reed_solomon","src/bch.rs"),("fallback to the uncorrected data section","src/bch.rs bch_stream_decode"),("bit/byte packing","src/lib.rs bools_to_u8s, u8_to_bools")],
 ["bits out of rx_coded_cdma_bpsk_signal against the injected symbol inversions"])

prop("C06", "Frequency hoppers stay in lock and visit every channel once per cycle",
 "A frequency-hopping transmitter and receiver set up alike hop together for as long as the transmission runs: whatever faults hit individual symbols, every untouched symbol of an FH-BPSK transmission of any length is received correctly, whenever its hop frequencies give the symbol energy. Each consecutive cycle of num_freqs hops of FH-BPSK and FH-CSS uses each of the num_freqs equally spaced frequencies from the low to (excluding) the high edge exactly once, in an order that is reshuffled from cycle to cycle and is the same for every transmission with the same settings; this holds for every num_freqs of at least one.",
 ["inputs","fault_sequences","configurations","histories"],
 "All hop-set sizes and edges, all rates, transmission lengths over many cycles, and channel faults at arbitrary symbols; FH-BPSK transmit and receive, FH-CSS transmit.",
 "One test transmits once at one setting without faults; no test looks at the hop order, at a second cycle boundary, or at degenerate hop sets.",
 ["src/fh.rs","src/fh_css.rs","src/fh_ofdm_dcsk.rs"],
 [("HopTable: seeded shuffle per cycle, shared by both ends","src/fh.rs"),("one hop per symbol by zip with chunks()","src/fh.rs")],
 ["hop frequency inferred from each symbol of the transmitted waveform","bits of rx_fh_bpsk_signal"])

prop("C07", "OFDM recovers through cyclic-prefix faults and contains damage to its symbol",
 "OFDM reception returns exactly the transmitted symbols, at any subcarrier count (even or odd), pilot count of at least one and rate, followed only by the padding of the last OFDM symbol. Any fault confined to cyclic prefixes is harmless, a multipath echo or early timing offset shorter than the cyclic prefix changes each subcarrier only by its own complex gain, a single-tone jammer on one subcarrier changes only that subcarrier, and arbitrary damage to one OFDM symbol never reaches another. A reception cut anywhere yields the symbols of the OFDM symbols received whole.",
 ["inputs","fault_sequences","configurations","crash_points"],
 "All symbol streams, subcarrier/pilot counts, rates and carriers with whole half-cycles per sample period, and all fault sequences of the kinds named at arbitrary positions; baseband OFDM and OFDM-QPSK.",
 "Tests use 64 subcarriers (a power of two) and an undisturbed channel; the cyclic prefix could be any content without a test noticing.",
 ["src/ofdm.rs","src/iter/chunks.rs","src/lib.rs","src/iter/integrate.rs"],
 [("IFFT/FFT with cyclic prefix of subcarriers/4","src/ofdm.rs"),("data subcarrier allocation","src/ofdm.rs get_data_subcarriers"),("fftshift","src/lib.rs")],
 ["symbols out of rx_baseband_ofdm_signal and bits out of rx_ofdm_qpsk_signal"])

prop("C08", "Chaotic keying (CSK, DCSK) survives gain, inversion and symbol faults",
 "A DCSK receiver recovers every symbol whose reference and information samples meet the same channel gain, whatever its size or sign and however it varies from symbol to symbol, and corruption of one symbol never affects another. CSK transmits, for every bit, the current value of the one of its two running logistic-map chaos streams that the bit selects, both streams advancing once per bit, so a receiver that regenerates the streams stays in step with the transmission for its whole length through any symbol faults.",
 ["inputs","fault_sequences","crash_points"],
 "All messages and lengths, all per-symbol gains and inversions, erasures, bursts and cut points.",
 "Tests decode one clean message; gains, inversions, cuts and long chaotic streams are not exercised.",
 ["src/csk.rs","src/dcsk.rs","src/chaos/logistic_map.rs"],
 [("sign of reference * information","src/dcsk.rs"),("two LogisticMap streams advanced per bit","src/csk.rs")],
 ["samples of tx_baseband_csk / tx_baseband_dcsk, bits of rx_baseband_dcsk"])

prop("C09", "Noncoherent FSK reception survives gain, inversion and neighbouring damage",
 "The noncoherent FSK receiver recovers every symbol the channel left intact up to a non-zero gain of either sign, when the two tones are orthogonal over a symbol, and decides each symbol from that symbol's samples only, by which tone holds more energy. Damage to other symbols, the length of the stream and its end at any sample never change that.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "All messages, gains, inversions, bursts, erasures and cut points, all rates whose tone spacing (5% of the carrier) is a multiple of the symbol rate.",
 "The only receiver test fails at this commit (its tones are not orthogonal), so reception is effectively untested.",
 ["src/fm.rs","src/iter/chunks.rs"],
 [("energy comparison of the two tone correlators per chunk","src/fm.rs rx_fsk")],
 ["bits of rx_fsk over a faulty channel"])

prop("C10", "FH-OFDM-DCSK output stays finite and its receiver recovers the message",
 "A baseband FH-OFDM-DCSK transmission of any length consists of finite samples of bounded size, and its receiver returns the message exactly, followed only by padding to whole blocks. Faults confined to cyclic prefixes are harmless, any common non-zero complex gain within a block is harmless, and damage to one block never affects another; a reception cut anywhere yields the message of the blocks received whole; the passband forms are the same blocks on their carrier.",
 ["inputs","fault_sequences","crash_points"],
 "All messages and lengths, cyclic-prefix corruption, per-block gains and phases, damaged and truncated blocks; the two passband transmitters at all rates.",
 "The round-trip test is marked ignored (it fails at this commit) and the only other test writes a plot; nothing checks a single value.",
 ["src/fh_ofdm_dcsk.rs","src/chaos/chebyshev.rs","src/fh.rs"],
 [("chaotic reference per block","src/fh_ofdm_dcsk.rs, src/chaos/chebyshev.rs"),("seeded subcarrier permutation shared by both ends","src/fh_ofdm_dcsk.rs")],
 ["samples and bits of the baseband pair; samples of the passband transmitters"])

prop("C11", "Streams never affect one another, under any interleaving, thread or crash",
 "What a transmitter, receiver, combinator, filter or code set produces depends only on its own arguments and input: running it alongside any others, interleaved at any point on one thread or across threads, handed from one thread to another, after any others were created, dropped half-way or crashed, or repeated later in the same process, gives exactly the output of running it alone.",
 ["schedules","histories","crash_points","configurations"],
 "All interleavings of item-by-item progress of any mix of concurrent streams over any number of threads, with drops, source panics and thread hand-overs at arbitrary points.",
 "Tests run each stream to completion by itself; at most rayon maps whole receivers in parallel, with no control over who runs when.",
 ["src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/ofdm.rs","src/fh.rs","src/fh_css.rs","src/fh_ofdm_dcsk.rs","src/fm.rs","src/fsk.rs","src/csk.rs","src/dcsk.rs","src/bpf.rs","src/iter/mod.rs","src/chaos/mod.rs"],
 [("all state owned by the iterator; seeded generators per stream","every tx_*/rx_* function")],
 ["per-stream output histories under simulated schedules versus the stream alone"])

prop("C12", "The noise channel adds zero-mean white Gaussian noise of the requested strength",
 "Adding noise returns exactly one sample per input sample, in order, and equals the input plus noise that does not depend on the input: independent, zero-mean Gaussian samples of standard deviation sigma, and for complex signals independently so on the real and the imaginary part. A sigma of zero returns the input unchanged, and pure noise of a requested size is the same noise alone; this holds however long the stream is and wherever in it one looks, and in the Rust and the Python interface alike.",
 ["inputs","histories","configurations"],
 "All signals, lengths, sigmas over many orders of magnitude, stop points, and all states of the entropy source and of the generator shared by a thread's streams.",
 "One statistical test (normality of one long run, excluded for flakiness) looks at the real form; the complex form is used only in plots, and real randomness makes a sharp check impossible without controlling it.",
 ["src/lib.rs"],
 [("Normal(0, sigma).sample_iter(thread_rng())","src/lib.rs awgn, awgn_complex, awgn_py, pure_awgn")],
 ["noise = output - input, over many simulated streams"])

prop("C13", "Noise and random data never repeat: across streams, threads, forks, faults",
 "No two noise streams or random messages share or repeat a stretch of values: not two streams on one thread, not streams on different threads, not those of a process and its forked workers, not those of workers forked one after another (each process requesting its own streams after the fork), and not later parts of one stream, under any interleaving. If the operating system's entropy source fails, a request for noise either fails visibly or still yields fresh noise; it never yields repeated, constant or missing noise.",
 ["schedules","histories","fault_sequences","crash_points"],
 "All interleavings of streams over threads and forked processes, all fork points relative to earlier noise use, and all patterns of transient, late or permanent entropy failure.",
 "No test compares two noise streams; process forks (the repository's own simulation drivers use multiprocessing) and entropy failures are never exercised.",
 ["src/lib.rs","kom_py/ber.py","kom_py/lambdas.py"],
 [("rand::thread_rng: per-thread generator seeded and reseeded from OS entropy, with fork protection","src/lib.rs"),("multiprocessing pools calling awgn / random_data","kom_py/ber.py, kom_py/lambdas.py")],
 ["values produced per stream, thread and process under simulated entropy"])

prop("C14", "Simulated bit error rates agree with theory",
 "A Monte-Carlo run of BPSK, QPSK, CDMA or OFDM-QPSK through the noise channel shows the bit error rate that theory predicts for its symbol energy and noise strength, Q(A/sigma) per bit with A the noise-free correlator output over the correlator's noise gain, with errors independent from bit to bit and equally likely for ones and zeros. The bit-error-rate meter reports exactly the fraction of differing bits over the common length.",
 ["inputs","configurations","histories"],
 "All noise strengths giving measurable error rates, rates and keys, over many simulated experiments whose randomness the simulator supplies.",
 "The BER tests draw plots and assert nothing about the rates; a noise level wrong by a few dB or a receiver losing half its energy passes.",
 ["src/lib.rs","src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/ofdm.rs"],
 [("awgn / awgn_complex","src/lib.rs"),("matched-filter receivers","src/bpsk.rs, src/qpsk.rs, src/cdma.rs, src/ofdm.rs"),("ber()","src/lib.rs")],
 ["bit errors counted over simulated runs against Q-function bounds"])

prop("C15", "Stream combinators equal their list definitions wherever the stream is cut",
 "Each stream combinator (chunking, padded chunking, repetition, running and block sums, scaling, decimation, convolution) and the energy and power meters give, for a source that ends, stalls or fails at any item, exactly the result of their textbook definition applied to the items delivered: chunks keep every item in order with only the last one short (or zero-padded), block sums cover whole blocks only, convolution is the full discrete convolution, repeating zero times yields nothing. Power is the mean of the squared samples over all of them, divided by the sample rate.",
 ["inputs","crash_points","configurations"],
 "All item streams and lengths (including empty), all block lengths, repetition counts, filters longer or shorter than the stream, all cut and failure points.",
 "Unit tests check one or two exact-multiple lengths with palindromic or constant filters, which hide reversal and tail errors.",
 ["src/iter/chunks.rs","src/iter/convolution.rs","src/iter/inflate.rs","src/iter/integrate.rs","src/iter/scale.rs","src/iter/take_every.rs","src/iter/mod.rs","src/lib.rs"],
 [("hand-written Iterator implementations","src/iter/*.rs"),("energy, power, avg_energy","src/lib.rs")],
 ["items out of each combinator versus a list model"])

prop("C16", "The block band-pass filter removes out-of-band jammers block by block",
 "The FFT band-pass filter returns, for each whole block, exactly the block's spectral content between the low and high edge (both included): tones and jammers outside the band vanish, in-band content passes unchanged in amplitude and phase. Blocks are processed independently, so a jammer present in some blocks never disturbs another, and the output has one sample per input sample, in order.",
 ["inputs","fault_sequences","configurations"],
 "All block lengths (even and odd), band edges on and between bins, and jammers and bursts switched on and off at arbitrary samples.",
 "The filter tests only write plots to disk; nothing compares a filtered value.",
 ["src/bpf.rs","src/iter/chunks.rs"],
 [("real FFT, zeroing of bins outside the edges, inverse FFT and normalisation","src/bpf.rs bandpass")],
 ["output blocks against a direct DFT model of the input blocks"])

prop("C17", "Python calls return the library's results whatever calls came before",
 "Every deterministic function of the Python module returns the same values as the corresponding library function (or, for the spectral-correlation and energy detectors, as their mathematical definition), as lists or arrays of the right type and length, whatever sequence of calls, rejected arguments, failing calls or calls from other Python threads came before. A rejected or failing call raises an exception (as may any call whose process can no longer write its standard output) and leaves the interpreter and later calls unharmed.",
 ["histories","schedules","inputs","fault_sequences"],
 "All call histories over all exported functions, valid and invalid arguments, and interleavings of Python threads.",
 "No test in the repository calls the Python module at all; the Python tests only cover the pure-Python reference code.",
 ["src/lib.rs","src/ssca.rs","src/fh_css.rs","src/bpsk.rs","src/qpsk.rs","src/ofdm.rs","src/csk.rs","src/dcsk.rs"],
 [("pyfunction wrappers","src/lib.rs module_with_functions"),("panic to exception conversion","pyo3")],
 ["return values and exceptions of the embedded module under simulated sessions"])

prop("C18", "The Python reference modems and the Rust modems understand each other",
 "Signals produced by the Python reference transmitters (BPSK, QPSK and CDMA-BPSK) are received correctly by the Rust receivers with the same settings, and the reverse, for any message and any mixture of the two ends, and symbols the channel left intact arrive correctly at either receiver whatever happened to other symbols. A message cut at any point arrives as the bits of its complete symbols.",
 ["inputs","configurations","fault_sequences","histories"],
 "All messages, rates and carriers valid for both sides, both directions of every pairing, bursts, inversions and cuts of whole symbols.",
 "The Python test checks the Python BPSK pair against itself; nothing connects the two implementations, and the Python QPSK carrier is wrong at this commit.",
 ["kom_py/psk.py","kom_py/cdma.py","kom_py/util.py","src/bpsk.rs","src/qpsk.rs","src/cdma.rs"],
 [("numpy modulators and correlators","kom_py/psk.py, kom_py/cdma.py")],
 ["bits received at either end of mixed links"])

# ---- pure functions: listed, not claimed ------------------------------------------
prop("C30", "erf, erfc, dB conversion, linspace and window helpers are numerically right",
 "erf and erfc are within 2e-7 of their exact values, db and undb are inverse to each other, linspace divides the interval evenly excluding its end, and the Hamming windows follow their definition.",
 ["inputs"], "All finite arguments.", "Tests sample a few points.",
 ["src/lib.rs"], [("closed-form approximations","src/lib.rs")], ["return values"])
prop("C31", "The spectral correlation estimate equals its (strip) definition",
 "For any signal and sizes the estimator's output equals the strip spectral correlation algorithm's definition, and its mapped form places each value at its frequency and cycle-frequency cell.",
 ["inputs","configurations"], "All signals and size pairs.", "Only plots and timings exist.",
 ["src/ssca.rs","kom_py/ssca.py"], [("two-stage FFT","src/ssca.rs")], ["returned array"])
prop("C32", "Butterworth band-pass and root-raised-cosine filter designs meet their response",
 "The Butterworth band-pass attenuates outside and passes inside its edges, and the root-raised-cosine taps follow their definition.",
 ["inputs","configurations"], "All edges and rates.", "Only plots exist.",
 ["src/bpf.rs","src/filters.rs"], [("sci-rs design and zero-phase filtering","src/bpf.rs")], ["frequency response"])
prop("C33", "Chaotic maps iterate their defining formulas and stay in their interval",
 "The logistic, Chebyshev, tent and Bernoulli maps compute their defining formula, and the logistic and Chebyshev maps keep every orbit started inside their interval inside it.",
 ["inputs"], "All starting points and parameters.", "One long orbit of one map.",
 ["src/chaos/logistic_map.rs","src/chaos/chebyshev.rs","src/chaos/mod.rs"], [("formulas","src/chaos")], ["values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
