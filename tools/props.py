import json
P=[]
def at(f):
    return f if f.startswith("extra/") else "src/neo/"+f
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[at(f) for f in files],mechanism=[dict(name=a,where=at(b)) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=at(c)) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("P01","Partitioned convolvers output the linear convolution of the whole stream",
  "After a response partitioned for a power-of-two block size B >= 2 is loaded into a uniformly partitioned convolver (overlap-save or overlap-add, interleaved or split-complex, float or double), every block of B samples it processes is replaced, within working precision, by the next B samples of the linear convolution of everything fed since loading with that response: no latency, no lost tails, nothing depending on block boundaries. Loading another response (also with another block size or number of segments) forgets the past completely. Copies continue on their own with the same state, and distinct objects can be used from different threads at once.",
  ["inputs","histories","configurations"],"all responses, block sizes, numbers of segments, inputs, and sequences of load / process / copy",
  "The test feeds one identity response with 3 segments and compares input and output: filters that reach beyond the first segment, ring wrap-around, reloading and copies are never exercised (and that test is not built in the offline configuration).",
  ["convolution/uniform_partitioned_convolver.hpp","convolution/overlap_save.hpp","convolution/overlap_add.hpp","convolution/dense_fdl.hpp","convolution/dense_filter.hpp","convolution/fdl_index.hpp","convolution/dense_convolver.hpp","convolution/uniform_partition.hpp"],
  [("ring of past spectra paired with filter segments by age","convolution/fdl_index.hpp"),("overlap window","convolution/overlap_save.hpp"),("accumulation of products","convolution/dense_filter.hpp")],
  [("delay line","spectra of the last blocks","convolution/dense_fdl.hpp"),("write position","slot of the newest block","convolution/fdl_index.hpp"),("overlap","past samples or pending tail","convolution/overlap_add.hpp")],
  ["filter()","operator()(block)"])
p("P02","Sparse convolvers equal the dense convolver with dropped bins set to zero",
  "A partitioned convolver loaded with a sparsity predicate outputs, for every stream, what the same scheme outputs for a filter whose bins rejected by the predicate (row, column, value) are zero and whose other bins are unchanged; a predicate that keeps everything gives the full linear convolution. This holds for every pattern of kept bins, including rows that are empty, and for both overlap schemes. Loading another filter or pattern forgets the past. Copies continue on their own with the same state, and distinct objects can be used from different threads at once.",
  ["inputs","histories","configurations"],"all filters, sparsity patterns, streams, and sequences of load / process / copy",
  "The test only uses a predicate that keeps everything with an identity response.",
  ["convolution/sparse_convolver.hpp","convolution/sparse_filter.hpp","container/csr_matrix.hpp","algorithm/multiply_add.hpp","convolution/uniform_partitioned_convolver.hpp"],
  [("compressed rows with sparse multiply-add","algorithm/multiply_add.hpp"),("construction through the predicate","container/csr_matrix.hpp")],
  [("filter rows","kept bins per segment","convolution/sparse_filter.hpp")],["filter(matrix, predicate)","operator()(block)"])
p("P03","The chunked convolver is independent of how the stream is cut into chunks",
  "The overlap-add convolver that accepts chunks of any size of at least one block (also sizes that are not multiples of the block, changing from call to call) replaces each chunk by exactly the next samples of the linear convolution of the whole stream with the loaded response, within working precision and without latency. Any two ways to cut the same stream give the same output. Loading a new response restarts from silence with no position, overlap or history left over. Copies continue on their own with the same state, and distinct objects can be used from different threads at once.",
  ["inputs","histories","configurations"],"all chunk sequences, responses, streams and reloads",
  "The test only ever passes chunks of exactly one block and an identity response.",
  ["convolution/overlap_add_convolver.hpp","convolution/dense_fdl.hpp","convolution/dense_filter.hpp"],
  [("partial window with position","convolution/overlap_add_convolver.hpp"),("delayed segments accumulated once per block","convolution/overlap_add_convolver.hpp")],
  [("input position","samples already in the current block","convolution/overlap_add_convolver.hpp"),("current segment","ring slot of the current block","convolution/overlap_add_convolver.hpp")],
  ["filter()","operator()(chunk)"])
p("P04","Overlap-add and overlap-save filter correctly for every block and filter size",
  "For every block size B >= 1 and filter size F >= 1 (powers of two or not, F larger or smaller than B) the transform size is the smallest power of two not below B + F - 1, and the callback is called once per block with the N/2+1 bins of the spectrum. If the callback multiplies by the spectrum of a filter of at most F taps, overlap-add outputs the sum of all blocks each convolved whole with its own filter, and overlap-save outputs the newest filter applied to the last samples of the stream, within working precision; an untouched spectrum returns the input. Copies continue on their own with the same state, and distinct objects can be used from different threads at once.",
  ["inputs","histories","configurations"],"all block and filter sizes, filters changing from block to block, and streams",
  "The tests use equal power-of-two sizes and an identity callback: tails, sliding windows and sizes that do not divide the transform are never observed.",
  ["convolution/overlap_add.hpp","convolution/overlap_save.hpp"],
  [("zero padding and tail accumulation","convolution/overlap_add.hpp"),("sliding window","convolution/overlap_save.hpp")],
  [("tail","pending output of earlier blocks","convolution/overlap_add.hpp"),("window","last N input samples","convolution/overlap_save.hpp")],["operator()(block, callback)"])
p("P05","The delay line pairs every stored segment with the filter segment of its age",
  "In every step the delay-line index announces one slot to store to, then each slot exactly once together with the filter segment equal to the number of steps since that slot was written, for every number of segments, index type, and after any number of steps or resets. Rows of the dense, split-complex and integer-compressed delay lines read back what was last inserted in that row, exactly or (compressed, values within -1..1) rounded to the nearest step of the integer type, and inserting into one row changes no other.",
  ["histories","configurations","inputs"],"all segment counts, index types, histories of steps, resets and inserts",
  "Tests step small rings once and insert into one row.",
  ["convolution/fdl_index.hpp","convolution/dense_fdl.hpp","convolution/compressed_fdl.hpp","container/compressed_accessor.hpp"],
  [("modular distance from the write position","convolution/fdl_index.hpp"),("scaling to the integer range","convolution/compressed_fdl.hpp")],
  [("write position","next slot","convolution/fdl_index.hpp"),("rows","stored spectra","convolution/dense_fdl.hpp")],["operator()(copy, multiply)","insert","operator[]"])
p("P06","Short-time framing covers the signal and each frame is the right windowed slice",
  "For every signal of L >= 1 samples, frame size, overlap below the frame size and transform size not below the frame size, the short-time transform has ceil(L / (frame - overlap)) frames and N/2+1 bins (N: the transform size rounded up to a power of two) for every channel; frame f is the real spectrum of the samples from f * (frame - overlap) on, at most one frame of them, multiplied by the window evaluated over N points and padded with zeros. Partitioning an impulse response is this with no overlap, a rectangular window and twice the block as transform size. A plan gives the same answer no matter what it processed before or what other plans do in other threads, and never touches the input; so does a copy.",
  ["inputs","configurations","histories"],"all signal lengths, channel counts, options, windows and sequences of calls",
  "Tests check shapes for a few sizes and one partitioned response; last partial frames, overlaps and plan reuse are not compared.",
  ["fft/stft.hpp","convolution/uniform_partition.hpp","math/windowing.hpp","math/idiv.hpp"],
  [("frame count and slice limits","fft/stft.hpp"),("zero fill before every frame","fft/stft.hpp")],[("input buffer","samples of the current frame","fft/stft.hpp")],["stft()","stft_plan::operator()","uniform_partition()"])
p("P07","One-shot convolution by both methods is the full linear convolution",
  "direct_convolve (real, integer or complex values, any sizes >= 1) and the FFT convolver and fft_convolve (float or double, sizes >= 2) compute out[k] = sum of signal[j] * patch[k-j] for all k below n + l - 1, exactly or within working precision, regardless of which operand is longer and of what a convolver object processed before. The output has n + l - 1 samples, fft_convolve of an empty operand is empty, and the operands are not modified. Calls from several threads at once, each with its own objects, do not disturb each other.",
  ["inputs","configurations","histories"],"all signals and patches of all sizes, all value types and layouts, repeated use",
  "Tests compare a unit impulse patch and a few fixed vectors only.",
  ["convolution/direct_convolve.hpp","convolution/fft_convolver.hpp","convolution/mode.hpp"],
  [("two-phase summation limits","convolution/direct_convolve.hpp"),("zero padding to the next power of two","convolution/fft_convolver.hpp")],[],["direct_convolve","fft_convolver","fft_convolve","output_size"])
p("P08","Every FFT plan computes the unscaled DFT in both directions",
  "For every plan (the default plans, in place and with separate input and output, interleaved and split-complex, and all radix-2, 3, 4, 5 and 8 reference plans and kernels) and every supported order, forward is X[k] = sum x[j] exp(-2 pi i j k / n), backward is the same with +, without scaling, within working precision; hence backward(forward(x)) = n x. The result does not depend on what the plan (or the plan it was copied from) computed before, on what other plans compute in other threads, on strides or on in-place use, and nothing outside the given vectors is written. size() and order() agree, and orders beyond the maximum are refused by an exception where the plan has one.",
  ["inputs","configurations","histories"],"all inputs, orders, directions, plan types, layouts, and histories of one plan",
  "Tests do round trips and compare with the direct DFT at a few orders for random input; several plans are only tested against themselves.",
  ["fft/fft.hpp","fft/split_fft.hpp","fft/fallback/fallback_split_fft_plan.hpp","fft/reference/c2c_dit2_plan.hpp","fft/reference/c2c_dit4_plan.hpp","fft/reference/c2c_dif3_plan.hpp","fft/reference/c2c_dif5_plan.hpp","fft/reference/c2c_stockham_dif2_plan.hpp","fft/reference/c2c_stockham_dif3_plan.hpp","fft/reference/c2c_stockham_dif4_plan.hpp","fft/reference/c2c_stockham_dif5_plan.hpp","fft/reference/c2c_stockham_dif8_plan.hpp","fft/reference/c2c_stockham_dit4_plan.hpp","fft/reference/kernel/c2c_dit2.hpp","fft/twiddle.hpp","fft/direction.hpp"],
  [("butterflies and twiddle tables","fft/reference/kernel/c2c_dit2.hpp"),("reordering","fft/reference/bitrevorder.hpp")],[("work buffers and twiddles","per plan","fft/fft.hpp")],["fft()","ifft()","plan(vec, direction)"])
p("P09","Transforms of arbitrary size are exact DFTs",
  "The direct dft function and the arbitrary-size (Bluestein) plan compute the unscaled DFT of every size n >= 1 - primes, powers of two, anything - in both directions, in place and from input to output, within working precision, independent of what the plan, or another one in any thread, computed before. The input of an out-of-place transform is not modified.",
  ["inputs","configurations","histories"],"all sizes, inputs, directions, forms and histories",
  "Tests try a few sizes, forward, against each other.",
  ["fft/dft.hpp","fft/fallback/fallback_dft_plan.hpp"],
  [("chirp multiplication and circular convolution of padded size","fft/fallback/fallback_dft_plan.hpp")],[("chirp tables","per plan","fft/fallback/fallback_dft_plan.hpp")],["dft()","idft()","dft_plan"])
p("P10","Real transforms agree with the complex DFT of the real signal",
  "For every real input the real FFT yields the first n/2+1 bins of the DFT, the inverse yields n times the signal of a half spectrum, and the round trip is n times the input; the packed in-place variant (order >= 1) holds X[0] and X[n/2] in its first two values and its inverse has gain n/2. Splitting the spectrum of x + iy returns the half spectra of x and y, and the type-II cosine transform is y[k] = 2 sum x[j] cos(pi k (2j+1) / 2n), all within working precision and independent of earlier calls and of other objects, copies included, in any thread.",
  ["inputs","configurations","histories"],"all inputs, orders, layouts and histories of a plan",
  "Tests do round trips of random signals at some orders.",
  ["fft/rfft.hpp","fft/fallback/fallback_rfft_plan.hpp","fft/experimental/rfft.hpp","fft/dct.hpp"],
  [("conjugate symmetry","fft/fallback/fallback_rfft_plan.hpp"),("even/odd combination","fft/experimental/rfft.hpp")],[("work buffer","per plan","fft/fallback/fallback_rfft_plan.hpp")],["rfft","irfft","rfft_deinterleave","dct2_plan"])
p("P11","Digit and bit reversal are exact permutations",
  "Reordering a vector of size radix^order moves the element at each index to the index with reversed base-radix digits, for every radix and order, loses or duplicates nothing, and touches nothing else. Applying it twice restores the vector; the radix-2 reorder, the precomputed plan and the direct function agree.",
  ["inputs","configurations"],"all sizes, radices, layouts and contents",
  "Tests compare a few fixed sizes.",
  ["fft/reference/bitrevorder.hpp","fft/reference/digitrevorder.hpp"],
  [("swap when the reversed index is larger","fft/reference/digitrevorder.hpp"),("bit reversal table","fft/reference/bitrevorder.hpp")],[],["bitrevorder","digitrevorder"])
p("P12","A sparse matrix holds exactly what was inserted",
  "After any sequence of inserts, in any order and including positions inserted twice (the last value wins), reading any position of a compressed-row matrix returns the last value inserted there or zero, and the row offsets, column list and values describe exactly those entries, one per position. Construction from a dense matrix keeps exactly the entries accepted by the predicate. Multiply-add with a row computes x * row + z at the stored columns and leaves the other outputs as they were.",
  ["histories","inputs"],"all shapes, insert orders, predicates and vectors",
  "Tests insert a few elements in one order.",
  ["container/csr_matrix.hpp","algorithm/multiply_add.hpp"],
  [("search within the row, shift of later rows","container/csr_matrix.hpp")],[("row offsets, columns, values","the stored entries","container/csr_matrix.hpp")],["insert","operator()","row_container","column_container","value_container","multiply_add"])
p("P13","Multiply-add is exact at every length, layout and aliasing",
  "out[i] = x[i] * y[i] + z[i] with complex arithmetic for every element of interleaved, split-complex and real vectors of every length, in every layout (contiguous, strided), also when the output is one of the inputs, on every instruction-set build; with integer-valued data the result is exact. Nothing outside the output is written and inputs that are not the output are unchanged.",
  ["inputs","configurations"],"all lengths, values, element types, layouts, aliasing patterns and instruction sets",
  "Tests use one or two lengths; vector remainders and aliasing are not compared.",
  ["algorithm/multiply_add.hpp","simd/native.hpp"],[("vector loop plus scalar remainder","algorithm/multiply_add.hpp")],[],["multiply_add"])
p("P14","Element-wise algebra acts on every element, once, in every layout",
  "add, multiply, scale, fill and copy on vectors, matrices and split-complex vectors compute the element-wise result for every element for every extent, element type and combination of layouts of the operands, also in place, and preserve everything else; copies between split and interleaved complex keep real and imaginary parts. Results on integer-valued data are exact.",
  ["inputs","configurations","histories"],"all extents (including zero), layouts, types, aliasing and sequences of operations",
  "Tests cover a few small contiguous cases.",
  ["algorithm/add.hpp","algorithm/multiply.hpp","algorithm/scale.hpp","algorithm/fill.hpp","algorithm/copy.hpp","algorithm/backend/linalg_binary_op.hpp","algorithm/backend/linalg_unary_op.hpp"],
  [("loops over extents with contiguous fast paths","algorithm/backend/linalg_binary_op.hpp")],[],["add","multiply","scale","fill","copy"])
p("P15","Reductions and comparisons follow their definitions",
  "mean, population variance, standard deviation, mean squared error and its root equal their definitions for every vector and matrix in any layout (mean of nothing and variance of fewer than two elements are absent; complex errors compare magnitudes). allmatch is true exactly when the extents agree and the predicate holds for every pair; allclose exactly when every pair differs by at most the tolerance (default 1e-5 for float, 1e-9 for double), a NaN is close to nothing, and empty operands match.",
  ["inputs","configurations"],"all contents, extents, layouts and tolerances",
  "Tests use a handful of fixed vectors.",
  ["algorithm/mean.hpp","algorithm/variance.hpp","algorithm/standard_deviation.hpp","algorithm/mean_squared_error.hpp","algorithm/root_mean_squared_error.hpp","algorithm/allmatch.hpp","algorithm/allclose.hpp"],
  [("accumulation over all elements","algorithm/mean.hpp")],[],["mean","variance","standard_deviation","mean_squared_error","root_mean_squared_error","allmatch","allclose"])
p("P16","Normalisation reaches the target and preserves shape",
  "normalize_energy scales to unit energy and normalize_peak to unit peak with one common positive factor for all elements; silent or empty input stays as it is. normalize_impulse scales all channels by the same factor, the smallest of the factors that would give the individual channels unit energy (1 for a silent channel).",
  ["inputs","configurations"],"all contents, extents, channel counts and layouts",
  "Tests use a few fixed signals.",
  ["algorithm/normalize_energy.hpp","algorithm/normalize_peak.hpp","convolution/normalize_impulse.hpp"],
  [("factor from energy or peak","algorithm/normalize_energy.hpp")],[],["normalize_energy","normalize_peak","normalize_impulse"])
p("P17","Scalar fixed-point arithmetic saturates and never wraps",
  "For every pair of operands of every fixed-point type (8- and 16-bit storage, any number of fractional bits) addition, subtraction and negation return the exact result limited to the representable range, and multiplication the exact product rounded down to the format and limited to the range, so that chains of operations never wrap around.",
  ["inputs","configurations","histories"],"all operand pairs, formats and sequences of operations",
  "Tests check chosen values; the 8-bit space is 65536 pairs per operation, the 16-bit space 2^32.",
  ["fixed_point/fixed_point.hpp"],[("wider intermediate and saturation","fixed_point/fixed_point.hpp")],[],["operator+","operator-","operator*"])
p("P18","Fixed-point conversion, comparison and traits are faithful",
  "Construction from float or double truncates value * 2^fraction toward zero and saturates (infinities and arbitrarily large values included); conversion to float and back is lossless for every representable value; construction from raw storage and value() are inverse. All six comparisons agree with the order of the represented numbers, and scale and integer/fraction bit counts describe the format.",
  ["inputs","configurations"],"all stored values, all floats, all formats",
  "Tests use a few constants.",
  ["fixed_point/fixed_point.hpp"],[("clamp before conversion","fixed_point/fixed_point.hpp")],[],["constructors","to_float","to_double","comparison operators"])
p("P19","Vectorised fixed-point arithmetic equals the scalar semantics lane by lane",
  "Adding, subtracting and multiplying fixed-point SIMD batches and spans of any length saturates exactly like the scalar operation in every lane (multiplication: the exact product rounded down, or for the 16-bit 15-fraction format rounded to nearest with halves up, then limited to the range), on every instruction-set build. Loads, stores and broadcasts move exactly the addressed elements, tails included, and nothing beyond the span is written.",
  ["inputs","configurations"],"all operand pairs and lane positions, span lengths and instruction sets",
  "Tests compare a few constant vectors.",
  ["fixed_point/simd.hpp","fixed_point/algorithm.hpp","simd/native.hpp","simd/sse2.hpp","simd/avx.hpp","simd/avx512.hpp"],
  [("saturating intrinsics, widening multiply","fixed_point/simd.hpp"),("remainder loop","fixed_point/algorithm.hpp")],[],["add","subtract","multiply","load_unaligned","store_unaligned","broadcast"])
p("P20","Fixed-point complex numbers and compressed storage compute as specified",
  "Sums and differences of complex fixed-point numbers saturate in each component; 16-bit products are the complex formula on the stored words with each of the four partial products shifted right by 17 bits (rounded down) before they are combined. Accessors return the parts that were stored. Reading integer-compressed storage through its accessor returns the stored integer divided by the maximum of its type.",
  ["inputs","configurations"],"all component values, formats and storage types",
  "Tests use a few values.",
  ["fixed_point/complex.hpp","complex/scalar_complex.hpp","container/compressed_accessor.hpp"],
  [("complex formulas over fixed_point","complex/scalar_complex.hpp")],[],["operator+","operator-","operator*","real","imag","compressed_accessor"])
p("P21","Complex arithmetic and helpers obey the complex field",
  "For every pair of operands the library's complex type adds, subtracts, multiplies and divides (by complex and by real values, plain and compound) like complex numbers - exactly on small integers, within rounding otherwise - compares equal exactly when both parts agree, and real, imag, conj, abs, polar and the type traits agree with it, also for std::complex and plain real arguments.",
  ["inputs","programs","histories"],"all operand pairs, value types and chains of operations",
  "Tests use a few constants.",
  ["complex/scalar_complex.hpp","complex/complex.hpp","math/conj.hpp","math/abs.hpp","math/real.hpp","math/imag.hpp","math/polar.hpp","math/log2.hpp"],
  [("component formulas","complex/scalar_complex.hpp")],[],["operators","math::conj","math::abs","math::real","math::imag","math::polar"])
p("P22","Floating-point SIMD batches equal scalar arithmetic lane by lane",
  "Addition, subtraction and multiplication of float, double and half-precision batches, and of complex numbers whose parts are such batches, give in every lane exactly what the scalar operation gives for that lane (the correctly rounded result; infinities, signed zeros, denormals and NaN as the scalar operation has them), broadcast fills every lane with the exact value, and load/store move exactly one batch of consecutive elements, bit for bit, without touching neighbours, for every batch type that exists on the build's instruction set.",
  ["inputs","configurations"],"all lane values and positions, batch types and instruction sets",
  "Tests run one instruction set with a few values.",
  ["simd/native.hpp","simd/sse2.hpp","simd/avx.hpp","simd/avx512.hpp","complex/scalar_complex.hpp"],
  [("intrinsics per instruction set, complex shuffles","simd/avx.hpp")],[],["operator+","operator-","operator*","load_unaligned","store_unaligned","broadcast"])
p("P23","Integer and bit helpers are exact over their whole range",
  "bit_ceil is the smallest power of two not below its (non-zero) argument, bit_log2 the floor of the logarithm, next_order the ceiling and size(order) its inverse; ipow is the exact power, idiv the quotient by a positive divisor rounded up, is_odd/is_even the parity (negative values included), bit_cast keeps every bit. The versions with and without the standard library's bit functions agree.",
  ["inputs","configurations"],"all arguments representable in the types, both build configurations",
  "Tests use small tables; the fallback code is not built.",
  ["bit/bit_ceil.hpp","bit/bit_log2.hpp","bit/bit_cast.hpp","fft/order.hpp","math/ipow.hpp","math/idiv.hpp","math/is_even.hpp","math/is_odd.hpp"],
  [("bit smearing / counting","bit/bit_ceil.hpp")],[],["bit_ceil","bit_log2","next_order","ipow","idiv","is_odd","is_even","bit_cast"])
p("P24","Logarithmic scales are accurate and monotone",
  "Amplitude to decibel conversion equals 20 log10 x (within rounding; within 0.01 dB in the estimating mode), never less than the given minus-infinity level (default -144 dB), which is also the answer for zero and negative gains, and increases monotonically. The fast log2 and log10 stay within 5e-4 of the true logarithm for all positive normal floats, and doubling the argument adds one. A-weighting equals the IEC 61672 curve, 0 dB at 1 kHz.",
  ["inputs","configurations"],"all positive inputs, precisions and build options",
  "Tests sample a few points.",
  ["unit/decibel.hpp","math/fast_math.hpp","math/a_weighting.hpp","math/precision.hpp"],
  [("polynomial approximation on the mantissa","math/fast_math.hpp"),("clamp at the floor","unit/decibel.hpp")],[],["amplitude_to_db","fast_log2","fast_log10","a_weighting"])
p("P25","Mel scale, bin frequencies and windows follow their formulas",
  "hertz_to_mel and mel_to_hertz are inverse to each other, strictly increasing and equal 2595 log10(1 + f/700); mel_frequencies are evenly spaced in mel between the given limits, rfftfreq is k times the sample rate over the size, and windows are symmetric with the Hann, Hamming or rectangular value at every index for every size >= 2, both generated and evaluated point by point.",
  ["inputs","configurations"],"all frequencies, sizes, rates and value types",
  "Tests sample a few values.",
  ["unit/mel.hpp","fft/rfftfreq.hpp","math/windowing.hpp"],
  [("closed formulas","unit/mel.hpp")],[],["hertz_to_mel","mel_to_hertz","mel_frequencies","rfftfreq","generate_window","fill_window"])
p("P26","The plugin's block-size adapter hands over every frame once, in order",
  "An effect that works on frames of F samples behind the plugin's overlap-add adapter (frames starting every H samples, H dividing F) behaves the same for every sequence of host block sizes: the stream since the last prepare or reset is cut into frames that start every H samples, each complete frame is handed to the effect exactly once and in order, scaled by 2H/F, and the processed frames are added up where they overlap and heard exactly F-1 samples late, with silence before. Preparing (also again, with other channels) and resetting forget everything, and reach the effect itself. Channels stay separate.",
  ["inputs","histories","configurations"],"all frame and hop sizes, channel counts, streams, and sequences of prepare / block of any size / reset",
  "The repository has no test of the plugin's adapter; it would have to cover every cut of a stream into blocks.",
  ["extra/plugin/src/dsp/ConstantOverlapAdd.hpp"],
  [("input window with write position and hop counter","extra/plugin/src/dsp/ConstantOverlapAdd.hpp"),("output queue with overlapped accumulation","extra/plugin/src/dsp/ConstantOverlapAdd.hpp")],
  [("window and queue","samples not yet framed / not yet heard","extra/plugin/src/dsp/ConstantOverlapAdd.hpp")],["prepare","processBlock / process","reset","processFrame"])
p("P27","The plugin's convolution effects output the convolution with the loaded impulse",
  "For every host block size the dense convolution effect outputs, frame size minus one samples late, the stream convolved channel by channel with the loaded impulse after all channels of the impulse were scaled by one common factor to at most unit energy and with the adapter's constant gain of two (the signal itself, with that gain, while no impulse is loaded); an impulse recorded at another rate is resampled first, a new impulse counts from the next frame on as if the past had been silent, and reset and prepare forget the past but keep the impulse as it was recorded. The simple convolution effect replaces blocks of the prepared size by the next samples of the convolution without latency, and passes other blocks unchanged. Offline dense convolution returns the convolution at the length of the signal; sparse convolution does so with those filter bins zero whose A-weighted level relative to the channel's loudest bin does not exceed the threshold (the lowest bins asked for get 100 dB instead of their weight).",
  ["inputs","histories","configurations"],"all impulses, frame and block sizes, channel counts and sequences of load / prepare / block / reset",
  "The repository has no test of the plugin's effects.",
  ["extra/plugin/src/dsp/DenseConvolution.hpp","extra/plugin/src/dsp/DenseConvolution.cpp","extra/plugin/src/dsp/Convolution.hpp","extra/plugin/src/dsp/AudioBuffer.cpp","extra/plugin/src/dsp/AudioFile.cpp","convolution/uniform_partition.hpp","convolution/normalize_impulse.hpp","convolution/uniform_partitioned_convolver.hpp"],
  [("one partitioned convolver per channel","extra/plugin/src/dsp/DenseConvolution.cpp"),("pending impulse applied at the next frame","extra/plugin/src/dsp/DenseConvolution.cpp")],
  [("impulse","the response in use and its rate","extra/plugin/src/dsp/DenseConvolution.hpp")],["loadImpulseResponse","prepareFrame","processFrame","resetFrame","dense_convolve","sparse_convolve"])
p("P28","The Python package computes what its functions promise for every array",
  "fft(x, n, norm) and ifft(x, n, norm) return the discrete Fourier transform of x cropped or padded with zeros to n samples (default: its length), divided by n, by its square root, or not at all as norm says, for every power-of-two size, precision and memory layout of the array, also when called from several threads at once; convolve returns the full linear convolution for every method (two samples or more for method fft); rfftfreq, amplitude_to_db, a_weighting, fast_log2 and fast_log10 agree with the library element by element and keep the shape and the precision (the fast logarithms are single precision). Arguments are never modified. Other sizes, dimensions, modes and norms raise an exception and leave the interpreter intact.",
  ["inputs","configurations","schedules"],"all arrays (length, type, strides), options and concurrent calls",
  "The package's tests sample a few arrays and are not built here.",
  ["extra/python/src/main.cpp","extra/python/src/neo/__init__.py","extra/python/src/neo/fft/__init__.py"],
  [("NumPy arrays viewed as mdspan of any layout","extra/python/src/main.cpp"),("interpreter lock released during the computation","extra/python/src/main.cpp")],[],["neo.fft.fft","neo.fft.ifft","neo.fft.rfftfreq","neo.convolve","neo.amplitude_to_db","neo.a_weighting","neo.fast_log2","neo.fast_log10"])
p("P29","The command-line convolver writes the convolution or fails and changes nothing",
  "A run of the command-line tool with a signal, a filter and an output name replaces the output (which may be one of the inputs) by a file of the signal's length, channels and rate that holds the convolution of each channel with the same channel of the filter, all channels scaled by one factor so that the loudest sample is one (silence stays silent), for every length of both, and exits with success. If a file is missing, damaged or empty, channels or rates differ, the output cannot be written or the number of arguments is wrong, it exits with failure and leaves every file as it was. If the disk fills up while the output is written it exits with failure as well and loses at most the output. Other files are never touched and none stays open.",
  ["inputs","histories","fault_sequences"],"all signals and filters, file states and sequences of runs on the same files",
  "The tool has no tests.",
  ["extra/cli/src/convolver.cpp","extra/cli/src/wav.hpp","convolution/uniform_partition.hpp","convolution/uniform_partitioned_convolver.hpp","algorithm/normalize_peak.hpp"],
  [("blocks through a partitioned convolver per channel","extra/cli/src/convolver.cpp"),("file access","extra/cli/src/wav.hpp")],
  [("files","content before and after the run","extra/cli/src/wav.hpp")],["exit status","files"])
p("P30","The plugin's files and measurements report what is there",
  "A recording the plugin writes replaces all that the file held, and loading it returns the same channels, samples and rate until it is written again; loading at another rate returns the requested rate and the same duration, at the same rate the samples themselves; a file that is missing or cannot be read gives an empty buffer. Running an effect over a buffer prepares it once, hands over every sample of every channel once, in order, in blocks of the given size (the last one shorter), and resets it at the end. The power histogram counts every bin once, at its level below the loudest bin (floor -72 dB) plus the weight of that bin, rounded to whole decibels and limited to 0..143, and the spectrogram image shows each bin, low bins at the bottom, dark exactly when that level reaches the threshold.",
  ["inputs","histories","fault_sequences"],"all recordings, rates, block sizes, spectrograms, weightings and sequences of writing, loading, damaging and removing files",
  "The repository has no test of the plugin's helpers.",
  ["extra/plugin/src/dsp/AudioFile.cpp","extra/plugin/src/dsp/AudioBuffer.cpp","extra/plugin/src/dsp/AudioBuffer.hpp","extra/plugin/src/dsp/Spectrum.cpp","unit/decibel.hpp"],
  [("reading and writing of recordings","extra/plugin/src/dsp/AudioFile.cpp"),("levels relative to the loudest bin","extra/plugin/src/dsp/Spectrum.cpp")],
  [("files","what each name holds","extra/plugin/src/dsp/AudioFile.cpp")],["load","loadAndResample","writeToWavFile","processBlocks","to_mdarray","powerHistogram","powerHistogramImage","powerSpectrumImage"])
p("P31","The plugin renders, saves and restores what its host asked for",
  "Apart from the mixer's smoothing of changes, each block the plugin returns is the output gain times the balanced mix (both full at the centre) of the input after the input gain, undelayed, and of the dense convolution effect of it, with the parameter values at the start of the block; gains reach from 0 to 4 with 1 in the middle and as default, the mix is wet by default. Every preparation, and releasing, starts from silence; a preparation uses the block size and rate it is given and the impulse file of that moment (the signal itself when there is none). Only mono or stereo with as many inputs as outputs is accepted. The saved state holds the parameter values of the moment of saving, and restoring it in this or another instance brings them back; data that is no state changes nothing. All registered listeners, and only they, are told each new specification once, and the last one can be queried.",
  ["inputs","histories","configurations"],"all histories of parameter changes, preparations, blocks, releases, savings, restorations and file changes, in one or several instances",
  "The repository has no test of the plugin.",
  ["extra/plugin/src/PluginProcessor.cpp","extra/plugin/src/PluginProcessor.hpp","extra/plugin/src/PerceptualConvolution.cpp","extra/plugin/src/PerceptualConvolution.hpp","extra/plugin/src/PluginParameter.cpp","extra/plugin/src/dsp/DenseConvolution.cpp"],
  [("signal path: gain, mixer, convolution, gain","extra/plugin/src/PerceptualConvolution.cpp"),("state tree and specification listeners","extra/plugin/src/PluginProcessor.cpp")],
  [("parameters","values of the moment","extra/plugin/src/PluginParameter.cpp"),("effect","made anew by every preparation","extra/plugin/src/PerceptualConvolution.cpp")],["prepareToPlay","processBlock","releaseResources","getStateInformation","setStateInformation","isBusesLayoutSupported","addProcessSpecListener","getProcessSpec"])
p("P32","The plugin's render tab renders what was chosen, into new files",
  "The editor's labels show the last specification of the host. A signal or impulse chosen in the editor is loaded at the host's rate, and again whenever that changes; cancelled choices, missing files and unreadable impulses change nothing. For the impulse the tab shows its name and length, and after every change of rate, dynamic range or weighting the spectrogram and histogram of its first channel and the share of the bins of its tail (beyond 512 samples, in blocks of 512) whose weighted level, relative to the loudest, exceeds minus the dynamic range. Rendering, with a readable signal that has no more channels than the impulse, writes one new 32-bit file per selected engine at the host's rate and the signal's length and one line of text, and changes no other file: the convolution of signal and impulse, channel by channel, scaled by one factor to a peak of one (from the dense effect late by its frame less one; from the simple effect in whole blocks of 4096; from the sparse engine with the bins that the dynamic range and the bins to keep leave). The quality report gives, for 180 dynamic ranges, the largest error of a channel between dense and sparse spectrogram, and writes no file. Without signal or impulse nothing is rendered. An editor that is closed drops the jobs that have not begun, and nothing touches it afterwards; a new one starts with its own defaults.",
  ["inputs","histories","configurations"],"all histories of choices, settings, host specifications, renderings and closings, at every point of the jobs and messages; recordings stay unchanged on disk, and nothing is chosen or prepared while jobs wait",
  "The repository has no test of the plugin.",
  ["extra/plugin/src/ui/BenchmarkTab.cpp","extra/plugin/src/ui/BenchmarkTab.hpp","extra/plugin/src/PluginEditor.cpp","extra/plugin/src/PluginEditor.hpp","extra/plugin/src/ui/ParameterTab.cpp","extra/plugin/src/core/StringArray.hpp"],
  [("choices, images, renderings","extra/plugin/src/ui/BenchmarkTab.cpp"),("labels and choice of the impulse","extra/plugin/src/PluginEditor.cpp")],
  [("recordings","as they sound at the host's rate","extra/plugin/src/ui/BenchmarkTab.cpp"),("jobs and messages","gone with the editor","extra/plugin/src/ui/BenchmarkTab.hpp")],["setImpulseResponseFile","processSpecChanged","createEditor"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
    import os
    for x in q['anchors']['files']: assert os.path.exists('/repo/'+x),x
