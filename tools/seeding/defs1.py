TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
B=[]
def bug(**k): B.append(k)
STREAM='''
using F = double; using C = std::complex<F>;
namespace cv = neo::convolution; namespace sx = stdex;
static auto part(std::vector<F> h, std::size_t b) { return cv::uniform_partition(sx::mdspan<F, sx::dextents<std::size_t,2>>{h.data(), 1, h.size()}, b); }
template<typename T> static auto vec(std::vector<T>& v) { return sx::mdspan<T, sx::dextents<std::size_t,1>>{v.data(), v.size()}; }
static auto lin(std::vector<F> const& x, std::vector<F> const& h) { std::vector<F> y(x.size() + h.size() - 1, 0); for (std::size_t i=0;i<x.size();++i) for (std::size_t j=0;j<h.size();++j) y[i+j]+=x[i]*h[j]; return y; }
static auto noise(std::size_t n, int s) { std::mt19937 g(s); std::vector<F> v(n); for (auto& e : v) e = int(g()%21)-10; return v; }
static bool near(F a, F b) { return std::fabs(a-b) < 1e-6; }
'''
bug(id='p01-stale-overlap',prop='P01',inc=['neo/algorithm/fill.hpp','neo/convolution/dense_convolver.hpp','neo/convolution/uniform_partition.hpp'],
 needs='a filter of the same block size loaded after some blocks were processed',
 what='The overlap buffer is kept when the block size did not change, so the tail of the stream before the reload leaks into the first block after it.',
 edits=[('convolution/uniform_partitioned_convolver.hpp','    _overlap     = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};\n','    if (_overlap.block_size() != filter.extent(1) - 1) {\n        _overlap = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};\n    }\n')],
 demo=STREAM+'''
int main() {
  auto run = [](auto conv) {
    auto h1 = noise(20, 1), h2 = noise(9, 2);
    auto p1 = part(h1, 8), p2 = part(h2, 8);
    auto sub = [](auto& p) { return sx::submdspan(p.to_mdspan(), 0, sx::full_extent, sx::full_extent); };
    conv.filter(sub(p1));
    auto x = noise(32, 3); for (int b=0;b<4;++b) { std::vector<F> blk(x.begin()+8*b, x.begin()+8*b+8); conv(vec(blk)); }
    conv.filter(sub(p2));
    auto y = lin(x, h2);
    for (int b=0;b<4;++b) { std::vector<F> blk(x.begin()+8*b, x.begin()+8*b+8); conv(vec(blk)); for (int i=0;i<8;++i) CHECK(near(blk[i], y[8*b+i])); }
    return 0; };
  CHECK(run(cv::upols_convolver<C>{}) == 0);
  CHECK(run(cv::upola_convolver<C>{}) == 0);
  return 0; }
''')
bug(id='p02-stale-bins',prop='P02',inc=['neo/algorithm/fill.hpp','neo/convolution/sparse_filter.hpp'],
 needs='a second pattern of the same shape that drops bins the first one kept',
 what='Reloading a sparse filter of the same shape inserts into the old matrix, so bins the new predicate rejects keep their old values.',
 edits=[('convolution/sparse_filter.hpp','        _filter = csr_matrix<Complex>{input, sparsity};\n','''        if (_filter.rows() == input.extent(0) and _filter.columns() == input.extent(1)) {
            for (index_type row{0}; row < input.extent(0); ++row) {
                for (index_type col{0}; col < input.extent(1); ++col) {
                    if (sparsity(row, col, input(row, col))) {
                        _filter.insert(row, col, input(row, col));
                    }
                }
            }
            return;
        }
        _filter = csr_matrix<Complex>{input, sparsity};
''')],
 demo='''
using C = std::complex<double>; namespace sx = stdex;
int main() {
  auto f = neo::convolution::sparse_filter<C>{};
  std::vector<C> m{{1,1},{2,0},{3,0},{4,0},{5,0},{6,0}};
  auto mat = sx::mdspan<C, sx::dextents<std::size_t,2>>{m.data(), 2, 3};
  f.filter(mat, [](auto, auto, auto) { return true; });
  f.filter(mat, [](auto, auto c, auto) { return c == 1; });
  std::vector<C> x(3, C{1,0}), acc(3);
  f(sx::mdspan<C, sx::dextents<std::size_t,1>>{x.data(),3}, 1, sx::mdspan<C, sx::dextents<std::size_t,1>>{acc.data(),3});
  CHECK(acc[0] == C{}); CHECK((acc[1] == C{5,0})); CHECK(acc[2] == C{});
  return 0; }
''')
bug(id='p03-split-block',prop='P03',inc=['neo/algorithm/fill.hpp','neo/convolution/dense_convolver.hpp','neo/convolution/uniform_partition.hpp'],
 needs='a response of at least two segments and a block that starts in one chunk and ends in the next',
 what='The contribution of older segments is only refreshed when a whole block arrives at once.',
 edits=[('convolution/overlap_add_convolver.hpp','''        auto const input_was_empty = (_input_pos == 0);
        auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
''','''        auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
        auto const input_was_empty = (_input_pos == 0) and (num_to_process == _block_size);
''')],
 demo=STREAM+'''
int main() {
  auto conv = cv::upola_convolver_v2<C>{}; auto h = noise(30, 1); auto p = part(h, 8);
  conv.filter(sx::submdspan(p.to_mdspan(), 0, sx::full_extent, sx::full_extent));
  auto x = noise(80, 2); auto y = lin(x, h); std::size_t pos = 0;
  for (auto n : {8, 11, 9, 16, 13, 8}) { std::vector<F> c(x.begin()+pos, x.begin()+pos+n); conv(vec(c)); for (int i=0;i<n;++i) CHECK(near(c[i], y[pos+i])); pos += n; }
  return 0; }
''')
bug(id='p04-transform-one-short',prop='P04',inc=['neo/algorithm/fill.hpp','neo/algorithm/multiply.hpp','neo/convolution/overlap_save.hpp'],
 needs='block + filter - 1 equal to a power of two plus one',
 what='The transform of overlap-save is sized for one sample less than needed, so the oldest output sample of the block aliases.',
 edits=[('convolution/overlap_save.hpp','fft::next_order(_block_size + _filter_size - 1UL)','fft::next_order(_block_size + _filter_size - 1UL - (_block_size > 1UL ? 1UL : 0UL))')],
 demo=STREAM.replace('static auto part(std::vector<F> h, std::size_t b) { return cv::uniform_partition(sx::mdspan<F, sx::dextents<std::size_t,2>>{h.data(), 1, h.size()}, b); }','')+'''
int main() {
  auto ols = cv::overlap_save<C>{6, 4};
  CHECK(ols.transform_size() == 16);
  return 0; }
''')
bug(id='p05-narrow-index',prop='P05',inc=['neo/convolution/fdl_index.hpp'],
 needs='an 8-bit index type and more than 127 segments',
 what='The slot/filter pairing is computed in the index type and wraps around before the modulo.',
 edits=[('convolution/fdl_index.hpp','static_cast<IndexType>((_write_pos + _num_segments - segment) % _num_segments)','static_cast<IndexType>(static_cast<IndexType>(_write_pos + _num_segments - segment) % _num_segments)')],
 demo='''
int main() {
  for (int n : {3, 100, 200, 255}) {
    auto idx = neo::convolution::fdl_index<std::uint8_t>{static_cast<std::uint8_t>(n)}; std::vector<int> when(n, -100000);
    for (int t = 0; t < 2*n+3; ++t) { int bad = 0;
      idx([&](auto w) { when[w] = t; }, [&](auto s, auto f) { if (t - when[s] < n && f != t - when[s]) ++bad; });
      CHECK(bad == 0); } }
  return 0; }
''')
bug(id='p06-short-signal',prop='P06',inc=['neo/algorithm/fill.hpp','neo/fft/stft.hpp'],
 needs='a signal not longer than one frame but longer than the hop',
 what='Signals that fit into one frame give one frame instead of ceil(L / hop).',
 edits=[('fft/stft.hpp','        auto const num_frames = detail::num_sftf_frames(signal_len, frame_len, overlap);','        auto const num_frames = (signal_len != 0 and signal_len <= frame_len) ? std::size_t(1) : detail::num_sftf_frames(signal_len, frame_len, overlap);')],
 demo='''
namespace sx = stdex;
int main() {
  std::vector<float> x(7, 1.0F);
  auto r = neo::fft::stft(sx::mdspan<float, sx::dextents<std::size_t,2>>{x.data(), 1, 7}, {.frame_size = 8, .transform_size = 8, .overlap_size = 6, .window = neo::rectangular_window<float>{}});
  CHECK(r.extent(1) == 4);
  return 0; }
''')
bug(id='p07-reused-convolver',prop='P07',inc=['neo/algorithm/fill.hpp','neo/convolution/fft_convolver.hpp'],
 needs='a convolver object used for a second signal',
 what='Zero padding stops at the longer operand, so results of the previous call remain in the transform buffer.',
 edits=[('convolution/fft_convolver.hpp','std::tuple{in.extent(0), tmp.extent(0)}','std::tuple{in.extent(0), std::max(signal_size(), patch_size())}')],
 demo=STREAM.replace('static auto part(std::vector<F> h, std::size_t b) { return cv::uniform_partition(sx::mdspan<F, sx::dextents<std::size_t,2>>{h.data(), 1, h.size()}, b); }','')+'''
int main() {
  auto c = cv::fft_convolver<F>{9, 5};
  for (int s=0;s<3;++s) { auto x = noise(9, s), h = noise(5, s+10); std::vector<F> out(13); c(vec(x), vec(h), vec(out)); auto y = lin(x,h); for (int i=0;i<13;++i) CHECK(near(out[i], y[i])); }
  return 0; }
''')
FFT='''
namespace sx = stdex; namespace ff = neo::fft;
template<typename C, typename P> static bool is_dft(P& plan, std::size_t n, double tol) {
  for (auto dir : {ff::direction::forward, ff::direction::backward}) {
    std::mt19937 g(n); std::vector<C> x(n); for (auto& e : x) e = C(int(g()%9)-4, int(g()%9)-4);
    auto y = x; plan(sx::mdspan<C, sx::dextents<std::size_t,1>>{y.data(), n}, dir);
    double s = dir == ff::direction::forward ? -1 : 1;
    for (std::size_t k=0;k<n;k += (n > 4096 ? n/37 : 1)) { std::complex<double> a{}; for (std::size_t j=0;j<n;++j) a += std::complex<double>(x[j].real(), x[j].imag()) * std::polar(1.0, s*2*std::numbers::pi*double((j*k)%n)/n);
      if (std::abs(std::complex<double>(y[k].real(), y[k].imag()) - a) > tol * n) return false; } }
  return true; }
'''
bug(id='p08-dif8-twiddle',prop='P08',inc=['neo/algorithm/fill.hpp','neo/fft.hpp','neo/fft/reference/c2c_stockham_dif8_plan.hpp'],
 needs='the radix-8 plan at order >= 2',
 what='One of the seven rotations of the radix-8 butterfly uses the wrong exponent; size 8 does not show it.',
 edits=[('fft/reference/c2c_stockham_dif8_plan.hpp','twiddle<Complex>(l * 8, 6 * j, dir)','twiddle<Complex>(l * 8, 2 * j, dir)')],
 demo=FFT+'''
int main() { using C = std::complex<double>; for (std::size_t o : {1,2,3}) { auto p = ff::c2c_stockham_dif8_plan<C>{ff::from_order, o}; CHECK(is_dft<C>(p, p.size(), 1e-8)); } return 0; }
''')
bug(id='p08-twiddle-recurrence',prop='P08',inc=['neo/algorithm/fill.hpp','neo/fft.hpp'],also=['P01'],
 needs='single precision and a large transform (error grows with the size)',
 what='The rotation table is built by repeated multiplication; in float the accumulated error makes large transforms inaccurate.',
 edits=[('fft/twiddle.hpp','''    for (std::size_t i = 0; i < lut_size; ++i) {
        lut[i] = twiddle<Complex>(size, i, dir);
    }
''','''    auto const step = twiddle<Complex>(size, std::size_t(1), dir);
    auto w          = twiddle<Complex>(size, std::size_t(0), dir);
    for (std::size_t i = 0; i < lut_size; ++i) {
        lut[i] = w;
        w      = w * step;
    }
''')],
 demo=FFT+'''
int main() { using C = std::complex<float>; std::size_t n = 1 << 16; auto p = ff::fft_plan<C>{ff::from_order, 16};
  std::vector<C> x(n); x[1] = 1; p(sx::mdspan<C, sx::dextents<std::size_t,1>>{x.data(), n}, ff::direction::forward);
  double e = 0; for (std::size_t k=0;k<n;++k) e = std::max(e, std::abs(std::complex<double>(x[k]) - std::polar(1.0, -2*std::numbers::pi*k/n)));
  std::printf("%g\\n", e); CHECK(e < 2e-6); return 0; }
''')
bug(id='p09-square-overflow',prop='P09',inc=['neo/algorithm/fill.hpp','neo/fft.hpp','neo/fft/dft.hpp'],
 needs='a transform of more than 65536 points that is not covered by smaller sizes',
 what='The chirp index is squared in 32 bits and overflows for indices above 65535.',
 edits=[('fft/fallback/fallback_dft_plan.hpp','static_cast<Float>((i * i) % (size * 2))','static_cast<Float>((static_cast<std::uint32_t>(i) * static_cast<std::uint32_t>(i)) % (size * 2))')],
 demo=FFT+'''
int main() { using C = std::complex<double>; std::size_t n = 65543; auto p = ff::dft_plan<C>{n};
  std::vector<C> x(n); x[65540] = 1; p(sx::mdspan<C, sx::dextents<std::size_t,1>>{x.data(), n}, ff::direction::forward);
  double e = 0; for (std::size_t k=0;k<n;++k) e = std::max(e, std::abs(x[k] - std::polar(1.0, -2*std::numbers::pi*double((k*65540)%n)/n)));
  CHECK(e < 1e-6); return 0; }
''')
bug(id='p10-nyquist-two',prop='P10',inc=['neo/algorithm/fill.hpp','neo/fft.hpp','neo/fft/rfft.hpp'],
 needs='a spectrum of two bins',
 what='The Nyquist bin is handled separately and forgotten for spectra of size two.',
 edits=[('fft/rfft.hpp','''    for (auto k{1}; k < n / 2 + 1; ++k) {''','''    if (n > 2 and n % 2 == 0) {
        x[n / 2] = math::real(dft[n / 2]);
        y[n / 2] = math::imag(dft[n / 2]);
    }

    for (auto k{1}; k < (n + 1) / 2; ++k) {''')],
 demo='''
namespace sx = stdex; using C = std::complex<double>;
int main() { std::vector<C> z{{3,5},{7,11}}, x(2), y(2); auto v = [](auto& q) { return sx::mdspan<C, sx::dextents<std::size_t,1>>{q.data(), 2}; };
  neo::fft::rfft_deinterleave(v(z), v(x), v(y)); CHECK((x[1] == C{7,0})); CHECK((y[1] == C{11,0})); return 0; }
''')
bug(id='p11-narrow-table',prop='P11',inc=['neo/algorithm/fill.hpp','neo/fft.hpp'],
 needs='more than 65536 elements',
 what='The bit-reversal table holds 16-bit indices.',
 edits=[('fft/reference/bitrevorder.hpp','''        auto table       = std::vector<std::uint32_t>(size, 0);
''','''        auto table       = std::vector<std::uint16_t>(size, 0);
'''),('fft/reference/bitrevorder.hpp','''        return table;
''','''        return {table.begin(), table.end()};
''')],
 demo='''
namespace sx = stdex; using C = std::complex<float>;
int main() { std::size_t o = 17, n = 1u << o; std::vector<C> x(n); for (std::size_t i=0;i<n;++i) x[i] = C(float(i), 0);
  auto p = neo::fft::bitrevorder_plan{o}; p(sx::mdspan<C, sx::dextents<std::size_t,1>>{x.data(), n});
  for (std::size_t i=0;i<n;++i) { std::size_t r=0; for (std::size_t b=0;b<o;++b) r |= ((i>>b)&1) << (o-1-b); CHECK(x[i].real() == float(r)); } return 0; }
''')
bug(id='p12-skip-zero',prop='P12',inc=['neo/algorithm/multiply_add.hpp'],
 needs='a stored value of zero and an output that is not the addend',
 what='Stored zeros are skipped, so the output at their column is not set to the addend.',
 edits=[('algorithm/multiply_add.hpp','''        auto col = rcols[i];
        out[col]''','''        if (rvals[i] == U{}) {
            continue;
        }
        auto col = rcols[i];
        out[col]''')],
 demo='''
namespace sx = stdex;
int main() { auto m = neo::csr_matrix<double>{1, 3}; m.insert(0, 0, 2.0); m.insert(0, 2, 0.0);
  std::vector<double> x{1,1,1}, z{5,6,7}, o{-1,-1,-1}; auto v = [](auto& q) { return sx::mdspan<double, sx::dextents<std::size_t,1>>{q.data(), 3}; };
  neo::multiply_add(v(x), m, 0, v(z), v(o)); CHECK(o[0] == 7); CHECK(o[1] == -1); CHECK(o[2] == 7); return 0; }
''')
bug(id='p13-alias',prop='P13',inc=['neo/algorithm/multiply_add.hpp'],
 needs='strided vectors and an output that is also a factor',
 what='The generic loop writes the addend to the output before reading the factors.',
 edits=[('algorithm/multiply_add.hpp','''        out[i] = x[i] * y[i] + z[i];
    }
}

/// Multiply-Add \\f$out = x * y[row] + z\\f$''','''        out[i] = z[i];
        out[i] += x[i] * y[i];
    }
}

/// Multiply-Add \\f$out = x * y[row] + z\\f$''')],
 demo='''
namespace sx = stdex;
int main() { std::vector<double> x{2,0,3,0,4,0}, y{5,6,7}, z{1,1,1};
  auto v = [](auto& q) { return sx::mdspan<double, sx::dextents<std::size_t,1>>{q.data(), 3}; };
  using E = sx::dextents<std::size_t,1>; auto xs = sx::mdspan<double, E, sx::layout_stride>{x.data(), typename sx::layout_stride::mapping<E>{E{3}, std::array<std::size_t,1>{2}}};
  neo::multiply_add(xs, v(y), v(z), xs); CHECK(x[0] == 11); CHECK(x[2] == 19); CHECK(x[4] == 29); return 0; }
''')
bug(id='p13-sse2-double',prop='P13',inc=['neo/algorithm/multiply_add.hpp'],flags='-O1 -march=x86-64',
 needs='a build without AVX, split-complex doubles',
 what='The SSE2 batch of doubles claims four lanes but moves two, so every other pair is skipped.',
 edits=[('algorithm/multiply_add.hpp','''    static constexpr auto const size   = 128 / 64;''','''    static constexpr auto const size   = 128 / 32;''')],
 demo='''
namespace sx = stdex;
int main() { std::vector<double> a(8, 2.0), b(8, 3.0), c(8, 1.0), r(8, 0.0), i(8, 0.0);
  auto v = [](auto& q) { return sx::mdspan<double, sx::dextents<std::size_t,1>>{q.data(), 8}; };
  neo::multiply_add(neo::split_complex{v(a), v(b)}, neo::split_complex{v(a), v(b)}, neo::split_complex{v(c), v(c)}, neo::split_complex{v(r), v(i)});
  for (int k=0;k<8;++k) { CHECK(r[k] == -4); CHECK(i[k] == 13); } return 0; }
''')
bug(id='p14-linear-copy',prop='P14',inc=['neo/algorithm/copy.hpp'],
 needs='matrices of different layouts',
 what='Contiguous matrices are copied in storage order even when one is column-major.',
 edits=[('algorithm/copy.hpp','''    } else {
        for (auto i{0ULL}; i < in_obj.extent(0); ++i) {
            for''','''    } else if constexpr (InObj::is_always_exhaustive() and OutObj::is_always_exhaustive()) {
        for (auto i{0ULL}; i < in_obj.size(); ++i) {
            out_obj.data_handle()[i] = in_obj.accessor().access(in_obj.data_handle(), i);
        }
    } else {
        for (auto i{0ULL}; i < in_obj.extent(0); ++i) {
            for''')],
 demo='''
namespace sx = stdex;
int main() { std::vector<double> a{1,2,3,4,5,6}, b(6); using E = sx::dextents<std::size_t,2>;
  auto l = sx::mdspan<double, E, sx::layout_left>{b.data(), E{2,3}}; neo::copy(sx::mdspan<double, E>{a.data(), 2, 3}, l);
  CHECK(l(0,1) == 2); CHECK(l(1,0) == 4); CHECK(l(1,2) == 6); return 0; }
''')
bug(id='p15-one-pass',prop='P15',inc=['neo/algorithm/variance.hpp'],
 needs='data with a mean much larger than its spread',
 what='Variance is computed as mean of squares minus square of mean and cancels.',
 edits=[('algorithm/variance.hpp','''            auto const diff = x[i] - avg;
            deviation += diff * diff;
        }
    } else {''','''            deviation += x[i] * x[i];
        }
        deviation -= avg * avg * static_cast<Float>(x.size());
    } else {''')],
 demo='''
namespace sx = stdex;
int main() { std::vector<float> x{10001, 10003, 10001, 10003}; auto v = neo::variance(sx::mdspan<float, sx::dextents<std::size_t,1>>{x.data(), 4});
  CHECK(v.has_value()); CHECK(std::fabs(*v - 1.0F) < 1e-3F); return 0; }
''')
bug(id='p15-nan-close',prop='P15',inc=['neo/algorithm/allclose.hpp'],
 needs='a NaN in one operand',
 what='The comparison is negated, so a NaN counts as close.',
 edits=[('algorithm/allclose.hpp','math::abs(left - right) <= tolerance;','not(math::abs(left - right) > tolerance);')],
 demo='''
namespace sx = stdex;
int main() { std::vector<double> x{1, std::nan("")}, y{1, 2}; auto v = [](auto& q) { return sx::mdspan<double, sx::dextents<std::size_t,1>>{q.data(), 2}; };
  CHECK(not neo::allclose(v(x), v(y))); CHECK(neo::allclose(v(y), v(y))); return 0; }
''')
bug(id='p16-quiet',prop='P16',inc=['neo/algorithm/normalize_energy.hpp'],
 needs='a quiet but not silent signal',
 what='Signals with an energy below machine epsilon are taken for silent.',
 edits=[('algorithm/normalize_energy.hpp','if (float_equality::exact(energy, Float(0)))','if (energy <= std::numeric_limits<Float>::epsilon())')],
 demo='''
namespace sx = stdex;
int main() { std::vector<float> x{3e-5F, 4e-5F}; neo::normalize_energy(sx::mdspan<float, sx::dextents<std::size_t,1>>{x.data(), 2});
  CHECK(std::fabs(x[0] - 0.6F) < 1e-4F); CHECK(std::fabs(x[1] - 0.8F) < 1e-4F); return 0; }
''')
bug(id='p17-division',prop='P17',inc=['neo/fixed_point/fixed_point.hpp'],shim=False,
 needs='a negative product that is not a multiple of one',
 what='Products are divided instead of shifted, so negative results round up.',
 edits=[('fixed_point/fixed_point.hpp','(lhs.value() * rhs.value()) >> fractional_bits','(lhs.value() * rhs.value()) / (1 << fractional_bits)')],
 demo='''
int main() { auto a = neo::q15{neo::underlying_value, -3}, b = neo::q15{neo::underlying_value, 5}; CHECK((a*b).value() == -1); CHECK((b*b).value() == 0); return 0; }
''')
bug(id='p18-wrapped-compare',prop='P18',inc=['neo/fixed_point/fixed_point.hpp'],shim=False,
 needs='operands whose difference leaves the range',
 what='Less-than looks at the sign of the difference in the storage type, which wraps.',
 edits=[('fixed_point/fixed_point.hpp','{ return lhs.value() < rhs.value(); }','{ return static_cast<IntType>(lhs.value() - rhs.value()) < 0; }')],
 demo='''
int main() { auto a = neo::q7{neo::underlying_value, -100}, b = neo::q7{neo::underlying_value, 100}; CHECK(a < b); CHECK(not (b < a)); return 0; }
''')
bug(id='p19-overlapping-tail',prop='P19',inc=['neo/fixed_point/algorithm.hpp'],shim=False,
 needs='output span equal to an input span and a length that is not a multiple of the batch',
 what='The tail is handled by a last, overlapping batch; in place, the overlapped elements are processed twice.',
 edits=[('simd/sse2.hpp','''    for (auto i{0}; i < remainder; ++i) {
        out[static_cast<size_t>(i)] = scalar_kernel(lhs[static_cast<size_t>(i)], rhs[static_cast<size_t>(i)]);
    }

    for (auto i{remainder};''','''    if (std::ssize(lhs) < vector_size) {
        for (auto i{0}; i < remainder; ++i) {
            out[static_cast<size_t>(i)] = scalar_kernel(lhs[static_cast<size_t>(i)], rhs[static_cast<size_t>(i)]);
        }
        return;
    }

    if (remainder != 0) {
        auto const left  = _mm_loadu_si128(reinterpret_cast<__m128i const*>(lhs.data()));
        auto const right = _mm_loadu_si128(reinterpret_cast<__m128i const*>(rhs.data()));
        _mm_storeu_si128(reinterpret_cast<__m128i*>(out.data()), vector_kernel(left, right));
    }

    for (auto i{remainder};''')],
 demo='''
#include <span>
int main() { using Q = neo::q15; for (int n : {3, 8, 11, 16, 21}) { std::vector<Q> a, b; for (int i=0;i<n;++i) { a.push_back(Q{neo::underlying_value, std::int16_t(100+i)}); b.push_back(Q{neo::underlying_value, std::int16_t(7)}); }
  neo::add(std::span<Q const>{a}, std::span<Q const>{b}, std::span<Q>{a}); for (int i=0;i<n;++i) CHECK(a[i].value() == 107+i); } return 0; }
''')
bug(id='p20-inv-scale',prop='P20',inc=['neo/complex.hpp','neo/container/compressed_accessor.hpp'],
 needs='complex integer storage',
 what='Complex storage is divided by max + 1 instead of max.',
 edits=[('container/compressed_accessor.hpp','constexpr auto inv_scale = element_real_t(1) / static_cast<element_real_t>(max_val);','constexpr auto inv_scale = element_real_t(1) / (static_cast<element_real_t>(max_val) + element_real_t(1));')],
 demo='''
namespace sx = stdex;
int main() { using I = neo::scalar_complex<std::int8_t>; using A = sx::default_accessor<I>; I v[1]{I{127, -127}};
  auto acc = neo::compressed_accessor<std::complex<float>, A>{A{}}; auto r = acc.access(v, 0); CHECK(std::fabs(r.real()-1) < 1e-6F); CHECK(std::fabs(r.imag()+1) < 1e-6F); return 0; }
''')
bug(id='p21-self-multiply',prop='P21',inc=['neo/complex/scalar_complex.hpp'],shim=False,
 needs='an object multiplied with itself in place',
 what='Compound multiplication reads the right operand after the real part of the left one was replaced; z *= z is wrong.',
 edits=[('complex/scalar_complex.hpp','        lhs = lhs * rhs;\n','''        auto const re = lhs.real() * rhs.real() - lhs.imag() * rhs.imag();
        auto const lr = lhs.real();
        lhs.real(re);
        lhs.imag(lr * rhs.imag() + lhs.imag() * rhs.real());
''')],
 demo='''
int main() { auto z = neo::complex128{2, 3}; z *= z; CHECK(z.real() == -5); CHECK(z.imag() == 12); auto a = neo::complex128{1,2}; a *= neo::complex128{3,4}; CHECK(a.real() == -5); CHECK(a.imag() == 10); return 0; }
''')
bug(id='p22-half-rounding',prop='P22',inc=['neo/simd.hpp'],shim=False,
 needs='half-precision batches and results that are not representable',
 what='Results of half-precision batches are truncated instead of rounded to nearest.',
 edits=[('simd/avx.hpp','return _mm256_cvtps_ph(product, _MM_FROUND_CUR_DIRECTION);','return _mm256_cvtps_ph(product, _MM_FROUND_TO_ZERO);')],
 demo='''
int main() { _Float16 a[8], b[8], r[8]; for (int i=0;i<8;++i) { a[i] = _Float16(2047 - i); b[i] = _Float16(3); }
  auto v = neo::float16x8::load_unaligned(a) * neo::float16x8::load_unaligned(b); v.store_unaligned(r);
  for (int i=0;i<8;++i) CHECK(float(r[i]) == float(_Float16(a[i]*b[i]))); return 0; }
''')
bug(id='p23-log2-double',prop='P23',inc=['neo/bit.hpp'],shim=False,
 needs='a 64-bit value close below a power of two above 2^53',
 what='The logarithm is taken from the exponent of the value converted to double, which rounds up.',
 edits=[('bit/bit_log2.hpp','''    auto result = UInt{0};
''','''    if constexpr (sizeof(UInt) == 8) {
        return x == UInt{0} ? UInt{0} : static_cast<UInt>((__builtin_bit_cast(UInt, static_cast<double>(x)) >> 52U) - 1023U);
    }
    auto result = UInt{0};
''')],
 demo='''
int main() { CHECK(neo::bit_log2(std::uint64_t{(1ULL<<60)-1}) == 59); CHECK(neo::bit_log2(std::uint64_t{1ULL<<60}) == 60); CHECK(neo::bit_log2(std::uint64_t{1000}) == 9); return 0; }
''')
bug(id='p24-floor',prop='P24',inc=['neo/unit/decibel.hpp'],shim=False,
 needs='a gain between the floor and -140 dB, or a floor below the default',
 what='Gains below 1e-7 return minus infinity level although they are above it.',
 edits=[('unit/decibel.hpp','if (gain <= Float(0)) {','if (gain <= Float(1e-7)) {')],
 demo='''
int main() { CHECK(std::fabs(neo::amplitude_to_db(1e-8, -200.0) + 160.0) < 1e-6); CHECK(std::fabs(neo::amplitude_to_db(0.8e-7) + 141.938) < 1e-2); return 0; }
''')
bug(id='p25-middle',prop='P25',inc=['neo/math/windowing.hpp'],
 needs='an odd window size',
 what='Windows are filled from both ends and the middle element of odd sizes is never written.',
 edits=[('math/windowing.hpp','''    for (auto i = std::size_t(0); i < size; ++i) {
        vec(i) = window(i, size);
    }
''','''    for (auto i = std::size_t(0); i < size / 2; ++i) {
        vec(i)            = window(i, size);
        vec(size - 1 - i) = window(size - 1 - i, size);
    }
''')],
 demo='''
int main() { auto w = neo::generate_window<double>(5); CHECK(std::fabs(w(2) - 1.0) < 1e-12); CHECK(std::fabs(w(1) - 0.5) < 1e-12); return 0; }
''')
bug(id='p04-full-spectrum',prop='P04',inc=['neo/algorithm/fill.hpp','neo/convolution/overlap_save.hpp'],
 needs='overlap-save, whose spectrum buffer is longer than the half spectrum it fills',
 what='The inverse transform trusts a buffer of full length to hold the mirrored half; overlap-save passes one whose upper half is stale.',
 edits=[('fft/fallback/fallback_rfft_plan.hpp','''        for (auto i{coeffs}; i < size(); ++i) {
            buf[i]''','''        for (auto i{in.extent(0)}; i < size(); ++i) {
            buf[i]''')],
 demo=STREAM.replace('static auto part(std::vector<F> h, std::size_t b) { return cv::uniform_partition(sx::mdspan<F, sx::dextents<std::size_t,2>>{h.data(), 1, h.size()}, b); }','')+'''
int main() { auto ols = cv::overlap_save<C>{8, 9}; auto x = noise(8, 1); auto y = x; ols(vec(y), [](auto) {}); for (int i=0;i<8;++i) CHECK(near(x[i], y[i])); return 0; }
''')
bug(id='p05-negative-rounding',prop='P05',inc=['neo/algorithm/fill.hpp','neo/convolution/compressed_fdl.hpp'],
 needs='negative values',
 what='Compression rounds by adding one half and truncating, which is wrong below zero.',
 edits=[('convolution/compressed_fdl.hpp','static_cast<int_type>(std::lround(val * static_cast<float>(max_val)))','static_cast<int_type>(val * static_cast<float>(max_val) + 0.5F)')],
 demo='''
namespace sx = stdex;
int main() { using C = std::complex<float>; auto f = neo::convolution::compressed_fdl<C, neo::scalar_complex<std::int8_t>>{sx::dextents<std::size_t,2>{1, 2}};
  std::vector<C> x{{-1.0F, 0.5F}, {-0.5F, 1.0F}}; f.insert(sx::mdspan<C, sx::dextents<std::size_t,1>>{x.data(), 2}, 0);
  CHECK(std::fabs(f[0][0].real() + 1.0F) < 1e-6F); CHECK(std::fabs(f[0][1].imag() - 1.0F) < 1e-6F); return 0; }
''')
bug(id='p06-stale-frame',prop='P06',inc=['neo/algorithm/fill.hpp','neo/fft/stft.hpp'],
 needs='a signal whose last frame is partial',
 what='The frame buffer is cleared once per call, so a partial frame still holds the end of the frame before.',
 edits=[('fft/stft.hpp','''                fill(in, Float(0));
''',''),('fft/stft.hpp','''        for (auto ch_idx = std::size_t(0); ch_idx''','''        fill(in, Float(0));
        for (auto ch_idx = std::size_t(0); ch_idx''')],
 demo='''
namespace sx = stdex;
int main() { std::vector<float> x(6, 1.0F);
  auto r = neo::fft::stft(sx::mdspan<float, sx::dextents<std::size_t,2>>{x.data(), 1, 6}, {.frame_size = 4, .transform_size = 8, .overlap_size = 0, .window = neo::rectangular_window<float>{}});
  CHECK(std::fabs(r(0,0,0).real() - 4) < 1e-4); CHECK(std::fabs(r(0,1,0).real() - 2) < 1e-4); return 0; }
''')
BUGS=B
