TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
BUGS=[]
def bug(**k): BUGS.append(k)
bug(id='p10-copied-plan',prop='P10',inc=['neo/fft.hpp','neo/container/mdspan.hpp','memory'],
 needs='a plan that was copied, and the original changed or destroyed',
 what='The real transform keeps a view of its own scratch: a copy goes on working in the memory of the plan it was copied from.',
 edits=[('fft/fallback/fallback_rfft_plan.hpp','        auto const buf    = _buffer.to_mdspan();\n','        auto const buf    = _view;\n'),
        ('fft/fallback/fallback_rfft_plan.hpp','_buffer{size()};\n','_buffer{size()};\n    stdex::mdspan<Complex, stdex::dextents<size_type, 1>> _view{_buffer.to_mdspan()};\n')],multi=True,
 demo='''
#include <thread>
#include <atomic>
int main() {
  constexpr int n = 4096;
  using plan = neo::fft::fallback_rfft_plan<double, std::complex<double>>;
  auto first  = plan{neo::fft::from_order, 12};
  auto second = first;
  std::atomic<int> bad{0};
  auto work = [&](plan& p, double amp) {
    std::vector<double> x(n, 0.0); std::vector<std::complex<double>> y(n / 2 + 1);
    x[0] = amp;
    for (int k = 0; k < 400; ++k) {
      p(stdex::mdspan<double const, stdex::dextents<std::size_t, 1>>{x.data(), n}, stdex::mdspan<std::complex<double>, stdex::dextents<std::size_t, 1>>{y.data(), n / 2 + 1});
      for (auto v : y) if (std::abs(v - amp) > 1e-6) bad++;
    }
  };
  std::thread a(work, std::ref(first), 1.0), b(work, std::ref(second), 5.0);
  a.join(); b.join();
  CHECK(bad == 0);
  return 0; }
''',flags='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -pthread')
bug(id='p07-one-beyond',prop='P07',inc=['neo/convolution/fft_convolver.hpp','neo/container/mdspan.hpp'],
 needs='an output of 2^k + 1 samples with k at least 12',
 what='The transform of long convolutions is chosen one sample too small: when the output is just longer than a power of two its ends fall onto each other.',
 edits=[('convolution/fft_convolver.hpp','fft::next_order(output_size())}','fft::next_order(output_size() - (output_size() > 4096 ? 1 : 0))}')],
 demo='''
int main() {
  for (std::size_t total : {65, 1025, 4097, 8193}) {
    std::size_t const l = 5, n = total - l + 1;
    auto x = stdex::mdarray<double, stdex::dextents<std::size_t, 1>>{n};
    auto h = stdex::mdarray<double, stdex::dextents<std::size_t, 1>>{l};
    for (std::size_t i = 0; i < n; ++i) x(i) = double(i % 7) + 1;
    for (std::size_t i = 0; i < l; ++i) h(i) = double(i) + 1;
    auto y = neo::convolution::fft_convolve(x.to_mdspan(), h.to_mdspan());
    CHECK(y.extent(0) == total);
    CHECK(std::abs(y(0) - x(0) * h(0)) < 1e-6);
    CHECK(std::abs(y(total - 1) - x(n - 1) * h(l - 1)) < 1e-6);
  }
  return 0; }
''')
bug(id='p04-narrow-window',prop='P04',inc=['neo/convolution/overlap_save.hpp','neo/container/mdspan.hpp'],
 needs='a transform of 65536 samples or more',
 what='The window of overlap-save is moved with a 16-bit bound: long filters lose their history.',
 edits=[('convolution/overlap_save.hpp','        for (auto i{step}; i < transform_size(); ++i) {\n            window[i - step] = window[i];','        auto const last = static_cast<std::uint16_t>(transform_size());\n        for (auto i{step}; i < last; ++i) {\n            window[i - step] = window[i];')],
 demo='''
int main() {
  std::size_t const B = 32768, F = 32769;
  auto ols = neo::convolution::overlap_save<std::complex<float>>{B, F};
  std::size_t const N = ols.transform_size();
  std::size_t const delay = 32768;
  auto x = stdex::mdarray<float, stdex::dextents<std::size_t, 1>>{B};
  std::vector<float> in, out;
  for (int k = 0; k < 4; ++k) {
    for (std::size_t i = 0; i < B; ++i) { x(i) = i % 1000 == std::size_t(k) ? float(k + 1) : 0.0F; in.push_back(x(i)); }
    ols(x.to_mdspan(), [&](auto spec) {
      for (std::size_t i = 0; i < spec.extent(0); ++i) {
        double const a = -2 * std::numbers::pi * double((i * delay) % N) / double(N);
        spec[i] *= std::complex<float>(float(std::cos(a)), float(std::sin(a)));
      }
    });
    for (std::size_t i = 0; i < B; ++i) out.push_back(x(i));
  }
  for (std::size_t i = 0; i < out.size(); ++i) CHECK(std::abs(out[i] - (i >= delay ? in[i - delay] : 0.0F)) < 1e-2F);
  return 0; }
''')
bug(id='p09-shared-scratch',prop='P09',inc=['neo/fft.hpp','neo/container/mdspan.hpp'],
 needs='two plans of one size used from two threads at once',
 what='Plans of arbitrary size share one scratch vector to save memory: they disturb each other when used at the same time.',
 edits=[('fft/fallback/fallback_dft_plan.hpp','        auto const a = _a.to_mdspan();','        static auto shared = _a;\n        auto const a       = shared.extent(0) == _a.extent(0) ? shared.to_mdspan() : _a.to_mdspan();')],
 demo='''
#include <thread>
#include <atomic>
int main() {
  constexpr std::size_t n = 600;
  std::atomic<int> bad{0};
  auto work = [&](double amp) {
    auto p = neo::fft::fallback_dft_plan<std::complex<double>>{n};
    std::vector<std::complex<double>> y(n);
    for (int k = 0; k < 600; ++k) {
      for (auto& v : y) v = 0;
      y[0] = amp;
      p(stdex::mdspan<std::complex<double>, stdex::dextents<std::size_t, 1>>{y.data(), n}, neo::fft::direction::forward);
      for (auto v : y) if (std::abs(v - amp) > 1e-6) bad++;
    }
  };
  std::thread a(work, 1.0), b(work, 5.0), c(work, 9.0);
  a.join(); b.join(); c.join();
  CHECK(bad == 0);
  return 0; }
''',flags='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -pthread')
