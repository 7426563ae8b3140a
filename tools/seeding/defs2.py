TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
BUGS=[]
def bug(**k): BUGS.append(k)
JF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -Iextra/plugin/src -I"$D/juce"'
ADAPT='''
struct Echo final : neo::ConstantOverlapAdd<float> {
  using ConstantOverlapAdd<float>::ConstantOverlapAdd;
  void prepareFrame(juce::dsp::ProcessSpec const&) override {}
  void processFrame(juce::dsp::ProcessContextReplacing<float> const&) override {}
  void resetFrame() override {}
};
// the adapter alone is a delay of F-1 samples with a gain of two
static bool feed(Echo& e, std::vector<int> const& blocks, int F) {
  std::vector<float> all; std::mt19937 g(5); 
  std::vector<float> out;
  for (int n : blocks) {
    juce::AudioBuffer<float> b(1, n);
    for (int i = 0; i < n; ++i) { float v = float(int(g() % 19) - 9); all.push_back(v); b.setSample(0, i, v); }
    juce::dsp::AudioBlock<float> blk{b};
    e.process(juce::dsp::ProcessContextReplacing<float>{blk});
    for (int i = 0; i < n; ++i) out.push_back(b.getSample(0, i));
  }
  // with overlap the first hop is covered by fewer frames: compare after a full frame
  for (std::size_t t = 0; t < out.size(); ++t) {
    if (t < std::size_t(2 * F)) continue;
    if (std::fabs(out[t] - 2 * all[t - (F - 1)]) > 1e-4) { std::printf("sample %zu: %f, expected %f\\n", t, out[t], 2 * all[t - (F - 1)]); return false; }
  }
  return true;
}
'''
bug(id='p26-leftover-start',prop='P26',inc=['juce_dsp/juce_dsp.h','dsp/ConstantOverlapAdd.hpp'],stubs=['juce'],flags=JF,
 needs='overlapping frames (hop smaller than the frame) and a short block that completes a frame but does not use up all of the samples left over',
 what='The samples kept for the next frame are taken from the start of the old ones instead of from the first unused one: the next frame begins with samples that were already used.',
 edits=[('extra/plugin/src/dsp/ConstantOverlapAdd.hpp','_unusedInput.getReadPointer(ch, initialUnusedCount - _unusedInputCount),','_unusedInput.getReadPointer(ch, _unusedInputCount > _hopSize ? 0 : initialUnusedCount - _unusedInputCount),')],
 demo=ADAPT+'''
int main() {
  { Echo e{3, 1}; e.prepare({8000.0, 16, 1}); CHECK(feed(e, std::vector<int>(10, 16), 8)); }
  { Echo e{3, 2}; e.prepare({8000.0, 16, 1}); Echo f{3, 2}; f.prepare({8000.0, 16, 1}); CHECK(feed(e, std::vector<int>(10, 16), 8)); CHECK(feed(f, std::vector<int>(160, 1), 8)); }
  { Echo e{3, 1}; e.prepare({8000.0, 16, 1}); CHECK(feed(e, {7, 1, 3, 2, 5, 1, 1, 1, 9, 16, 3, 3, 3, 1, 7, 8}, 8)); }
  return 0; }
''')
bug(id='p26-reset-mid-frame',prop='P26',inc=['juce_dsp/juce_dsp.h','dsp/ConstantOverlapAdd.hpp'],stubs=['juce'],flags=JF,
 needs='a reset while a frame is partly filled',
 what='Reset clears the sample buffers but not the number of samples waiting for a frame: frames after it are shifted against the stream.',
 edits=[('extra/plugin/src/dsp/ConstantOverlapAdd.hpp','''    _outputOffset     = _frameSize - 1;
    _unusedInputCount = 0;

    resetFrame();''','''    _outputOffset     = _frameSize - 1;
    _unusedInputCount = _unusedInputCount % _hopSize;

    resetFrame();''')],
 demo=ADAPT+'''
int main() {
  Echo e{3, 0}; e.prepare({8000.0, 16, 1});
  CHECK(feed(e, std::vector<int>(10, 8), 8));
  e.reset();
  CHECK(feed(e, {5, 5, 5, 5, 5, 5, 5}, 8));
  e.reset();
  CHECK(feed(e, {5, 5, 5, 5, 5, 5, 5}, 8));
  return 0; }
''')
PC='''
#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"
static void store(char const* name, std::vector<float> const& h, double rate) {
  auto a = std::make_shared<juce::StubAudio>();
  a->buffer = juce::AudioBuffer<float>(2, (int)h.size());
  for (int c = 0; c < 2; ++c) for (std::size_t i = 0; i < h.size(); ++i) a->buffer.setSample(c, (int)i, h[i]);
  a->sampleRate = rate; juce::stubFiles()[name] = a;
}
// y = gain * (x * h), `late` samples late
template<typename Fx> static bool hears(Fx& fx, std::vector<float> const& h, int block, int late, float gain) {
  std::vector<float> x, y; std::mt19937 g(3);
  for (int k = 0; k < 12; ++k) {
    juce::AudioBuffer<float> b(2, block);
    for (int i = 0; i < block; ++i) { float v = float(int(g() % 19) - 9); x.push_back(v); b.setSample(0, i, v); b.setSample(1, i, -v); }
    juce::dsp::AudioBlock<float> blk{b};
    fx.process(juce::dsp::ProcessContextReplacing<float>{blk});
    for (int i = 0; i < block; ++i) y.push_back(b.getSample(0, i));
  }
  for (int t = late; t < (int)y.size(); ++t) {
    double e = 0; for (int j = 0; j < (int)h.size() && j <= t - late; ++j) e += double(h[j]) * x[t - late - j];
    if (std::fabs(y[t] - gain * e) > 1e-2) { std::printf("sample %d: %f, expected %f\\n", t, y[t], gain * e); return false; }
  }
  return true;
}
'''
PI=['juce_dsp/juce_dsp.h','juce_audio_formats/juce_audio_formats.h','dsp/AudioBuffer.hpp','dsp/AudioFile.hpp','dsp/Convolution.hpp','dsp/DenseConvolution.hpp']
bug(id='p27-rate-after-prepare',prop='P27',inc=PI,stubs=['juce'],flags=JF,
 needs='an impulse recorded at another sample rate, loaded after the host prepared the effect',
 what='When the effect is already prepared the impulse is labelled with the rate of the host, so it is not resampled.',
 edits=[('extra/plugin/src/dsp/DenseConvolution.cpp','        .sampleRate = reader->sampleRate,','        .sampleRate = _spec.has_value() ? _spec->sampleRate : reader->sampleRate,')],
 demo=PC+'''
int main() {
  store("a", {0.6F, 0.8F}, 8000); store("b", {0.6F, 0.1F, 0.8F, 0.3F}, 16000);
  for (auto name : {"a", "b"}) for (int late : {0, 1}) {
    neo::DenseConvolution fx{8};
    if (late == 0) fx.loadImpulseResponse(juce::File{name}.createInputStream());
    fx.prepare({8000.0, 8, 2});
    if (late == 1) fx.loadImpulseResponse(juce::File{name}.createInputStream());
    CHECK(hears(fx, {0.6F, 0.8F}, 8, 7, 2.0F));
  }
  return 0; }
''')
bug(id='p27-prepare-again',prop='P27',inc=PI,stubs=['juce'],flags=JF,
 needs='the host prepares the simple effect a second time with another block size, without a new impulse',
 what='Preparing again keeps the convolvers of the first block size.',
 edits=[('extra/plugin/src/dsp/Convolution.hpp','''        if (_impulse.has_value()) {
            update();
        }''','''        if (_impulse.has_value() and _convolvers.size() != spec.numChannels) {
            update();
        }''')],
 demo=PC+'''
int main() {
  store("a", {3, 0, 0, 0, 0, 0, 0, 0, 0, 2}, 8000);
  neo::Convolution fx;
  fx.prepare({8000.0, 8, 2});
  using C = neo::Convolution;
  fx.loadImpulseResponse(juce::File{"a"}, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no);
  CHECK(hears(fx, {3, 0, 0, 0, 0, 0, 0, 0, 0, 2}, 8, 0, 1.0F));
  fx.prepare({8000.0, 4, 2});
  CHECK(hears(fx, {3, 0, 0, 0, 0, 0, 0, 0, 0, 2}, 4, 0, 1.0F));
  return 0; }
''')
PYF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -shared -fPIC -I"$(python3-vt -c \'import sysconfig;print(sysconfig.get_paths()["include"])\')" -I"$(python3-vt -c \'import numpy;print(numpy.get_include())\')" -Iextra/python/src -I"$D/pybind"'
PYH='''import os, shutil, sys
sys.dont_write_bytecode = True
so, tmp = sys.argv[1:3]
shutil.copytree("extra/python/src/neo", os.path.join(tmp, "neo"))
shutil.copy(so, os.path.join(tmp, "neo", "_neo.so"))
sys.path.insert(0, tmp)
import numpy as np
import neo
'''
bug(id='p28-strided-filter',prop='P28',inc=[],stubs=['pybind'],flags=PYF,
 needs='convolve() with a second argument that is a strided or reversed view',
 what='The second argument is read as if it were contiguous.',
 edits=[('extra/python/src/main.cpp','    auto const patch  = to_mdspan_layout_stride<1>(in2);','    auto const patch  = to_mdspan_layout_right<1>(in2);')],
 demo='#include "main.cpp"\n',
 py=PYH+'''
x = np.arange(9.0)
for h in (np.arange(6.0), np.arange(12.0)[::2], np.arange(6.0)[::-1], np.arange(12.0).reshape(4, 3)[:, 1]):
    for m in ("direct", "fft"):
        assert np.allclose(neo.convolve(x, h, method=m), np.convolve(x, h)), (h, m)
''')
bug(id='p28-ortho-inverse',prop='P28',inc=[],stubs=['pybind'],flags=PYF,
 needs='the inverse transform with the orthogonal norm and a size above two',
 what='The orthogonal norm of the inverse divides twice, so that ifft(fft(x)) no longer returns x.',
 edits=[('extra/python/src/main.cpp','                if (norm == neo::fft::norm::backward) {','                if (norm != neo::fft::norm::forward) {')],
 demo='#include "main.cpp"\n',
 py=PYH+'''
x = np.arange(8) + 1j * np.arange(8)[::-1]
for norm in ("backward", "ortho", "forward"):
    assert np.allclose(neo.fft.fft(x, norm=norm), np.fft.fft(x, norm=norm)), norm
    assert np.allclose(neo.fft.ifft(x, norm=norm), np.fft.ifft(x, norm=norm)), norm
''')
