TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
BUGS=[]
def bug(**k): BUGS.append(k)
JF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -Iextra/plugin/src -I"$D/juce"'
PI=['juce_dsp/juce_dsp.h','juce_audio_formats/juce_audio_formats.h','juce_graphics/juce_graphics.h','dsp/AudioBuffer.hpp','dsp/AudioFile.hpp','dsp/Spectrum.hpp']
PC='''
#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/Spectrum.cpp"
'''
bug(id='p30-boosted-level',prop='P30',inc=PI,stubs=['juce'],flags=JF,
 needs='a weighting that lifts a bin above the loudest one',
 what='Levels above 0 dB are counted in the slot of the same distance below 0 dB instead of the first.',
 edits=[('extra/plugin/src/dsp/Spectrum.cpp','std::clamp(dB, -143.0F, 0.0F)','std::clamp(dB, -143.0F, 143.0F)')],
 demo=PC+'''
int main() {
  std::complex<float> z[4] = {{1, 0}, {0, 0.1F}, {0.01F, 0}, {0, 1}};
  auto v = stdex::mdspan<std::complex<float> const, stdex::dextents<std::size_t, 2>>{z, std::size_t(2), std::size_t(2)};
  auto a = neo::powerHistogram(v, [](std::size_t) { return 0.0F; });
  CHECK(a[0] == 2 && a[20] == 1 && a[40] == 1);
  auto b = neo::powerHistogram(v, [](std::size_t k) { return k == 0 ? 3.0F : 0.0F; });
  CHECK(b[0] == 2 && b[20] == 1 && b[37] == 1 && b[3] == 0);
  return 0; }
''')
bug(id='p30-resample-length',prop='P30',inc=PI,stubs=['juce'],flags=JF,
 needs='a recording whose duration is not a whole number of samples at the new rate, by more than half a sample',
 what='The length after resampling is cut off instead of rounded: the last sample is lost.',
 edits=[('extra/plugin/src/dsp/AudioBuffer.cpp','juce::roundToInt(juce::jmax(1.0, buf.buffer.getNumSamples() / factorReading))','static_cast<int>(juce::jmax(1.0, buf.buffer.getNumSamples() / factorReading))')],
 demo=PC+'''
int main() {
  for (int n : {3, 6, 8, 11}) {
    neo::BufferWithSampleRate<float> b{juce::AudioBuffer<float>(1, n), 3000.0};
    for (int i = 0; i < n; ++i) b.buffer.setSample(0, i, float(i + 1));
    auto r = neo::resample(b, 1000.0);
    CHECK(r.sampleRate == 1000.0);
    CHECK(r.buffer.getNumSamples() == (n + 1) / 3);
  }
  return 0; }
''')
bug(id='p30-short-last-block',prop='P30',inc=PI,stubs=['juce'],flags=JF,
 needs='a buffer whose last block is shorter than the block size',
 what='The effect is handed a last block that starts early so that it is complete: some samples are processed twice.',
 edits=[('extra/plugin/src/dsp/AudioBuffer.hpp','''        auto in  = input.getSubBlock(i, numSamples);
        auto out = output.getSubBlock(i, numSamples);''','''        auto const first = numSamples < blockSize and i >= blockSize ? output.getNumSamples() - blockSize : i;
        auto in          = input.getSubBlock(first, std::min(blockSize, output.getNumSamples()));
        auto out         = output.getSubBlock(first, std::min(blockSize, output.getNumSamples()));''')],
 demo=PC+'''
struct Sum { float s{0}; int n{0}; void prepare(juce::dsp::ProcessSpec const&) { s = 0; } void reset() {}
  template<typename C> void process(C const& c) { auto in = c.getInputBlock(); auto out = c.getOutputBlock(); for (std::size_t i = 0; i < in.getNumSamples(); ++i) { s += in.getSample(0, int(i)); ++n; out.setSample(0, int(i), s); } } };
int main() {
  for (int n : {3, 8, 11}) {
    juce::AudioBuffer<float> a(1, n), b(1, n);
    for (int i = 0; i < n; ++i) a.setSample(0, i, 1.0F);
    Sum p; neo::processBlocks(p, juce::dsp::AudioBlock<float const>{std::as_const(a)}, juce::dsp::AudioBlock<float>{b}, 4, 8000.0);
    CHECK(p.n == n); CHECK(b.getSample(0, n - 1) == float(n));
  }
  return 0; }
''')
