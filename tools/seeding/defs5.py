TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
BUGS=[]
def bug(**k): BUGS.append(k)
JF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -Iextra/plugin/src -I"$D/juce"'
DI=['juce_dsp/juce_dsp.h','juce_audio_formats/juce_audio_formats.h','dsp/AudioBuffer.hpp','dsp/AudioFile.hpp','dsp/DenseConvolution.hpp']
DC='''
#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"
'''
# the processor, from a copy beside which the editor is a stand-in
PPRE='cp extra/plugin/src/PluginProcessor.cpp "$T/"\n'
PF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -DJucePlugin_Name=\'"x"\' -I"$T" -I"$D/juce/editor" -Iextra/plugin/src -I"$D/juce"'
PC=DC+'''
#include "PluginParameter.cpp"
#include "PerceptualConvolution.cpp"
#include "PluginProcessor.cpp"
static std::vector<float> feed(juce::AudioProcessor& p, std::vector<float> x) {
  juce::AudioBuffer<float> b(2, int(x.size())); juce::MidiBuffer m;
  for (int c = 0; c < 2; ++c) for (std::size_t i = 0; i < x.size(); ++i) b.setSample(c, int(i), x[i]);
  p.processBlock(b, m);
  for (std::size_t i = 0; i < x.size(); ++i) x[i] = b.getSample(1, int(i));
  return x;
}
static void knob(juce::AudioProcessor& p, char const* id, float v) { *neo::getFloatParameter(dynamic_cast<neo::PluginProcessor&>(p).getState(), id) = v; }
static bool near(float a, float b) { return std::abs(a - b) < 1e-4F; }
static void file(std::vector<float> h, double rate) {
  auto a = std::make_shared<juce::StubAudio>(); a->buffer = juce::AudioBuffer<float>(2, int(h.size())); a->sampleRate = rate;
  for (int c = 0; c < 2; ++c) for (std::size_t i = 0; i < h.size(); ++i) a->buffer.setSample(c, int(i), h[i]);
  juce::stubFiles()["*"] = a;
}
'''
bug(id='p31-late-mix',prop='P31',inc=DI,stubs=['juce'],flags=PF,pre=PPRE,
 needs='the wet parameter changes between two blocks',
 what='The mix proportion is handed to the mixer after it has mixed: every change counts one block late.',
 edits=[('extra/plugin/src/PerceptualConvolution.cpp','        _mixer.setWetMixProportion(_wet);\n        _mixer.mixWetSamples(block);','        _mixer.mixWetSamples(block);\n        _mixer.setWetMixProportion(_wet);')],
 demo=PC+'''
int main() {
  file({1.0F}, 8.0);
  std::unique_ptr<juce::AudioProcessor> p{createPluginFilter()};
  p->prepareToPlay(8.0, 4);
  feed(*p, {1, 2, 3, 4});
  knob(*p, "wet", 0.0F);
  auto y = feed(*p, {5, 6, 7, 8});
  CHECK(near(y[0], 5) && near(y[1], 6) && near(y[3], 8));
  return 0; }
''')
bug(id='p31-first-frame',prop='P31',inc=DI,stubs=['juce'],flags=PF,pre=PPRE,
 needs='a second preparation with a larger block size class',
 what='The convolution effect is made once: after a second preparation it keeps the frame size, and so the latency, of the first.',
 edits=[('extra/plugin/src/PerceptualConvolution.cpp','    _convolution = std::make_unique<DenseConvolution>(static_cast<int>(spec.maximumBlockSize));\n','    if (not _convolution) {\n        _convolution = std::make_unique<DenseConvolution>(static_cast<int>(spec.maximumBlockSize));\n    }\n')],
 demo=PC+'''
int main() {
  file({1.0F}, 8.0);
  std::unique_ptr<juce::AudioProcessor> p{createPluginFilter()};
  for (int b : {4, 8, 2, 16}) {
    p->prepareToPlay(8.0, b);
    std::vector<float> x(std::size_t(b), 0.0F), y; x[0] = 3;
    for (int k = 0; k < 3; ++k) { auto z = feed(*p, x); y.insert(y.end(), z.begin(), z.end()); x[0] = 0; }
    for (int i = 0; i < 3 * b; ++i) CHECK(near(y[std::size_t(i)], i == b - 1 ? 6.0F : 0.0F));
  }
  return 0; }
''')
bug(id='p31-invalid-state',prop='P31',inc=DI,stubs=['juce'],flags=PF,pre=PPRE,
 needs='the message loop has not run between a parameter change and saving',
 what='The state is written from the tree without collecting pending parameter changes: an old value is saved.',
 edits=[('extra/plugin/src/PluginProcessor.cpp','_valueTree.copyState().writeToStream(stream)','_valueTree.state.writeToStream(stream)')],
 demo=PC+'''
int main() {
  std::unique_ptr<juce::AudioProcessor> p{createPluginFilter()}, q{createPluginFilter()};
  knob(*p, "wet", 0.25F);
  juce::MemoryBlock m; p->getStateInformation(m);
  q->setStateInformation(m.getData(), int(m.getSize()));
  CHECK(near(*neo::getFloatParameter(dynamic_cast<neo::PluginProcessor&>(*q).getState(), "wet"), 0.25F));
  return 0; }
''') if False else None
bug(id='p27-resampled-twice',prop='P27',inc=DI,stubs=['juce'],flags=JF,
 needs='preparing for a low sample rate and then for a high one',
 what='The recording is replaced by its resampled version: after a preparation at a lower rate its detail is lost for good.',
 edits=[('extra/plugin/src/dsp/DenseConvolution.cpp','        auto resampled = resample(*_impulse, _spec->sampleRate);\n','        auto resampled = resample(*_impulse, _spec->sampleRate);\n        _impulse       = resampled;\n')],
 demo=DC+'''
int main() {
  auto a = std::make_shared<juce::StubAudio>(); a->buffer = juce::AudioBuffer<float>(2, 4); a->sampleRate = 8000;
  for (int c = 0; c < 2; ++c) for (int i = 0; i < 4; ++i) a->buffer.setSample(c, i, i == 0 ? 0.6F : (i == 1 ? 0.8F : 0.0F));
  juce::stubFiles()["ir.wav"] = a;
  neo::DenseConvolution fx{4};
  fx.loadImpulseResponse(juce::File{"ir.wav"}.createInputStream());
  for (double rate : {8000.0, 4000.0, 8000.0}) {
    fx.prepare({rate, 4, 2});
    juce::AudioBuffer<float> b(2, 4); std::vector<float> y;
    for (int k = 0; k < 3; ++k) {
      b.clear(); if (k == 0) { b.setSample(0, 0, 1); b.setSample(1, 0, 1); }
      auto blk = juce::dsp::AudioBlock<float>{b}; fx.process(juce::dsp::ProcessContextReplacing<float>{blk});
      for (int i = 0; i < 4; ++i) y.push_back(b.getSample(1, i));
    }
    float const h0 = rate == 8000 ? 1.2F : 2.0F, h1 = rate == 8000 ? 1.6F : 0.0F;
    CHECK(std::abs(y[3] - h0) < 1e-4F && std::abs(y[4] - h1) < 1e-4F && std::abs(y[5]) < 1e-4F);
  }
  return 0; }
''')
bug(id='p27-common-level',prop='P27',inc=DI,stubs=['juce'],flags=JF,
 needs='two channels of which the second is much quieter, and a threshold between their levels',
 what='The level below which bins are dropped is relative to the first channel for all channels: a quiet second channel is dropped.',
 edits=[('extra/plugin/src/dsp/DenseConvolution.cpp','        auto const scale = normalization_factor(channelPartitions);','        auto const loudest = stdex::submdspan(partitions.to_mdspan(), std::size_t(0), full, full);\n        auto const scale   = normalization_factor(loudest);')],
 demo=DC+'''
int main() {
  juce::AudioBuffer<float> x(2, 8), h(2, 4); x.clear(); h.clear();
  x.setSample(0, 0, 1); x.setSample(1, 0, 1); h.setSample(0, 1, 1.0F); h.setSample(1, 2, 0.01F);
  auto y = neo::sparse_convolve(x, h, 4, 40000.0, 70.0F, 4);   // only the low bins remain
  auto z = neo::sparse_convolve(x, h, 4, 40000.0, -90.0F, 4);  // all bins remain
  float e0 = 0, e1 = 0;
  for (int i = 0; i < 8; ++i) { e0 = std::max(e0, std::abs(y.getSample(0, i))); e1 = std::max(e1, std::abs(y.getSample(1, i))); }
  CHECK(e0 > 0.5F); CHECK(e1 > 0.005F);
  CHECK(std::abs(z.getSample(1, 2) - 0.01F) < 1e-5F);
  return 0; }
''')
bug(id='p14-own-coefficient',prop='P14',inc=['neo/algorithm/scale.hpp','neo/container/mdspan.hpp'],
 needs='the coefficient is an element of the object that is scaled',
 what='scale takes its coefficient by reference: once it is overwritten, the remaining elements are scaled by its square.',
 edits=[('algorithm/scale.hpp','constexpr auto scale(Scalar alpha, InOutObj obj)','constexpr auto scale(Scalar const& alpha, InOutObj obj)'),('algorithm/scale.hpp','[alpha](auto','[&alpha](auto')],
 demo='''
int main() {
  for (std::size_t k = 0; k < 5; ++k) {
    float x[5] = {2, 3, 5, 7, 11}; float const a = x[k]; float const e[5] = {2 * a, 3 * a, 5 * a, 7 * a, 11 * a};
    neo::scale(x[k], stdex::mdspan<float, stdex::dextents<std::size_t, 1>>{x, std::size_t(5)});
    for (int i = 0; i < 5; ++i) CHECK(x[i] == e[i]);
  }
  return 0; }
''')
