// P31: the plugin as its host sees it (extra/plugin/src), against spec/Plugin.tla.
#define JucePlugin_Name "Perceptual Convolution"
#include "plugin_common.hpp"

#include "dsp/AudioBuffer.hpp"
#include "dsp/AudioFile.hpp"
#include "dsp/DenseConvolution.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"

#include "PluginParameter.cpp"
#include "PerceptualConvolution.cpp"
#include "PluginProcessor.cpp"

namespace vh {

constexpr char const* knobs[] = {"in", "wet", "out"};
constexpr char const* ids[]   = {neo::ParamID::inGain, neo::ParamID::wet, neo::ParamID::outGain};

struct ear final : neo::ProcessSpecListener
{
    int id;
    std::vector<ints>* told;
    ear(int i, std::vector<ints>* t) : id(i), told(t) {}
    auto processSpecChanged(juce::dsp::ProcessSpec const& s) -> void override { told->push_back({id, (long long)s.sampleRate, (long long)s.maximumBlockSize, (long long)s.numChannels}); }
};

struct host
{
    rng r;
    std::vector<ints> told;
    ear a{1, &told};
    ear b{2, &told};
    std::unique_ptr<juce::AudioProcessor> box;
    std::array<juce::MemoryBlock, 3> slots;
    int ch{2}, B{4}, unit{2};
    bool half;

    auto proc() -> neo::PluginProcessor& { return dynamic_cast<neo::PluginProcessor&>(*box); }
    auto knob(int k) -> juce::AudioParameterFloat* { return neo::getFloatParameter(proc().getState(), ids[k]); }
    auto vals() -> ints
    {
        auto v = ints{};
        for (int k = 0; k < 3; ++k) { v.push_back(near_int((long double)knob(k)->get() * 4, 0.01L)); }
        return v;
    }
    auto spec() -> ints
    {
        auto const s = proc().getProcessSpec();
        return {(long long)s.sampleRate, (long long)s.maximumBlockSize, (long long)s.numChannels};
    }
    explicit host(std::uint64_t salt) : r{salt}, half{r.flag(30)}
    {
        juce::stubFiles().clear();
        box.reset(createPluginFilter());
        for (auto& s : slots) { box->getStateInformation(s); }
        ev("plugin").a("vals", vals()).a("spec", spec());
    }
    void file(long long kind, long long lk)
    {
        juce::stubFiles().clear();
        if (kind == 5) { ev("file").b("there", false).m("h", rows{}).i("unit", 2); return; }
        long long const lens[] = {1, 4, 9, 5, 17, 12};
        auto h = impulse(r, (int)r.in(2, 3), (std::size_t)lens[lk], kind == 6 ? 0 : kind);
        if (half) {
            for (auto& row : h) {
                auto wide = ints{};
                for (auto v : row) { wide.insert(wide.end(), {v, 0}); }
                row = wide;
            }
        }
        auto const ratio = r.flag(25) ? (int)r.in(2, 3) : 1;
        auto stored      = rows{};
        store("*", h, ratio, 8.0, r, stored);
        juce::stubFiles()["*"]->readable = kind != 6;
        ev("file").b("there", kind != 6).m("h", stored).i("unit", 2 * ratio);
    }
    void prepare(int channels, long long kind)
    {
        long long const sizes[] = {2, 3, 4, 7, 8, 5};
        ch   = channels;
        B    = (int)sizes[kind];
        unit = half && r.flag(50) ? 1 : 2;
        auto l = juce::AudioProcessor::BusesLayout{};
        l.inputBuses  = {juce::AudioChannelSet::discreteChannels(ch)};
        l.outputBuses = {juce::AudioChannelSet::discreteChannels(ch)};
        box->setBusesLayout(l);
        told.clear();
        juce::stubReleaseBuild = juce::stubFiles().empty();
        box->prepareToPlay(4.0 * unit, B);
        juce::stubReleaseBuild = false;
        ev("prepare").i("rate", 4 * unit).i("B", B).i("ch", ch).i("unit", unit).m("told", told).a("spec", spec()).a("vals", vals());
    }
    void set(int k, int v)
    {
        knob(k)->setValueNotifyingHost((float)v / 4.0F);
        ev("set").s("which", knobs[k]).i("k", v).a("vals", vals());
    }
    void block(int n)
    {
        auto x = rows{};
        for (int c = 0; c < ch; ++c) { x.push_back(n == 0 ? ints{} : sequence(r, (std::size_t)n, r.in(0, 3), 3)); }
        auto b = to_buffer(x);
        if (n == 0) { b = juce::AudioBuffer<float>(ch, 0); }
        auto midi = juce::MidiBuffer{};
        box->processBlock(b, midi);
        auto y = rows{};
        for (int c = 0; c < ch; ++c) {
            auto row = ints{};
            for (int i = 0; i < n; ++i) { row.push_back(near_int((long double)b.getSample(c, i) * 640, 0.4L)); }
            y.push_back(row);
        }
        ev("block").m("x", x).m("y", y);
    }
    void save(int s)
    {
        box->getStateInformation(slots[(std::size_t)s]);
        ev("save").i("slot", s).a("vals", vals());
    }
    void restore(int s)
    {
        auto const& m = slots[(std::size_t)s];
        auto copy     = std::make_unique<char[]>(m.getSize());  // the host's memory ends with the data
        std::memcpy(copy.get(), m.getData(), m.getSize());
        box->setStateInformation(copy.get(), (int)m.getSize());
        copy.reset();
        ev("restore").i("slot", s).a("vals", vals());
    }
    void reopen(int s)
    {
        box.reset(createPluginFilter());
        ch = 2;
        box->setStateInformation(slots[(std::size_t)s].getData(), (int)slots[(std::size_t)s].getSize());
        ev("reopen").i("slot", s).a("vals", vals());
    }
    void garbage()
    {
        auto junk = std::string{r.flag(50) ? "" : "what is this?"};
        if (r.flag(50)) { junk = slots[0].bytes.substr(0, slots[0].bytes.size() / 2); }
        juce::stubReleaseBuild = true;
        box->setStateInformation(junk.data(), (int)junk.size());
        juce::stubReleaseBuild = false;
        ev("garbage").a("vals", vals());
    }
    void listen(int id, bool add)
    {
        auto* l = id == 1 ? &a : &b;
        if (add) { proc().addProcessSpecListener(l); } else { proc().removeProcessSpecListener(l); }
        ev("listen").i("ear", id).b("add", add);
    }
    void layouts()
    {
        for (int i = 0; i < 5; ++i) {
            for (int o = 0; o < 5; ++o) {
                auto l = juce::AudioProcessor::BusesLayout{};
                l.inputBuses  = {juce::AudioChannelSet::discreteChannels(i)};
                l.outputBuses = {juce::AudioChannelSet::discreteChannels(o)};
                ev("layout").i("in", i).i("out", o).b("ok", box->isBusesLayoutSupported(l));
            }
        }
    }
};

void run()
{
    auto salt = std::uint64_t{1};
    for (auto const& line : scenario_lines()) {
        auto const s = parse_ints(line);
        if (s.size() < 3) { continue; }
        auto h = host{++salt};
        if (salt == 2) { h.layouts(); }
        for (std::size_t i = 0; i + 2 < s.size(); i += 3) {
            auto const a = (int)s[i + 1];
            auto const b = (int)s[i + 2];
            switch (s[i]) {
                case 1: h.file(a, b); break;
                case 2: h.prepare(a, b); break;
                case 3: h.set(a, b); break;
                case 4: h.block((h.B * a + 99) / 100); break;
                case 5: h.box->releaseResources(); ev("release").a("vals", h.vals()); break;
                case 6: h.save(a); break;
                case 7: h.restore(a); break;
                case 8: h.reopen(a); break;
                case 9: h.listen(a, b == 1); break;
                case 10: h.garbage(); break;
                default: h.proc().getState().stubMessageLoop(); break;
            }
        }
    }
}

}  // namespace vh
