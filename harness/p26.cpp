// P26: the block-size adapter of the plugin (extra/plugin/src/dsp/ConstantOverlapAdd.hpp), driven by histories
// generated from spec/GenFrameStream.tla.
#include "common.hpp"

#include <juce_dsp/juce_dsp.h>

#include "dsp/ConstantOverlapAdd.hpp"

namespace vh {

template<typename T>
struct effect final : neo::ConstantOverlapAdd<T>
{
    effect(int order, int divider) : neo::ConstantOverlapAdd<T>{order, divider} {}
    explicit effect(int order) : neo::ConstantOverlapAdd<T>{order} {}

    auto prepareFrame(juce::dsp::ProcessSpec const& spec) -> void override
    {
        told.push_back({(long long)spec.maximumBlockSize, (long long)spec.numChannels, (long long)spec.sampleRate});
        k = 0;
    }
    auto processFrame(juce::dsp::ProcessContextReplacing<T> const& ctx) -> void override
    {
        auto block = ctx.getOutputBlock();
        for (std::size_t c = 0; c < block.getNumChannels(); ++c) {
            auto* p = block.getChannelPointer(c);
            auto n  = block.getNumSamples();
            auto in = ints{};
            for (std::size_t i = 0; i < n; ++i) { in.push_back(ri(p[i])); }
            frames.push_back(in);
            std::reverse(p, p + n);
            for (std::size_t i = 0; i < n; ++i) { p[i] = p[i] * T(1 + (k % 3)) + T((k % 2) * (long long)(c + 1)); }
        }
        ++k;
    }
    auto resetFrame() -> void override
    {
        ++resets;
        k = 0;
    }

    std::vector<ints> told;
    std::vector<ints> frames;
    long long k{0};
    int resets{0};
};

template<typename T>
struct driver
{
    std::unique_ptr<effect<T>> fx;
    int F, H;
    int ch{0}, B{0};
    rng& r;

    driver(int order, int divider, rng& rr) : F(1 << order), H(F >> divider), r(rr)
    {
        if (divider == 1 && rr.flag(50)) {
            fx = std::make_unique<effect<T>>(order);   // the default divider
        } else {
            fx = std::make_unique<effect<T>>(order, divider);
        }
        ev("construct").i("F", F).i("H", H);
    }

    void prepare(int channels, int kind)
    {
        int const sizes[] = {1, 2, 3, F / 2 + 1, F - 1, F, F + 1, 2 * F, 2 * F + 3, 3 * F};
        ch                = channels;
        B                 = std::max(1, sizes[kind]);
        auto const rate   = 1000 + r.in(0, 5) * 100;
        fx->told.clear();
        fx->frames.clear();
        fx->prepare({(double)rate, (juce::uint32)B, (juce::uint32)ch});
        ev("prepare").i("F", F).i("H", H).i("ch", ch).i("B", B).i("rate", rate).m("told", fx->told);
    }

    void block(int n, bool inplace)
    {
        auto in  = juce::AudioBuffer<T>(ch, n);
        auto out = juce::AudioBuffer<T>(ch, n);
        auto x   = std::vector<ints>{};
        for (int c = 0; c < ch; ++c) {
            auto row = ints{};
            for (int i = 0; i < n; ++i) {
                row.push_back(r.in(-60, 60) * F);
                in.setSample(c, i, T(row.back()));
            }
            x.push_back(row);
        }
        fx->frames.clear();
        auto y     = std::vector<ints>{};
        auto guard = true;
        if (inplace) {
            auto b = juce::dsp::AudioBlock<T>{in};
            fx->process(juce::dsp::ProcessContextReplacing<T>{b});
        } else {
            auto bi = juce::dsp::AudioBlock<T const>{in};
            auto bo = juce::dsp::AudioBlock<T>{out};
            fx->process(juce::dsp::ProcessContextNonReplacing<T>{bi, bo});
        }
        for (int c = 0; c < ch; ++c) {
            auto row = ints{};
            for (int i = 0; i < n; ++i) {
                row.push_back(ri(inplace ? in.getSample(c, i) : out.getSample(c, i)));
                if (!inplace) { guard = guard && in.getSample(c, i) == T(x[std::size_t(c)][std::size_t(i)]); }
            }
            y.push_back(row);
        }
        ev("block").m("x", x).m("y", y).m("frames", fx->frames).b("guard", guard);
    }

    void reset()
    {
        fx->resets = 0;
        fx->frames.clear();
        fx->reset();
        ev("reset").i("resets", fx->resets).i("frames", (long long)fx->frames.size());
    }
};

template<typename T>
void play(ints const& s, std::uint64_t salt)
{
    auto r = rng{salt};
    auto d = driver<T>{(int)s[0], (int)s[1], r};
    for (std::size_t i = 2; i + 2 < s.size(); i += 3) {
        auto const a = (int)s[i + 1];
        auto const b = (int)s[i + 2];
        switch (s[i]) {
            case 1: d.prepare(a, b); break;
            case 2: d.block((d.B * a + 99) / 100, b == 1); break;
            case 3: d.reset(); break;
            case 4: for (int q = 0; q < b; ++q) { d.block(std::min(1, d.B), q % 2 == 0); } break;
            default: break;
        }
    }
}

void run()
{
    auto salt = std::uint64_t{1};
    for (auto const& line : scenario_lines()) {
        auto const s = parse_ints(line);
        if (s.size() < 5) { continue; }
        ++salt;
        if (salt % 2 == 0) { play<float>(s, salt); } else { play<double>(s, salt); }
    }
    // long runs with steady odd blocks, every frame size and hop
    for (int order = 0; order <= (g_thorough ? 6 : 5); ++order) {
        for (int div = 0; div <= order; ++div) {
            auto r = rng{900ULL + (std::uint64_t)(order * 8 + div)};
            auto d = driver<float>{order, div, r};
            d.prepare(1, (int)r.in(0, 9));
            for (int k = 0; k < 8; ++k) { d.block(d.B, k % 2 == 0); }
            d.reset();
            for (int k = 0; k < 6; ++k) { d.block((int)r.in(0, d.B), false); }
            d.prepare(2, (int)r.in(0, 9));
            for (int k = 0; k < 4; ++k) { d.block((int)r.in(0, d.B), true); }
        }
    }
}

}  // namespace vh
