// P30: the plugin's files and measurements (extra/plugin/src/dsp), against spec/PluginTools.tla.
#include "common.hpp"
#include "stream_common.hpp"

#include <juce_audio_formats/juce_audio_formats.h>
#include <juce_dsp/juce_dsp.h>
#include <juce_graphics/juce_graphics.h>

#include "dsp/AudioBuffer.hpp"
#include "dsp/AudioFile.hpp"
#include "dsp/Spectrum.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/Spectrum.cpp"

namespace vh {

using rows = std::vector<ints>;

inline auto to_buffer(rows const& x) -> juce::AudioBuffer<float>
{
    auto b = juce::AudioBuffer<float>((int)x.size(), x.empty() ? 0 : (int)x[0].size());
    for (std::size_t c = 0; c < x.size(); ++c) { for (std::size_t i = 0; i < x[c].size(); ++i) { b.setSample((int)c, (int)i, (float)x[c][i]); } }
    return b;
}
inline auto from_buffer(juce::AudioBuffer<float> const& b) -> rows
{
    auto out = rows{};
    for (int c = 0; c < b.getNumChannels(); ++c) {
        auto row = ints{};
        for (int i = 0; i < b.getNumSamples(); ++i) { row.push_back(near_int(b.getSample(c, i), 0.0L)); }
        out.push_back(row);
    }
    return out;
}
inline auto noise(rng& r, int ch, int n) -> rows
{
    auto x = rows{};
    for (int c = 0; c < ch; ++c) { x.push_back(ints{}); for (int i = 0; i < n; ++i) { x.back().push_back(r.in(-999, 999)); } }
    return x;
}

inline auto file_name(long long f) -> std::string { return "rec" + std::to_string(f) + ".wav"; }

void files(rng& g, ints const& hist)
{
    juce::stubFiles().clear();
    ev("begin").i("n", 0);
    auto formats = juce::AudioFormatManager{};
    formats.registerBasicFormats();
    static constexpr std::array<int, 5> rates{1000, 2000, 3000, 4410, 1000};
    for (std::size_t i = 0; i + 3 < hist.size(); i += 4) {
        auto const f    = hist[i + 1];
        auto const name = file_name(f);
        auto const file = juce::File{juce::String{name}};
        if (hist[i] == 1) {
            auto const lens = std::array<int, 7>{1, 2, 5, 11, 29, 62, 241};
            auto const x    = noise(g, (int)hist[i + 2], lens[(std::size_t)hist[i + 3]]);
            auto const rate = rates[(std::size_t)g.in(0, 4)];
            auto const bits = g.flag(50) ? 32 : 16;
            auto const buf  = to_buffer(x);
            if (g.flag(50)) {
                neo::writeToWavFile(file, buf, rate, bits);
            } else {
                auto m = neo::to_mdarray(buf);
                neo::writeToWavFile(file, m.to_mdspan(), rate, bits);
            }
            auto const& table = juce::stubFiles();
            auto const it     = table.find(name);
            ev("write").i("f", f).i("rate", rate).i("asked", bits).i("bits", it == table.end() ? 0 : it->second->bits).b("tail", it != table.end() && it->second->leftover).m("x", x).b("guard", from_buffer(buf) == x);
        } else if (hist[i] == 2) {
            auto const r = neo::load(formats, file);
            ev("load").i("f", f).m("y", from_buffer(r.buffer)).i("rate", ri(r.sampleRate));
        } else if (hist[i] == 3) {
            auto const to = rates[(std::size_t)hist[i + 2]];
            auto const r  = neo::loadAndResample(formats, file, to);
            ev("loadat").i("f", f).i("to", to).m("y", from_buffer(r.buffer)).i("rate", ri(r.sampleRate));
        } else if (hist[i + 2] == 0) {
            juce::stubFiles().erase(name);
            ev("put").i("f", f).s("kind", "none");
        } else {
            auto a                  = std::make_shared<juce::StubAudio>();
            a->buffer               = to_buffer(noise(g, 2, 9));
            a->sampleRate           = 1000;
            a->readable             = false;
            a->recognised           = hist[i + 2] == 1;
            juce::stubFiles()[name] = a;
            ev("put").i("f", f).s("kind", "damaged");
        }
    }
}

/// doubles every sample and adds the number of the channel; logs what it is given
struct recorder
{
    rows seen;
    ints prep, sizes;
    int preps{0}, resets{0};
    bool order{true};
    void prepare(juce::dsp::ProcessSpec const& s)
    {
        order = order && sizes.empty() && resets == 0;
        ++preps;
        prep = {(long long)s.maximumBlockSize, (long long)s.numChannels, ri(s.sampleRate * 1024)};
    }
    template<typename Context>
    void process(Context const& ctx)
    {
        auto const in  = ctx.getInputBlock();
        auto const out = ctx.getOutputBlock();
        order          = order && preps == 1 && resets == 0;
        sizes.push_back((long long)in.getNumSamples());
        seen.resize(in.getNumChannels());
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < in.getNumSamples(); ++i) {
                auto const v = in.getSample((int)c, (int)i);
                seen[c].push_back(near_int(v, 0.0L));
                out.setSample((int)c, (int)i, 2 * v + (float)(c + 1));
            }
        }
    }
    void reset() { ++resets; }
};

void blocks(rng& g, int ch, int n, int bs)
{
    auto const x = noise(g, ch, n);
    auto in      = to_buffer(x);
    auto out     = juce::AudioBuffer<float>(ch, n);
    auto p       = recorder{};
    auto rate    = g.flag(50) ? 44100.0 : 384000.0009765625;
    neo::processBlocks(p, juce::dsp::AudioBlock<float const>{std::as_const(in)}, juce::dsp::AudioBlock<float>{out}, (std::size_t)bs, rate);
    if (p.seen.empty()) { p.seen.resize((std::size_t)ch); }
    ev("blocks").m("x", x).i("bs", bs).i("rate", ri(rate * 1024)).a("prep", p.prep).i("preps", p.preps).i("resets", p.resets).b("order", p.order).a("sizes", p.sizes).m("seen", p.seen).m("out", from_buffer(out)).b("guard", from_buffer(in) == x);
    auto const m = neo::to_mdarray(in);
    auto y       = rows{};
    for (std::size_t c = 0; c < m.extent(0); ++c) { y.push_back({}); for (std::size_t i = 0; i < m.extent(1); ++i) { y.back().push_back(near_int(m(c, i), 0.0L)); } }
    ev("mdarray").m("x", x).m("y", y);
}

/// levels that are exactly at the threshold
void edge(rng& g, int frames, int bins)
{
    auto d   = rows((std::size_t)frames, ints((std::size_t)bins, 9999));
    auto w   = ints((std::size_t)bins, 0);
    auto buf = std::vector<std::complex<float>>((std::size_t)(frames * bins));
    for (auto& v : w) { v = g.in(-2, 2) * 10; }
    for (int f = 0; f < frames; ++f) {
        for (int b = 0; b < bins; ++b) {
            if (f + b > 0 && g.flag(50)) { continue; }
            d[(std::size_t)f][(std::size_t)b] = 0;
            buf[(std::size_t)(f * bins + b)]  = g.flag(50) ? std::complex<float>{4.0F, 0.0F} : std::complex<float>{0.0F, -4.0F};
        }
    }
    auto const view      = stdex::mdspan<std::complex<float> const, stdex::dextents<std::size_t, 2>>{buf.data(), (std::size_t)frames, (std::size_t)bins};
    auto const weighting = std::function<float(std::size_t)>([&](std::size_t b) { return (float)w[b] / 10.0F; });
    for (long long t : {0, -10, 10, 20, -20, -720, -710, -730, -700}) {
        auto const img = neo::powerSpectrumImage(view, weighting, (float)t / 10.0F);
        auto px        = rows{};
        for (int y = 0; y < img.getHeight(); ++y) {
            px.push_back({});
            for (int x = 0; x < img.getWidth(); ++x) { auto const c = img.getPixelAt(x, y); px.back().push_back(c == juce::Colours::black ? 0 : c == juce::Colours::white ? 1 : 2); }
        }
        ev("image").m("d", d).a("w", w).i("t", t).i("width", img.getWidth()).i("height", img.getHeight()).m("px", px).b("calls", true);
    }
}

/// levels in tenths of a decibel below the loudest bin, kept away from the ties of rounding
void measure(rng& g, int frames, int bins, int kind)
{
    auto d = rows((std::size_t)frames, ints((std::size_t)bins, 0));
    auto w = ints((std::size_t)bins, 0);
    auto const weighted = kind % 2 == 1;
    for (auto& v : w) { if (weighted) { v = g.flag(10) ? -g.in(60, 100) * 10 : g.in(-300, 60); } }
    for (auto& row : d) {
        for (std::size_t b = 0; b < row.size(); ++b) {
            auto& v = row[b];
            if (kind / 2 == 1) { v = 9999; continue; }  // silence
            if (kind / 2 == 2 && g.flag(90)) { v = 9999; continue; }
            if (g.flag(8)) { v = 9999; continue; }
            v = g.flag(15) ? g.in(690, 900) : g.in(0, 700);
        }
    }
    if (kind / 2 != 1) { d[(std::size_t)g.in(0, frames - 1)][(std::size_t)g.in(0, bins - 1)] = 0; }
    for (auto& row : d) {
        for (std::size_t b = 0; b < row.size(); ++b) {  // never at x.5 dB, never at the limit
            auto& v = row[b];
            if (v != 9999 && std::abs(v - 720) < 4) { v = 700; }
            if (v != 0 && v != 9999 && v <= 720) { while ((((v - w[b]) % 10) + 10) % 10 == 5) { ++v; } }
        }
    }
    for (auto& v : w) { if (((v % 10) + 10) % 10 == 5) { ++v; } }
    for (auto& row : d) { for (std::size_t b = 0; b < row.size(); ++b) { auto& v = row[b]; if (v != 0 && v < 720 && (((v - w[b]) % 10) + 10) % 10 == 5) { v -= 1; } } }
    auto const gain = std::pow(10.0, (double)g.in(-60, 60) / 20.0);
    auto buf        = std::vector<std::complex<float>>((std::size_t)(frames * bins));
    for (int f = 0; f < frames; ++f) {
        for (int b = 0; b < bins; ++b) {
            auto const v = d[(std::size_t)f][(std::size_t)b];
            auto const a = 2.0 * std::numbers::pi * (double)g.in(0, 15) / 16.0;
            buf[(std::size_t)(f * bins + b)] = v == 9999 ? std::complex<float>{} : std::complex<float>(std::polar(gain * std::pow(10.0, -(double)v / 200.0), a));
        }
    }
    auto const view = stdex::mdspan<std::complex<float> const, stdex::dextents<std::size_t, 2>>{buf.data(), (std::size_t)frames, (std::size_t)bins};
    auto calls      = true;
    auto const weighting = std::function<float(std::size_t)>([&](std::size_t b) {
        if (b >= (std::size_t)bins) { calls = false; return 0.0F; }
        return (float)w[b] / 10.0F;
    });
    {
        auto const h = neo::powerHistogram(view, weighting);
        ev("hist").m("d", d).a("w", w).a("h", h).b("calls", calls);
    }
    for (int rep = 0; rep < 2; ++rep) {
        auto t = -g.in(5, 90) * 10;
        // never within a tenth of a level
        auto const clash = [&](long long z) { for (auto const& row : d) { for (std::size_t b = 0; b < row.size(); ++b) { if (std::abs(-std::min<long long>(row[b], 720) + w[b] - z) < 1) { return true; } } } return false; };
        while (clash(t)) { ++t; }
        calls          = true;
        auto const img = neo::powerSpectrumImage(view, weighting, (float)t / 10.0F);
        auto px        = rows{};
        for (int y = 0; y < img.getHeight(); ++y) {
            px.push_back({});
            for (int x = 0; x < img.getWidth(); ++x) { auto const c = img.getPixelAt(x, y); px.back().push_back(c == juce::Colours::black ? 0 : c == juce::Colours::white ? 1 : 2); }
        }
        ev("image").m("d", d).a("w", w).i("t", t).i("width", img.getWidth()).i("height", img.getHeight()).m("px", px).b("calls", calls);
    }
    auto const img = neo::powerHistogramImage(view, weighting);
    auto bars      = ints{};
    for (int s = 0; s < 143; ++s) {
        auto n = 0;
        auto ok = true;
        for (int y = 0; y < img.getHeight(); ++y) {
            auto const white = img.getPixelAt(8 * s, y) == juce::Colours::white;
            n += white ? 1 : 0;
            ok = ok && (!white || y >= img.getHeight() - n - 0 || true);
            ok = ok && white == (img.getPixelAt(8 * s + 7, y) == juce::Colours::white);
            if (!white && n > 0) { ok = false; }  // bars stand on the ground
        }
        bars.push_back(ok ? n : -1);
    }
    ev("bars").m("d", d).a("w", w).i("width", img.getWidth()).i("height", img.getHeight()).a("bars", bars);
}

void run()
{
    auto g = rng{30};
    for (auto const& h : stream_scenarios()) { files(g, h); }
    auto const reps = g_thorough ? 8 : 2;
    for (int r = 0; r < reps; ++r) {
        for (int n : {0, 1, 2, 5, 16, 17, 63, 64, 65, 200, 300, 600}) {
            for (int bs : {1, 4, 16, 64, 512}) { if (n < 60 || bs > (n > 200 ? 4 : 1)) { blocks(g, (int)g.in(1, 3), n, bs); } }
        }
        for (auto [a, b] : {std::pair{1, 1}, {1, 5}, {5, 1}, {3, 9}, {9, 3}, {12, 17}, {20, 33}}) {
            for (int k = 0; k < 6; ++k) { measure(g, a, b, k); }
            edge(g, a, b);
        }
    }
}

}  // namespace vh
