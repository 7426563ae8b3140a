// Impulses and signals for the plugin's effects: the loudest channel of an impulse has energy 100.
#pragma once
#include "common.hpp"
#include "stream_common.hpp"

#include <juce_dsp/juce_dsp.h>
#include <juce_audio_formats/juce_audio_formats.h>

namespace vh {

using rows = std::vector<ints>;

/// integer vectors of energy 100
inline auto hundred(rng& r) -> ints
{
    static std::vector<ints> const all = {{10}, {6, 8}, {1, 7, 5, 5}, {2, 4, 4, 8}, {1, 1, 7, 7}, {5, 5, 5, 5}, {1, 3, 3, 9}, {1, 5, 5, 7}, {3, 3, 9, 1}, {4, 4, 4, 4, 4, 4, 2}};
    auto v = all[(std::size_t)r.in(0, (long long)all.size() - 1)];
    for (auto& x : v) { if (r.flag(40)) { x = -x; } }
    for (std::size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[(std::size_t)r.in(0, (long long)i - 1)]); }
    return v;
}

/// ch channels of len samples, the loudest with energy 100 (kind 4: silent)
inline auto impulse(rng& r, int ch, std::size_t len, long long kind) -> rows
{
    auto out = rows((std::size_t)ch, ints(len, 0));
    if (kind == 4) { return out; }
    auto const loud = r.in(0, ch - 1);
    for (int c = 0; c < ch; ++c) {
        auto v = c == loud || r.flag(50) ? hundred(r) : ints{r.in(-5, 5), r.in(-4, 4), r.in(-3, 3)};
        if (v.size() > len) { v = c == loud ? ints{10} : ints{r.in(-9, 9)}; }
        if (kind == 1) {            // at the very end
            for (std::size_t i = 0; i < v.size(); ++i) { out[(std::size_t)c][len - 1 - i] = v[i]; }
        } else if (kind == 2) {     // at the beginning
            for (std::size_t i = 0; i < v.size(); ++i) { out[(std::size_t)c][i] = v[i]; }
        } else {                    // anywhere
            for (auto x : v) {
                auto p = (std::size_t)r.in(0, (long long)len - 1);
                while (out[(std::size_t)c][p] != 0) { p = (p + 1) % len; }
                out[(std::size_t)c][p] = x;
            }
        }
    }
    return out;
}

inline auto to_buffer(rows const& x) -> juce::AudioBuffer<float>
{
    auto b = juce::AudioBuffer<float>((int)x.size(), x.empty() ? 0 : (int)x[0].size());
    for (std::size_t c = 0; c < x.size(); ++c) { for (std::size_t i = 0; i < x[c].size(); ++i) { b.setSample((int)c, (int)i, (float)x[c][i]); } }
    return b;
}
inline auto from_buffer(juce::AudioBuffer<float> const& b, long double scale) -> rows
{
    auto out = rows{};
    for (int c = 0; c < b.getNumChannels(); ++c) {
        auto row = ints{};
        for (int i = 0; i < b.getNumSamples(); ++i) { row.push_back(near_int((long double)b.getSample(c, i) * scale, 0.2L)); }
        out.push_back(row);
    }
    return out;
}
inline auto noise(rng& r, int ch, int n) -> rows
{
    auto x = rows{};
    auto const kind = r.in(0, 4);
    for (int c = 0; c < ch; ++c) { x.push_back(n == 0 ? ints{} : sequence(r, (std::size_t)n, kind == 4 ? 0 : kind, 30)); }
    return x;
}
inline auto same(juce::AudioBuffer<float> const& a, rows const& x) -> bool
{
    for (std::size_t c = 0; c < x.size(); ++c) { for (std::size_t i = 0; i < x[c].size(); ++i) { if (a.getSample((int)c, (int)i) != (float)x[c][i]) { return false; } } }
    return true;
}

/// puts an impulse into the file table: at `ratio` times the host rate, other samples in between
inline void store(char const* path, rows const& h, int ratio, double rate, rng& r, rows& stored)
{
    stored = rows{};
    for (auto const& row : h) {
        auto s = ints{};
        for (std::size_t i = 0; i < row.size(); ++i) {
            s.push_back(row[i]);
            for (int k = 1; k < ratio; ++k) { s.push_back(r.in(-9, 9)); }
        }
        stored.push_back(s);
    }
    auto a        = std::make_shared<juce::StubAudio>();
    a->buffer     = to_buffer(stored);
    a->sampleRate = rate * ratio;
    juce::stubFiles()[path] = a;
}

}  // namespace vh
