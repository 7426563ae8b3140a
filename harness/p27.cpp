// P27: the plugin's convolution effects and offline convolution (extra/plugin/src/dsp), against spec/PluginConv.tla.
#include "plugin_common.hpp"

#include "dsp/AudioBuffer.hpp"
#include "dsp/AudioFile.hpp"
#include "dsp/Convolution.hpp"
#include "dsp/DenseConvolution.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"

namespace vh {

template<bool Dense>
struct session
{
    std::conditional_t<Dense, neo::DenseConvolution, neo::Convolution> fx;
    int F, B{0}, ch{0};
    bool ready{false};
    rng& r;
    bool half;       // this host changes between two sample rates
    int host{2};     // rate of the host in units of 4 kHz
    long long lastKind{0};

    static auto make(int blk)
    {
        if constexpr (Dense) { return neo::DenseConvolution{blk}; } else { return neo::Convolution{}; }
    }
    session(int order, rng& rr) : fx(make(order == 0 ? 1 : (int)rr.in((1 << (order - 1)) + 1, 1 << order))), F(1 << order), r(rr), half(rr.flag(40))
    {
        ev("construct").s("kind", Dense ? "dense" : "plain").i("F", F);
    }
    void load(long long kind, long long lk)
    {
        long long const lens[] = {1, F, F + 1, 2 * F + 3, 5, 3 * F};
        auto const len         = (std::size_t)std::max(1LL, lens[lk]);
        auto const ratio       = r.flag(25) ? (int)r.in(2, 3) : 1;
        auto h                 = impulse(r, Dense ? (int)r.in(2, 3) : 2, len, kind);
        if (half) {  // the same energy at both rates
            for (auto& row : h) {
                auto wide = ints{};
                for (auto v : row) { wide.insert(wide.end(), {v, 0}); }
                row = wide;
            }
        }
        auto stored            = rows{};
        store("ir.wav", h, ratio, 8000.0, r, stored);
        if constexpr (Dense) {
            fx.loadImpulseResponse(juce::File{"ir.wav"}.createInputStream());
        } else {
            fx.loadImpulseResponse(juce::File{"ir.wav"}, neo::Convolution::Stereo::yes, neo::Convolution::Trim::no, 0, neo::Convolution::Normalise::no);
        }
        ev("load").m("h", stored).i("unit", 2 * ratio).b("readable", true);
    }
    void bad()
    {
        if constexpr (Dense) {
            auto h = rows{{5, 5}, {5, 5}};
            auto stored = rows{};
            store("bad.wav", h, 1, 8000.0, r, stored);
            juce::stubFiles()["bad.wav"]->readable = r.flag(50);
            if (juce::stubFiles()["bad.wav"]->readable) {
                auto s = std::make_unique<juce::FileInputStream>();   // not an audio file at all
                fx.loadImpulseResponse(std::move(s));
            } else {
                fx.loadImpulseResponse(juce::File{"bad.wav"}.createInputStream());
            }
            ev("load").m("h", stored).i("unit", 2).b("readable", false);
        }
    }
    void prepare(int channels, long long kind)
    {
        ch       = channels;
        lastKind = kind;
        host     = half && r.flag(50) ? 1 : 2;
        start(kind);
    }
    void again() { start(lastKind); }
    void start(long long kind)
    {
        if constexpr (Dense) {
            long long const sizes[] = {F, 1, F - 1, F / 2 + 1, 2 * F, F + 1};
            B = (int)std::max(1LL, sizes[kind]);
        } else {
            B = 2 << kind;
            if (B > 32) { B = F < 2 ? 2 : F; }
        }
        fx.prepare({4000.0 * host, (juce::uint32)B, (juce::uint32)ch});
        ready = true;
        ev("prepare").i("ch", ch).i("B", B).i("F", F).i("unit", host);
    }
    void block(int n, bool inplace)
    {
        auto const x = noise(r, ch, n);
        auto in      = to_buffer(x);
        if (x[0].empty()) { in = juce::AudioBuffer<float>(ch, 0); }
        auto out     = juce::AudioBuffer<float>(ch, n);
        if (inplace) {
            auto b = juce::dsp::AudioBlock<float>{in};
            fx.process(juce::dsp::ProcessContextReplacing<float>{b});
            out = in;
        } else {
            auto bi = juce::dsp::AudioBlock<float const>{in};
            auto bo = juce::dsp::AudioBlock<float>{out};
            fx.process(juce::dsp::ProcessContextNonReplacing<float>{bi, bo});
        }
        ev("block").m("x", x).m("y", from_buffer(out, Dense ? 10.0L : 1.0L));
    }
    void reset()
    {
        fx.reset();
        if (!Dense) { ready = false; }
        ev("reset");
    }
};

template<bool Dense>
void play(ints const& s, std::uint64_t salt)
{
    auto r  = rng{salt};
    auto fx = std::make_unique<session<Dense>>((int)s[1], r);
    for (std::size_t i = 2; i + 2 < s.size(); i += 3) {
        auto const a = s[i + 1];
        auto const b = s[i + 2];
        switch (s[i]) {
            case 1: fx->load(a, b); break;
            case 2: fx->prepare((int)a, b); break;
            case 3: fx->block((int)((fx->B * a + 99) / 100), b == 1); break;
            case 4: fx->reset(); break;
            case 5: fx->bad(); break;
            case 6: fx->again(); break;
            default: break;
        }
    }
}

template<typename Convolver>
void offline(rng& r, char const* name, int size = 0)
{
    auto const B  = size > 0 ? size : 2 << r.in(0, 3);
    auto const ch = (int)r.in(1, 3);
    auto const h  = impulse(r, ch + (int)r.in(0, 1), (std::size_t)r.in(1, 3 * B), r.in(0, 4));
    auto const x  = noise(r, ch, (int)r.in(1, 4 * B + 1));
    auto const sx = to_buffer(x);
    auto const sh = to_buffer(h);
    auto const y  = neo::dense_convolve<Convolver>(sx, sh, B);
    ev("offline").s("conv", name).i("B", B).m("x", x).m("h", h).m("y", from_buffer(y, 10)).b("guard", same(sx, x) && same(sh, h));
}

void sparse(rng& r, int mask)
{
    auto const B  = 2 << r.in(0, 2);
    auto const ch = (int)r.in(1, 2);
    auto const h  = impulse(r, ch, (std::size_t)r.in(1, 3 * B), r.in(0, 4));
    auto const x  = noise(r, ch, (int)r.in(1, 4 * B + 1));
    auto const sx = to_buffer(x);
    auto const sh = to_buffer(h);
    auto const th = mask == 0 ? -1000.0F : (mask == 1 ? 1000.0F : (float)r.in(2, 40));
    auto const lo = mask == 0 ? (int)r.in(1, B) : (mask == 1 ? (int)r.in(0, B) : (mask == 7 ? B : 1));
    auto const y  = neo::sparse_convolve(sx, sh, B, 44100.0, th, lo);
    ev("sparse").i("B", B).i("mask", mask).m("x", x).m("h", h).m("y", from_buffer(y, 10.0L * 2 * B)).b("guard", same(sx, x) && same(sh, h));
}

/// responses with flat spectra, so that weights and thresholds alone decide which bins are kept
void level(rng& r)
{
    static std::array<int, 5> const rates = {400, 800, 2000, 4000, 40000};
    auto const rate = rates[(std::size_t)r.in(0, 4)];
    auto const lo   = (int)r.in(0, 2);
    auto const ch   = (int)r.in(1, 3);
    // every distance from a weight is at least half a decibel
    static std::array<int, 14> const thrs = {-600, -250, -150, -115, -101, -70, -55, -40, -12, 6, 20, 500, 900, 1100};
    auto const thr = thrs[(std::size_t)r.in(0, 13)];
    auto h = rows{};
    for (int c = 0; c < ch; ++c) {
        auto row = ints((std::size_t)r.in(1, 7), 0);
        if (c > 0) { row.resize(h[0].size()); }
        row[(std::size_t)r.in(0, (long long)row.size() - 1)] = (c == 0) == (rate % 3 == 1) ? 10 : r.in(1, 10);
        h.push_back(row);
    }
    auto const loud = (std::size_t)r.in(0, ch - 1);
    for (auto& v : h[loud]) { if (v != 0) { v = 10; } }
    auto const x  = noise(r, ch, (int)r.in(1, 13));
    auto const sx = to_buffer(x);
    auto const sh = to_buffer(h);
    auto const y  = neo::sparse_convolve(sx, sh, 2, rate, (float)thr / 10.0F, lo);
    ev("level").i("rate", rate).i("thr", thr).i("lo", lo).m("x", x).m("h", h).m("y", from_buffer(y, 10.0L * 4)).b("guard", same(sx, x) && same(sh, h));
}

/// segments of different loudness: level and weight together decide
void segs(rng& r)
{
    static std::array<int, 5> const rates = {400, 800, 2000, 4000, 40000};
    static std::vector<ints> const loud   = {{8, 4, 4, 2}, {6, 8}, {1, 1, 7, 7}, {1, 3, 3, 9}, {5, 5, 5, 5}, {10}};
    static std::vector<ints> const soft   = {{1, 2}, {3, 4, 5}, {2, 0, 8}, {9}, {6, 3, 1, 1}};
    static std::array<int, 11> const deci = {-9999, 0, 60, 95, 120, 140, 156, 169, 181, 191, 200};
    auto const weight = [](int f) { return f == 0 ? -10000 : f == 100 ? -191 : f == 200 ? -109 : f == 400 ? -48 : f == 500 ? -32 : f == 1000 ? 0 : f == 2000 ? 12 : f == 10000 ? -25 : -93; };
    auto const rate   = rates[(std::size_t)r.in(0, 4)];
    auto const lo     = (int)r.in(0, 2);
    auto const ch     = (int)r.in(1, 3);
    auto const full   = (int)r.in(0, ch - 1);
    auto h            = rows{};
    auto levels       = ints{};
    for (int c = 0; c < ch; ++c) {
        auto vals = c == full ? loud[(std::size_t)r.in(0, 5)] : soft[(std::size_t)r.in(0, 4)];
        auto top  = *std::max_element(vals.begin(), vals.end());
        for (auto i = vals.size(); i > 1; --i) { std::swap(vals[i - 1], vals[(std::size_t)r.in(0, (long long)i - 1)]); }
        auto row = ints(8, 0);
        for (std::size_t i = 0; i < vals.size(); ++i) {
            row[2 * i + (std::size_t)r.in(0, 1)] = r.flag(30) ? -vals[i] : vals[i];
            for (int k = 0; k < 3; ++k) {
                if (vals[i] != 0) { levels.push_back(deci[(std::size_t)vals[i]] - deci[(std::size_t)top] + (k < lo ? 1000 : weight(k * rate / 4))); }
            }
        }
        h.push_back(row);
    }
    // a threshold that is not close to any of the levels, but often between two of them
    auto thr = 0LL;
    for (;;) {
        thr = levels[(std::size_t)r.in(0, (long long)levels.size() - 1)] + (r.flag(50) ? r.in(5, 30) : -r.in(5, 30));
        if (thr > -5000 && std::all_of(levels.begin(), levels.end(), [&](auto v) { return std::abs(v - thr) >= 5; })) { break; }
        if (r.flag(1)) { thr = 3000; break; }
    }
    auto const x  = noise(r, ch, (int)r.in(1, 13));
    auto const sx = to_buffer(x);
    auto const sh = to_buffer(h);
    auto const y  = neo::sparse_convolve(sx, sh, 2, rate, (float)thr / 10.0F, lo);
    ev("segs").i("rate", rate).i("thr", thr).i("lo", lo).m("x", x).m("h", h).m("y", from_buffer(y, 10.0L * 4)).b("guard", same(sx, x) && same(sh, h));
}

/// large blocks, flat spectra: the weights of all bins lie on one side of the threshold
void bands(rng& r, int B, bool keep)
{
    auto const near = keep && r.flag(60);
    auto const rate = near ? 16000 : keep ? r.in(180, 250) * 100 : r.in(5, 20);
    auto const lo   = near ? (int)(2000LL * B / rate) + 1 : keep ? (int)(200LL * B / rate) + 1 : 0;
    auto const thr  = near ? -r.in(25, 50) : keep ? -r.in(200, 900) : -r.in(0, 700);
    auto const ch   = (int)r.in(1, 2);
    auto h          = rows{};
    for (int c = 0; c < ch; ++c) {
        auto row = ints((std::size_t)(2 * B + 3), 0);
        row[(std::size_t)r.in(0, (long long)row.size() - 1)] = 10;
        h.push_back(row);
    }
    auto const x  = noise(r, ch, (int)r.in(1, 3 * B));
    auto const sx = to_buffer(x);
    auto const sh = to_buffer(h);
    auto const y  = neo::sparse_convolve(sx, sh, B, (double)rate, (float)thr / 10.0F, lo);
    ev("bands").i("B", B).i("rate", rate).i("thr", thr).i("lo", lo).m("x", x).m("h", h).m("y", from_buffer(y, 10)).b("guard", same(sx, x) && same(sh, h));
}

void run()
{
    auto salt = std::uint64_t{1};
    for (auto const& line : scenario_lines()) {
        auto const s = parse_ints(line);
        if (s.size() < 5) { continue; }
        ++salt;
        if (s[0] == 0) { play<true>(s, salt); } else { play<false>(s, salt); }
    }
    using C = std::complex<float>;
    auto r  = rng{77};
    for (int k = 0; k < (g_thorough ? 60 : 15); ++k) {
        if (k % 5 == 0) { ev("construct").s("kind", "dense").i("F", 1); }
        offline<neo::convolution::upols_convolver<C>>(r, "upols");
        offline<neo::convolution::upola_convolver<C>>(r, "upola");
        offline<neo::convolution::split_upols_convolver<C>>(r, "split_upols");
        offline<neo::convolution::split_upola_convolver<C>>(r, "split_upola");
        if (k % 4 == 0) {
            offline<neo::convolution::upols_convolver<C>>(r, "upols", 256 << (k / 4 % 3));
            offline<neo::convolution::split_upola_convolver<C>>(r, "split_upola", 512);
        }
        sparse(r, 0);
        sparse(r, 1);
        sparse(r, 4);
        sparse(r, 7);
        for (int i = 0; i < 6; ++i) { level(r), segs(r), segs(r); }
        bands(r, 8 << (k % 8), k % 2 == 0);
        bands(r, k % 3 == 0 ? 512 : 1024, k % 2 == 1);
    }
}

}  // namespace vh
