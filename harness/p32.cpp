// P32: the plugin's editor and its render tab (extra/plugin/src), against spec/Bench.tla.
#define JucePlugin_Name "Perceptual Convolution"
#include "common.hpp"
#include "stream_common.hpp"

#include <juce_dsp/juce_dsp.h>
#include <juce_audio_formats/juce_audio_formats.h>
#include <juce_audio_processors/juce_audio_processors.h>
#include <juce_gui_extra/juce_gui_extra.h>

#include "PluginEditor.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/Convolution.cpp"
#include "dsp/DenseConvolution.cpp"
#include "dsp/Spectrum.cpp"

#include "PluginParameter.cpp"
#include "PerceptualConvolution.cpp"
#include "PluginProcessor.cpp"
#include "ui/ParameterTab.cpp"
#include "ui/BenchmarkTab.cpp"
#include "PluginEditor.cpp"

namespace vh {

using rows = std::vector<ints>;   // of a channel: position, value, position, value, ...

constexpr std::array<char const*, 11> engines = {
    "upols_convolver", "upola_convolver", "upola_convolver_v2", "split_upola_convolver", "split_upols_convolver",
    "juce::dsp::Convolution", "neo::Convolution", "DenseConvolution", "sparse_upola_convolver", "convolver_tests", "sparse_quality_tests"};

inline auto lower(std::string s) -> std::string { for (auto& c : s) { c = (char)std::tolower((unsigned char)c); } return s; }
inline auto path(long long f) -> std::string { return "/music/rec" + std::to_string(f) + ".wav"; }
/// the first number of a text
inline auto number(std::string const& s, std::size_t from = 0) -> double
{
    auto const p = s.find_first_of("0123456789", from);
    return p == std::string::npos ? -1.0 : std::atof(s.c_str() + (p > 0 && s[p - 1] == '-' ? p - 1 : p));
}
/// A-weighting in hundredths of a decibel, from its definition
inline auto weight(double f) -> long long
{
    if (f == 0) { return 0; }
    auto const q = f * f;
    auto const r = 12194.217 * 12194.217 * q * q / ((q + 20.598997 * 20.598997) * std::sqrt((q + 107.65265 * 107.65265) * (q + 737.86223 * 737.86223)) * (q + 12194.217 * 12194.217));
    return (long long)std::llround(2000.0 * std::log10(r) + 200.0);
}

struct desk
{
    rng r;
    std::unique_ptr<juce::AudioProcessor> box;
    std::unique_ptr<juce::AudioProcessorEditor> win;
    double range{90}, keep{10};
    bool weighted{true};
    long long sig{0}, imp{0}, rate{44100};

    auto proc() -> neo::PluginProcessor& { return dynamic_cast<neo::PluginProcessor&>(*box); }
    static auto button(char const* key) -> juce::TextButton&
    {
        for (auto* b : juce::stubWidgets<juce::TextButton>()) { if (lower(b->text.toStdString()).find(key) != std::string::npos) { return *b; } }
        std::fprintf(stderr, "no button %s\n", key);
        std::_Exit(95);
    }
    static auto knob(char const* key) -> juce::Value&
    {
        for (auto* b : juce::stubWidgets<juce::PropertyComponent>()) { if (lower(b->name.toStdString()).find(key) != std::string::npos) { return b->value; } }
        std::fprintf(stderr, "no property %s\n", key);
        std::_Exit(95);
    }
    static auto text() -> std::string { return juce::stubWidgets<juce::TextEditor>().at(0)->getText().toStdString(); }
    auto labels() -> ints
    {
        auto v = ints{};
        for (auto const* key : {"chan", "block", "rate"}) {   // the number beside each name; -1 where none is shown
            auto found = -1LL;
            for (auto* l : juce::stubWidgets<juce::Label>()) {
                auto const s = lower(l->getText().toStdString());
                if (s.find(key) != std::string::npos && s.find_first_of("0123456789") != std::string::npos) { found = (long long)number(s); }
            }
            v.push_back(found);
        }
        return v;
    }
    /// what the tab shows of the impulse
    void shown(ev& e)
    {
        auto pics = juce::stubWidgets<juce::ImageComponent>();   // the spectrogram is the upper one
        std::stable_sort(pics.begin(), pics.end(), [](auto* a, auto* b) { return a->getBounds().y < b->getBounds().y; });
        auto const& img = pics.at(0)->getImage();
        auto const& his = pics.at(1)->getImage();
        auto same       = true;
        if (imp != 0) {
            auto formats = juce::AudioFormatManager{};
            formats.registerBasicFormats();
            auto const a    = neo::to_mdarray(neo::loadAndResample(formats, juce::File{juce::String{path(imp)}}, (double)rate).buffer);
            auto const s    = neo::fft::stft(a.to_mdspan(), 1024);
            auto const sub  = stdex::submdspan(s.to_mdspan(), 0, stdex::full_extent, stdex::full_extent);
            auto const w    = [this](std::size_t b) { return weighted && b != 0 ? neo::a_weighting(neo::rfftfreq<float>(1024, b, 1.0 / (double)rate)) : 0.0F; };
            auto const ref  = neo::powerSpectrumImage(sub, w, -(float)range);
            auto const ref2 = neo::powerHistogramImage(sub, w);
            auto eq = [](juce::Image const& x, juce::Image const& y) {
                if (x.getWidth() != y.getWidth() || x.getHeight() != y.getHeight()) { return false; }
                for (int i = 0; i < x.getWidth(); ++i) { for (int k = 0; k < x.getHeight(); ++k) { if (!(x.getPixelAt(i, k) == y.getPixelAt(i, k))) { return false; } } }
                return true;
            };
            same = eq(img, ref) && eq(his, ref2);
        }
        auto const t   = text();
        auto const pct = t.rfind('%');
        auto const bol = pct == std::string::npos ? 0 : (t.rfind('\n', pct) == std::string::npos ? 0 : t.rfind('\n', pct) + 1);
        auto const line = pct == std::string::npos ? std::string{} : t.substr(bol, t.find('\n', pct) - bol);
        auto const open = t.find('(');
        e.i("w", img.getWidth()).i("h", img.getHeight()).b("same", same).i("pct", pct == std::string::npos ? -1 : ri(number(line), 100.0L));
        e.i("thr", pct == std::string::npos ? 0 : ri(number(line, line.find('%')), 10.0L)).b("wname", line.find("A-Weighting") != std::string::npos);
        e.b("name", imp == 0 || t.find("rec" + std::to_string(imp) + ".wav") != std::string::npos).i("count", open == std::string::npos ? -1 : (long long)number(t, open));
    }
    void start()
    {
        win.reset(box->createEditor());
        range = 90; keep = 10; weighted = true; sig = 0; imp = 0;
        juce::stubRunMessages();
        ev("editor").a("labels", labels());
    }
    explicit desk(std::uint64_t salt) : r{salt}
    {
        juce::stubFiles().clear();
        juce::stubDirectories().clear();
        box.reset(createPluginFilter());
        rate = 44100;
        auto w = rows{};
        for (auto sr : {44100.0, 16000.0, 8000.0}) { w.emplace_back(); for (int b = 0; b <= 512; ++b) { w.back().push_back(weight(b * sr / 1024.0)); } }
        ev("begin").a("w44100", w[0]).a("w16000", w[1]).a("w8000", w[2]);
        for (long long f = 1; f <= 3; ++f) { put_signal(f); }
        for (long long f = 4; f <= 6; ++f) { put_impulse(f); }
        auto a = std::make_shared<juce::StubAudio>();
        a->buffer = juce::AudioBuffer<float>(2, 700);
        a->buffer.clear();
        a->sampleRate = 8000;
        a->recognised = r.flag(50);
        a->readable   = !a->recognised;
        juce::stubFiles()[path(7)] = a;
        ev("put").i("f", 7).s("kind", "damaged");
        start();
    }
    ~desk() { win.reset(); juce::stubRunMessages(); }
    void store(long long f, long long sr, long long len, rows const& x, long long unit)
    {
        auto a    = std::make_shared<juce::StubAudio>();
        a->buffer = juce::AudioBuffer<float>((int)x.size(), (int)len);
        a->buffer.clear();
        for (std::size_t c = 0; c < x.size(); ++c) { for (std::size_t k = 0; k + 1 < x[c].size(); k += 2) { a->buffer.setSample((int)c, (int)x[c][k], std::ldexp((float)x[c][k + 1], (int)unit)); } }
        a->sampleRate = (double)sr;
        juce::stubFiles()[path(f)] = a;
        ev("put").i("f", f).s("kind", "audio").i("rate", sr).i("len", len).m("x", x);
    }
    static auto flat(std::map<long long, long long> const& m) -> ints { auto v = ints{}; for (auto [p, q] : m) { v.push_back(p); v.push_back(q); } return v; }
    /// lengths that are not half a sample at some rate
    static auto odd(long long n) -> long long { return n % 40 == 0 ? n + 1 : n; }
    auto small() -> long long { return r.flag(50) ? r.in(1, 3) : r.in(-3, -1); }
    auto some_rate(long long f) -> long long { return r.flag(20) ? (f % 2 == 0 ? 8000 : 16000) : (f % 2 == 0 ? 16000 : 8000); }
    void put_signal(long long f)
    {
        long long const lens[] = {4096, 8192, 4095, 4097, 1, 300, 5000, 12288, r.in(2, 9000)};
        auto const len = odd(lens[r.in(0, 8)]);
        auto const ch  = r.in(1, 2);
        auto x         = rows{};
        for (long long c = 0; c < ch; ++c) {
            auto m = std::map<long long, long long>{};
            if (c == 0) { m[0] = small(); }
            for (long long k = 0; k < 2; ++k) {
                long long const where[] = {len - 1, std::min(len - 1, 4096LL), std::min(len - 1, 4095LL), r.in(0, len - 1), 2 * r.in(0, (len - 1) / 2)};
                m.emplace(where[r.in(0, 4)], small());
            }
            x.push_back(flat(m));
        }
        store(f, some_rate(f), len, x, r.in(-4, 0));
    }
    void put_impulse(long long f)
    {
        long long const lens[] = {513, 1024, 1025, 1, 300, 512, 4097, 5000, r.in(514, 3000), r.in(514, 3000), r.in(1000, 2600), 2 * r.in(600, 1500)};
        auto const len = odd(lens[r.in(0, 11)]);
        auto x         = rows{};
        for (long long c = 0; c < 2; ++c) {
            auto m = std::map<long long, long long>{};
            m[0]   = small();
            for (long long k = 512; k < len; k += 512) {
                if (m.size() > 4 || r.flag(20)) { continue; }
                static constexpr long long v[] = {1, 3, 9, -1, -3, -9};
                auto const p = std::min(len - 1, k + (r.flag(20) ? (r.flag(50) ? 511 : 0) : 2 * r.in(0, 255)));
                m[p] = v[r.in(0, 5)];
            }
            x.push_back(flat(m));
        }
        store(f, some_rate(f), len, x, r.in(-4, 0));
    }
    void play(int size)
    {
        juce::stubReleaseBuild = true;   // the impulse of the effect itself is not there
        box->prepareToPlay((double)rate, size);
        juce::stubReleaseBuild = false;
    }
    void prepare(int k, int b)
    {
        static constexpr long long sizes[] = {64, 128, 512, 256, 100, 32};
        rate           = k == 0 ? 8000 : 16000;
        auto const ch  = proc().getMainBusNumOutputChannels();
        box->setRateAndBufferSizeDetails((double)rate, (int)sizes[b]);
        play((int)sizes[b]);
        juce::stubRunMessages();
        shown(ev("prepare").i("rate", rate).i("B", sizes[b]).i("ch", ch).a("labels", labels()));
    }
    void choose(bool signal, long long f)
    {
        button(signal ? "signal" : "impulse").onClick();
        auto asked = 0;
        for (auto* c : juce::stubWidgets<juce::FileChooser>()) { asked += c->launched ? 1 : 0; }
        // 0: cancelled; 8: a file that is not there
        for (auto* c : juce::stubWidgets<juce::FileChooser>()) { if (c->launched) { c->stubAnswer(f == 0 ? std::nullopt : std::optional{juce::File{juce::String{path(f)}}}); break; } }
        juce::stubRunMessages();
        if (signal) {
            if (f >= 1 && f <= 7) { sig = f; }
            ev("signal").i("f", f).i("asked", asked);
        } else {
            if (f >= 1 && f <= 6) { imp = f; }
            shown(ev("impulse").i("f", f).i("asked", asked));
        }
    }
    void turn(int which, int k)
    {
        if (which == 0) {
            static constexpr double v[] = {10.0, 15.0, 30.0, 45.5, 60.1, 90.0, 19.5, 71.0};
            range = v[k];
            knob("range") = juce::var{range};
        } else if (which == 1) {
            weighted = k == 1;
            knob("weight") = juce::var{weighted ? "A-Weighting" : "No Weighting"};
        } else {
            keep = k;
            knob("bins") = juce::var{keep};
        }
        juce::stubRunMessages();
        shown(ev("turn").i("range", ri(range, 10.0L)).b("weighted", weighted).i("keep", (long long)keep));
    }
    auto usable() -> bool
    {
        if (sig == 0 || imp == 0 || sig == 7) { return true; }   // nothing happens
        auto const& files = juce::stubFiles();
        return files.at(path(sig))->buffer.getNumChannels() <= files.at(path(imp))->buffer.getNumChannels();
    }
    auto select(long long mask) -> ints
    {
        auto a   = juce::Array<juce::var>{};
        auto ids = ints{};
        for (long long e = 0; e < 11; ++e) { if ((mask >> e) & 1) { ids.push_back(e); } }
        auto order = ids;
        for (std::size_t i = order.size(); i > 1; --i) { std::swap(order[i - 1], order[(std::size_t)r.in(0, (long long)i - 1)]); }
        for (auto e : order) { a.add(juce::var{engines[(std::size_t)e]}); }
        knob("engine") = juce::var{a};
        juce::stubRunMessages();
        return ids;
    }
    void line(std::string const& s) { std::fwrite(s.data(), 1, s.size(), g_out); }
    static auto print(juce::AudioBuffer<float> const& b) -> std::string
    {
        auto s = std::string{};
        s.append(reinterpret_cast<char const*>(&b), 0);
        for (int c = 0; c < b.getNumChannels(); ++c) { s.append(reinterpret_cast<char const*>(b.getReadPointer(c)), sizeof(float) * (std::size_t)b.getNumSamples()); }
        return s;
    }
    struct table { std::map<std::string, std::string> m; };
    static auto snap() -> std::map<std::string, std::string>
    {
        auto m = std::map<std::string, std::string>{};
        for (auto const& [k, v] : juce::stubFiles()) { m[k] = print(v->buffer); }
        return m;
    }
    /// the files that are new, and whether all others are as they were
    static auto changes(std::map<std::string, std::string> const& before, bool& others) -> std::vector<std::string>
    {
        auto fresh = std::vector<std::string>{};
        auto after = snap();
        others     = true;
        for (auto const& [k, v] : before) { others = others && after.contains(k) && after[k] == v; }
        for (auto const& [k, v] : after) { if (!before.contains(k)) { fresh.push_back(k); } }
        return fresh;
    }
    void render(long long mask)
    {
        if (!usable() || rate == 44100) { return; }
        auto const ids    = select(mask);
        auto const before = snap();
        auto const lines0 = text();
        button("render").onClick();
        for (auto* p : juce::stubWidgets<juce::ThreadPool>()) { p->stubRunAll(); }
        juce::stubRunMessages();
        auto others      = true;
        auto const fresh = changes(before, others);
        auto const t     = text();
        auto const kept  = t.starts_with(lines0);
        auto const lines = std::count(t.begin(), t.end(), '\n') - std::count(lines0.begin(), lines0.end(), '\n');
        auto place       = true;
        for (auto const& f : fresh) { place = place && f.ends_with(".wav") && f.substr(0, f.rfind('/')) == fresh[0].substr(0, fresh[0].rfind('/')); }

        auto sparse = std::vector<float>{};
        if ((mask & 256) != 0 && sig != 0 && sig != 7 && imp != 0) {
            auto formats = juce::AudioFormatManager{};
            formats.registerBasicFormats();
            auto const s = neo::loadAndResample(formats, juce::File{juce::String{path(sig)}}, (double)rate);
            auto const h = neo::loadAndResample(formats, juce::File{juce::String{path(imp)}}, (double)rate);
            auto const y = neo::sparse_convolve(s.buffer, h.buffer, 4096, (double)rate, -(float)range, (int)keep);
            auto peak    = 0.0F;
            for (int c = 0; c < y.getNumChannels(); ++c) { for (int i = 0; i < y.getNumSamples(); ++i) { peak = std::max(peak, std::fabs(y.getSample(c, i))); sparse.push_back(y.getSample(c, i)); } }
            for (auto& v : sparse) { v = peak == 0.0F ? v : v / peak; }
        }
        auto s = "{\"op\":\"render\",\"v\":\"" + g_variant + "\",\"engines\":[";
        for (std::size_t i = 0; i < ids.size(); ++i) { s += (i ? "," : "") + std::to_string(ids[i]); }
        s += "],\"others\":" + std::string(others ? "true" : "false") + ",\"place\":" + (place ? "true" : "false") + ",\"kept\":" + (kept ? "true" : "false") + ",\"lines\":" + std::to_string(lines) + ",\"files\":[";
        for (std::size_t k = 0; k < fresh.size(); ++k) {
            auto const& a = *juce::stubFiles().at(fresh[k]);
            auto all      = std::vector<float>{};
            s += k ? "," : "";
            s += "{\"rate\":" + std::to_string((long long)a.sampleRate) + ",\"bits\":" + std::to_string(a.bits) + ",\"len\":" + std::to_string(a.buffer.getNumSamples()) + ",\"x\":[";
            for (int c = 0; c < a.buffer.getNumChannels(); ++c) {
                s += c ? ",[" : "[";
                auto n = 0;
                for (int i = 0; i < a.buffer.getNumSamples(); ++i) {
                    auto const v = a.buffer.getSample(c, i);
                    all.push_back(v);
                    if (!(std::fabs(v) <= 0.002F) && n < 200) { s += (n++ ? "," : "") + std::to_string(i) + "," + std::to_string(ri(v, 10000.0L)); }
                }
                s += "]";
            }
            auto alike = all.size() == sparse.size();
            for (std::size_t i = 0; alike && i < all.size(); ++i) { alike = std::fabs(all[i] - sparse[i]) <= 2e-5F; }
            s += "],\"sparse\":" + std::string(alike ? "true" : "false") + "}";
        }
        line(s + "]}\n");
    }
    /// the editor is closed while jobs wait, some of which have begun
    void close(long long mask, int begun)
    {
        if (!usable()) { return; }
        auto const before = snap();
        if (mask != 0) { (void)select(mask & 511); button("render").onClick(); }
        juce::stubJobsThatHaveBegun = begun;
        win.reset();
        juce::stubJobsThatHaveBegun = 0;
        juce::stubRunMessages();
        auto others      = true;
        auto const fresh = changes(before, others);
        ev("close").i("begun", begun).i("fresh", (long long)fresh.size()).b("others", others).i("left", (long long)(juce::stubWidgets<juce::TextButton>().size() + juce::stubWidgets<juce::PropertyComponent>().size()));
        for (auto const& f : fresh) { juce::stubFiles().erase(f); }
        if (r.flag(50)) {
            rate = rate == 8000 ? 16000 : 8000;
            play(64);
            juce::stubRunMessages();
            ev("alone").i("rate", rate).i("B", 64).i("ch", proc().getMainBusNumOutputChannels());
        }
        start();
    }
};

/// the reported errors are those between the spectra of the dense and the sparse result
void quality(std::uint64_t salt)
{
    auto d = desk{salt};
    d.prepare(0, 0);
    d.choose(true, 1);
    d.choose(false, 4);
    if (!d.usable()) { return; }
    auto const size = std::array<int, 3>{512, 1024, 2048}[salt % 3];
    desk::knob("stf") = juce::var{size};
    (void)d.select(1024);
    auto const before = desk::snap();
    auto const start  = desk::text().size();
    desk::button("render").onClick();
    for (auto* p : juce::stubWidgets<juce::ThreadPool>()) { p->stubRunAll(); }
    juce::stubRunMessages();
    auto others = true;
    auto fresh  = desk::changes(before, others);
    auto t      = desk::text().substr(start);
    auto vals   = ints{};
    auto levels = ints{};
    for (std::size_t p = 0; (p = t.find("rmse = ", p)) != std::string::npos; ++p) { auto const open = t.rfind('(', p); levels.push_back(ri(number(t, open), 1000.0L)); vals.push_back(ri(number(t, p + 7), 1e7L)); }

    auto formats = juce::AudioFormatManager{};
    formats.registerBasicFormats();
    auto const s   = neo::loadAndResample(formats, juce::File{juce::String{path(1)}}, (double)d.rate);
    auto const h   = neo::loadAndResample(formats, juce::File{juce::String{path(4)}}, (double)d.rate);
    auto spectrum  = [size](juce::AudioBuffer<float> const& y) {
        auto m = neo::to_mdarray(y);
        neo::normalize_peak(m.to_mdspan());
        auto plan = neo::fft::stft_plan<double>{neo::fft::stft_options<double>{.frame_size = (std::size_t)size, .transform_size = (std::size_t)size * 2, .overlap_size = (std::size_t)size / 2}};
        return plan(m.to_mdspan());
    };
    auto const dense = spectrum(neo::dense_convolve<neo::convolution::upols_convolver<std::complex<float>>>(s.buffer, h.buffer, 4096));
    auto refs        = ints{};
    for (auto i : {180, 179, 120, 60, 20, 1}) {
        auto const range = 1.0 + (i - 1) * 89.0 / 179.0;
        auto const sp    = spectrum(neo::sparse_convolve(s.buffer, h.buffer, 4096, (double)d.rate, -(float)range, (int)d.keep));
        auto worst       = 0.0;
        for (std::size_t c = 0; c < dense.extent(0); ++c) {
            auto const one = stdex::submdspan(dense.to_mdspan(), c, stdex::full_extent, stdex::full_extent);
            auto const two = stdex::submdspan(sp.to_mdspan(), c, stdex::full_extent, stdex::full_extent);
            worst          = std::max(worst, (double)neo::root_mean_squared_error(one, two));
        }
        refs.push_back(180 - i + 1);
        refs.push_back(ri(worst, 1e7L));
    }
    ev("quality").i("fresh", (long long)fresh.size()).b("others", others).b("done", t.find("Done") != std::string::npos).a("levels", levels).a("vals", vals).a("refs", refs);
}

void run()
{
    auto salt = std::uint64_t{1};
    auto n    = 0;
    for (auto const& text : scenario_lines()) {
        auto const s = parse_ints(text);
        if (s.size() < 3) { continue; }
        if (++n % 60 == 1) { quality(1000 + salt); }
        auto d = desk{++salt};
        for (std::size_t i = 0; i + 2 < s.size(); i += 3) {
            auto const a = (int)s[i + 1];
            auto const b = (int)s[i + 2];
            switch (s[i]) {
                case 1: d.prepare(a, b); break;
                case 2: d.choose(true, a); break;
                case 3: d.choose(false, a); break;
                case 4: d.turn(a, b); break;
                case 5: d.render(a); break;
                default: d.close(a, b); break;
            }
        }
    }
}

}  // namespace vh
