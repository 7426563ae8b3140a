// P29: the command-line convolver (extra/cli), run in-process on files of a scratch directory.
#include "common.hpp"

#include <filesystem>
#include <fstream>

#define main neo_cli_main
#include "convolver.cpp"
#undef main

namespace vh {

namespace fs = std::filesystem;

struct audio
{
    long long rate{8000}, len{0};
    std::vector<std::vector<std::pair<long long, long long>>> x;
};

struct session
{
    fs::path dir;
    rng& r;
    std::array<bool, 5> produced{};
    long long base{8000};

    session(rng& rr, int k) : r(rr)
    {
        dir = fs::path{g_scenario}.parent_path() / ("cli_" + g_variant + "_" + std::to_string(k));
        long long const rates[] = {8000, 44100, 48000, 96000};
        base = rates[r.in(0, 3)];
        fs::remove_all(dir);
        fs::create_directories(dir);
    }
    ~session() { fs::remove_all(dir); }

    auto path(long long f) const -> std::string
    {
        if (f == 5) { return (dir / "missing.wav").string(); }
        if (f == 6) { return (dir / "no_such_folder" / "out.wav").string(); }
        return (dir / ("f" + std::to_string(f) + ".wav")).string();
    }
    static auto bytes(std::string const& p) -> std::string
    {
        auto in = std::ifstream(p, std::ios::binary);
        if (!in) { return "-"; }
        return std::string(std::istreambuf_iterator<char>(in), {});
    }
    auto snapshot() const -> std::vector<std::string>
    {
        auto out = std::vector<std::string>{};
        for (int f = 1; f <= 4; ++f) { out.push_back(bytes(path(f))); }
        auto n = 0;
        for (auto const& e : fs::recursive_directory_iterator(dir)) { n += e.path().filename().string().size() == 6 ? 0 : 1; }
        out.push_back(std::to_string(n));
        return out;
    }
    void emit_rows(std::string& s, std::vector<std::vector<std::pair<long long, long long>>> const& x)
    {
        s += "[";
        for (std::size_t c = 0; c < x.size(); ++c) {
            s += c ? ",[" : "[";
            for (std::size_t k = 0; k < x[c].size(); ++k) {
                s += (k ? ",[" : "[") + std::to_string(x[c][k].first) + "," + std::to_string(x[c][k].second) + "]";
            }
            s += "]";
        }
        s += "]";
    }
    void line(std::string const& s) { std::fwrite(s.data(), 1, s.size(), g_out); }

    void put(long long f, long long kind, long long lk)
    {
        long long const block = 32768;
        long long const lens[] = {r.in(1, 4), r.in(5, 300), block - 1, block, block + 1, 2 * block + r.in(-1, 1), r.in(1, 3 * block), 2 * block + r.in(1, block), 0};
        auto a = audio{};
        a.len  = lens[lk];
        a.rate = base;
        if (kind >= 8) { long long const other[] = {base + 1, base - 1, base + 192, base / 2, 192000}; a.rate = other[kind >= 16 ? kind / 3 - 5 : r.in(0, 4)]; }
        auto const unit = std::ldexp(1.0F, (int)r.in(-6, 2));
        auto const ch   = (kind % 3) + 1;
        auto data = std::vector<float>((std::size_t)(a.len * ch), 0.0F);
        auto const silent = a.len == 0 || r.flag(8);
        for (long long c = 0; c < ch; ++c) {
            auto row = std::vector<std::pair<long long, long long>>{};
            auto const n = silent ? 0 : r.in(c > 0 && r.flag(20) ? 0 : 1, 3);
            for (long long k = 0; k < n; ++k) {
                long long const where[] = {0, a.len - 1, std::min(a.len - 1, block - 1), std::min(a.len - 1, block), r.in(0, a.len - 1), r.in(0, a.len - 1), r.in(0, std::min(a.len - 1, 3LL))};
                // the result of two files with sound is never silent: its rounding noise would be scaled up to full level
                auto const p = c == 0 && k == 0 ? 0 : where[r.in(0, 6)];
                auto const v = r.flag(50) ? r.in(1, 3) : r.in(-3, -1);
                if (data[(std::size_t)(p * ch + c)] != 0) { continue; }
                data[(std::size_t)(p * ch + c)] = (float)v * unit;
                row.emplace_back(p, v);
            }
            std::sort(row.begin(), row.end());
            a.x.push_back(row);
        }
        store(f, a, data);
    }
    void store(long long f, audio const& a, std::vector<float> const& data)
    {
        auto const ch      = a.x.size();
        auto w             = drwav{};
        auto fmt           = drwav_data_format{drwav_container_riff, DR_WAVE_FORMAT_IEEE_FLOAT, (drwav_uint32)ch, (drwav_uint32)a.rate, 32};
        drwav_init_file_write(&w, path(f).c_str(), &fmt, nullptr);
        drwav_write_pcm_frames(&w, (drwav_uint64)a.len, data.data());
        drwav_uninit(&w);
        produced[(std::size_t)f] = false;
        auto s = "{\"op\":\"put\",\"v\":\"" + g_variant + "\",\"f\":" + std::to_string(f) + ",\"kind\":\"audio\",\"rate\":" + std::to_string(a.rate) + ",\"len\":" + std::to_string(a.len) + ",\"x\":";
        emit_rows(s, a.x);
        line(s + "}\n");
    }
    /// the given values at the given places
    void place(long long f, long long len, std::vector<std::vector<std::pair<long long, long long>>> const& x)
    {
        auto data = std::vector<float>((std::size_t)len * x.size(), 0.0F);
        for (std::size_t c = 0; c < x.size(); ++c) { for (auto [p, v] : x[c]) { data[(std::size_t)p * x.size() + c] = (float)v / 8.0F; } }
        store(f, audio{base, len, x}, data);
    }
    void drop(long long f, bool damage, long long cut = -1)
    {
        fs::remove(path(f));
        if (damage) {
            // fewer frames than the header promises, otherwise like the other files
            auto w   = drwav{};
            auto fmt = drwav_data_format{drwav_container_riff, DR_WAVE_FORMAT_IEEE_FLOAT, 2, (drwav_uint32)base, 32};
            auto d   = std::vector<float>(200, 0.5F);
            drwav_init_file_write(&w, path(f).c_str(), &fmt, nullptr);
            drwav_write_pcm_frames(&w, 100, d.data());
            drwav_uninit(&w);
            auto const whole = (long long)fs::file_size(path(f));
            fs::resize_file(path(f), (std::uintmax_t)(cut >= 0 ? whole - cut : r.in(0, whole - 1)));
        }
        produced[(std::size_t)f] = false;
        ev("put").i("f", f).s("kind", damage ? "damaged" : "none");
    }
    auto call(std::vector<std::string> args) -> int
    {
        auto argv = std::vector<char*>{};
        for (auto& a : args) { argv.push_back(a.data()); }
        auto const n = (int)argv.size();
        argv.push_back(nullptr);
        auto const rc = neo_cli_main(n, argv.data());
        return drwav_stub::g_open == 0 ? rc : 1000;
    }
    /// the disk takes only so many frames: the run fails and spares all files but the output
    void full(long long a, long long b, long long o, long long space)
    {
        auto const before   = snapshot();
        drwav_stub::g_space = space;
        auto const rc       = call({"neo_convolver", path(a), path(b), path(o)});
        drwav_stub::g_space = -1;
        auto const after    = snapshot();
        auto others         = before[4] == after[4];
        for (long long f = 1; f <= 4; ++f) { if (f != o) { others = others && before[(std::size_t)f - 1] == after[(std::size_t)f - 1]; } }
        fs::remove(path(o));
        produced[(std::size_t)o] = false;
        ev("full").i("a", a).i("b", b).i("o", o).i("space", space).i("rc", rc).b("others", others);
    }
    void exec(long long a, long long b, long long o)
    {
        // results are good to 0.3 % only, so a chain of runs stops after two
        if ((a <= 4 && produced[(std::size_t)a]) && (b <= 4 && produced[(std::size_t)b])) { return; }
        auto const chained = (a <= 4 && produced[(std::size_t)a]) || (b <= 4 && produced[(std::size_t)b]);
        auto const before  = snapshot();
        auto const rc      = call({"neo_convolver", path(a), path(b), path(o)});
        auto const after   = snapshot();
        auto others        = before[4] == after[4];
        for (long long f = 1; f <= 4; ++f) { if (f != o) { others = others && before[(std::size_t)f - 1] == after[(std::size_t)f - 1]; } }
        auto const touched = o <= 4 && before[(std::size_t)o - 1] != after[(std::size_t)o - 1];
        auto s = "{\"op\":\"run\",\"v\":\"" + g_variant + "\",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"o\":" + std::to_string(o) + ",\"rc\":" + std::to_string(rc)
               + ",\"others\":" + (others ? "true" : "false") + ",\"touched\":" + (touched ? "true" : "false") + ",\"y\":";
        auto w = drwav{};
        if (rc == 0 && o <= 4 && drwav_init_file(&w, path(o).c_str(), nullptr)) {
            auto data = std::vector<float>((std::size_t)(w.totalPCMFrameCount * w.channels));
            auto n    = drwav_read_pcm_frames_f32(&w, w.totalPCMFrameCount, data.data());
            auto x    = std::vector<std::vector<std::pair<long long, long long>>>(w.channels);
            for (std::size_t i = 0; i < n * w.channels; ++i) {
                auto const v = data[i];
                if (!(std::fabs(v) <= 0.006F)) { x[i % w.channels].emplace_back((long long)(i / w.channels), ri(v, 10000.0L)); }
            }
            for (auto& row : x) { if (row.size() > 100) { row.resize(100); } }
            s += "{\"kind\":\"audio\",\"rate\":" + std::to_string(w.sampleRate) + ",\"len\":" + std::to_string(n) + ",\"x\":";
            emit_rows(s, x);
            s += "}";
            drwav_uninit(&w);
            produced[(std::size_t)o] = true;
        } else {
            s += "{\"kind\":\"none\"}";
        }
        line(s + "}\n");
        if (chained && rc == 0 && o <= 4) { drop(o, false); }
    }
    void misuse(int n)
    {
        auto const before = snapshot();
        auto args         = std::vector<std::string>{"neo_convolver"};
        for (int i = 1; i < n; ++i) { args.push_back(path((i - 1) % 4 + 1)); }
        auto const rc = call(args);
        ev("misuse").i("n", n).i("rc", rc).b("others", before == snapshot());
    }
};

void run()
{
    auto k = 0;
    // every way in which two files can differ, also with the roles exchanged
    for (int q = 0; q < 7; ++q) {
        auto r    = rng{(std::uint64_t)(50 + q)};
        auto live = session{r, k++};
        ev("begin");
        live.put(1, 1, 0);
        if (q < 5) { live.put(2, 15 + 3 * q + 1, 1); } else { live.put(2, q == 5 ? 0 : 2, 1); }
        live.exec(1, 2, 3);
        live.exec(2, 1, 1);
        live.exec(2, 1, 4);
    }
    // one sample, no sample, and both with the other; an output that cannot be opened
    for (int q = 0; q < 6; ++q) {
        auto r    = rng{(std::uint64_t)(90 + q)};
        auto live = session{r, k++};
        ev("begin");
        using row = std::vector<std::pair<long long, long long>>;
        auto const one = [](std::size_t ch) { return std::vector<row>(ch, row{{0, 3}}); };
        auto const ch  = (std::size_t)(1 + q % 3);
        live.place(1, 1, one(ch));
        live.place(2, q < 3 ? 1 : 2, one(ch));
        live.exec(1, 2, 3);
        live.exec(2, 1, 4);
        live.exec(2, 1, 6);
        live.exec(1, 1, 6);
        live.place(2, 0, std::vector<row>(ch));
        live.exec(1, 2, 3);
        live.exec(2, 1, 4);
        live.exec(2, 2, 4);
    }
    // files that break off after the header, also by less than a frame, in either place
    for (int q = 0; q < 8; ++q) {
        auto r    = rng{(std::uint64_t)(60 + q)};
        auto live = session{r, k++};
        ev("begin");
        live.put(1, 1, 1);
        long long const cuts[] = {8, 1, 16, 799, 792, 400, 800, 801};
        live.drop(2, true, cuts[q]);
        live.exec(1, 2, 3);
        live.exec(2, 1, 3);
        live.exec(2, 2, 4);
        live.exec(1, 1, 4);
    }
    // the disk fills up at the first, second or last writing of the result
    for (int q = 0; q < 8; ++q) {
        auto r    = rng{(std::uint64_t)(70 + q)};
        auto live = session{r, k++};
        ev("begin");
        using row      = std::vector<std::pair<long long, long long>>;
        auto const len = q % 2 == 0 ? 37LL : 40000LL;
        live.place(1, len, {row{{0, 3}, {5, -2}}, row{{1, 1}}});
        live.place(2, 3, {row{{0, 2}}, row{{0, 1}, {2, 1}}});
        live.exec(1, 2, 3);
        long long const left[] = {0, 0, len - 1, 1, len / 2, len - 1, 1, len / 2};
        live.full(1, 2, q < 4 ? 3 : 4, left[q]);
        live.exec(1, 2, 4);
    }
    // the loudest sample anywhere: first, last and later channels, beginning and end of the file and of a block
    for (int q = 0; q < (g_thorough ? 40 : 16); ++q) {
        auto r    = rng{(std::uint64_t)(80 + q)};
        auto live = session{r, k++};
        ev("begin");
        auto const ch  = (std::size_t)(1 + q % 3);
        long long const lens[] = {5, 20000, 32768, 40000, 65536};
        auto const len = lens[r.in(0, 4)];
        using row      = std::vector<std::pair<long long, long long>>;
        auto x         = std::vector<row>(ch);
        auto h         = std::vector<row>(ch, row{{0, 2}});
        auto loud      = (std::size_t)r.in(0, (long long)ch - 1);
        if (q % 2 == 0) { loud = ch - 1; }
        long long const where[] = {len - 1, len - 2, len / 2, 1, std::min(len - 1, 32767LL)};
        for (std::size_t c = 0; c < ch; ++c) {
            x[c].emplace_back(0, c % 2 == 0 ? 1 : -2);
            if (c == loud) { x[c].emplace_back(where[q % 5], r.flag(50) ? 9 : -9); }
        }
        live.place(1, len, x);
        live.place(2, r.in(1, 3), h);
        live.exec(1, 2, 3);
    }
    for (auto const& text : scenario_lines()) {
        auto const s = parse_ints(text);
        if (s.size() < 8) { continue; }
        auto r    = rng{(std::uint64_t)(100 + k)};
        auto live = session{r, k++};
        ev("begin");
        for (std::size_t i = 0; i + 3 < s.size(); i += 4) {
            switch (s[i]) {
                case 1: live.put(s[i + 1], s[i + 2], s[i + 3]); break;
                case 2: live.exec(s[i + 1], s[i + 2], s[i + 3]); break;
                case 3: live.drop(s[i + 1], s[i + 2] != 0); break;
                case 4: live.misuse((int)s[i + 1]); break;
                default: break;
            }
        }
    }
}

}  // namespace vh
