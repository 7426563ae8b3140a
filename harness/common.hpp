// Shared trace-emission helpers for the conformance harnesses.
// A harness is started as:  harness TRACE SEED TIER VARIANT SCENARIO
// and writes one JSON object per line, one line per observed public API call.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <barrier>
#include <bit>
#include <cassert>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <span>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh {

inline std::FILE* g_out     = nullptr;
inline thread_local std::string* t_sink = nullptr;  // where the events of this thread wait
inline std::uint64_t g_seed = 1;
inline bool g_thorough      = false;
inline std::string g_variant;
inline std::string g_scenario;

// TLC integers are 32 bit: clamp; a clamped or non-finite value can never equal a specified one.
inline constexpr long long BIG = 2147483000LL;
inline constexpr long long NANV = -2147483001LL;

inline auto clampi(long long x) -> long long { return x > BIG ? BIG : (x < -BIG ? -BIG : x); }

/// real number -> nearest integer after scaling
inline auto ri(long double x, long double scale = 1.0L) -> long long
{
    long double y = x * scale;
    if (std::isnan(y)) { return NANV; }
    if (y >= static_cast<long double>(BIG)) { return BIG; }
    if (y <= -static_cast<long double>(BIG)) { return -BIG; }
    return std::llround(y);
}

/// |x*scale - nearest integer| in units of 1e-6
inline auto dev(long double x, long double scale = 1.0L) -> long long
{
    long double y = x * scale;
    if (!std::isfinite(y)) { return BIG; }
    auto d = std::fabs(y - std::nearbyint(y)) * 1e6L;
    return static_cast<long long>(std::ceil(d));
}

struct rng
{
    std::uint64_t s;
    explicit rng(std::uint64_t salt) : s{g_seed * 0x9E3779B97F4A7C15ULL + salt * 0xD1B54A32D192ED03ULL + 0x1234567ULL} {}
    auto next() -> std::uint64_t
    {
        s += 0x9E3779B97F4A7C15ULL;
        auto z = s;
        z      = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z      = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    /// uniform in [lo, hi]
    auto in(long long lo, long long hi) -> long long
    {
        return lo + static_cast<long long>(next() % static_cast<std::uint64_t>(hi - lo + 1));
    }
    auto flag(int pct) -> bool { return in(0, 99) < pct; }
};

class ev
{
    std::string _s;

public:
    explicit ev(char const* op)
    {
        _s = "{\"op\":\"";
        _s += op;
        _s += "\",\"v\":\"";
        _s += g_variant;
        _s += '"';
    }
    auto i(char const* k, long long v) -> ev&
    {
        key(k);
        _s += std::to_string(v == NANV ? v : clampi(v));
        return *this;
    }
    auto b(char const* k, bool v) -> ev&
    {
        key(k);
        _s += v ? "true" : "false";
        return *this;
    }
    auto s(char const* k, std::string_view v) -> ev&
    {
        key(k);
        _s += '"';
        _s += v;
        _s += '"';
        return *this;
    }
    template<typename R>
    auto a(char const* k, R const& vals) -> ev&
    {
        key(k);
        list(vals);
        return *this;
    }
    /// list of lists
    template<typename R>
    auto m(char const* k, R const& rows) -> ev&
    {
        key(k);
        _s += '[';
        bool first = true;
        for (auto const& r : rows) {
            if (!first) { _s += ','; }
            first = false;
            list(r);
        }
        _s += ']';
        return *this;
    }
    ~ev()
    {
        _s += "}\n";
        if (t_sink != nullptr) {
            *t_sink += _s;
        } else {
            std::fwrite(_s.data(), 1, _s.size(), g_out);
        }
    }

private:
    void key(char const* k)
    {
        _s += ",\"";
        _s += k;
        _s += "\":";
    }
    template<typename R>
    void list(R const& vals)
    {
        _s += '[';
        bool first = true;
        for (auto const& v : vals) {
            if (!first) { _s += ','; }
            first = false;
            auto x = static_cast<long long>(v);
            _s += std::to_string(x == NANV ? x : clampi(x));
        }
        _s += ']';
    }
};

using ints = std::vector<long long>;

inline void flush() { std::fflush(g_out); }

void run();

/// lines of the scenario file
inline auto scenario_lines() -> std::vector<std::string>
{
    auto out = std::vector<std::string>{};
    auto* f  = std::fopen(g_scenario.c_str(), "r");
    if (f == nullptr) { return out; }
    auto cur = std::string{};
    for (int c = std::fgetc(f); c != EOF; c = std::fgetc(f)) {
        if (c == '\n') {
            out.push_back(cur);
            cur.clear();
        } else {
            cur += static_cast<char>(c);
        }
    }
    if (!cur.empty()) { out.push_back(cur); }
    std::fclose(f);
    return out;
}

/// all integers in a line (scenario files are whitespace-separated integers)
inline auto parse_ints(std::string const& line) -> ints
{
    auto out      = ints{};
    char const* p = line.c_str();
    while (*p != 0) {
        if ((*p == '-' && p[1] >= '0' && p[1] <= '9') || (*p >= '0' && *p <= '9')) {
            char* e = nullptr;
            out.push_back(std::strtoll(p, &e, 10));
            p = e;
        } else {
            ++p;
        }
    }
    return out;
}

/// now and then an object is replaced by a copy of itself (whose original is gone), assigned from one, or moved away and back
template<typename T>
void replant(rng& g, T& obj, int percent = 15)
{
    if (!g.flag(percent)) { return; }
    if constexpr (std::is_copy_constructible_v<T>) {
        if (g.flag(50)) {
            auto copy = std::make_unique<T>(std::as_const(obj));
            std::destroy_at(&obj);
            std::construct_at(&obj, std::as_const(*copy));
            return;
        }
        if constexpr (std::is_copy_assignable_v<T>) {
            if (g.flag(50)) {
                auto copy = std::make_unique<T>(std::as_const(obj));
                obj       = std::as_const(*copy);
                return;
            }
        }
    }
    if constexpr (std::movable<T>) {
        auto other = std::make_unique<T>(std::move(obj));
        obj        = std::move(*other);
    }
}

/// several threads at once, each with objects of its own: fn(rng, thread); the events of a thread stay together.
/// noise(rng) is called over and over in further threads meanwhile
template<typename Fn, typename Noise>
void crowd(rng& g, int threads, Fn fn, Noise noise, int others)
{
#if defined(NEO_HAS_INTEL_IPP) or defined(NEO_HAS_INTEL_MKL) or defined(NEO_HAS_APPLE_ACCELERATE)
    threads = 1;  // the stand-ins of the vendor libraries are not made for threads
    others  = 0;
#endif
    auto sinks = std::vector<std::string>(static_cast<std::size_t>(threads));
    auto start = std::barrier<>{threads + others};
    auto left  = std::atomic<int>{threads};
    auto pool  = std::vector<std::jthread>{};
    for (int i = 0; i < threads + others; ++i) {
        pool.emplace_back([&, i, seed = g.next()] {
            auto own = rng{seed};
            start.arrive_and_wait();
            if (i >= threads) {
                while (left.load() > 0) { noise(own); }
                return;
            }
            t_sink = &sinks[static_cast<std::size_t>(i)];
            fn(own, i);
            t_sink = nullptr;
            --left;
        });
    }
    pool.clear();
    for (auto const& s : sinks) { std::fwrite(s.data(), 1, s.size(), g_out); }
}
template<typename Fn>
void crowd(rng& g, int threads, Fn fn)
{
    crowd(g, threads, fn, [](rng&) {}, 0);
}

}  // namespace vh

int main(int argc, char** argv)
{
    if (argc < 6) { return 64; }
    vh::g_out      = std::fopen(argv[1], "w");
    vh::g_seed     = std::strtoull(argv[2], nullptr, 10);
    vh::g_thorough = std::string_view{argv[3]} == "thorough";
    vh::g_variant  = argv[4];
    vh::g_scenario = argv[5];
    if (vh::g_out == nullptr) { return 65; }
    static char buf[1 << 20];
    std::setvbuf(vh::g_out, buf, _IOFBF, sizeof(buf));
    vh::run();
    std::fclose(vh::g_out);
    return 0;
}
