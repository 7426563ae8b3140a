// A stand-in for the parts of JUCE that extra/plugin's signal path uses, written from JUCE's published
// documentation.  Memory that JUCE leaves uninitialised is filled with NaN, every channel is its own heap
// allocation (AddressSanitizer sees any overrun), and files live in an in-memory table.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace juce { inline bool stubReleaseBuild = false; }  // assertions do nothing in a release build
#ifndef jassert
    #define jassert(...) do { if (!(__VA_ARGS__) && !::juce::stubReleaseBuild) { std::fprintf(stderr, "jassert failed: %s\n", #__VA_ARGS__); std::_Exit(96); } } while (false)
#endif
#define jassertquiet(...) jassert(__VA_ARGS__)
#define jassertfalse do { std::fprintf(stderr, "jassertfalse\n"); std::_Exit(96); } while (false)
#define JUCE_CALLTYPE
#define JUCE_DECLARE_NON_COPYABLE(x)
#define JUCE_LEAK_DETECTOR(x)
#define JUCE_DECLARE_NON_COPYABLE_WITH_LEAK_DETECTOR(x)

namespace juce {
using int8 = std::int8_t; using uint8 = std::uint8_t; using int16 = std::int16_t; using uint16 = std::uint16_t;
using int32 = std::int32_t; using uint32 = std::uint32_t; using int64 = std::int64_t; using uint64 = std::uint64_t;

template<typename... T> void ignoreUnused(T&&...) noexcept {}
template<typename T> constexpr T jmax(T a, T b) { return a < b ? b : a; }
template<typename T> constexpr T jmax(T a, T b, T c) { return jmax(a, jmax(b, c)); }
template<typename T> constexpr T jmin(T a, T b) { return b < a ? b : a; }
template<typename T> constexpr T jmin(T a, T b, T c) { return jmin(a, jmin(b, c)); }
template<typename T> constexpr T jmap(T p, T lo, T hi) { return lo + p * (hi - lo); }
template<typename T> constexpr T square(T v) { return v * v; }
template<typename T> constexpr T jlimit(T lo, T hi, T v) { return v < lo ? lo : (hi < v ? hi : v); }
template<typename T> bool approximatelyEqual(T a, T b) { return std::abs(a - b) <= std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b)); }
template<typename T> constexpr bool exactlyEqual(T a, T b) { return a == b; }
template<typename F> int roundToInt(F v) noexcept { return static_cast<int>(std::nearbyint(static_cast<double>(v))); }
template<typename I> constexpr bool isPowerOfTwo(I v) { return (v & (v - 1)) == 0; }
constexpr int nextPowerOfTwo(int n) { int p = 1; while (p < n) { p *= 2; } return p; }
template<typename T> bool isPositiveAndBelow(T v, T hi) { return T() <= v && v < hi; }
template<typename T> bool isPositiveAndNotGreaterThan(T v, T hi) { return T() <= v && v <= hi; }
template<typename T> struct MathConstants { static constexpr T pi = T(3.141592653589793238L), twoPi = 2 * pi, halfPi = pi / 2, euler = T(2.71828182845904523536L), sqrt2 = T(1.4142135623730950488L); };

struct Decibels
{
    template<typename T> static T decibelsToGain(T d, T lo = T(-100)) { return d > lo ? std::pow(T(10), d * T(0.05)) : T(0); }
    template<typename T> static T gainToDecibels(T g, T lo = T(-100)) { return g > T(0) ? std::max(lo, std::log10(g) * T(20)) : lo; }
};
template<typename T>
class Range
{
    T _a{}, _b{};
public:
    constexpr Range() = default;
    constexpr Range(T a, T b) : _a(a), _b(b < a ? a : b) {}
    [[nodiscard]] constexpr T getStart() const { return _a; }
    [[nodiscard]] constexpr T getEnd() const { return _b; }
    [[nodiscard]] constexpr T getLength() const { return _b - _a; }
    [[nodiscard]] constexpr bool isEmpty() const { return !(_a < _b); }
    [[nodiscard]] constexpr bool contains(T v) const { return _a <= v && v < _b; }
    [[nodiscard]] constexpr T clipValue(T v) const { return jlimit(_a, _b, v); }
};

struct FloatVectorOperations
{
    template<typename T, typename N> static void clear(T* d, N n) { for (N i{0}; i < n; ++i) d[i] = T(0); }
    template<typename T, typename N> static void fill(T* d, std::type_identity_t<T> v, N n) { for (N i{0}; i < n; ++i) d[i] = v; }
    template<typename T, typename N> static void copy(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] = s[i]; }
    template<typename T, typename N> static void copyWithMultiply(T* d, T const* s, std::type_identity_t<T> m, N n) { for (N i{0}; i < n; ++i) d[i] = s[i] * m; }
    template<typename T, typename N> static void add(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] += s[i]; }
    template<typename T, typename N> static void add(T* d, T v, N n) { for (N i{0}; i < n; ++i) d[i] += v; }
    template<typename T, typename N> static void add(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] = a[i] + b[i]; }
    template<typename T, typename N> static void add(T* d, T const* a, T v, N n) { for (N i{0}; i < n; ++i) d[i] = a[i] + v; }
    template<typename T, typename N> static void subtract(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] -= s[i]; }
    template<typename T, typename N> static void subtract(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] = a[i] - b[i]; }
    template<typename T, typename N> static void addWithMultiply(T* d, T const* s, T m, N n) { for (N i{0}; i < n; ++i) d[i] += s[i] * m; }
    template<typename T, typename N> static void addWithMultiply(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] += a[i] * b[i]; }
    template<typename T, typename N> static void subtractWithMultiply(T* d, T const* s, T m, N n) { for (N i{0}; i < n; ++i) d[i] -= s[i] * m; }
    template<typename T, typename N> static void multiply(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] *= s[i]; }
    template<typename T, typename N> static void multiply(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] = a[i] * b[i]; }
    template<typename T, typename N> static void multiply(T* d, T m, N n) { for (N i{0}; i < n; ++i) d[i] *= m; }
    template<typename T, typename N> static void multiply(T* d, T const* s, T m, N n) { for (N i{0}; i < n; ++i) d[i] = s[i] * m; }
    template<typename T, typename N> static void negate(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] = -s[i]; }
    template<typename T, typename N> static void abs(T* d, T const* s, N n) { for (N i{0}; i < n; ++i) d[i] = std::abs(s[i]); }
    template<typename T, typename N> static void min(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] = jmin(a[i], b[i]); }
    template<typename T, typename N> static void max(T* d, T const* a, T const* b, N n) { for (N i{0}; i < n; ++i) d[i] = jmax(a[i], b[i]); }
    template<typename T, typename N> static void clip(T* d, T const* s, T lo, T hi, N n) { for (N i{0}; i < n; ++i) d[i] = jlimit(lo, hi, s[i]); }
    template<typename T, typename N> static T findMaximum(T const* s, N n) { T m = n > 0 ? s[0] : T(0); for (N i{0}; i < n; ++i) m = jmax(m, s[i]); return m; }
    template<typename T, typename N> static T findMinimum(T const* s, N n) { T m = n > 0 ? s[0] : T(0); for (N i{0}; i < n; ++i) m = jmin(m, s[i]); return m; }
};

struct ScopedNoDenormals { ScopedNoDenormals() {} ~ScopedNoDenormals() {} };

template<typename Type>
class AudioBuffer
{
    std::vector<std::unique_ptr<Type[]>> _data;
    std::vector<Type*> _ptrs;
    int _n{0};
    bool _clear{false};

    void allocate(int ch, int n, bool clear)
    {
        _data.clear();
        _ptrs.clear();
        for (int c = 0; c < ch; ++c) {
            auto p = std::unique_ptr<Type[]>(new Type[static_cast<std::size_t>(n)]);
            std::fill_n(p.get(), n, clear ? Type(0) : std::numeric_limits<Type>::quiet_NaN());
            _ptrs.push_back(p.get());
            _data.push_back(std::move(p));
        }
        _ptrs.push_back(nullptr);
        _n = n;
    }
    void assign(AudioBuffer const& o)
    {
        allocate(o.getNumChannels(), o._n, false);
        for (int c = 0; c < o.getNumChannels(); ++c) { std::copy_n(o._ptrs[std::size_t(c)], _n, _ptrs[std::size_t(c)]); }
        _clear = o._clear;
    }
    void need(int ch, int start, int n) const
    {
        if (ch < 0 || ch >= getNumChannels() || start < 0 || n < 0 || start + n > _n) {
            std::fprintf(stderr, "AudioBuffer access out of range: channel %d of %d, %d + %d of %d\n", ch, getNumChannels(), start, n, _n);
            std::_Exit(97);
        }
    }

public:
    using SampleType = Type;
    AudioBuffer() { allocate(0, 0, false); }
    AudioBuffer(int ch, int n) { jassert(ch >= 0 && n >= 0); allocate(ch, n, false); }
    AudioBuffer(Type* const* src, int ch, int n)  // JUCE refers to the data; a copy is enough for reading
    {
        allocate(ch, n, false);
        for (int c = 0; c < ch; ++c) { std::copy_n(src[c], n, _ptrs[std::size_t(c)]); }
    }
    AudioBuffer(AudioBuffer const& o) { assign(o); }
    AudioBuffer(AudioBuffer&& o) noexcept : _data(std::move(o._data)), _ptrs(std::move(o._ptrs)), _n(o._n), _clear(o._clear) { o.allocate(0, 0, false); }
    auto operator=(AudioBuffer const& o) -> AudioBuffer& { if (this != &o) { assign(o); } return *this; }
    auto operator=(AudioBuffer&& o) noexcept -> AudioBuffer&
    {
        if (this != &o) { _data = std::move(o._data); _ptrs = std::move(o._ptrs); _n = o._n; _clear = o._clear; o.allocate(0, 0, false); }
        return *this;
    }

    [[nodiscard]] int getNumChannels() const noexcept { return static_cast<int>(_data.size()); }
    [[nodiscard]] int getNumSamples() const noexcept { return _n; }
    [[nodiscard]] bool hasBeenCleared() const noexcept { return _clear; }
    void setNotClear() noexcept { _clear = false; }

    auto getReadPointer(int ch) const -> Type const* { need(ch, 0, 0); return _ptrs[std::size_t(ch)]; }
    auto getReadPointer(int ch, int i) const -> Type const* { need(ch, i, 0); return _ptrs[std::size_t(ch)] + i; }
    auto getWritePointer(int ch) -> Type* { need(ch, 0, 0); _clear = false; return _ptrs[std::size_t(ch)]; }
    auto getWritePointer(int ch, int i) -> Type* { need(ch, i, 0); _clear = false; return _ptrs[std::size_t(ch)] + i; }
    auto getArrayOfReadPointers() const -> Type const* const* { return const_cast<Type const* const*>(_ptrs.data()); }
    auto getArrayOfWritePointers() -> Type* const* { _clear = false; return _ptrs.data(); }

    void setSize(int ch, int n, bool keep = false, bool clearExtra = false, bool /*avoidReallocating*/ = false)
    {
        jassert(ch >= 0 && n >= 0);
        if (ch == getNumChannels() && n == _n) { return; }
        auto old  = std::move(_data);
        auto oldn = _n;
        allocate(ch, n, clearExtra || _clear);
        if (keep) {
            for (std::size_t c = 0; c < std::min(old.size(), _data.size()); ++c) { std::copy_n(old[c].get(), std::min(oldn, n), _ptrs[c]); }
        }
    }
    void makeCopyOf(AudioBuffer const& o, bool = false) { if (this != &o) { assign(o); } }
    void clear() noexcept { for (auto& d : _data) { std::fill_n(d.get(), _n, Type(0)); } _clear = true; }
    void clear(int start, int n) noexcept { for (int c = 0; c < getNumChannels(); ++c) { clear(c, start, n); } }
    void clear(int ch, int start, int n) noexcept { need(ch, start, n); std::fill_n(_ptrs[std::size_t(ch)] + start, n, Type(0)); }
    [[nodiscard]] auto getSample(int ch, int i) const -> Type { need(ch, i, 1); return _ptrs[std::size_t(ch)][i]; }
    void setSample(int ch, int i, Type v) { need(ch, i, 1); _clear = false; _ptrs[std::size_t(ch)][i] = v; }
    void addSample(int ch, int i, Type v) { need(ch, i, 1); _clear = false; _ptrs[std::size_t(ch)][i] += v; }
    void applyGain(int ch, int start, int n, Type g) { need(ch, start, n); for (int i = 0; i < n; ++i) { _ptrs[std::size_t(ch)][start + i] *= g; } }
    void applyGain(int start, int n, Type g) { for (int c = 0; c < getNumChannels(); ++c) { applyGain(c, start, n, g); } }
    void applyGain(Type g) { applyGain(0, _n, g); }
    void addFrom(int dch, int ds, AudioBuffer const& src, int sch, int ss, int n, Type g = Type(1))
    {
        need(dch, ds, n); src.need(sch, ss, n); _clear = false;
        for (int i = 0; i < n; ++i) { _ptrs[std::size_t(dch)][ds + i] += g * src._ptrs[std::size_t(sch)][ss + i]; }
    }
    void addFrom(int dch, int ds, Type const* src, int n, Type g = Type(1))
    {
        need(dch, ds, n); _clear = false;
        for (int i = 0; i < n; ++i) { _ptrs[std::size_t(dch)][ds + i] += g * src[i]; }
    }
    void copyFrom(int dch, int ds, AudioBuffer const& src, int sch, int ss, int n)
    {
        need(dch, ds, n); src.need(sch, ss, n); _clear = false;
        std::memmove(_ptrs[std::size_t(dch)] + ds, src._ptrs[std::size_t(sch)] + ss, sizeof(Type) * std::size_t(n));
    }
    void copyFrom(int dch, int ds, Type const* src, int n)
    {
        need(dch, ds, n); _clear = false;
        std::memmove(_ptrs[std::size_t(dch)] + ds, src, sizeof(Type) * std::size_t(n));
    }
    void copyFrom(int dch, int ds, Type const* src, int n, Type g)
    {
        need(dch, ds, n); _clear = false;
        for (int i = 0; i < n; ++i) { _ptrs[std::size_t(dch)][ds + i] = g * src[i]; }
    }
    [[nodiscard]] auto getMagnitude(int ch, int start, int n) const -> Type { need(ch, start, n); Type m(0); for (int i = 0; i < n; ++i) { m = jmax(m, std::abs(_ptrs[std::size_t(ch)][start + i])); } return m; }
    [[nodiscard]] auto getMagnitude(int start, int n) const -> Type { Type m(0); for (int c = 0; c < getNumChannels(); ++c) { m = jmax(m, getMagnitude(c, start, n)); } return m; }
    [[nodiscard]] auto getRMSLevel(int ch, int start, int n) const -> Type { need(ch, start, n); double s = 0; for (int i = 0; i < n; ++i) { auto const v = double(_ptrs[std::size_t(ch)][start + i]); s += v * v; } return n > 0 ? Type(std::sqrt(s / n)) : Type(0); }
    [[nodiscard]] auto findMinMax(int ch, int start, int n) const -> Range<Type> { need(ch, start, n); auto const* p = _ptrs[std::size_t(ch)] + start; return {FloatVectorOperations::findMinimum(p, n), FloatVectorOperations::findMaximum(p, n)}; }
    void applyGainRamp(int ch, int start, int n, Type a, Type b) { need(ch, start, n); auto const d = n > 0 ? (b - a) / Type(n) : Type(0); for (int i = 0; i < n; ++i) { _ptrs[std::size_t(ch)][start + i] *= a; a += d; } }
    void applyGainRamp(int start, int n, Type a, Type b) { for (int c = 0; c < getNumChannels(); ++c) { applyGainRamp(c, start, n, a, b); } }
    void reverse(int start, int n) { for (int c = 0; c < getNumChannels(); ++c) { reverse(c, start, n); } }
    void reverse(int ch, int start, int n) { need(ch, start, n); std::reverse(_ptrs[std::size_t(ch)] + start, _ptrs[std::size_t(ch)] + start + n); }
};
using AudioSampleBuffer = AudioBuffer<float>;

namespace dsp {

struct ProcessSpec { double sampleRate; uint32 maximumBlockSize; uint32 numChannels; };

template<typename SampleType>
class AudioBlock
{
    using NC = std::remove_const_t<SampleType>;
    std::vector<SampleType*> _ch;
    std::size_t _n{0};
    template<typename> friend class AudioBlock;

public:
    using NumericType = NC;
    AudioBlock() = default;
    AudioBlock(SampleType* const* data, std::size_t ch, std::size_t n) : _ch(data, data + ch), _n(n) {}
    AudioBlock(SampleType* const* data, std::size_t ch, std::size_t start, std::size_t n) : _n(n) { for (std::size_t c = 0; c < ch; ++c) { _ch.push_back(data[c] + start); } }
    AudioBlock(AudioBuffer<NC>& b) : _n(std::size_t(b.getNumSamples())) { for (int c = 0; c < b.getNumChannels(); ++c) { _ch.push_back(b.getWritePointer(c)); } }
    AudioBlock(AudioBuffer<NC>& b, std::size_t start) : AudioBlock(b) { *this = getSubBlock(start); }
    AudioBlock(AudioBuffer<NC> const& b) requires std::is_const_v<SampleType> : _n(std::size_t(b.getNumSamples())) { for (int c = 0; c < b.getNumChannels(); ++c) { _ch.push_back(b.getReadPointer(c)); } }
    AudioBlock(AudioBlock const&) = default;
    AudioBlock& operator=(AudioBlock const&) = default;
    template<typename O> requires(std::is_const_v<SampleType> && std::same_as<O, NC>)
    AudioBlock(AudioBlock<O> const& o) : _ch(o._ch.begin(), o._ch.end()), _n(o._n) {}

    [[nodiscard]] constexpr auto getNumChannels() const noexcept -> std::size_t { return _ch.size(); }
    [[nodiscard]] constexpr auto getNumSamples() const noexcept -> std::size_t { return _n; }
    [[nodiscard]] auto getChannelPointer(std::size_t c) const -> SampleType* { jassert(c < _ch.size()); return _ch[c]; }
    [[nodiscard]] auto getSingleChannelBlock(std::size_t c) const -> AudioBlock { jassert(c < _ch.size()); auto r = *this; r._ch = {_ch[c]}; return r; }
    [[nodiscard]] auto getSubsetChannelBlock(std::size_t s, std::size_t n) const -> AudioBlock { jassert(s + n <= _ch.size()); auto r = *this; r._ch.assign(_ch.begin() + long(s), _ch.begin() + long(s + n)); return r; }
    [[nodiscard]] auto getSubBlock(std::size_t off, std::size_t len) const -> AudioBlock
    {
        jassert(off + len <= _n);
        auto r = *this;
        for (auto& p : r._ch) { p += off; }
        r._n = len;
        return r;
    }
    [[nodiscard]] auto getSubBlock(std::size_t off) const -> AudioBlock { return getSubBlock(off, _n - off); }
    [[nodiscard]] auto getSample(int c, int i) const -> SampleType { jassert(std::size_t(c) < _ch.size() && std::size_t(i) < _n); return _ch[std::size_t(c)][i]; }
    void setSample(int c, int i, SampleType v) const { jassert(std::size_t(c) < _ch.size() && std::size_t(i) < _n); _ch[std::size_t(c)][i] = v; }
    void addSample(int c, int i, SampleType v) const { jassert(std::size_t(c) < _ch.size() && std::size_t(i) < _n); _ch[std::size_t(c)][i] += v; }
    auto clear() const -> AudioBlock const& { return fill(NC(0)); }
    auto fill(NC v) const -> AudioBlock const& { for (auto* p : _ch) { std::fill_n(p, _n, v); } return *this; }
    template<typename O> auto copyFrom(AudioBlock<O> const& s) const -> AudioBlock const&
    {
        for (std::size_t c = 0; c < std::min(_ch.size(), s._ch.size()); ++c) { std::memmove(_ch[c], s._ch[c], sizeof(NC) * std::min(_n, s._n)); }
        return *this;
    }
    template<typename O> auto replaceWithProductOf(AudioBlock<O> const& s, NC g) const -> AudioBlock const& { for (std::size_t c = 0; c < std::min(_ch.size(), s._ch.size()); ++c) { for (std::size_t i = 0; i < std::min(_n, s._n); ++i) { _ch[c][i] = s._ch[c][i] * g; } } return *this; }
    template<typename O> auto add(AudioBlock<O> const& s) const -> AudioBlock const& { for (std::size_t c = 0; c < std::min(_ch.size(), s._ch.size()); ++c) { for (std::size_t i = 0; i < std::min(_n, s._n); ++i) { _ch[c][i] += s._ch[c][i]; } } return *this; }
    template<typename O> auto addProductOf(AudioBlock<O> const& s, NC g) const -> AudioBlock const& { for (std::size_t c = 0; c < std::min(_ch.size(), s._ch.size()); ++c) { for (std::size_t i = 0; i < std::min(_n, s._n); ++i) { _ch[c][i] += s._ch[c][i] * g; } } return *this; }
    auto multiplyBy(NC g) const -> AudioBlock const& { for (auto* p : _ch) { for (std::size_t i = 0; i < _n; ++i) { p[i] *= g; } } return *this; }
    auto operator*=(NC g) const -> AudioBlock const& { return multiplyBy(g); }
    void copyTo(AudioBuffer<NC>& d, std::size_t ss = 0, std::size_t ds = 0, std::size_t n = ~std::size_t(0)) const
    {
        n = std::min({n, _n - ss, std::size_t(d.getNumSamples()) - ds});
        for (std::size_t c = 0; c < std::min(_ch.size(), std::size_t(d.getNumChannels())); ++c) { d.copyFrom(int(c), int(ds), _ch[c] + ss, int(n)); }
    }
};

template<typename S>
struct ProcessContextReplacing
{
    using SampleType = S;
    using AudioBlockType = AudioBlock<S>;
    using ConstAudioBlockType = AudioBlock<S const>;
    ProcessContextReplacing(AudioBlock<S> const& b) noexcept : _b(b) {}
    static constexpr bool usesSeparateInputAndOutputBlocks() { return false; }
    [[nodiscard]] auto getInputBlock() const noexcept -> AudioBlock<S const> { return _b; }
    [[nodiscard]] auto getOutputBlock() const noexcept -> AudioBlock<S> const& { return _b; }
    [[nodiscard]] auto getOutputBlock() noexcept -> AudioBlock<S>& { return _b; }
    bool isBypassed = false;
private:
    AudioBlock<S> _b;
};
template<typename S>
struct ProcessContextNonReplacing
{
    using SampleType = S;
    using AudioBlockType = AudioBlock<S>;
    using ConstAudioBlockType = AudioBlock<S const>;
    ProcessContextNonReplacing(AudioBlock<S const> const& i, AudioBlock<S> const& o) noexcept : _i(i), _o(o) {}
    static constexpr bool usesSeparateInputAndOutputBlocks() { return true; }
    [[nodiscard]] auto getInputBlock() const noexcept -> AudioBlock<S const> const& { return _i; }
    [[nodiscard]] auto getOutputBlock() const noexcept -> AudioBlock<S> const& { return _o; }
    [[nodiscard]] auto getOutputBlock() noexcept -> AudioBlock<S>& { return _o; }
    bool isBypassed = false;
private:
    AudioBlock<S const> _i;
    AudioBlock<S> _o;
};

template<typename T>
struct WindowingFunction
{
    enum WindowingMethod { rectangular = 0, triangular, hann, hamming, blackman, blackmanHarris, flatTop, kaiser, numWindowingMethods };
    static void fillWindowingTables(T* s, std::size_t n, WindowingMethod type, bool normalise = true, T = T(0))
    {
        auto const ncos = [n](std::size_t order, std::size_t i) { return std::cos(static_cast<double>(order * i) * MathConstants<double>::pi / static_cast<double>(n - 1)); };
        for (std::size_t i = 0; i < n; ++i) {
            double v = 1;
            switch (type) {
                case rectangular: v = 1; break;
                case triangular: { auto half = (double(n) - 1) / 2; v = 1.0 - std::abs((double(i) - half) / half); break; }
                case hann: v = 0.5 - 0.5 * ncos(2, i); break;
                case hamming: v = 0.54 - 0.46 * ncos(2, i); break;
                case blackman: v = 0.42 - 0.5 * ncos(2, i) + 0.08 * ncos(4, i); break;
                default: v = std::numeric_limits<double>::quiet_NaN();
            }
            s[i] = static_cast<T>(v);
        }
        if (normalise) {
            T sum(0);
            for (std::size_t i = 0; i < n; ++i) { sum += s[i]; }
            auto f = static_cast<T>(n) / sum;
            for (std::size_t i = 0; i < n; ++i) { s[i] *= f; }
        }
    }
    static void fillWindowingTables(T* s, std::size_t n, int type, bool normalise) { fillWindowingTables(s, n, static_cast<WindowingMethod>(type), normalise); }
};

/// convolution by its definition, without delay; the impulse is brought to the rate it is prepared for
struct Convolution
{
    AudioBuffer<float> stubImpulse;
    double stubRate{0};
    std::vector<std::vector<std::pair<std::size_t, float>>> stubTaps;
    std::vector<std::vector<float>> stubPast;
    ProcessSpec stubSpec{0, 0, 0};
    struct Latency { int latencyInSamples; };
    struct NonUniform { int headSizeInSamples; };
    enum class Normalise { no, yes };
    enum class Trim { no, yes };
    enum class Stereo { no, yes };
    Convolution() = default;
    template<typename F> void loadImpulseResponse(F const& file, Stereo, Trim trim, std::size_t size, Normalise n)
    {
        jassert(trim == Trim::no && size == 0 && n == Normalise::no);
        if (auto s = file.createInputStream(); s != nullptr && s->audio->recognised && s->audio->readable) { stubImpulse = s->audio->buffer; stubRate = s->audio->sampleRate; }
        stubUpdate();
    }
    void prepare(ProcessSpec const& s) { stubSpec = s; stubUpdate(); reset(); }
    void reset() { for (auto& p : stubPast) { p.clear(); } }
    template<typename Context> void process(Context const& ctx)
    {
        auto const in  = ctx.getInputBlock();
        auto const out = ctx.getOutputBlock();
        jassert(in.getNumChannels() == stubSpec.numChannels && in.getNumSamples() <= stubSpec.maximumBlockSize);
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            auto& past = stubPast[c];
            for (std::size_t i = 0; i < in.getNumSamples(); ++i) {
                past.push_back(in.getChannelPointer(c)[i]);
                auto sum = 0.0F;
                for (auto [k, v] : stubTaps[c]) { if (k < past.size()) { sum += v * past[past.size() - 1 - k]; } }
                out.getChannelPointer(c)[i] = sum;
            }
        }
    }
    void stubUpdate()
    {
        stubPast.resize(stubSpec.numChannels);
        stubTaps.assign(stubSpec.numChannels, {});
        for (std::size_t c = 0; c < stubTaps.size(); ++c) {
            if (stubImpulse.getNumChannels() == 0) { stubTaps[c].emplace_back(0, 1.0F); continue; }
            auto const ch = std::min(int(c), stubImpulse.getNumChannels() - 1);
            auto const r  = stubRate / stubSpec.sampleRate;
            for (int k = 0; k < roundToInt(jmax(1.0, stubImpulse.getNumSamples() / r)); ++k) {
                auto const p = int(std::floor(double(k) * r + 1e-9));
                if (p >= stubImpulse.getNumSamples()) { break; }
                if (stubImpulse.getSample(ch, p) != 0.0F) { stubTaps[c].emplace_back(std::size_t(k), stubImpulse.getSample(ch, p)); }
            }
        }
    }
};

}  // namespace dsp

// ------------------------------------------------------------------ files (an in-memory table) and audio formats
class String
{
    std::string _s;
public:
    String() = default;
    String(char const* s) : _s(s) {}
    String(std::string s) : _s(std::move(s)) {}
    template<typename T> requires(std::is_integral_v<T> && !std::same_as<T, char> && !std::same_as<T, bool>) explicit String(T v) : _s(std::to_string(v)) {}
    template<typename T> requires std::is_floating_point_v<T> explicit String(T v) { char b[64]; std::snprintf(b, sizeof b, "%.9g", static_cast<double>(v)); _s = b; if (_s.find_first_not_of("-0123456789") == std::string::npos) { _s += ".0"; } }
    template<typename T> requires std::is_floating_point_v<T> String(T v, int places) { char b[400]; std::snprintf(b, sizeof b, "%.*f", places, static_cast<double>(v)); _s = b; }
    friend auto operator+(String const& a, String const& b) -> String { return String{a._s + b._s}; }
    friend auto operator+(String const& a, char const* b) -> String { return String{a._s + b}; }
    friend auto operator+(char const* a, String const& b) -> String { return String{a + b._s}; }
    auto operator+=(String const& o) -> String& { _s += o._s; return *this; }
    [[nodiscard]] auto length() const -> int { return int(_s.size()); }
    [[nodiscard]] auto contains(String const& o) const -> bool { return _s.find(o._s) != std::string::npos; }
    [[nodiscard]] auto toStdString() const -> std::string { return _s; }
    auto operator==(String const& o) const -> bool { return _s == o._s; }
    [[nodiscard]] auto isEmpty() const -> bool { return _s.empty(); }
    [[nodiscard]] auto isNotEmpty() const -> bool { return !_s.empty(); }
    template<typename T> auto operator<<(T const& v) -> String& { _s += String(v)._s; return *this; }
    [[nodiscard]] auto startsWith(String const& o) const -> bool { return _s.starts_with(o._s); }
    [[nodiscard]] auto endsWith(String const& o) const -> bool { return _s.ends_with(o._s); }
    [[nodiscard]] auto substring(int a, int b) const -> String { a = std::clamp(a, 0, length()); b = std::clamp(b, a, length()); return _s.substr(std::size_t(a), std::size_t(b - a)); }
    [[nodiscard]] auto substring(int a) const -> String { return substring(a, length()); }
    [[nodiscard]] auto getIntValue() const -> int { return std::atoi(_s.c_str()); }
    [[nodiscard]] auto getFloatValue() const -> float { return static_cast<float>(std::atof(_s.c_str())); }
    [[nodiscard]] auto getDoubleValue() const -> double { return std::atof(_s.c_str()); }
    [[nodiscard]] auto toRawUTF8() const -> char const* { return _s.c_str(); }
    auto operator<(String const& o) const -> bool { return _s < o._s; }
    template<typename... A> static auto formatted(String const& f, A... a) -> String { char b[1000]; std::snprintf(b, sizeof b, f._s.c_str(), a...); return String{b}; }
};
struct StringArray
{
    std::vector<String> v;
    StringArray() = default;
    template<typename... T> requires(sizeof...(T) > 0 && (std::convertible_to<T, String> && ...)) StringArray(T const&... s) : v{String(s)...} {}
    void add(String s) { v.push_back(std::move(s)); }
    [[nodiscard]] auto size() const -> int { return int(v.size()); }
    [[nodiscard]] auto isEmpty() const -> bool { return v.empty(); }
    [[nodiscard]] auto contains(String const& s) const -> bool { return std::find(v.begin(), v.end(), s) != v.end(); }
    [[nodiscard]] auto operator[](int i) const -> String { return i >= 0 && i < size() ? v[std::size_t(i)] : String{}; }
    [[nodiscard]] auto begin() const { return v.begin(); }
    [[nodiscard]] auto end() const { return v.end(); }
};
struct StringPairArray {};

struct StubAudio { AudioBuffer<float> buffer; double sampleRate{0}; int bits{0}; bool readable{true}; bool recognised{true}; bool leftover{false}; };
/// the file "*" stands for every path that is not in the table
inline auto stubFiles() -> std::map<std::string, std::shared_ptr<StubAudio>>& { static std::map<std::string, std::shared_ptr<StubAudio>> m; return m; }

inline auto stubDirectories() -> std::vector<std::string>& { static std::vector<std::string> v; return v; }

class InputStream { public: std::shared_ptr<StubAudio> audio; virtual ~InputStream() = default; };
/// a file that exists is opened at its end: what is written there comes after the recording that is found first
class OutputStream
{
public:
    std::string path;
    int64 position{0};
    virtual ~OutputStream() = default;
    virtual auto setPosition(int64 p) -> bool { position = p; return true; }
    [[nodiscard]] virtual auto getPosition() -> int64 { return position; }
    virtual void flush() {}
};
class FileInputStream : public InputStream
{
public:
    [[nodiscard]] auto openedOk() const -> bool { return true; }
    [[nodiscard]] auto failedToOpen() const -> bool { return false; }
};
class Result
{
    bool _ok;
public:
    explicit Result(bool ok = true) : _ok(ok) {}
    [[nodiscard]] auto wasOk() const -> bool { return _ok; }
    [[nodiscard]] auto failed() const -> bool { return !_ok; }
    explicit operator bool() const { return _ok; }
    static auto ok() -> Result { return Result{true}; }
    [[nodiscard]] auto getErrorMessage() const -> String { return _ok ? "" : "failed"; }
};
class File;
class FileOutputStream : public OutputStream
{
public:
    FileOutputStream() = default;
    explicit FileOutputStream(File const& f);
    [[nodiscard]] auto openedOk() const -> bool { return true; }
    [[nodiscard]] auto failedToOpen() const -> bool { return false; }
    [[nodiscard]] auto getStatus() const -> Result { return Result{}; }
    auto truncate() -> Result { if (position == 0) { stubFiles().erase(path); } return Result{}; }
};

class File
{
    std::string _p;
public:
    File() = default;
    File(char const* p) : _p(p) {}
    File(String const& p) : _p(p.toStdString()) {}
    [[nodiscard]] auto getFullPathName() const -> String { return _p; }
    [[nodiscard]] auto existsAsFile() const -> bool { return stubFiles().contains(_p) || stubFiles().contains("*"); }
    [[nodiscard]] auto createInputStream() const -> std::unique_ptr<FileInputStream>
    {
        auto it = stubFiles().find(_p);
        if (it == stubFiles().end()) { it = stubFiles().find("*"); }
        if (it == stubFiles().end()) { return nullptr; }
        auto s   = std::make_unique<FileInputStream>();
        s->audio = it->second;
        return s;
    }
    [[nodiscard]] auto createOutputStream(std::size_t = 0x8000) const -> std::unique_ptr<FileOutputStream>
    {
        if (_p.starts_with("/nowhere/")) { return nullptr; }
        auto s  = std::make_unique<FileOutputStream>();
        s->path = _p;
        s->position = existsAsFile() ? 1 : 0;
        return s;
    }
    [[nodiscard]] auto exists() const -> bool { return existsAsFile() || isDirectory(); }
    enum SpecialLocationType { userHomeDirectory, userDocumentsDirectory, userDesktopDirectory, userMusicDirectory, userApplicationDataDirectory, tempDirectory };
    [[nodiscard]] static auto getSpecialLocation(SpecialLocationType t) -> File { return File{String{"/home/" + std::to_string(int(t))}}; }
    [[nodiscard]] auto isDirectory() const -> bool { return std::find(stubDirectories().begin(), stubDirectories().end(), _p) != stubDirectories().end(); }
    auto createDirectory() const -> Result { if (_p.empty()) { return Result{false}; } if (!isDirectory()) { stubDirectories().push_back(_p); } return Result{}; }
    [[nodiscard]] auto getChildFile(String const& n) const -> File { return File{String{_p + "/" + n.toStdString()}}; }
    [[nodiscard]] auto getParentDirectory() const -> File { return File{String{_p.substr(0, _p.rfind('/'))}}; }
    [[nodiscard]] auto getNonexistentChildFile(String const& prefix, String const& suffix, bool = true) const -> File
    {
        auto f = getChildFile(prefix + suffix);
        for (int i = 2; f.exists(); ++i) { f = getChildFile(prefix + " (" + String{i} + ")" + suffix); }
        return f;
    }
    [[nodiscard]] auto getFileName() const -> String { return _p.substr(_p.rfind('/') + 1); }
    [[nodiscard]] auto getFileNameWithoutExtension() const -> String { auto const n = getFileName().toStdString(); return n.substr(0, n.rfind('.')); }
    auto operator==(File const& o) const -> bool { return _p == o._p; }
    auto deleteFile() const -> bool { stubFiles().erase(_p); return true; }
    auto create() const -> Result { return Result{}; }
    auto replaceWithData(void const*, std::size_t) const -> bool { stubFiles().erase(_p); return true; }
};
inline FileOutputStream::FileOutputStream(File const& f) { path = f.getFullPathName().toStdString(); position = f.existsAsFile() ? 1 : 0; }

class AudioFormatReader
{
    std::shared_ptr<StubAudio> _a;
public:
    explicit AudioFormatReader(std::shared_ptr<StubAudio> a) : _a(std::move(a)), sampleRate(_a->sampleRate), lengthInSamples(_a->buffer.getNumSamples()), numChannels(unsigned(_a->buffer.getNumChannels())) {}
    virtual ~AudioFormatReader() = default;
    auto read(float* const* dst, int ch, int64 start, int n) -> bool
    {
        if (!_a->readable) { return false; }
        for (int c = 0; c < ch; ++c) {
            if (dst[c] == nullptr) { continue; }
            for (int i = 0; i < n; ++i) {
                auto const k = start + i;
                auto const src = std::min(c, _a->buffer.getNumChannels() - 1);
                dst[c][i] = k >= 0 && k < lengthInSamples ? _a->buffer.getSample(src, int(k)) : 0.0F;
            }
        }
        return true;
    }
    auto read(AudioBuffer<float>* b, int ds, int n, int64 start, bool, bool) -> bool
    {
        auto v = std::vector<float*>{};
        for (int c = 0; c < b->getNumChannels(); ++c) { v.push_back(b->getWritePointer(c, ds)); }
        return read(v.data(), int(v.size()), start, n);
    }
    double sampleRate;
    unsigned bitsPerSample{32};
    int64 lengthInSamples;
    unsigned numChannels;
};

class AudioFormatManager
{
public:
    bool registered{false};
    void registerBasicFormats() { registered = true; }
    [[nodiscard]] auto getWildcardForAllFormats() const -> String { return "*.wav"; }
    auto createReaderFor(std::unique_ptr<InputStream> s) -> AudioFormatReader*
    {
        jassert(registered);
        if (s == nullptr || s->audio == nullptr || !s->audio->recognised) { return nullptr; }
        return new AudioFormatReader{s->audio};
    }
    auto createReaderFor(File const& f) -> AudioFormatReader* { return createReaderFor(f.createInputStream()); }
};

class AudioFormatWriter
{
    std::unique_ptr<OutputStream> _o;
    double _sr;
    unsigned _ch;
    int _bits;
    bool _mine{false};
public:
    AudioFormatWriter(OutputStream* o, double sr, unsigned ch, int bits) : _o(o), _sr(sr), _ch(ch), _bits(bits) {}
    virtual ~AudioFormatWriter() = default;
    auto writeFromFloatArrays(float const* const* src, int ch, int n) -> bool
    {
        auto a        = std::make_shared<StubAudio>();
        a->buffer     = AudioBuffer<float>(int(_ch), n);
        a->sampleRate = _sr;
        a->bits       = _bits;
        for (int c = 0; c < ch; ++c) { a->buffer.copyFrom(c, 0, src[c], n); }
        if (_o->position == 0) {   // at the start: an earlier part of this writer's recording comes first
            auto it = _mine ? stubFiles().find(_o->path) : stubFiles().end();
            if (it != stubFiles().end()) {
                auto const& old = it->second->buffer;
                auto both       = AudioBuffer<float>(int(_ch), old.getNumSamples() + n);
                for (int c = 0; c < int(_ch); ++c) {
                    both.copyFrom(c, 0, old, c, 0, old.getNumSamples());
                    both.copyFrom(c, old.getNumSamples(), a->buffer, c, 0, n);
                }
                a->buffer = both;
            }
            if (auto const was = stubFiles().find(_o->path); was != stubFiles().end()) {   // what the file held beyond the new end stays
                auto const& b = was->second->buffer;
                a->leftover   = was->second->leftover || b.getNumChannels() * b.getNumSamples() > int(_ch) * a->buffer.getNumSamples();
            }
            stubFiles()[_o->path] = a;
            _mine                 = true;
        }
        return true;
    }
    auto writeFromAudioSampleBuffer(AudioBuffer<float> const& b, int start, int n) -> bool
    {
        auto v = std::vector<float const*>{};
        for (int c = 0; c < b.getNumChannels(); ++c) { v.push_back(b.getReadPointer(c, start)); }
        return writeFromFloatArrays(v.data(), b.getNumChannels(), n);
    }
};
class WavAudioFormat
{
public:
    auto createWriterFor(OutputStream* o, double sr, unsigned ch, int bits, StringPairArray const&, int) -> AudioFormatWriter* { return o == nullptr || (bits != 8 && bits != 16 && bits != 24 && bits != 32) ? nullptr : new AudioFormatWriter(o, sr, ch, bits); }
};

struct AudioSourceChannelInfo
{
    AudioBuffer<float>* buffer;
    int startSample, numSamples;
    AudioSourceChannelInfo(AudioBuffer<float>* b, int s, int n) : buffer(b), startSample(s), numSamples(n) {}
    explicit AudioSourceChannelInfo(AudioBuffer<float>& b) : buffer(&b), startSample(0), numSamples(b.getNumSamples()) {}
};
class MemoryAudioSource
{
public:
    AudioBuffer<float> data;
    MemoryAudioSource(AudioBuffer<float>& b, bool /*copy*/, bool = false) : data(b) {}
};
/// stands for interpolation by taking the nearest earlier input sample (exact for whole ratios)
class ResamplingAudioSource
{
    MemoryAudioSource* _s;
    int _ch;
    double _r{1};
    bool _prepared{false};
    bool _owns;
public:
    ResamplingAudioSource(MemoryAudioSource* s, bool owns, int ch = 2) : _s(s), _ch(ch), _owns(owns) {}
    ResamplingAudioSource(ResamplingAudioSource const&) = delete;
    ~ResamplingAudioSource() { if (_owns) { delete _s; } }
    void setResamplingRatio(double r) { jassert(r > 0); _r = r; }
    void prepareToPlay(int, double) { _prepared = true; }
    void getNextAudioBlock(AudioSourceChannelInfo const& i)
    {
        jassert(_prepared);
        for (int c = 0; c < i.buffer->getNumChannels(); ++c) {
            for (int k = 0; k < i.numSamples; ++k) {
                auto const p = int(std::floor(double(k) * _r + 1e-9));
                i.buffer->setSample(c, i.startSample + k, c < _ch && p < _s->data.getNumSamples() ? _s->data.getSample(c, p) : 0.0F);
            }
        }
    }
};

// ------------------------------------------------------------------ graphics: only pixels are kept
struct Colour
{
    uint32 argb{0};
    [[nodiscard]] auto withAlpha(float) const -> Colour { return *this; }
    auto operator==(Colour const&) const -> bool = default;
};
namespace Colours { inline constexpr Colour white{0xffffffff}, black{0xff000000}, red{0xffff0000}; }
template<typename T> struct Rectangle
{
    T x{}, y{}, w{}, h{};
    Rectangle() = default;
    Rectangle(T a, T b, T c, T d) : x(a), y(b), w(c), h(d) {}
    [[nodiscard]] auto getBottom() const -> T { return y + h; }
    [[nodiscard]] auto getRight() const -> T { return x + w; }
    [[nodiscard]] auto getWidth() const -> T { return w; }
    [[nodiscard]] auto getHeight() const -> T { return h; }
    [[nodiscard]] auto proportionOfWidth(double p) const -> T { return T(double(w) * p); }
    [[nodiscard]] auto proportionOfHeight(double p) const -> T { return T(double(h) * p); }
    [[nodiscard]] auto reduced(T a, T b) const -> Rectangle { return {x + a, y + b, jmax(T(0), w - a - a), jmax(T(0), h - b - b)}; }
    [[nodiscard]] auto reduced(T a) const -> Rectangle { return reduced(a, a); }
    auto removeFromTop(T n) -> Rectangle { n = jmin(n, h); auto r = Rectangle{x, y, w, n}; y += n; h -= n; return r; }
    auto removeFromBottom(T n) -> Rectangle { n = jmin(n, h); auto r = Rectangle{x, y + h - n, w, n}; h -= n; return r; }
    auto removeFromLeft(T n) -> Rectangle { n = jmin(n, w); auto r = Rectangle{x, y, n, h}; x += n; w -= n; return r; }
    auto removeFromRight(T n) -> Rectangle { n = jmin(n, w); auto r = Rectangle{x + w - n, y, n, h}; w -= n; return r; }
    [[nodiscard]] auto withBottomY(T b) const -> Rectangle { return {x, b - h, w, h}; }
    [[nodiscard]] auto withHeight(T n) const -> Rectangle { return {x, y, w, n}; }
    [[nodiscard]] auto withWidth(T n) const -> Rectangle { return {x, y, n, h}; }
    [[nodiscard]] auto withX(T v) const -> Rectangle { return {v, y, w, h}; }
    [[nodiscard]] auto withY(T v) const -> Rectangle { return {x, v, w, h}; }
    [[nodiscard]] auto withSize(T a, T b) const -> Rectangle { return {x, y, a, b}; }
    [[nodiscard]] auto withPosition(T a, T b) const -> Rectangle { return {a, b, w, h}; }
    [[nodiscard]] auto translated(T a, T b) const -> Rectangle { return {x + a, y + b, w, h}; }
    [[nodiscard]] auto getX() const -> T { return x; }
    [[nodiscard]] auto getY() const -> T { return y; }
    [[nodiscard]] auto isEmpty() const -> bool { return w <= T(0) || h <= T(0); }
    auto operator==(Rectangle const&) const -> bool = default;
    void reduce(T a, T b) { *this = reduced(a, b); }
    void setBounds(T a, T b, T c, T d) { *this = {a, b, c, d}; }
    template<typename U> [[nodiscard]] auto toType() const -> Rectangle<U> { return {U(x), U(y), U(w), U(h)}; }
};
class Image
{
    int _w{0}, _h{0};
    std::shared_ptr<std::vector<Colour>> _p;
public:
    enum PixelFormat { UnknownFormat, RGB, ARGB, SingleChannel };
    Image() = default;
    Image(PixelFormat, int w, int h, bool) : _w(w), _h(h), _p(std::make_shared<std::vector<Colour>>(std::size_t(w) * std::size_t(h))) {}
    [[nodiscard]] auto getWidth() const -> int { return _w; }
    [[nodiscard]] auto getHeight() const -> int { return _h; }
    [[nodiscard]] auto getBounds() const -> Rectangle<int> { return {0, 0, _w, _h}; }
    [[nodiscard]] auto isValid() const -> bool { return _p != nullptr; }
    void setPixelAt(int x, int y, Colour c) { if (x >= 0 && x < _w && y >= 0 && y < _h) { (*_p)[std::size_t(y) * std::size_t(_w) + std::size_t(x)] = c; } }
    [[nodiscard]] auto getPixelAt(int x, int y) const -> Colour { return x >= 0 && x < _w && y >= 0 && y < _h ? (*_p)[std::size_t(y) * std::size_t(_w) + std::size_t(x)] : Colour{}; }
};
class Graphics
{
    Image _i;
    Colour _c{};
public:
    explicit Graphics(Image const& i) : _i(i) {}
    void setColour(Colour c) { _c = c; }
    void fillAll(Colour c) { for (int y = 0; y < _i.getHeight(); ++y) { for (int x = 0; x < _i.getWidth(); ++x) { _i.setPixelAt(x, y, c); } } }
    void fillRect(int x, int y, int w, int h) { fillRect({x, y, w, h}); }
    void fillAll() { fillAll(_c); }
    void fillRect(Rectangle<int> r) { for (int y = r.y; y < r.getBottom(); ++y) { for (int x = r.x; x < r.getRight(); ++x) { _i.setPixelAt(x, y, _c); } } }
};

}  // namespace juce
