// A stand-in for the parts of JUCE around a plugin (processor, parameters and their state, dry/wet mixing), written
// from JUCE's published documentation.  Parameter changes reach AudioProcessorValueTreeState::state when the message
// loop runs (stubMessageLoop) or when copyState() is called.
#pragma once
#include "juce_gui_stub.hpp"
#include <string_view>

namespace juce {

class StringRef
{
    std::string _s;
public:
    StringRef(char const* s) : _s(s) {}
    StringRef(String const& s) : _s(s.toStdString()) {}
    StringRef(std::string s) : _s(std::move(s)) {}
    [[nodiscard]] auto text() const -> std::string const& { return _s; }
};
class Identifier
{
    std::string _s;
public:
    Identifier() = default;
    Identifier(char const* s) : _s(s) {}
    Identifier(String const& s) : _s(s.toStdString()) {}
    [[nodiscard]] auto toString() const -> String { return _s; }
    auto operator==(Identifier const&) const -> bool = default;
    auto operator<(Identifier const& o) const -> bool { return _s < o._s; }
};
struct ParameterID
{
    String paramID;
    int version;
    ParameterID(char const* s, int v = 0) : paramID(s), version(v) {}
    ParameterID(String s, int v = 0) : paramID(std::move(s)), version(v) {}
    [[nodiscard]] auto getParamID() const -> String { return paramID; }
};

template<typename T>
class NormalisableRange
{
public:
    T start{0}, end{1}, interval{0}, skew{1};
    bool symmetricSkew{false};
    NormalisableRange() = default;
    NormalisableRange(T a, T b) : start(a), end(b) {}
    NormalisableRange(T a, T b, T i) : start(a), end(b), interval(i) {}
    NormalisableRange(T a, T b, T i, T s, bool sym = false) : start(a), end(b), interval(i), skew(s), symmetricSkew(sym) {}
    void setSkewForCentre(T c) { jassert(c > start && c < end); symmetricSkew = false; skew = std::log(T(0.5)) / std::log((c - start) / (end - start)); }
    [[nodiscard]] auto convertTo0to1(T v) const -> T
    {
        auto const p = jlimit(T(0), T(1), (v - start) / (end - start));
        return skew == T(1) ? p : std::pow(p, skew);
    }
    [[nodiscard]] auto convertFrom0to1(T p) const -> T
    {
        p = jlimit(T(0), T(1), p);
        if (skew != T(1) && p > T(0)) { p = std::exp(std::log(p) / skew); }
        return start + (end - start) * p;
    }
    [[nodiscard]] auto snapToLegalValue(T v) const -> T
    {
        if (interval > T(0)) { v = start + interval * std::floor((v - start) / interval + T(0.5)); }
        return jlimit(start, end, v);
    }
};

// ------------------------------------------------------------------ state trees
class OutputMemory;
class MemoryBlock
{
public:
    std::string bytes;
    [[nodiscard]] auto getData() const -> void const* { return bytes.data(); }
    [[nodiscard]] auto getSize() const -> std::size_t { return bytes.size(); }
};
class MemoryOutputStream : public OutputStream
{
    MemoryBlock _own;
    MemoryBlock* _b;
public:
    MemoryOutputStream() : _b(&_own) {}
    MemoryOutputStream(MemoryBlock& b, bool append) : _b(&b) { if (!append) { b.bytes.clear(); } }
    void write(std::string_view s) { _b->bytes.append(s); }
};
class UndoManager {};
class ValueTree
{
    struct node
    {
        Identifier type;
        std::map<std::string, std::string> props;
        std::vector<std::shared_ptr<node>> kids;
    };
    std::shared_ptr<node> _n;
    static auto clone(std::shared_ptr<node> const& n) -> std::shared_ptr<node>
    {
        if (!n) { return nullptr; }
        auto c = std::make_shared<node>(*n);
        for (auto& k : c->kids) { k = clone(k); }
        return c;
    }
    static void put(node const& n, std::string& out)
    {
        auto str = [&out](std::string const& s) { out += std::to_string(s.size()) + ":" + s; };
        out += "(";
        str(n.type.toString().toStdString());
        for (auto const& [k, v] : n.props) { out += "p"; str(k); str(v); }
        for (auto const& k : n.kids) { put(*k, out); }
        out += ")";
    }
    static auto get(std::string_view& in) -> std::shared_ptr<node>
    {
        auto str = [&in](std::string& s) {
            std::size_t n = 0;
            std::size_t i = 0;
            while (i < in.size() && i < 6 && in[i] >= '0' && in[i] <= '9') { n = n * 10 + std::size_t(in[i++] - '0'); }
            if (i == 0 || i >= in.size() || in[i] != ':' || in.size() < i + 1 + n) { return false; }
            s = std::string{in.substr(i + 1, n)};
            in.remove_prefix(i + 1 + n);
            return true;
        };
        if (in.empty() || in[0] != '(') { return nullptr; }
        in.remove_prefix(1);
        auto n = std::make_shared<node>();
        auto t = std::string{};
        if (!str(t) || t.empty()) { return nullptr; }
        n->type = Identifier{String{t}};
        for (;;) {
            if (in.empty()) { return nullptr; }
            if (in[0] == ')') { in.remove_prefix(1); return n; }
            if (in[0] == 'p') {
                in.remove_prefix(1);
                auto k = std::string{};
                auto v = std::string{};
                if (!str(k) || !str(v)) { return nullptr; }
                n->props[k] = v;
            } else {
                auto kid = get(in);
                if (!kid) { return nullptr; }
                n->kids.push_back(kid);
            }
        }
    }
public:
    ValueTree() = default;
    explicit ValueTree(Identifier const& t) : _n(std::make_shared<node>()) { _n->type = t; }
    [[nodiscard]] auto isValid() const -> bool { return _n != nullptr; }
    [[nodiscard]] auto getType() const -> Identifier { return _n ? _n->type : Identifier{}; }
    [[nodiscard]] auto hasType(Identifier const& t) const -> bool { return _n && _n->type == t; }
    [[nodiscard]] auto createCopy() const -> ValueTree { auto t = ValueTree{}; t._n = clone(_n); return t; }
    void setProperty(std::string const& k, std::string v, UndoManager* = nullptr) { if (_n) { _n->props[k] = std::move(v); } }
    [[nodiscard]] auto property(std::string const& k) const -> std::string { if (!_n) { return {}; } auto it = _n->props.find(k); return it == _n->props.end() ? std::string{} : it->second; }
    [[nodiscard]] auto getNumChildren() const -> int { return _n ? int(_n->kids.size()) : 0; }
    [[nodiscard]] auto getChild(int i) const -> ValueTree { auto t = ValueTree{}; t._n = _n->kids[std::size_t(i)]; return t; }
    void appendChild(ValueTree const& c, UndoManager*) { if (_n) { _n->kids.push_back(c._n); } }
    template<typename Stream> void writeToStream(Stream& s) const { if (_n) { auto out = std::string{}; put(*_n, out); s.write(out); } }
    [[nodiscard]] static auto readFromData(void const* d, std::size_t n) -> ValueTree
    {
        auto v = std::string_view{static_cast<char const*>(d), d == nullptr ? 0 : n};
        auto t = ValueTree{};
        t._n   = get(v);
        return t;
    }
    [[nodiscard]] auto operator==(ValueTree const& o) const -> bool { return _n == o._n; }
};

// ------------------------------------------------------------------ processor, buses, parameters
class AudioChannelSet
{
    int _n{0};
public:
    AudioChannelSet() = default;
    [[nodiscard]] static auto disabled() -> AudioChannelSet { return {}; }
    [[nodiscard]] static auto mono() -> AudioChannelSet { return discreteChannels(1); }
    [[nodiscard]] static auto stereo() -> AudioChannelSet { return discreteChannels(2); }
    [[nodiscard]] static auto discreteChannels(int n) -> AudioChannelSet { auto s = AudioChannelSet{}; s._n = n; return s; }
    [[nodiscard]] auto size() const -> int { return _n; }
    [[nodiscard]] auto isDisabled() const -> bool { return _n == 0; }
    auto operator==(AudioChannelSet const&) const -> bool = default;
};
class MidiBuffer {};
class AudioProcessorEditor;
class AudioProcessorParameter
{
public:
    virtual ~AudioProcessorParameter() = default;
    [[nodiscard]] virtual auto getValue() const -> float = 0;
    virtual void setValue(float) = 0;
    [[nodiscard]] virtual auto getDefaultValue() const -> float = 0;
    void setValueNotifyingHost(float v) { setValue(v); }
};
class RangedAudioParameter : public AudioProcessorParameter
{
public:
    String paramID, name;
    RangedAudioParameter(ParameterID const& id, String n) : paramID(id.getParamID()), name(std::move(n)) {}
    [[nodiscard]] auto getParameterID() const -> String { return paramID; }
    [[nodiscard]] virtual auto getNormalisableRange() const -> NormalisableRange<float> const& = 0;
    [[nodiscard]] auto convertTo0to1(float v) const -> float { auto const& r = getNormalisableRange(); return r.convertTo0to1(r.snapToLegalValue(v)); }
    [[nodiscard]] auto convertFrom0to1(float v) const -> float { auto const& r = getNormalisableRange(); return r.snapToLegalValue(r.convertFrom0to1(jlimit(0.0F, 1.0F, v))); }
};
class AudioParameterFloat : public RangedAudioParameter
{
    std::atomic<float> _v;
    float _def;
public:
    NormalisableRange<float> range;
    AudioParameterFloat(ParameterID const& id, String const& n, NormalisableRange<float> r, float def) : RangedAudioParameter(id, n), _v(def), _def(def), range(r) {}
    [[nodiscard]] auto get() const noexcept -> float { return _v; }
    operator float() const noexcept { return _v; }
    auto operator=(float v) -> AudioParameterFloat& { if (_v != v) { setValueNotifyingHost(convertTo0to1(v)); } return *this; }
    [[nodiscard]] auto getValue() const -> float override { return convertTo0to1(_v); }
    void setValue(float v) override { _v = convertFrom0to1(v); }
    [[nodiscard]] auto getDefaultValue() const -> float override { return convertTo0to1(_def); }
    [[nodiscard]] auto getNormalisableRange() const -> NormalisableRange<float> const& override { return range; }
};
class AudioParameterInt : public AudioParameterFloat { public: using AudioParameterFloat::AudioParameterFloat; };
class AudioParameterBool : public AudioParameterFloat { public: using AudioParameterFloat::AudioParameterFloat; };
class AudioParameterChoice : public AudioParameterFloat { public: using AudioParameterFloat::AudioParameterFloat; };

class AudioProcessor
{
public:
    struct BusesProperties
    {
        std::vector<AudioChannelSet> in, out;
        [[nodiscard]] auto withInput(String const&, AudioChannelSet const& s, bool on = true) const -> BusesProperties { auto b = *this; b.in.push_back(on ? s : AudioChannelSet{}); return b; }
        [[nodiscard]] auto withOutput(String const&, AudioChannelSet const& s, bool on = true) const -> BusesProperties { auto b = *this; b.out.push_back(on ? s : AudioChannelSet{}); return b; }
    };
    struct BusesLayout
    {
        std::vector<AudioChannelSet> inputBuses, outputBuses;
        [[nodiscard]] auto getMainInputChannelSet() const -> AudioChannelSet { return inputBuses.empty() ? AudioChannelSet{} : inputBuses[0]; }
        [[nodiscard]] auto getMainOutputChannelSet() const -> AudioChannelSet { return outputBuses.empty() ? AudioChannelSet{} : outputBuses[0]; }
        [[nodiscard]] auto getMainInputChannels() const -> int { return getMainInputChannelSet().size(); }
        [[nodiscard]] auto getMainOutputChannels() const -> int { return getMainOutputChannelSet().size(); }
    };
    AudioProcessor() = default;
    explicit AudioProcessor(BusesProperties const& b) : _layout{b.in, b.out} {}
    virtual ~AudioProcessor() = default;
    [[nodiscard]] virtual auto getName() const -> String const = 0;
    virtual void prepareToPlay(double, int) = 0;
    virtual void releaseResources() = 0;
    virtual void processBlock(AudioBuffer<float>&, MidiBuffer&) = 0;
    virtual void processBlock(AudioBuffer<double>&, MidiBuffer&) { jassertfalse; }
    virtual void reset() {}
    [[nodiscard]] virtual auto isBusesLayoutSupported(BusesLayout const&) const -> bool { return true; }
    virtual auto createEditor() -> AudioProcessorEditor* = 0;
    [[nodiscard]] virtual auto hasEditor() const -> bool = 0;
    [[nodiscard]] virtual auto acceptsMidi() const -> bool = 0;
    [[nodiscard]] virtual auto producesMidi() const -> bool = 0;
    [[nodiscard]] virtual auto isMidiEffect() const -> bool { return false; }
    [[nodiscard]] virtual auto getTailLengthSeconds() const -> double = 0;
    virtual auto getNumPrograms() -> int = 0;
    virtual auto getCurrentProgram() -> int = 0;
    virtual void setCurrentProgram(int) = 0;
    virtual auto getProgramName(int) -> String const = 0;
    virtual void changeProgramName(int, String const&) = 0;
    virtual void getStateInformation(MemoryBlock&) = 0;
    virtual void setStateInformation(void const*, int) = 0;
    [[nodiscard]] auto getMainBusNumInputChannels() const -> int { return _layout.getMainInputChannels(); }
    [[nodiscard]] auto getMainBusNumOutputChannels() const -> int { return _layout.getMainOutputChannels(); }
    [[nodiscard]] auto getTotalNumInputChannels() const -> int { auto n = 0; for (auto const& b : _layout.inputBuses) { n += b.size(); } return n; }
    [[nodiscard]] auto getTotalNumOutputChannels() const -> int { auto n = 0; for (auto const& b : _layout.outputBuses) { n += b.size(); } return n; }
    [[nodiscard]] auto getBusesLayout() const -> BusesLayout { return _layout; }
    auto setBusesLayout(BusesLayout const& l) -> bool { if (!isBusesLayoutSupported(l)) { return false; } _layout = l; return true; }
    void setLatencySamples(int n) { _latency = n; }
    [[nodiscard]] auto getLatencySamples() const -> int { return _latency; }
    [[nodiscard]] auto getSampleRate() const -> double { return _sr; }
    [[nodiscard]] auto getBlockSize() const -> int { return _bs; }
    void setRateAndBufferSizeDetails(double sr, int bs) { _sr = sr; _bs = bs; }
private:
    BusesLayout _layout;
    int _latency{0};
    double _sr{0};
    int _bs{0};
};
using AudioProcessorBusesLayout = AudioProcessor::BusesLayout;
class AudioProcessorEditor : public Component
{
public:
    void setResizable(bool, bool) {}
    AudioProcessor& processor;
    explicit AudioProcessorEditor(AudioProcessor* p) : processor(*p) {}
    explicit AudioProcessorEditor(AudioProcessor& p) : processor(p) {}
    ~AudioProcessorEditor() override = default;
};
class GenericAudioProcessorEditor : public AudioProcessorEditor { public: using AudioProcessorEditor::AudioProcessorEditor; };

class AudioProcessorValueTreeState
{
public:
    class ParameterLayout
    {
        std::vector<std::shared_ptr<RangedAudioParameter>> _p;
        friend class AudioProcessorValueTreeState;
    public:
        ParameterLayout() = default;
        template<typename... P> ParameterLayout(std::unique_ptr<P>... p) { (add(std::move(p)), ...); }
        template<typename P> void add(std::unique_ptr<P> p) { _p.push_back(std::shared_ptr<RangedAudioParameter>(std::move(p))); }
        template<typename... P> requires(sizeof...(P) > 1) void add(std::unique_ptr<P>... p) { (add(std::move(p)), ...); }
    };
    /// the root: assigning another tree connects the parameters to it
    class State : public ValueTree
    {
    public:
        AudioProcessorValueTreeState& owner;
        explicit State(AudioProcessorValueTreeState& o, Identifier const& t) : ValueTree(t), owner(o) {}
        auto operator=(ValueTree const& t) -> State& { ValueTree::operator=(t); owner.connect(); return *this; }
    };

    AudioProcessorValueTreeState(AudioProcessor& p, UndoManager* u, Identifier const& t, ParameterLayout l) : processor(p), undoManager(u), state(*this, t), _params(std::move(l._p)) { flush(); }
    AudioProcessorValueTreeState(AudioProcessorValueTreeState const&) = delete;
    [[nodiscard]] auto getParameter(StringRef id) const -> RangedAudioParameter*
    {
        for (auto const& p : _params) { if (p->paramID.toStdString() == id.text()) { return p.get(); } }
        return nullptr;
    }
    [[nodiscard]] auto copyState() -> ValueTree { flush(); return state.createCopy(); }
    void replaceState(ValueTree const& t) { if (t.isValid()) { flush(); state = t; } }
    void stubMessageLoop() { flush(); }

    AudioProcessor& processor;
    UndoManager* const undoManager;
    State state;

private:
    void flush()
    {
        for (auto const& p : _params) {
            auto const v = std::to_string(p->convertFrom0to1(p->getValue()));
            auto found   = false;
            for (int i = 0; i < state.getNumChildren(); ++i) {
                auto c = state.getChild(i);
                if (c.property("id") == p->paramID.toStdString()) { c.setProperty("value", v); found = true; }
            }
            if (!found) {
                auto c = ValueTree{Identifier{"PARAM"}};
                c.setProperty("id", p->paramID.toStdString());
                c.setProperty("value", v);
                state.appendChild(c, nullptr);
            }
        }
    }
    void connect()
    {
        for (auto const& p : _params) {
            for (int i = 0; i < state.getNumChildren(); ++i) {
                auto c = state.getChild(i);
                if (c.property("id") == p->paramID.toStdString() && !c.property("value").empty()) { p->setValueNotifyingHost(p->convertTo0to1(std::stof(c.property("value")))); }
            }
        }
        flush();
    }
    std::vector<std::shared_ptr<RangedAudioParameter>> _params;
};

template<typename L>
class ListenerList
{
    std::vector<L*> _l;
public:
    void add(L* l) { if (l != nullptr && !contains(l)) { _l.push_back(l); } }
    void remove(L* l) { std::erase(_l, l); }
    void clear() { _l.clear(); }
    [[nodiscard]] auto contains(L* l) const -> bool { return std::find(_l.begin(), _l.end(), l) != _l.end(); }
    [[nodiscard]] auto size() const -> int { return int(_l.size()); }
    template<typename R, typename... P, typename... A> void call(R (L::*f)(P...), A&&... a) { auto const copy = _l; for (auto* l : copy) { if (contains(l)) { (l->*f)(a...); } } }
    template<typename F> requires std::invocable<F, L&> void call(F f) { auto const copy = _l; for (auto* l : copy) { if (contains(l)) { f(*l); } } }
};

namespace dsp {
enum class DryWetMixingRule { linear, balanced, sin3dB, sin4p5dB, sin6dB, squareRoot3dB, squareRoot4p5dB };
template<typename S>
class DryWetMixer
{
    struct ramp
    {
        S now{0}, to{0}, step{0};
        int left{0}, steps{0};
        void reset(double sr, double sec) { steps = int(std::floor(sr * sec)); now = to; left = 0; }
        void target(S v)
        {
            if (v == to) { return; }
            to = v;
            if (steps <= 0) { now = v; left = 0; return; }
            left = steps;
            step = (to - now) / S(left);
        }
        auto next() -> S { if (left <= 0) { return to; } --left; now = left > 0 ? now + step : to; return now; }
    };
    ramp _dry, _wet;
    S _mix{1};
    DryWetMixingRule _rule{DryWetMixingRule::linear};
    double _sr{44100};
    std::size_t _ch{0}, _cap{0};
    std::vector<std::vector<S>> _fifo;
    void update()
    {
        switch (_rule) {
            case DryWetMixingRule::linear: _dry.target(S(1) - _mix); _wet.target(_mix); break;
            case DryWetMixingRule::balanced: _dry.target(S(2) * jmin(S(0.5), S(1) - _mix)); _wet.target(S(2) * jmin(S(0.5), _mix)); break;
            case DryWetMixingRule::sin3dB: _dry.target(std::sin(MathConstants<S>::halfPi * (S(1) - _mix))); _wet.target(std::sin(MathConstants<S>::halfPi * _mix)); break;
            default: _dry.target(std::sqrt(S(1) - _mix)); _wet.target(std::sqrt(_mix)); break;
        }
    }
public:
    DryWetMixer() { update(); reset(); }
    void setMixingRule(DryWetMixingRule r) { _rule = r; update(); }
    void setWetMixProportion(S m) { jassert(m >= S(0) && m <= S(1)); _mix = jlimit(S(0), S(1), m); update(); }
    void setWetLatency(S) { jassertfalse; }
    void prepare(ProcessSpec const& s)
    {
        _sr  = s.sampleRate;
        _ch  = s.numChannels;
        _cap = std::size_t(nextPowerOfTwo(int(s.maximumBlockSize)));
        update();
        reset();
    }
    void reset() { _dry.reset(_sr, 0.05); _wet.reset(_sr, 0.05); _fifo.assign(_ch, {}); }
    void pushDrySamples(AudioBlock<S const> b)
    {
        jassert(b.getNumChannels() <= _ch);
        for (std::size_t c = 0; c < std::min(_ch, b.getNumChannels()); ++c) {
            jassert(_fifo[c].size() + b.getNumSamples() <= _cap);
            _fifo[c].insert(_fifo[c].end(), b.getChannelPointer(c), b.getChannelPointer(c) + b.getNumSamples());
        }
    }
    void mixWetSamples(AudioBlock<S> b)
    {
        for (std::size_t i = 0; i < b.getNumSamples(); ++i) {
            auto const w = _wet.next();
            auto const d = _dry.next();
            for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
                jassert(c < _ch && i < _fifo[c].size());
                b.getChannelPointer(c)[i] = b.getChannelPointer(c)[i] * w + (c < _ch && i < _fifo[c].size() ? _fifo[c][i] * d : S(0));
            }
        }
        for (auto& f : _fifo) { f.erase(f.begin(), f.begin() + long(std::min(f.size(), b.getNumSamples()))); }
    }
};
}  // namespace dsp

}  // namespace juce
