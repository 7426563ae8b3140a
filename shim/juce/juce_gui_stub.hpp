// A stand-in for the parts of JUCE's user interface the plugin's editor uses, written from JUCE's published
// documentation.  Messages (callAsync, value listeners) and jobs of a thread pool wait until the harness runs them.
#pragma once
#include "juce_stub.hpp"
#include <deque>
#include <initializer_list>
#include <set>

#ifndef DBG
    #define DBG(x) do { } while (false)
#endif

namespace juce {

template<typename T> T jmap(T v, T a, T b, T c, T d) { return c + (d - c) * (v - a) / (b - a); }

inline auto stubMessages() -> std::deque<std::function<void()>>& { static std::deque<std::function<void()>> q; return q; }
inline void stubRunMessages() { while (!stubMessages().empty()) { auto f = std::move(stubMessages().front()); stubMessages().pop_front(); f(); } }
struct MessageManager { static auto callAsync(std::function<void()> f) -> bool { stubMessages().push_back(std::move(f)); return true; } };

template<typename T>
class Array
{
    std::vector<T> _v;
public:
    Array() = default;
    Array(std::initializer_list<T> l) : _v(l) {}
    [[nodiscard]] auto begin() const { return _v.begin(); }
    [[nodiscard]] auto end() const { return _v.end(); }
    [[nodiscard]] auto begin() { return _v.begin(); }
    [[nodiscard]] auto end() { return _v.end(); }
    [[nodiscard]] auto isEmpty() const -> bool { return _v.empty(); }
    [[nodiscard]] auto size() const -> int { return int(_v.size()); }
    void add(T v) { _v.push_back(std::move(v)); }
    [[nodiscard]] auto operator[](int i) const -> T { return i >= 0 && i < size() ? _v[std::size_t(i)] : T{}; }
    [[nodiscard]] auto getReference(int i) const -> T const& { return _v.at(std::size_t(i)); }
    [[nodiscard]] auto getFirst() const -> T { return (*this)[0]; }
    [[nodiscard]] auto getLast() const -> T { return (*this)[size() - 1]; }
    [[nodiscard]] auto indexOf(T const& v) const -> int { auto const i = std::find(_v.begin(), _v.end(), v); return i == _v.end() ? -1 : int(i - _v.begin()); }
    void ensureStorageAllocated(int) {}
    void addIfNotAlreadyThere(T v) { if (!contains(v)) { add(std::move(v)); } }
    void clear() { _v.clear(); }
    [[nodiscard]] auto contains(T const& v) const -> bool { return std::find(_v.begin(), _v.end(), v) != _v.end(); }
    auto operator==(Array const& o) const -> bool { return _v == o._v; }
};

class var
{
    enum kind { nothing, number, text, list } _k{nothing};
    double _d{0};
    String _s;
    std::shared_ptr<Array<var>> _a;
public:
    var() = default;
    template<typename T> requires std::is_arithmetic_v<T> var(T v) : _k(number), _d(static_cast<double>(v)) {}
    var(char const* s) : _k(text), _s(s) {}
    var(String s) : _k(text), _s(std::move(s)) {}
    var(Array<var> const& a) : _k(list), _a(std::make_shared<Array<var>>(a)) {}
    [[nodiscard]] auto asDouble() const -> double { return _k == text ? std::atof(_s.toStdString().c_str()) : _d; }
    operator int() const { return static_cast<int>(asDouble()); }
    operator int64() const { return static_cast<int64>(asDouble()); }
    operator float() const { return static_cast<float>(asDouble()); }
    operator double() const { return asDouble(); }
    operator bool() const { return asDouble() != 0; }
    [[nodiscard]] auto isString() const -> bool { return _k == text; }
    [[nodiscard]] auto isArray() const -> bool { return _k == list; }
    [[nodiscard]] auto isVoid() const -> bool { return _k == nothing; }
    [[nodiscard]] auto isDouble() const -> bool { return _k == number; }
    [[nodiscard]] auto isInt() const -> bool { return _k == number && _d == std::floor(_d); }
    [[nodiscard]] auto operator[](int i) const -> var { return _a ? (*_a)[i] : var{}; }
    [[nodiscard]] auto toString() const -> String { return _k == text ? _s : _k == number ? (_d == std::floor(_d) ? String{static_cast<int64>(_d)} : String{_d}) : String{}; }
    [[nodiscard]] auto getArray() const -> Array<var>* { return _a.get(); }
    [[nodiscard]] auto size() const -> int { return _a ? _a->size() : 0; }
    [[nodiscard]] auto same(var const& o) const -> bool { return _k == list || o._k == list ? _k == o._k && *_a == *o._a : _k == text || o._k == text ? toString() == o.toString() : _d == o._d; }
    friend auto operator==(var const& a, var const& b) -> bool { return a.same(b); }
    friend auto operator==(var const& a, char const* b) -> bool { return a.toString() == String{b}; }
    friend auto operator==(var const& a, String const& b) -> bool { return a.toString() == b; }
};

class Value
{
    struct source { var v; std::set<Value*> tell; };
    std::shared_ptr<source> _s;
public:
    class Listener { public: virtual ~Listener() = default; virtual void valueChanged(Value& value) = 0; };
    Value() : _s(std::make_shared<source>()) {}
    explicit Value(var const& v) : _s(std::make_shared<source>()) { _s->v = v; }
    Value(Value const& o) : _s(o._s) {}
    ~Value() { _s->tell.erase(this); }
    auto operator=(Value const&) -> Value& = delete;
    auto operator=(var const& v) -> Value& { setValue(v); return *this; }
    [[nodiscard]] auto getValue() const -> var { return _s->v; }
    operator var() const { return _s->v; }
    [[nodiscard]] auto toString() const -> String { return _s->v.toString(); }
    void referTo(Value const& o) { _s->tell.erase(this); _s = o._s; if (!_l.empty()) { _s->tell.insert(this); } }
    [[nodiscard]] auto refersToSameSourceAs(Value const& o) const -> bool { return _s == o._s; }
    void addListener(Listener* l) { if (l != nullptr) { _l.push_back(l); _s->tell.insert(this); } }
    void removeListener(Listener* l) { std::erase(_l, l); if (_l.empty()) { _s->tell.erase(this); } }
    void setValue(var const& v)
    {
        if (_s->v.same(v) && !_s->v.isVoid()) { return; }
        _s->v = v;
        MessageManager::callAsync([w = std::weak_ptr<source>(_s)] {
            if (auto s = w.lock()) {
                auto const copy = s->tell;
                for (auto* x : copy) { if (s->tell.contains(x)) { auto const ls = x->_l; for (auto* l : ls) { l->valueChanged(*x); } } }
            }
        });
    }
private:
    std::vector<Listener*> _l;
};

// ------------------------------------------------------------------ components
struct LookAndFeel { [[nodiscard]] auto findColour(int) const -> Colour { return Colour{0xff202020}; } };
struct ResizableWindow { enum ColourIds { backgroundColourId = 0x1005700 }; };
struct RectanglePlacement { enum Flags { stretchToFit = 8, centred = 36 }; int f; RectanglePlacement(int v = 36) : f(v) {} };
enum NotificationType { dontSendNotification = 0, sendNotification = 1, sendNotificationSync, sendNotificationAsync };

class Component
{
    std::shared_ptr<Component*> _me{std::make_shared<Component*>(this)};
    Rectangle<int> _b;
    std::vector<std::weak_ptr<Component*>> _kids;
public:
    Component() = default;
    explicit Component(String const&) {}
    Component(Component const&) = delete;
    virtual ~Component() { *_me = nullptr; }
    virtual void paint(Graphics&) {}
    virtual void resized() {}
    void addAndMakeVisible(Component& c, int = -1) { _kids.push_back(c._me); }
    void addAndMakeVisible(Component* c, int = -1) { if (c != nullptr) { _kids.push_back(c->_me); } }
    void addChildComponent(Component& c, int = -1) { _kids.push_back(c._me); }
    void setVisible(bool) {}
    void setBounds(Rectangle<int> b) { _b = b; resized(); }
    void setBounds(int x, int y, int w, int h) { setBounds({x, y, w, h}); }
    void setSize(int w, int h) { setBounds({_b.x, _b.y, w, h}); }
    [[nodiscard]] auto getBounds() const -> Rectangle<int> { return _b; }
    [[nodiscard]] auto getLocalBounds() const -> Rectangle<int> { return {0, 0, _b.w, _b.h}; }
    [[nodiscard]] auto getWidth() const -> int { return _b.w; }
    [[nodiscard]] auto getHeight() const -> int { return _b.h; }
    void repaint() {}
    void setOpaque(bool) {}
    [[nodiscard]] auto isVisible() const -> bool { return true; }
    [[nodiscard]] auto isEnabled() const -> bool { return true; }
    [[nodiscard]] auto isShowing() const -> bool { return true; }
    [[nodiscard]] auto getName() const -> String { return {}; }
    [[nodiscard]] auto findColour(int id) const -> Colour { return getLookAndFeel().findColour(id); }
    [[nodiscard]] auto getLookAndFeel() const -> LookAndFeel& { static auto l = LookAndFeel{}; return l; }
    void setLookAndFeel(LookAndFeel*) {}
    void setName(String const&) {}
    void setTooltip(String const&) {}
    void setEnabled(bool) {}

    template<typename C>
    class SafePointer
    {
        std::weak_ptr<Component*> _w;
    public:
        SafePointer() = default;
        SafePointer(C* c) { if (c != nullptr) { _w = static_cast<Component*>(c)->_me; } }
        [[nodiscard]] auto getComponent() const -> C* { auto p = _w.lock(); return p && *p != nullptr ? static_cast<C*>(*p) : nullptr; }
        operator C*() const { return getComponent(); }
        auto operator->() const -> C* { return getComponent(); }
        auto operator==(C* c) const -> bool { return getComponent() == c; }
    };
};
/// the widgets that exist, in the order of their making
template<typename W> auto stubWidgets() -> std::vector<W*>& { static std::vector<W*> v; return v; }
template<typename W> struct StubListed
{
    StubListed() { stubWidgets<W>().push_back(static_cast<W*>(this)); }
    StubListed(StubListed const&) = delete;
    ~StubListed() { std::erase(stubWidgets<W>(), static_cast<W*>(this)); }
};

class TextButton : public Component, public StubListed<TextButton>
{
public:
    String text;
    std::function<void()> onClick;
    TextButton() = default;
    explicit TextButton(String t) : text(std::move(t)) {}
    void setButtonText(String t) { text = std::move(t); }
    [[nodiscard]] auto getButtonText() const -> String { return text; }
};
class Label : public Component, public StubListed<Label>
{
    String _t;
public:
    Label() = default;
    explicit Label(String const& /*name*/, String t = {}) : _t(std::move(t)) {}
    void setText(String t, NotificationType) { _t = std::move(t); }
    [[nodiscard]] auto getText() const -> String { return _t; }
};
class TextEditor : public Component, public StubListed<TextEditor>
{
    std::string _t;
    std::size_t _caret{0};
public:
    TextEditor() = default;
    void setReadOnly(bool) {}
    void setMultiLine(bool, bool = true) {}
    void setText(String const& t, bool = true) { _t = t.toStdString(); _caret = std::min(_caret, _t.size()); }
    void moveCaretToEnd(bool) { _caret = _t.size(); }
    void moveCaretToEnd() { _caret = _t.size(); }
    void insertTextAtCaret(String const& t) { auto const s = t.toStdString(); _t.insert(_caret, s); _caret += s.size(); }
    void clear() { _t.clear(); _caret = 0; }
    [[nodiscard]] auto getText() const -> String { return _t; }
};
class ImageComponent : public Component, public StubListed<ImageComponent>
{
    Image _i;
public:
    void setImagePlacement(RectanglePlacement) {}
    void setImage(Image const& i) { _i = i; }
    [[nodiscard]] auto getImage() const -> Image const& { return _i; }
};
class PropertyComponent : public Component, public StubListed<PropertyComponent>
{
public:
    String name;
    Value value;
    PropertyComponent(Value const& v, String n) : name(std::move(n)), value(v) {}
};
class SliderPropertyComponent : public PropertyComponent { public: SliderPropertyComponent(Value const& v, String n, double, double, double, double = 1.0, bool = false) : PropertyComponent(v, std::move(n)) {} };
class ChoicePropertyComponent : public PropertyComponent { public: ChoicePropertyComponent(Value const& v, String n, StringArray const& c, Array<var> const& a) : PropertyComponent(v, std::move(n)) { jassert(c.size() == a.size()); } };
class MultiChoicePropertyComponent : public PropertyComponent { public: MultiChoicePropertyComponent(Value const& v, String n, StringArray const& c, Array<var> const& a, int = -1) : PropertyComponent(v, std::move(n)) { jassert(c.size() == a.size()); jassert(v.getValue().isArray()); } };
class PropertyPanel : public Component
{
    std::vector<std::unique_ptr<PropertyComponent>> _p;
public:
    void addSection(String const&, Array<PropertyComponent*> const& a, bool = true) { for (auto* p : a) { _p.emplace_back(p); } }
    void addProperties(Array<PropertyComponent*> const& a) { addSection({}, a); }
};
struct TabbedButtonBar { enum Orientation { TabsAtTop, TabsAtBottom, TabsAtLeft, TabsAtRight }; };
class TabbedComponent : public Component
{
    std::vector<Component*> _t;
public:
    explicit TabbedComponent(TabbedButtonBar::Orientation) {}
    void addTab(String const&, Colour, Component* c, bool owned, int = -1) { jassert(!owned); _t.push_back(c); }
    void resized() override { for (auto* c : _t) { c->setBounds(getLocalBounds()); } }
};
class TooltipWindow : public Component { public: void setMillisecondsBeforeTipAppears(int = 700) {} };
template<typename T> class SharedResourcePointer
{
    std::shared_ptr<T> _p;
    static auto shared() -> std::weak_ptr<T>& { static std::weak_ptr<T> w; return w; }
public:
    SharedResourcePointer() : _p(shared().lock()) { if (!_p) { _p = std::make_shared<T>(); shared() = _p; } }
    auto operator->() const -> T* { return _p.get(); }
    auto operator*() const -> T& { return *_p; }
};

struct FileBrowserComponent { enum FileChooserFlags { openMode = 1, saveMode = 2, canSelectFiles = 4, canSelectDirectories = 8 }; };
/// launched choosers wait for stubAnswer; one that is destroyed never calls back
class FileChooser : public StubListed<FileChooser>
{
    std::function<void(FileChooser const&)> _f;
    Array<File> _r;
public:
    bool launched{false};
    explicit FileChooser(String const&, File const& = {}, String const& = {}, bool = true) {}
    void launchAsync(int flags, std::function<void(FileChooser const&)> f) { jassert((flags & FileBrowserComponent::openMode) != 0 && (flags & FileBrowserComponent::saveMode) == 0); _f = std::move(f); launched = true; }
    [[nodiscard]] auto getResults() const -> Array<File> const& { return _r; }
    [[nodiscard]] auto getResult() const -> File { jassert(_r.size() <= 1); return _r.isEmpty() ? File{} : _r[0]; }
    void stubAnswer(std::optional<File> const& f) { launched = false; _r = f ? Array<File>{*f} : Array<File>{}; auto const call = _f; call(*this); }
};

struct ThreadPoolOptions
{
    int threads{1};
    [[nodiscard]] auto withNumberOfThreads(int n) const -> ThreadPoolOptions { auto o = *this; o.threads = n; return o; }
    [[nodiscard]] auto withThreadName(String const&) const -> ThreadPoolOptions { return *this; }
};
/// how many of the waiting jobs have begun, and come to their end, while a pool is being emptied
inline int stubJobsThatHaveBegun = 0;
class ThreadPool : public StubListed<ThreadPool>
{
    std::deque<std::function<void()>> _q;
public:
    explicit ThreadPool(ThreadPoolOptions const&) {}
    explicit ThreadPool(int = 1) {}
    ~ThreadPool() { removeAllJobs(true, 5000); }
    void addJob(std::function<void()> f) { _q.push_back(std::move(f)); }
    auto removeAllJobs(bool, int) -> bool
    {
        for (; stubJobsThatHaveBegun > 0 && !_q.empty(); --stubJobsThatHaveBegun) { stubRunOne(); }
        _q.clear();
        return true;
    }
    void stubRunOne() { auto f = std::move(_q.front()); _q.pop_front(); f(); }
    void stubRunAll() { while (!_q.empty()) { stubRunOne(); } }
    [[nodiscard]] auto getNumJobs() const -> int { return int(_q.size()); }
};

}  // namespace juce
