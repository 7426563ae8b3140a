// A small stand-in for the parts of pybind11 that extra/python uses, on top of the real CPython and NumPy C APIs,
// written from pybind11's documentation: overloads are tried in order, first without and then with conversion;
// C++ exceptions become Python exceptions; touching a Python object without holding the GIL ends the process.
#pragma once
#ifndef PY_SSIZE_T_CLEAN
    #define PY_SSIZE_T_CLEAN
#endif
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t  = std::size_t;

inline void need_gil()
{
    if (PyGILState_Check() == 0) {
        std::fprintf(stderr, "a Python object is used without holding the GIL\n");
        std::_Exit(95);
    }
}

struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python error") {} };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };

class handle
{
protected:
    PyObject* _p{nullptr};
public:
    handle() = default;
    handle(PyObject* p) : _p(p) {}
    [[nodiscard]] auto ptr() const -> PyObject* { return _p; }
    [[nodiscard]] auto is_none() const -> bool { return _p == Py_None; }
    explicit operator bool() const { return _p != nullptr; }
};

class object : public handle
{
public:
    object() = default;
    static auto steal(PyObject* p) -> object { object o; o._p = p; if (p == nullptr) { throw error_already_set{}; } return o; }
    static auto borrow(PyObject* p) -> object { need_gil(); Py_XINCREF(p); object o; o._p = p; return o; }
    object(object const& o) : handle(o._p) { if (_p != nullptr) { need_gil(); Py_INCREF(_p); } }
    object(object&& o) noexcept : handle(o._p) { o._p = nullptr; }
    auto operator=(object o) noexcept -> object& { std::swap(_p, o._p); return *this; }
    ~object() { if (_p != nullptr) { need_gil(); Py_DECREF(_p); } }
    [[nodiscard]] auto release() -> PyObject* { auto* p = _p; _p = nullptr; return p; }
};

class gil_scoped_release
{
    PyThreadState* _s;
public:
    gil_scoped_release() { need_gil(); _s = PyEval_SaveThread(); }
    ~gil_scoped_release() { PyEval_RestoreThread(_s); }
    gil_scoped_release(gil_scoped_release const&) = delete;
};
class gil_scoped_acquire
{
    PyGILState_STATE _s;
public:
    gil_scoped_acquire() : _s(PyGILState_Ensure()) {}
    ~gil_scoped_acquire() { PyGILState_Release(_s); }
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
};
template<typename... T> struct call_guard {};

// ------------------------------------------------------------------ arrays
template<typename T> constexpr auto npy_type() -> int
{
    if constexpr (std::is_same_v<T, float>) { return NPY_FLOAT32; }
    else if constexpr (std::is_same_v<T, double>) { return NPY_FLOAT64; }
    else if constexpr (std::is_same_v<T, std::complex<float>>) { return NPY_COMPLEX64; }
    else if constexpr (std::is_same_v<T, std::complex<double>>) { return NPY_COMPLEX128; }
    else if constexpr (std::is_same_v<T, std::int32_t>) { return NPY_INT32; }
    else if constexpr (std::is_same_v<T, std::int64_t>) { return NPY_INT64; }
    else { return NPY_NOTYPE; }
}

class array : public object
{
public:
    enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS, forcecast = NPY_ARRAY_FORCECAST };
    array() = default;
    explicit array(object o) : object(std::move(o)) {}
    [[nodiscard]] auto np() const -> PyArrayObject* { return reinterpret_cast<PyArrayObject*>(_p); }
    [[nodiscard]] auto ndim() const -> ssize_t { return PyArray_NDIM(np()); }
    [[nodiscard]] auto flags() const -> int { return PyArray_FLAGS(np()); }
    [[nodiscard]] auto itemsize() const -> ssize_t { return PyArray_ITEMSIZE(np()); }
    [[nodiscard]] auto size() const -> ssize_t { return PyArray_SIZE(np()); }
    [[nodiscard]] auto nbytes() const -> ssize_t { return size() * itemsize(); }
    [[nodiscard]] auto shape() const -> ssize_t const* { return PyArray_DIMS(np()); }
    [[nodiscard]] auto strides() const -> ssize_t const* { return PyArray_STRIDES(np()); }
    [[nodiscard]] auto shape(ssize_t i) const -> ssize_t { axis(i); return PyArray_DIM(np(), int(i)); }
    [[nodiscard]] auto strides(ssize_t i) const -> ssize_t { axis(i); return PyArray_STRIDE(np(), int(i)); }
    [[nodiscard]] auto writeable() const -> bool { return PyArray_ISWRITEABLE(np()); }
private:
    void axis(ssize_t i) const { if (i < 0 || i >= ndim()) { throw index_error("invalid axis"); } }
};

template<typename T, int ExtraFlags = array::forcecast>
class array_t : public array
{
    static auto fresh(std::vector<ssize_t> shape) -> object
    {
        need_gil();
        for (auto s : shape) { if (s < 0) { throw value_error("negative dimensions are not allowed"); } }
        auto o  = object::steal(PyArray_SimpleNew(int(shape.size()), shape.data(), npy_type<T>()));
        auto* d = static_cast<T*>(PyArray_DATA(reinterpret_cast<PyArrayObject*>(o.ptr())));
        auto n  = PyArray_SIZE(reinterpret_cast<PyArrayObject*>(o.ptr()));
        if constexpr (!std::is_integral_v<T>) {   // NumPy leaves it uninitialised
            for (ssize_t i = 0; i < n; ++i) { d[i] = T(std::numeric_limits<float>::quiet_NaN()); }
        }
        return o;
    }
public:
    using value_type = T;
    array_t() : array(fresh({0})) {}
    explicit array_t(object o) : array(std::move(o)) {}
    template<std::integral I> explicit array_t(I n) : array(fresh({ssize_t(n)})) {}
    explicit array_t(std::vector<ssize_t> s) : array(fresh(std::move(s))) {}
    template<std::integral I> array_t(I n, T const* src) : array(fresh({ssize_t(n)})) { std::copy_n(src, n, mutable_data()); }
    [[nodiscard]] auto data() const -> T const* { return static_cast<T const*>(PyArray_DATA(np())); }
    [[nodiscard]] auto mutable_data() -> T*
    {
        if (!writeable()) { throw std::domain_error("array is not writeable"); }
        return static_cast<T*>(PyArray_DATA(np()));
    }
    [[nodiscard]] auto at(ssize_t i) const -> T { return *reinterpret_cast<T const*>(static_cast<char const*>(PyArray_DATA(np())) + i * strides(0)); }
    static auto load(PyObject* o, bool convert) -> std::optional<array_t>
    {
        auto exact = PyArray_Check(o) && PyArray_TYPE(reinterpret_cast<PyArrayObject*>(o)) == npy_type<T>()
                     && ((ExtraFlags & (array::c_style | array::f_style)) & ~PyArray_FLAGS(reinterpret_cast<PyArrayObject*>(o))) == 0;
        if (exact) { return array_t{object::borrow(o)}; }
        if (!convert) { return std::nullopt; }
        auto* r = PyArray_FromAny(o, PyArray_DescrFromType(npy_type<T>()), 0, 0, NPY_ARRAY_ENSUREARRAY | ExtraFlags, nullptr);
        if (r == nullptr) { PyErr_Clear(); return std::nullopt; }
        return array_t{object::steal(r)};
    }
};

// ------------------------------------------------------------------ conversion of arguments and results
inline auto enum_types() -> std::map<std::type_index, PyObject*>& { static std::map<std::type_index, PyObject*> m; return m; }

template<typename T> struct loader
{
    static auto load(PyObject* o, bool convert) -> std::optional<T>
    {
        if constexpr (std::is_enum_v<T>) {
            auto it = enum_types().find(typeid(T));
            if (it == enum_types().end() || PyObject_IsInstance(o, it->second) != 1) { return std::nullopt; }
            return static_cast<T>(PyLong_AsLong(o));
        } else if constexpr (std::is_same_v<T, bool>) {
            if (!PyBool_Check(o)) { return std::nullopt; }
            return o == Py_True;
        } else if constexpr (std::is_integral_v<T>) {
            if (PyFloat_Check(o)) { return std::nullopt; }
            auto* l = PyNumber_Index(o);
            if (l == nullptr) { PyErr_Clear(); return std::nullopt; }
            auto v = PyLong_AsLongLong(l);
            Py_DECREF(l);
            if (PyErr_Occurred() != nullptr) { PyErr_Clear(); return std::nullopt; }
            if (v < 0 && std::is_unsigned_v<T>) { return std::nullopt; }
            return static_cast<T>(v);
        } else if constexpr (std::is_floating_point_v<T>) {
            if (!convert && !PyFloat_Check(o)) { return std::nullopt; }
            auto v = PyFloat_AsDouble(o);
            if (PyErr_Occurred() != nullptr) { PyErr_Clear(); return std::nullopt; }
            return static_cast<T>(v);
        } else {
            return T::load(o, convert);
        }
    }
};
template<typename T> struct loader<std::optional<T>>
{
    static auto load(PyObject* o, bool convert) -> std::optional<std::optional<T>>
    {
        if (o == Py_None) { return std::optional<std::optional<T>>{std::in_place, std::nullopt}; }
        auto v = loader<T>::load(o, convert);
        if (!v) { return std::nullopt; }
        return std::optional<std::optional<T>>{std::in_place, std::move(v)};
    }
};

template<typename R> auto to_python(R&& r) -> PyObject*
{
    using D = std::remove_cvref_t<R>;
    need_gil();
    if constexpr (std::is_base_of_v<object, D>) { auto o = object(std::forward<R>(r)); return o.release(); }
    else if constexpr (std::is_floating_point_v<D>) { return PyFloat_FromDouble(double(r)); }
    else if constexpr (std::is_same_v<D, bool>) { return PyBool_FromLong(r); }
    else if constexpr (std::is_integral_v<D>) { return PyLong_FromLongLong(r); }
    else { return PyUnicode_FromString(std::string(r).c_str()); }
}

using overload = std::function<bool(PyObject* args, bool convert, PyObject*& result)>;
struct overloads { std::string name; std::vector<overload> all; PyMethodDef def{}; };

inline auto set_error() -> PyObject*
{
    try { throw; }
    catch (error_already_set const&) {}
    catch (value_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (type_error const& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (index_error const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::bad_alloc const& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (std::domain_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::invalid_argument const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::length_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::out_of_range const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::range_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::overflow_error const& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
    catch (std::exception const& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
    return nullptr;
}

inline auto dispatch(PyObject* self, PyObject* args) -> PyObject*
{
    auto* o = static_cast<overloads*>(PyCapsule_GetPointer(self, nullptr));
    try {
        for (auto convert : {false, true}) {
            for (auto& f : o->all) {
                PyObject* r = nullptr;
                if (f(args, convert, r)) { return r; }
            }
        }
    } catch (...) {
        return set_error();
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", o->name.c_str());
    return nullptr;
}

/// element-wise application, as py::vectorize
template<typename R, typename A> struct vectorized { R (*f)(A); };
template<typename R, typename A> auto vectorize(R (*f)(A)) -> vectorized<R, A> { return {f}; }
template<typename R, typename A> auto vectorize(R (*f)(A) noexcept) -> vectorized<R, A> { return {f}; }
template<typename L> requires std::is_class_v<L> auto vectorize(L const& l) { return vectorize(+l); }

template<typename R, typename... A> auto make_overload(R (*f)(A...)) -> overload
{
    return [f](PyObject* args, bool convert, PyObject*& out) -> bool {
        if (PyTuple_GET_SIZE(args) != Py_ssize_t(sizeof...(A))) { return false; }
        auto ok  = true;
        auto i   = Py_ssize_t{0};
        auto get = [&]<typename T>(std::type_identity<T>) -> std::optional<T> {
            auto* o = PyTuple_GET_ITEM(args, i++);
            if (!ok) { return std::nullopt; }
            auto v = loader<T>::load(o, convert);
            ok     = ok && v.has_value();
            return v;
        };
        auto vals = std::tuple<std::optional<std::remove_cvref_t<A>>...>{get(std::type_identity<std::remove_cvref_t<A>>{})...};
        if (!ok) { return false; }
        if constexpr (std::is_void_v<R>) {
            std::apply([f](auto&... v) { f(std::move(*v)...); }, vals);
            Py_INCREF(Py_None);
            out = Py_None;
        } else {
            out = to_python(std::apply([f](auto&... v) { return f(std::move(*v)...); }, vals));
        }
        return true;
    };
}
template<typename R, typename... A> auto make_overload(R (*f)(A...) noexcept) -> overload { return make_overload(static_cast<R (*)(A...)>(f)); }
template<typename R, typename A> auto make_overload(vectorized<R, A> v) -> overload
{
    using T = std::remove_cvref_t<A>;
    return [v](PyObject* args, bool convert, PyObject*& out) -> bool {
        if (PyTuple_GET_SIZE(args) != 1) { return false; }
        auto a = array_t<T>::load(PyTuple_GET_ITEM(args, 0), convert);
        if (!a) { return false; }
        auto flat  = array_t<T>{object::steal(PyArray_FromAny(a->ptr(), PyArray_DescrFromType(npy_type<T>()), 0, 0, NPY_ARRAY_C_CONTIGUOUS, nullptr))};
        auto shape = std::vector<ssize_t>(a->shape(), a->shape() + a->ndim());
        auto r     = array_t<R>{shape};
        for (ssize_t i = 0; i < flat.size(); ++i) { r.mutable_data()[i] = v.f(flat.data()[i]); }
        out = a->ndim() == 0 ? PyFloat_FromDouble(double(r.data()[0])) : r.release();
        return true;
    };
}
template<typename L> requires std::is_class_v<L> auto make_overload(L const& l) -> overload { return make_overload(+l); }

struct arg
{
    explicit constexpr arg(char const*) {}
    template<typename T> auto operator=(T&&) const -> arg { return *this; }
    [[nodiscard]] auto noconvert(bool = true) const -> arg { return *this; }
};

class attribute
{
    PyObject* _o;
    std::string _n;
public:
    attribute(PyObject* o, char const* n) : _o(o), _n(n) {}
    void operator=(char const* v) { PyObject_SetAttrString(_o, _n.c_str(), PyUnicode_FromString(v)); }
    void operator=(std::string const& v) { *this = v.c_str(); }
    void operator=(long v) { PyObject_SetAttrString(_o, _n.c_str(), PyLong_FromLong(v)); }
};

class module_ : public object
{
    std::map<std::string, overloads*> _f;
public:
    explicit module_(object o) : object(std::move(o)) {}
    template<typename F, typename... Extra> auto def(char const* name, F&& f, Extra&&...) -> module_&
    {
        auto*& o = _f[name];
        if (o == nullptr) {
            o       = new overloads{};
            o->name = name;
            o->def  = PyMethodDef{o->name.c_str(), &dispatch, METH_VARARGS, nullptr};
            auto* c = PyCapsule_New(o, nullptr, nullptr);
            PyObject_SetAttrString(ptr(), name, PyCFunction_New(&o->def, c));
        }
        o->all.push_back(make_overload(std::forward<F>(f)));
        return *this;
    }
    [[nodiscard]] auto attr(char const* n) const -> attribute { return {ptr(), n}; }
    auto doc() -> attribute { return {ptr(), "__doc__"}; }
};
using module = module_;

template<typename E> class enum_
{
    PyObject* _t;
public:
    template<typename... X> enum_(module_& m, char const* name, X&&...)
    {
        auto* bases = PyTuple_Pack(1, reinterpret_cast<PyObject*>(&PyLong_Type));
        _t          = PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type), "sOO", name, bases, PyDict_New());
        enum_types()[typeid(E)] = _t;
        PyObject_SetAttrString(m.ptr(), name, _t);
    }
    template<typename... X> auto value(char const* n, E v, X&&...) -> enum_&
    {
        PyObject_SetAttrString(_t, n, PyObject_CallFunction(_t, "l", long(v)));
        return *this;
    }
    auto export_values() -> enum_& { return *this; }
};

}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                                     \
    static void neo_stub_init(::pybind11::module_&);                                                   \
    static ::PyModuleDef neo_stub_def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};             \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name()                        \
    {                                                                                                  \
        import_array();                                                                                \
        auto* p = PyModule_Create(&neo_stub_def);                                                      \
        if (p == nullptr) { return nullptr; }                                                          \
        auto* m = new ::pybind11::module_{::pybind11::object::borrow(p)};                              \
        neo_stub_init(*m);                                                                             \
        return p;                                                                                      \
    }                                                                                                  \
    static void neo_stub_init(::pybind11::module_& var)
#define PYBIND11_STRINGIFY(x) #x
