// Minimal stand-in for the subset of pybind11 that the native kernels of pyBBN
// (interactions/*/cpp/integral.cpp) use, written on the CPython C API.
//
// The sandbox has no pybind11 (the submodules of the repository are empty), so the kernels
// could not be run at all without this.  Nothing of the kernels is re-implemented here: their
// real PYBIND11_MODULE bodies are compiled against these headers.
#pragma once

#ifndef PY_SSIZE_T_CLEAN
#define PY_SSIZE_T_CLEAN
#endif
#include <Python.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

typedef Py_ssize_t ssize_t_;

// ---------------------------------------------------------------- handles and errors
class handle {
public:
    handle() : m_ptr(nullptr) {}
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    explicit operator bool() const { return m_ptr != nullptr; }
    const handle &inc_ref() const { Py_XINCREF(m_ptr); return *this; }
    const handle &dec_ref() const { Py_XDECREF(m_ptr); return *this; }
    bool is_none() const { return m_ptr == Py_None; }
    bool is(const handle &o) const { return m_ptr == o.m_ptr; }
    template <typename T> T cast() const;
protected:
    PyObject *m_ptr;
};

class error_already_set : public std::runtime_error {
public:
    error_already_set() : std::runtime_error("Python error") {}
    void restore() {}
};
class cast_error : public std::runtime_error { using std::runtime_error::runtime_error; public: cast_error() : std::runtime_error("cast error") {} };
class builtin_exception : public std::runtime_error { using std::runtime_error::runtime_error; };
#define PBSHIM_EXC(cls) class cls : public builtin_exception { public: explicit cls(const std::string &s) : builtin_exception(s) {} cls() : builtin_exception("") {} };
PBSHIM_EXC(value_error) PBSHIM_EXC(type_error) PBSHIM_EXC(index_error) PBSHIM_EXC(key_error)
PBSHIM_EXC(stop_iteration) PBSHIM_EXC(import_error)

struct borrowed_t_ {};
struct stolen_t_ {};

class object : public handle {
public:
    object() {}
    object(handle h, borrowed_t_) : handle(h) { Py_XINCREF(m_ptr); }
    object(handle h, stolen_t_) : handle(h) {}
    object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    ~object() { Py_XDECREF(m_ptr); }
    object &operator=(const object &o) { Py_XINCREF(o.m_ptr); Py_XDECREF(m_ptr); m_ptr = o.m_ptr; return *this; }
    object &operator=(object &&o) noexcept { if (this != &o) { Py_XDECREF(m_ptr); m_ptr = o.m_ptr; o.m_ptr = nullptr; } return *this; }
    handle release() { PyObject *p = m_ptr; m_ptr = nullptr; return handle(p); }
};

template <typename T> T reinterpret_borrow(handle h) { return T(h, borrowed_t_()); }
template <typename T> T reinterpret_steal(handle h) { return T(h, stolen_t_()); }

inline object steal_checked(PyObject *p) {
    if (!p) throw error_already_set();
    return object(handle(p), stolen_t_());
}

class none : public object { public: none() : object(handle(Py_None), borrowed_t_()) {} };
class str : public object {
public:
    str(handle h, borrowed_t_ b) : object(h, b) {}
    str(handle h, stolen_t_ s) : object(h, s) {}
    str(const char *s) : object(handle(PyUnicode_FromString(s)), stolen_t_()) {}
    str(const std::string &s) : str(s.c_str()) {}
};
class list : public object {
public:
    list() : object(handle(PyList_New(0)), stolen_t_()) {}
    list(handle h, borrowed_t_ b) : object(h, b) {}
    list(handle h, stolen_t_ s) : object(h, s) {}
    size_t size() const { return (size_t)PyList_Size(m_ptr); }
    template <typename T> void append(const T &v);
};
class tuple : public object {
public:
    tuple() : object(handle(PyTuple_New(0)), stolen_t_()) {}
    tuple(handle h, borrowed_t_ b) : object(h, b) {}
    tuple(handle h, stolen_t_ s) : object(h, s) {}
    size_t size() const { return (size_t)PyTuple_Size(m_ptr); }
};
class dict : public object {
public:
    dict() : object(handle(PyDict_New()), stolen_t_()) {}
    dict(handle h, borrowed_t_ b) : object(h, b) {}
    dict(handle h, stolen_t_ s) : object(h, s) {}
};

class gil_scoped_release { PyThreadState *s; public: gil_scoped_release() : s(PyEval_SaveThread()) {} ~gil_scoped_release() { PyEval_RestoreThread(s); } };
class gil_scoped_acquire { PyGILState_STATE s; public: gil_scoped_acquire() : s(PyGILState_Ensure()) {} ~gil_scoped_acquire() { PyGILState_Release(s); } };

// ---------------------------------------------------------------- registered classes
namespace detail {

struct instance { PyObject_HEAD void *value; };

inline std::unordered_map<std::type_index, PyTypeObject *> &registry() {
    static std::unordered_map<std::type_index, PyTypeObject *> r;
    return r;
}

template <typename T> struct intrinsic { typedef typename std::remove_cv<typename std::remove_pointer<typename std::remove_cv<typename std::remove_reference<T>::type>::type>::type>::type type; };

// Default caster: a class bound with class_<>
template <typename T, typename Enable = void> struct caster {
    T *p = nullptr;
    bool load(PyObject *o) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end() || !o) return false;
        if (!PyObject_TypeCheck(o, it->second)) return false;
        p = static_cast<T *>(reinterpret_cast<instance *>(o)->value);
        return p != nullptr;
    }
    T &get() { return *p; }
    static PyObject *cast(const T &v) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end()) throw cast_error("unregistered type");
        PyObject *o = it->second->tp_alloc(it->second, 0);
        if (!o) throw error_already_set();
        reinterpret_cast<instance *>(o)->value = new T(v);
        return o;
    }
};

template <typename T> struct value_holder { T v{}; T &get() { return v; } };

template <> struct caster<bool> : value_holder<bool> {
    bool load(PyObject *o) {
        if (o == Py_True) { v = true; return true; }
        if (o == Py_False || o == Py_None) { v = false; return true; }
        if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) {
            int r = PyObject_IsTrue(o);
            if (r < 0) { PyErr_Clear(); return false; }
            v = r != 0; return true;
        }
        return false;
    }
    static PyObject *cast(bool b) { return PyBool_FromLong(b); }
};

template <typename T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> : value_holder<T> {
    bool load(PyObject *o) {
        if (!o || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
        double d = PyFloat_AsDouble(o);
        if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
        this->v = (T)d; return true;
    }
    static PyObject *cast(T d) { return PyFloat_FromDouble((double)d); }
};

template <typename T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>::type> : value_holder<T> {
    bool load(PyObject *o) {
        if (!o || PyFloat_Check(o)) return false;
        PyObject *idx = PyNumber_Index(o);
        if (!idx) {
            PyErr_Clear();
            if (!Py_TYPE(o)->tp_as_number || !Py_TYPE(o)->tp_as_number->nb_int || PyUnicode_Check(o)) return false;
            idx = PyNumber_Long(o);
            if (!idx) { PyErr_Clear(); return false; }
        }
        long long x = PyLong_AsLongLong(idx);
        Py_DECREF(idx);
        if (x == -1 && PyErr_Occurred()) { PyErr_Clear(); return false; }
        if (std::is_unsigned<T>::value && x < 0) return false;
        this->v = (T)x;
        return (long long)this->v == x;
    }
    static PyObject *cast(T i) { return PyLong_FromLongLong((long long)i); }
};

struct enum_entry { PyObject *type; };
inline std::unordered_map<std::type_index, PyObject *> &enum_registry() {
    static std::unordered_map<std::type_index, PyObject *> r;
    return r;
}
template <typename T> struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> : value_holder<T> {
    bool load(PyObject *o) {
        auto it = enum_registry().find(std::type_index(typeid(T)));
        if (it == enum_registry().end()) return false;
        int r = PyObject_IsInstance(o, it->second);
        if (r <= 0) { PyErr_Clear(); return false; }
        caster<long long> c;
        if (!c.load(o)) return false;
        this->v = static_cast<T>(c.v); return true;
    }
    static PyObject *cast(T e) {
        auto it = enum_registry().find(std::type_index(typeid(T)));
        if (it == enum_registry().end()) return PyLong_FromLongLong((long long)e);
        PyObject *r = PyObject_CallFunction(it->second, "L", (long long)e);
        if (!r) throw error_already_set();
        return r;
    }
};

template <> struct caster<std::string> : value_holder<std::string> {
    bool load(PyObject *o) {
        if (!o || !PyUnicode_Check(o)) return false;
        const char *s = PyUnicode_AsUTF8(o);
        if (!s) { PyErr_Clear(); return false; }
        v = s; return true;
    }
    static PyObject *cast(const std::string &s) { return PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()); }
};
template <> struct caster<const char *> { static PyObject *cast(const char *s) { return PyUnicode_FromString(s); } };
template <> struct caster<char> : value_holder<std::string> { static PyObject *cast(const char *s) { return PyUnicode_FromString(s); } };

template <typename T> struct caster<T, typename std::enable_if<std::is_base_of<object, T>::value>::type> {
    object o_;
    std::unique_ptr<T> t_;
    bool load(PyObject *o) { t_.reset(new T(handle(o), borrowed_t_())); return o != nullptr; }
    T &get() { return *t_; }
    static PyObject *cast(const T &v) { PyObject *p = v.ptr(); if (!p) p = Py_None; Py_INCREF(p); return p; }
};
template <> struct caster<handle> : value_holder<handle> {
    bool load(PyObject *o) { v = handle(o); return true; }
    static PyObject *cast(handle h) { PyObject *p = h.ptr() ? h.ptr() : Py_None; Py_INCREF(p); return p; }
};

template <typename T> PyObject *cast_out(const T &v) { return caster<typename intrinsic<T>::type>::cast(v); }
inline PyObject *cast_out(const char *s) { return PyUnicode_FromString(s); }

} // namespace detail

template <typename T> T handle::cast() const {
    detail::caster<typename detail::intrinsic<T>::type> c;
    if (!c.load(m_ptr)) throw cast_error("Unable to cast Python instance");
    return c.get();
}
template <typename T> object cast(const T &v) { return object(handle(detail::cast_out(v)), stolen_t_()); }
template <typename T> T cast(const handle &h) { return h.cast<T>(); }
template <typename T> void list::append(const T &v) { object o = pybind11::cast(v); PyList_Append(m_ptr, o.ptr()); }
template <typename... Args> tuple make_tuple(const Args &... args) {
    PyObject *t = PyTuple_New(sizeof...(Args));
    size_t i = 0;
    int dummy[] = {0, (PyTuple_SET_ITEM(t, (Py_ssize_t)i++, detail::cast_out(args)), 0)...};
    (void)dummy;
    return tuple(handle(t), stolen_t_());
}

// ---------------------------------------------------------------- arguments
struct arg_v;
struct arg {
    const char *name;
    bool noconv = false;
    explicit arg(const char *n = nullptr) : name(n) {}
    template <typename T> arg_v operator=(T &&v) const;
    arg &noconvert(bool f = true) { noconv = f; return *this; }
};
struct arg_v : arg {
    object value;
    arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
    template <typename T> arg_v(const char *n, T &&v) : arg(n), value(pybind11::cast(v)) {}
};
template <typename T> arg_v arg::operator=(T &&v) const { return arg_v(*this, pybind11::cast(v)); }

namespace literals {
inline arg operator"" _a(const char *name, size_t) { return arg(name); }
}

struct doc { const char *value; explicit doc(const char *v) : value(v) {} };
struct name { const char *value; explicit name(const char *v) : value(v) {} };
struct is_operator {};
struct arithmetic {};
struct module_local { explicit module_local(bool = true) {} };
struct dynamic_attr {};
template <typename... T> struct call_guard {};
template <size_t N, size_t P> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// ---------------------------------------------------------------- functions
namespace detail {

struct arg_rec { std::string name; object def; };

struct func_rec {
    std::string name, doc;
    std::vector<arg_rec> args;
    size_t nargs = 0;
    std::function<PyObject *(const std::vector<PyObject *> &, bool &)> impl; // bool: arguments accepted
    std::unique_ptr<func_rec> next;
    PyMethodDef def;
    bool release_gil = false;
};

inline void process(func_rec &r, const char *d) { r.doc = d; }
inline void process(func_rec &r, const doc &d) { r.doc = d.value; }
inline void process(func_rec &r, const arg &a) { arg_rec x; x.name = a.name ? a.name : ""; r.args.push_back(x); }
inline void process(func_rec &r, const arg_v &a) { arg_rec x; x.name = a.name ? a.name : ""; x.def = a.value; r.args.push_back(x); }
inline void process(func_rec &, const is_operator &) {}
inline void process(func_rec &, const return_value_policy &) {}
template <size_t N, size_t P> void process(func_rec &, const keep_alive<N, P> &) {}
template <typename... G> void process(func_rec &, const call_guard<G...> &) {}
template <typename... E> void process_all(func_rec &r, const E &... extra) {
    int dummy[] = {0, (process(r, extra), 0)...};
    (void)dummy;
}

template <typename... E> struct guards { static const bool release = false; };
template <typename H, typename... E> struct guards<H, E...> { static const bool release = guards<E...>::release; };
template <typename... E> struct guards<call_guard<gil_scoped_release>, E...> { static const bool release = true; };

inline void translate() {
    try { throw; }
    catch (error_already_set &) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "unknown Python error"); }
    catch (value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (key_error &e) { PyErr_SetString(PyExc_KeyError, e.what()); }
    catch (std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

// Bind positional and keyword arguments to slots; false when they do not fit
inline bool bind_args(const func_rec &r, PyObject *args, PyObject *kwargs, PyObject *self, std::vector<PyObject *> &out) {
    std::vector<PyObject *> slots(r.nargs, nullptr);
    size_t pos = 0;
    if (self) { if (r.nargs == 0) return false; slots[pos++] = self; }
    // Named argument records describe the arguments after `self`
    size_t offset = (r.args.size() < r.nargs) ? r.nargs - r.args.size() : 0;
    Py_ssize_t n = PyTuple_GET_SIZE(args);
    for (Py_ssize_t i = 0; i < n; ++i) { if (pos >= r.nargs) return false; slots[pos++] = PyTuple_GET_ITEM(args, i); }
    size_t used = 0;
    for (size_t i = 0; i < r.nargs; ++i) {
        const arg_rec *a = (i >= offset && i - offset < r.args.size()) ? &r.args[i - offset] : nullptr;
        PyObject *kw = (kwargs && a && !a->name.empty()) ? PyDict_GetItemString(kwargs, a->name.c_str()) : nullptr;
        if (kw) { if (slots[i]) return false; slots[i] = kw; ++used; }
        if (!slots[i] && a && a->def.ptr()) slots[i] = a->def.ptr();
        if (!slots[i]) return false;
    }
    if (kwargs && (size_t)PyDict_Size(kwargs) != used) return false;
    out.swap(slots);
    return true;
}

inline PyObject *dispatch(func_rec *rec, PyObject *self, PyObject *args, PyObject *kwargs) {
    for (func_rec *r = rec; r; r = r->next.get()) {
        std::vector<PyObject *> slots;
        if (!bind_args(*r, args, kwargs, self, slots)) continue;
        bool accepted = true;
        PyObject *res = nullptr;
        try { res = r->impl(slots, accepted); }
        catch (...) { translate(); return nullptr; }
        if (accepted) return res;
    }
    PyObject *ra = PyObject_Repr(args);
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments. Invoked with: %.300s", rec->name.c_str(), ra ? PyUnicode_AsUTF8(ra) : "?");
    Py_XDECREF(ra);
    return nullptr;
}

inline PyObject *trampoline(PyObject *self, PyObject *args, PyObject *kwargs) {
    func_rec *r = static_cast<func_rec *>(PyCapsule_GetPointer(self, "pbshim_func"));
    if (!r) return nullptr;
    return dispatch(r, nullptr, args, kwargs);
}

template <size_t... I> struct iseq {};
template <size_t N, size_t... I> struct make_iseq : make_iseq<N - 1, N - 1, I...> {};
template <size_t... I> struct make_iseq<0, I...> { typedef iseq<I...> type; };

template <typename T> struct arg_type { typedef typename intrinsic<T>::type base; };

template <typename P> struct pass { template <typename C> static auto go(C &c) -> decltype(c.get()) { return c.get(); } };
template <typename P> struct pass<P *> { template <typename C> static P *go(C &c) { return &c.get(); } };

template <typename R> struct ret { template <typename F> static PyObject *go(F &&f) { return cast_out(f()); } };
template <> struct ret<void> { template <typename F> static PyObject *go(F &&f) { f(); Py_RETURN_NONE; } };
template <> struct ret<const char *> { template <typename F> static PyObject *go(F &&f) { return PyUnicode_FromString(f()); } };

template <typename R, bool Release> struct runner {
    template <typename F> static PyObject *go(F &&f) { return ret<R>::go(std::forward<F>(f)); }
};
template <typename R> struct runner<R, true> {
    template <typename F> static PyObject *go(F &&f) {
        std::unique_ptr<typename std::decay<R>::type> v;
        { gil_scoped_release rel; v.reset(new typename std::decay<R>::type(f())); }
        return cast_out(*v);
    }
};
template <> struct runner<void, true> {
    template <typename F> static PyObject *go(F &&f) { { gil_scoped_release rel; f(); } Py_RETURN_NONE; }
};

template <bool Release, typename F, typename R, typename... A, size_t... I>
void set_impl(func_rec &r, F f, R (*)(A...), iseq<I...>) {
    r.nargs = sizeof...(A);
    r.impl = [f](const std::vector<PyObject *> &in, bool &ok) mutable -> PyObject * {
        (void)in;
        std::tuple<caster<typename arg_type<A>::base>...> cs;
        bool good[] = {true, std::get<I>(cs).load(in[I])...};
        for (bool b : good) if (!b) { ok = false; return nullptr; }
        return runner<R, Release>::go([&]() -> R { return f(pass<typename std::remove_cv<typename std::remove_reference<A>::type>::type>::go(std::get<I>(cs))...); });
    };
}

template <bool Release, typename R, typename... A> void set_func(func_rec &r, R (*f)(A...)) {
    set_impl<Release>(r, f, static_cast<R (*)(A...)>(nullptr), typename make_iseq<sizeof...(A)>::type());
}
template <bool Release, typename R, typename C, typename... A> void set_func(func_rec &r, R (C::*f)(A...)) {
    auto g = [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    set_impl<Release>(r, g, static_cast<R (*)(C &, A...)>(nullptr), typename make_iseq<sizeof...(A) + 1>::type());
}
template <bool Release, typename R, typename C, typename... A> void set_func(func_rec &r, R (C::*f)(A...) const) {
    auto g = [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    set_impl<Release>(r, g, static_cast<R (*)(const C &, A...)>(nullptr), typename make_iseq<sizeof...(A) + 1>::type());
}
template <bool Release, typename F, typename R, typename C, typename... A> void set_callable(func_rec &r, F f, R (C::*)(A...) const) {
    set_impl<Release>(r, f, static_cast<R (*)(A...)>(nullptr), typename make_iseq<sizeof...(A)>::type());
}
template <bool Release, typename F, typename R, typename C, typename... A> void set_callable(func_rec &r, F f, R (C::*)(A...)) {
    set_impl<Release>(r, f, static_cast<R (*)(A...)>(nullptr), typename make_iseq<sizeof...(A)>::type());
}
template <bool Release, typename F, typename = typename std::enable_if<std::is_class<typename std::decay<F>::type>::value>::type>
void set_func(func_rec &r, F &&f) {
    set_callable<Release>(r, typename std::decay<F>::type(std::forward<F>(f)), &std::decay<F>::type::operator());
}

inline void capsule_free(PyObject *c) { delete static_cast<func_rec *>(PyCapsule_GetPointer(c, "pbshim_func")); }

inline PyObject *make_function(func_rec *r) {
    r->def.ml_name = r->name.c_str();
    r->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(trampoline));
    r->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    r->def.ml_doc = r->doc.c_str();
    PyObject *cap = PyCapsule_New(r, "pbshim_func", capsule_free);
    PyObject *f = PyCFunction_New(&r->def, cap);
    Py_DECREF(cap);
    return f;
}

} // namespace detail

class cpp_function : public object {
public:
    template <typename F, typename... E> explicit cpp_function(F &&f, const E &... extra) {
        auto *r = new detail::func_rec();
        detail::set_func<detail::guards<E...>::release>(*r, std::forward<F>(f));
        detail::process_all(*r, extra...);
        m_ptr = detail::make_function(r);
    }
};

class module_ : public object {
public:
    module_() {}
    module_(handle h, borrowed_t_ b) : object(h, b) {}
    module_(handle h, stolen_t_ s) : object(h, s) {}
    static module_ import(const char *n) { return module_(steal_checked(PyImport_ImportModule(n)).release(), stolen_t_()); }
    template <typename F, typename... E> module_ &def(const char *fname, F &&f, const E &... extra) {
        std::unique_ptr<detail::func_rec> r(new detail::func_rec());
        r->name = fname;
        detail::set_func<detail::guards<E...>::release>(*r, std::forward<F>(f));
        detail::process_all(*r, extra...);
        auto key = std::make_pair(m_ptr, std::string(fname));
        auto &known = defs();
        auto it = known.find(key);
        if (it != known.end()) {
            detail::func_rec *tail = it->second;
            while (tail->next) tail = tail->next.get();
            tail->next = std::move(r);
            return *this;
        }
        known[key] = r.get();
        PyObject *fn = detail::make_function(r.release());
        PyModule_AddObject(m_ptr, fname, fn);
        return *this;
    }
    template <typename T> void add_value(const char *n, const T &v) { PyModule_AddObject(m_ptr, n, detail::cast_out(v)); }
    struct attr_proxy { module_ &m; std::string n; template <typename T> void operator=(const T &v) { m.add_value(n.c_str(), v); } };
    attr_proxy attr(const char *n) { return attr_proxy{*this, n}; }
    module_ &doc() { return *this; }
    void operator=(const char *d) { PyModule_SetDocString(m_ptr, d); }
private:
    static std::map<std::pair<PyObject *, std::string>, detail::func_rec *> &defs() {
        static std::map<std::pair<PyObject *, std::string>, detail::func_rec *> d;
        return d;
    }
};
typedef module_ module;

// ---------------------------------------------------------------- classes
template <typename... A> struct init_t {};
template <typename... A> init_t<A...> init() { return init_t<A...>(); }
template <typename F> struct init_factory { F f; };
template <typename F> init_factory<typename std::decay<F>::type> init(F &&f) { return init_factory<typename std::decay<F>::type>{std::forward<F>(f)}; }

template <typename T, typename... Opt> class class_ : public object {
public:
    template <typename... E> class_(handle scope, const char *n, const E &...) {
        static std::string tname;
        const char *mn = PyModule_GetName(scope.ptr());
        tname = std::string(mn ? mn : "native") + "." + n;
        static PyType_Slot slots[] = {
            {Py_tp_new, reinterpret_cast<void *>(&tp_new)},
            {Py_tp_init, reinterpret_cast<void *>(&tp_init)},
            {Py_tp_dealloc, reinterpret_cast<void *>(&tp_dealloc)},
            {0, nullptr}};
        static PyType_Spec spec = {nullptr, sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        spec.name = tname.c_str();
        m_ptr = PyType_FromSpec(&spec);
        if (!m_ptr) throw error_already_set();
        detail::registry()[std::type_index(typeid(T))] = reinterpret_cast<PyTypeObject *>(m_ptr);
        Py_INCREF(m_ptr);
        Py_INCREF(m_ptr);
        PyModule_AddObject(scope.ptr(), n, m_ptr);
    }
    template <typename... A, typename... E> class_ &def(init_t<A...>, const E &... extra) {
        return add_init([](A... a) -> T * { return new T(std::forward<A>(a)...); }, static_cast<T *(*)(A...)>(nullptr), extra...);
    }
    template <typename F, typename... E> class_ &def(init_factory<F> fac, const E &... extra) {
        return add_factory(fac.f, &F::operator(), extra...);
    }
    template <typename F, typename... E> class_ &def(const char *n, F &&f, const E &... extra) {
        auto *r = new detail::func_rec();
        r->name = n;
        detail::set_func<detail::guards<E...>::release>(*r, std::forward<F>(f));
        detail::process_all(*r, extra...);
        PyObject *fn = detail::make_function(r);
        PyObject *im = PyInstanceMethod_New(fn);
        Py_DECREF(fn);
        PyObject_SetAttrString(m_ptr, n, im);
        Py_DECREF(im);
        return *this;
    }
    template <typename F, typename... E> class_ &def_static(const char *n, F &&f, const E &... extra) {
        auto *r = new detail::func_rec();
        r->name = n;
        detail::set_func<false>(*r, std::forward<F>(f));
        detail::process_all(*r, extra...);
        PyObject *fn = detail::make_function(r);
        PyObject *st = PyStaticMethod_New(fn);
        Py_DECREF(fn);
        PyObject_SetAttrString(m_ptr, n, st);
        Py_DECREF(st);
        return *this;
    }
    template <typename D, typename C, typename... E> class_ &def_readonly(const char *n, const D C::*pm, const E &...) {
        return property(n, cpp_function([pm](const T &t) -> D { return t.*pm; }), none());
    }
    template <typename D, typename C, typename... E> class_ &def_readwrite(const char *n, D C::*pm, const E &...) {
        return property(n, cpp_function([pm](const T &t) -> D { return t.*pm; }),
                        cpp_function([pm](T &t, const D &d) { t.*pm = d; }));
    }
    template <typename G, typename... E> class_ &def_property_readonly(const char *n, G &&g, const E &...) {
        return property(n, cpp_function(std::forward<G>(g)), none());
    }
    template <typename G, typename S, typename... E> class_ &def_property(const char *n, G &&g, S &&s, const E &...) {
        return property(n, cpp_function(std::forward<G>(g)), cpp_function(std::forward<S>(s)));
    }
private:
    class_ &property(const char *n, const object &get, const object &set) {
        PyObject *p = PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get.ptr(), set.ptr(), nullptr);
        if (!p) throw error_already_set();
        PyObject_SetAttrString(m_ptr, n, p);
        Py_DECREF(p);
        return *this;
    }
    static std::vector<std::unique_ptr<detail::func_rec>> &inits() {
        static auto &v = *new std::vector<std::unique_ptr<detail::func_rec>>(); // never destroyed: holds Python objects
        return v;
    }
    template <typename F, typename... A, typename... E> class_ &add_init(F f, T *(*)(A...), const E &... extra) {
        auto *r = new detail::func_rec();
        r->name = "__init__";
        auto g = [f](handle self, A... a) { reinterpret_cast<detail::instance *>(self.ptr())->value = f(std::forward<A>(a)...); };
        detail::set_impl<false>(*r, g, static_cast<void (*)(handle, A...)>(nullptr), typename detail::make_iseq<sizeof...(A) + 1>::type());
        detail::process_all(*r, extra...);
        inits().emplace_back(r);
        return *this;
    }
    template <typename F, typename R, typename C, typename... A, typename... E> class_ &add_factory(F f, R (C::*)(A...) const, const E &... extra) {
        return add_init([f](A... a) -> T * { return new T(f(std::forward<A>(a)...)); }, static_cast<T *(*)(A...)>(nullptr), extra...);
    }
    static PyObject *tp_new(PyTypeObject *t, PyObject *, PyObject *) {
        PyObject *o = t->tp_alloc(t, 0);
        if (o) reinterpret_cast<detail::instance *>(o)->value = nullptr;
        return o;
    }
    static int tp_init(PyObject *self, PyObject *args, PyObject *kwargs) {
        for (auto &r : inits()) {
            std::vector<PyObject *> slots;
            if (!detail::bind_args(*r, args, kwargs, self, slots)) continue;
            bool accepted = true;
            PyObject *res = nullptr;
            try { res = r->impl(slots, accepted); }
            catch (...) { detail::translate(); return -1; }
            if (!accepted) continue;
            Py_XDECREF(res);
            return 0;
        }
        PyErr_Format(PyExc_TypeError, "%s: incompatible constructor arguments", Py_TYPE(self)->tp_name);
        return -1;
    }
    static void tp_dealloc(PyObject *self) {
        delete static_cast<T *>(reinterpret_cast<detail::instance *>(self)->value);
        PyTypeObject *t = Py_TYPE(self);
        t->tp_free(self);
        Py_DECREF(t);
    }
};

// Enumerations behave like those of pybind11: strict equality, hashable, convertible to int
template <typename E> class enum_ : public object {
public:
    template <typename... X> enum_(handle scope, const char *n, const X &...) : scope_(scope), name_(n) {
        static const char *src =
            "class E:\n"
            "    __members__ = {}\n"
            "    def __init__(self, value): self.value = int(value)\n"
            "    @property\n"
            "    def name(self):\n"
            "        for k, v in type(self).__members__.items():\n"
            "            if v.value == self.value: return k\n"
            "        return ''\n"
            "    def __int__(self): return self.value\n"
            "    def __index__(self): return self.value\n"
            "    def __eq__(self, other): return type(other) is type(self) and other.value == self.value\n"
            "    def __ne__(self, other): return not self == other\n"
            "    def __hash__(self): return hash(self.value)\n"
            "    def __getstate__(self): return self.value\n"
            "    def __setstate__(self, value): self.value = value\n"
            "    def __reduce__(self): return (type(self), (self.value,))\n"
            "    def __str__(self): return '%s.%s' % (type(self).__name__, self.name)\n"
            "    def __repr__(self): return '<%s.%s: %d>' % (type(self).__name__, self.name, self.value)\n";
        object g = steal_checked(PyDict_New());
        PyDict_SetItemString(g.ptr(), "__builtins__", PyEval_GetBuiltins());
        object name_mod = steal_checked(PyUnicode_FromString(PyModule_GetName(scope.ptr())));
        PyDict_SetItemString(g.ptr(), "__name__", name_mod.ptr());
        object r = steal_checked(PyRun_String(src, Py_file_input, g.ptr(), g.ptr()));
        m_ptr = PyDict_GetItemString(g.ptr(), "E");
        Py_INCREF(m_ptr);
        object nm = steal_checked(PyUnicode_FromString(n));
        PyObject_SetAttrString(m_ptr, "__name__", nm.ptr());
        PyObject_SetAttrString(m_ptr, "__qualname__", nm.ptr());
        members_ = PyObject_GetAttrString(m_ptr, "__members__");
        Py_INCREF(m_ptr);
        detail::enum_registry()[std::type_index(typeid(E))] = m_ptr;
        Py_INCREF(m_ptr);
        PyModule_AddObject(scope.ptr(), n, m_ptr);
    }
    enum_ &value(const char *n, E e, const char * = nullptr) {
        object v = steal_checked(PyObject_CallFunction(m_ptr, "L", (long long)e));
        PyObject_SetAttrString(m_ptr, n, v.ptr());
        PyDict_SetItemString(members_, n, v.ptr());
        return *this;
    }
    enum_ &export_values() {
        PyObject *k, *v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(members_, &pos, &k, &v)) PyObject_SetAttr(scope_.ptr(), k, v);
        return *this;
    }
private:
    handle scope_;
    std::string name_;
    PyObject *members_ = nullptr;
};

inline object print_impl() { return none(); }

} // namespace pybind11

#define PYBIND11_MODULE(mname, variable)                                              \
    static void pbshim_init_##mname(pybind11::module_ &);                             \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##mname() {    \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #mname, nullptr, -1,         \
                                  nullptr, nullptr, nullptr, nullptr, nullptr};       \
        PyObject *m = PyModule_Create(&def);                                          \
        if (!m) return nullptr;                                                       \
        pybind11::module_ mod{pybind11::handle(m), pybind11::borrowed_t_{}};          \
        try { pbshim_init_##mname(mod); }                                             \
        catch (...) { pybind11::detail::translate(); Py_DECREF(m); return nullptr; }  \
        return m;                                                                     \
    }                                                                                 \
    static void pbshim_init_##mname(pybind11::module_ &variable)
