#pragma once
#include "pybind11.h"

namespace pybind11 {
namespace detail {

inline bool is_seq(PyObject *o) { return o && PySequence_Check(o) && !PyUnicode_Check(o) && !PyBytes_Check(o); }

// A C-contiguous 1-D buffer of doubles can be copied in one go
template <typename It> bool load_double_buffer(PyObject *, It, std::false_type) { return false; }

template <typename T> struct caster<std::vector<T>> : value_holder<std::vector<T>> {
    bool load(PyObject *o) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        this->v.clear();
        this->v.reserve((size_t)n);
        for (Py_ssize_t i = 0; i < n; ++i) {
            PyObject *it = PySequence_GetItem(o, i);
            if (!it) { PyErr_Clear(); return false; }
            caster<T> c;
            bool ok = c.load(it);
            if (ok) this->v.push_back(c.get());
            Py_DECREF(it);
            if (!ok) return false;
        }
        return true;
    }
    static PyObject *cast(const std::vector<T> &v) {
        PyObject *l = PyList_New((Py_ssize_t)v.size());
        for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, (Py_ssize_t)i, caster<T>::cast(v[i]));
        return l;
    }
};

template <typename T, size_t N> struct caster<std::array<T, N>> : value_holder<std::array<T, N>> {
    bool load(PyObject *o) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        if ((size_t)n != N) return false;
        for (Py_ssize_t i = 0; i < n; ++i) {
            PyObject *it = PySequence_GetItem(o, i);
            if (!it) { PyErr_Clear(); return false; }
            caster<T> c;
            bool ok = c.load(it);
            if (ok) this->v[(size_t)i] = c.get();
            Py_DECREF(it);
            if (!ok) return false;
        }
        return true;
    }
    static PyObject *cast(const std::array<T, N> &v) {
        PyObject *l = PyList_New((Py_ssize_t)N);
        for (size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, (Py_ssize_t)i, caster<T>::cast(v[i]));
        return l;
    }
};

template <typename A, typename B> struct caster<std::pair<A, B>> : value_holder<std::pair<A, B>> {
    bool load(PyObject *o) {
        if (!is_seq(o) || PySequence_Size(o) != 2) return false;
        object a(handle(PySequence_GetItem(o, 0)), stolen_t_()), b(handle(PySequence_GetItem(o, 1)), stolen_t_());
        caster<A> ca; caster<B> cb;
        if (!ca.load(a.ptr()) || !cb.load(b.ptr())) return false;
        this->v = std::pair<A, B>(ca.get(), cb.get());
        return true;
    }
    static PyObject *cast(const std::pair<A, B> &v) {
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first));
        PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second));
        return t;
    }
};

template <typename... T> struct caster<std::tuple<T...>> : value_holder<std::tuple<T...>> {
    template <size_t... I> static PyObject *go(const std::tuple<T...> &v, iseq<I...>) {
        PyObject *t = PyTuple_New(sizeof...(T));
        int dummy[] = {0, (PyTuple_SET_ITEM(t, (Py_ssize_t)I, caster<T>::cast(std::get<I>(v))), 0)...};
        (void)dummy;
        return t;
    }
    template <size_t... I> bool ld(PyObject *o, iseq<I...>) {
        std::tuple<caster<T>...> cs;
        bool ok = true;
        int dummy[] = {0, (ok = ok && std::get<I>(cs).load(object(handle(PySequence_GetItem(o, (Py_ssize_t)I)), stolen_t_()).ptr()), 0)...};
        (void)dummy;
        if (ok) this->v = std::tuple<T...>(std::get<I>(cs).get()...);
        return ok;
    }
    bool load(PyObject *o) { return is_seq(o) && PySequence_Size(o) == (Py_ssize_t)sizeof...(T) && ld(o, typename make_iseq<sizeof...(T)>::type()); }
    static PyObject *cast(const std::tuple<T...> &v) { return go(v, typename make_iseq<sizeof...(T)>::type()); }
};

template <typename K, typename V> struct caster<std::map<K, V>> : value_holder<std::map<K, V>> {
    bool load(PyObject *o) {
        if (!o || !PyDict_Check(o)) return false;
        PyObject *k, *val; Py_ssize_t pos = 0;
        this->v.clear();
        while (PyDict_Next(o, &pos, &k, &val)) {
            caster<K> ck; caster<V> cv;
            if (!ck.load(k) || !cv.load(val)) return false;
            this->v.emplace(ck.get(), cv.get());
        }
        return true;
    }
    static PyObject *cast(const std::map<K, V> &m) {
        PyObject *d = PyDict_New();
        for (auto &kv : m) { object a(handle(caster<K>::cast(kv.first)), stolen_t_()), b(handle(caster<V>::cast(kv.second)), stolen_t_()); PyDict_SetItem(d, a.ptr(), b.ptr()); }
        return d;
    }
};

} // namespace detail
} // namespace pybind11
