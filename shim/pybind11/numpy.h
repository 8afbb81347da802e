#pragma once
#include "pybind11.h"

namespace pybind11 {

struct buffer_info {
    void *ptr = nullptr;
    ssize_t_ itemsize = 0, size = 0, ndim = 0;
    std::vector<ssize_t_> shape, strides;
};

namespace detail {
template <typename T> struct np_name;
template <> struct np_name<double> { static const char *get() { return "float64"; } };
template <> struct np_name<float> { static const char *get() { return "float32"; } };
template <> struct np_name<int> { static const char *get() { return "int32"; } };
template <> struct np_name<long> { static const char *get() { return "int64"; } };
template <> struct np_name<bool> { static const char *get() { return "bool"; } };

inline object np() { return steal_checked(PyImport_ImportModule("numpy")); }
}

class array : public object {
public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    array() {}
    array(handle h, borrowed_t_ b) : object(h, b) {}
    array(handle h, stolen_t_ s) : object(h, s) {}
    ssize_t_ size() const { return as_ssize("size"); }
    ssize_t_ ndim() const { return as_ssize("ndim"); }
    ssize_t_ shape(ssize_t_ i) const {
        object s = steal_checked(PyObject_GetAttrString(m_ptr, "shape"));
        return PyLong_AsSsize_t(PyTuple_GetItem(s.ptr(), i));
    }
protected:
    ssize_t_ as_ssize(const char *a) const {
        object s = steal_checked(PyObject_GetAttrString(m_ptr, a));
        return PyLong_AsSsize_t(s.ptr());
    }
};

template <typename T, int Flags = array::forcecast> class array_t : public array {
public:
    typedef T value_type;
    array_t() : array_t(0) {}
    array_t(handle h, borrowed_t_) { adopt(h.ptr()); }
    array_t(handle h, stolen_t_) { object o(h, stolen_t_()); adopt(o.ptr()); }
    explicit array_t(ssize_t_ n, const T *src = nullptr) {
        object np = detail::np();
        object a = steal_checked(PyObject_CallMethod(np.ptr(), "empty", "ns", (Py_ssize_t)n, detail::np_name<T>::get()));
        m_ptr = a.release().ptr();
        fill();
        if (src) std::memcpy(data_, src, sizeof(T) * (size_t)n);
    }
    array_t(const std::vector<ssize_t_> &shape) {
        object np = detail::np();
        object t = steal_checked(PyTuple_New((Py_ssize_t)shape.size()));
        for (size_t i = 0; i < shape.size(); ++i) PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, PyLong_FromSsize_t(shape[i]));
        object a = steal_checked(PyObject_CallMethod(np.ptr(), "empty", "Os", t.ptr(), detail::np_name<T>::get()));
        m_ptr = a.release().ptr();
        fill();
    }
    const T *data() const { return data_; }
    const T *data(ssize_t_ i) const { return data_ + i; }
    T *mutable_data() { return data_; }
    T *mutable_data(ssize_t_ i) { return data_ + i; }
    const T &at(ssize_t_ i) const { if (i < 0 || i >= n_) throw index_error("index out of bounds"); return data_[i]; }
    T &mutable_at(ssize_t_ i) { if (i < 0 || i >= n_) throw index_error("index out of bounds"); return data_[i]; }
    ssize_t_ size() const { return n_; }
    struct proxy { T *d; ssize_t_ n; T &operator()(ssize_t_ i) const { return d[i]; } T &operator[](ssize_t_ i) const { return d[i]; } ssize_t_ shape(ssize_t_) const { return n; } ssize_t_ size() const { return n; } };
    template <int D = -1> proxy unchecked() const { return proxy{data_, n_}; }
    template <int D = -1> proxy mutable_unchecked() { return proxy{data_, n_}; }
    buffer_info request() const {
        buffer_info b;
        b.ptr = data_; b.itemsize = sizeof(T); b.size = n_; b.ndim = ndim();
        for (ssize_t_ i = 0; i < b.ndim; ++i) b.shape.push_back(shape(i));
        ssize_t_ st = sizeof(T);
        b.strides.resize((size_t)b.ndim);
        for (ssize_t_ i = b.ndim - 1; i >= 0; --i) { b.strides[(size_t)i] = st; st *= b.shape[(size_t)i]; }
        return b;
    }
private:
    T *data_ = nullptr;
    ssize_t_ n_ = 0;
    void adopt(PyObject *o) {
        object np = detail::np();
        // Keeps 0-d inputs 0-d (numpy.ascontiguousarray would not)
        object f = steal_checked(PyObject_GetAttrString(np.ptr(), "require"));
        object req = steal_checked(Py_BuildValue("[s,s]", "C", "A"));
        object a = steal_checked(PyObject_CallMethod(np.ptr(), "asarray", "Os", o, detail::np_name<T>::get()));
        object nd = steal_checked(PyObject_GetAttrString(a.ptr(), "ndim"));
        if (PyLong_AsLong(nd.ptr()) > 0)
            a = steal_checked(PyObject_CallFunction(f.ptr(), "OsO", a.ptr(), detail::np_name<T>::get(), req.ptr()));
        m_ptr = a.release().ptr();
        fill();
    }
    void fill() {
        n_ = as_ssize("size");
        object iface = steal_checked(PyObject_GetAttrString(m_ptr, "ctypes"));
        object p = steal_checked(PyObject_GetAttrString(iface.ptr(), "data"));
        data_ = reinterpret_cast<T *>(PyLong_AsVoidPtr(p.ptr()));
    }
};

namespace detail {

template <typename F, typename R, typename... A> struct vectorized {
    F f;
    template <size_t... I> object run(iseq<I...>, const std::vector<object> &in) {
        object np_ = np();
        // Broadcast the inputs against each other
        object t = steal_checked(PyTuple_New((Py_ssize_t)in.size()));
        for (size_t i = 0; i < in.size(); ++i) { Py_INCREF(in[i].ptr()); PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, in[i].ptr()); }
        object ba = steal_checked(PyObject_GetAttrString(np_.ptr(), "broadcast_arrays"));
        object bc = steal_checked(PyObject_CallObject(ba.ptr(), t.ptr()));
        object seq = steal_checked(PySequence_Tuple(bc.ptr()));
        object first(handle(PyTuple_GetItem(seq.ptr(), 0)), borrowed_t_());
        object shape = steal_checked(PyObject_GetAttrString(first.ptr(), "shape"));
        std::tuple<array_t<A>...> arrs{array_t<A>(handle(PyTuple_GetItem(seq.ptr(), (Py_ssize_t)I)), borrowed_t_())...};
        ssize_t_ n = std::get<0>(arrs).size();
        if (PyTuple_GET_SIZE(shape.ptr()) == 0) {
            R r = f(std::get<I>(arrs).data()[0]...);
            return object(handle(caster<R>::cast(r)), stolen_t_());
        }
        object out = steal_checked(PyObject_CallMethod(np_.ptr(), "empty", "Os", shape.ptr(), np_name<R>::get()));
        array_t<R> o(out, borrowed_t_());
        R *d = o.mutable_data();
        for (ssize_t_ k = 0; k < n; ++k) d[k] = f(std::get<I>(arrs).data()[k]...);
        return object(o);
    }
    template <typename... X> object operator()(const X &... x) {
        std::vector<object> in{pybind11::cast(x)...};
        return run(typename make_iseq<sizeof...(A)>::type(), in);
    }
};
template <typename F, typename R, typename C, typename... A> vectorized<F, R, typename std::decay<A>::type...> make_vec(F f, R (C::*)(A...) const) { return vectorized<F, R, typename std::decay<A>::type...>{f}; }
template <typename F, typename R, typename C, typename... A> vectorized<F, R, typename std::decay<A>::type...> make_vec(F f, R (C::*)(A...)) { return vectorized<F, R, typename std::decay<A>::type...>{f}; }

// a vectorized object can itself be bound with def(): every argument becomes an object
template <size_t> struct as_object { typedef object type; };
template <bool Release, typename F, typename R, typename... A, size_t... I>
void set_vec(func_rec &r, vectorized<F, R, A...> v, iseq<I...>) {
    auto g = [v](typename as_object<I>::type... o) mutable -> object { std::vector<object> in{o...}; return v.run(typename make_iseq<sizeof...(A)>::type(), in); };
    set_impl<Release>(r, g, static_cast<object (*)(typename as_object<I>::type...)>(nullptr), typename make_iseq<sizeof...(A)>::type());
}
template <bool Release, typename F, typename R, typename... A>
void set_func(func_rec &r, vectorized<F, R, A...> &&v) { set_vec<Release>(r, v, typename make_iseq<sizeof...(A)>::type()); }
template <bool Release, typename F, typename R, typename... A>
void set_func(func_rec &r, vectorized<F, R, A...> &v) { set_vec<Release>(r, v, typename make_iseq<sizeof...(A)>::type()); }

} // namespace detail

template <typename R, typename... A> detail::vectorized<std::function<R(A...)>, R, typename std::decay<A>::type...> vectorize(R (*f)(A...)) {
    return detail::vectorized<std::function<R(A...)>, R, typename std::decay<A>::type...>{std::function<R(A...)>(f)};
}
template <typename F, typename = typename std::enable_if<std::is_class<F>::value>::type>
auto vectorize(F f) -> decltype(detail::make_vec(f, &F::operator())) { return detail::make_vec(f, &F::operator()); }

} // namespace pybind11
