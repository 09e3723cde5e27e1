// A small stand-in for pybind11 (which is absent here): only what /repo/cppmodule uses, with the
// same rules for overloads, conversions, return value policies, lifetimes and exceptions.
// See runtime.cpp for everything that is not a template.
#pragma once
#include <Python.h>

#include <Eigen/Core>
#include <Eigen/SparseCore>

#include <array>
#include <complex>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

class object;
class accessor;
class tuple;
struct arg_v;

struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void pybind11_fail(std::string const& s) { throw std::runtime_error(s); }

class gil_scoped_acquire {
    PyGILState_STATE s;
public:
    gil_scoped_acquire() : s(PyGILState_Ensure()) {}
    ~gil_scoped_acquire() { PyGILState_Release(s); }
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
};

class gil_scoped_release {
    PyThreadState* s;
public:
    gil_scoped_release() : s(PyEval_SaveThread()) {}
    ~gil_scoped_release() { PyEval_RestoreThread(s); }
    gil_scoped_release(gil_scoped_release const&) = delete;
};

/// A Python exception on its way through C++
class error_already_set : public std::runtime_error {
    std::shared_ptr<PyObject> error;
public:
    error_already_set();
    void restore() const;
};

class handle {
protected:
    PyObject* m_ptr = nullptr;
public:
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    PyObject* ptr() const { return m_ptr; }
    PyObject*& ptr() { return m_ptr; }
    handle const& inc_ref() const { Py_XINCREF(m_ptr); return *this; }
    handle const& dec_ref() const { Py_XDECREF(m_ptr); return *this; }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool is_none() const { return m_ptr == Py_None; }
    bool is(handle o) const { return m_ptr == o.m_ptr; }

    template<class T> T cast() const;
    accessor attr(char const* name) const;
    accessor operator[](char const* key) const;
    accessor operator[](handle key) const;
    template<class I, class = std::enable_if_t<std::is_integral<I>::value>> accessor operator[](I i) const;
    template<class... Args> object operator()(Args&&... args) const;
    template<class T> bool contains(T const& key) const;
};

class object : public handle {
public:
    struct stolen {};
    struct borrowed {};
    object() = default;
    object(handle h, stolen) : handle(h) {}
    object(handle h, borrowed) : handle(h) { inc_ref(); }
    object(object const& o) : handle(o) { inc_ref(); }
    object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
    ~object() { dec_ref(); }
    object& operator=(object o) { std::swap(m_ptr, o.m_ptr); return *this; }
    handle release() { auto p = m_ptr; m_ptr = nullptr; return p; }
    static bool check_(handle h) { return h.ptr() != nullptr; }
};

template<class T> T reinterpret_borrow(handle h) { return T(h, object::borrowed{}); }
template<class T> T reinterpret_steal(handle h) { return T(h, object::stolen{}); }
inline object steal(PyObject* p) { if (!p) { throw error_already_set(); } return object(p, object::stolen{}); }
inline object borrow(PyObject* p) { return object(p, object::borrowed{}); }

/// An item or attribute which is read when needed, or assigned to
class accessor {
    object obj, key;
    bool is_attr;
    mutable object cache;
public:
    accessor(object o, object k, bool a) : obj(std::move(o)), key(std::move(k)), is_attr(a) {}
    object const& get() const {
        if (!cache) { cache = steal(is_attr ? PyObject_GetAttr(obj.ptr(), key.ptr()) : PyObject_GetItem(obj.ptr(), key.ptr())); }
        return cache;
    }
    operator object() const { return get(); }
    template<class T> T cast() const { return get().cast<T>(); }
    accessor attr(char const* name) const { return get().attr(name); }
    template<class K> accessor operator[](K const& k) const { return get()[k]; }
    template<class... Args> object operator()(Args&&... args) const;
    template<class T> void operator=(T&& value) const;
};

inline accessor handle::attr(char const* name) const { return {borrow(m_ptr), steal(PyUnicode_FromString(name)), true}; }
inline accessor handle::operator[](char const* k) const { return {borrow(m_ptr), steal(PyUnicode_FromString(k)), false}; }
inline accessor handle::operator[](handle k) const { return {borrow(m_ptr), borrow(k.ptr()), false}; }
template<class I, class> accessor handle::operator[](I i) const { return {borrow(m_ptr), steal(PyLong_FromLongLong((long long)i)), false}; }

class none : public object {
public:
    none() : object(Py_None, borrowed{}) {}
    using object::object;
    static bool check_(handle h) { return h.ptr() == Py_None; }
};

class tuple : public object {
public:
    tuple(handle h, stolen s) : object(h, s) {}
    tuple(handle h, borrowed b) : object(h, b) {}
    explicit tuple(std::size_t n = 0) : object(steal(PyTuple_New((Py_ssize_t)n))) {}
    tuple(object const& o) : object(steal(PyTuple_Check(o.ptr()) ? (Py_INCREF(o.ptr()), o.ptr()) : PySequence_Tuple(o.ptr()))) {}
    std::size_t size() const { return (std::size_t)PyTuple_Size(m_ptr); }
    static bool check_(handle h) { return h.ptr() && PyTuple_Check(h.ptr()); }
};

class dict : public object {
public:
    dict(handle h, stolen s) : object(h, s) {}
    dict(handle h, borrowed b) : object(h, b) {}
    dict() : object(steal(PyDict_New())) {}
    template<class... Args, class = std::enable_if_t<(sizeof...(Args) > 0) && (std::is_same<std::decay_t<Args>, arg_v>::value && ...)>>
    explicit dict(Args&&... args);
    static bool check_(handle h) { return h.ptr() && PyDict_Check(h.ptr()); }
};

class list : public object {
public:
    list(handle h, stolen s) : object(h, s) {}
    list(handle h, borrowed b) : object(h, b) {}
    list() : object(steal(PyList_New(0))) {}
    static bool check_(handle h) { return h.ptr() && PyList_Check(h.ptr()); }
};

inline std::size_t len(handle h) {
    auto const n = PyObject_Length(h.ptr());
    if (n < 0) { throw error_already_set(); }
    return (std::size_t)n;
}

template<class T> bool isinstance(handle h) { return T::check_(h); }

// ---------------------------------------------------------------------------------------------
// numpy

namespace detail {

/// numpy type number for a scalar type
int typenum(std::type_info const& t);
object make_array(int type, int ndim, Py_intptr_t const* shape, Py_intptr_t const* strides, void* data, int flags);
object copy_of_array(int type, int ndim, Py_intptr_t const* shape, Py_intptr_t const* strides, void const* data);
object any_array(handle src, int type); ///< type < 0 for any; null if it's impossible
bool is_array(handle h, int type);      ///< type < 0 for any
int array_ndim(handle a);
Py_intptr_t const* array_shape(handle a);
Py_intptr_t const* array_strides(handle a);
void* array_data(handle a);
bool copy_into(handle dst, handle src);
object squeezed(handle a);
void set_base(handle array, handle base, bool writeable);
PyObject* new_from_descr(PyTypeObject* type, PyObject* descr, int ndim, Py_intptr_t* shape, Py_intptr_t* strides, void* data, int flags, PyObject* obj);
PyObject* descr_of(int type);
PyTypeObject* array_type();
void keep_alive_impl(handle nurse, handle patient);

struct npy_api {
    enum constants { NPY_ARRAY_C_CONTIGUOUS_ = 0x0001, NPY_ARRAY_F_CONTIGUOUS_ = 0x0002, NPY_ARRAY_OWNDATA_ = 0x0004, NPY_ARRAY_FORCECAST_ = 0x0010,
                     NPY_ARRAY_ENSUREARRAY_ = 0x0040, NPY_ARRAY_ALIGNED_ = 0x0100, NPY_ARRAY_WRITEABLE_ = 0x0400 };
    static npy_api const& get() { static npy_api api; return api; }
    PyTypeObject* PyArray_Type_ = array_type();
    PyObject* (*PyArray_NewFromDescr_)(PyTypeObject*, PyObject*, int, Py_intptr_t*, Py_intptr_t*, void*, int, PyObject*) = new_from_descr;
};

} // namespace detail

class dtype : public object {
public:
    using object::object;
    template<class T> static dtype of() { return dtype(detail::descr_of(detail::typenum(typeid(T))), stolen{}); }
};

class array : public object {
public:
    using object::object;
    array() = default;
    array(object const& o) : object(o) {}
    int ndim() const { return detail::array_ndim(*this); }
    Py_intptr_t const* shape() const { return detail::array_shape(*this); }
    Py_intptr_t shape(int i) const { return detail::array_shape(*this)[i]; }
    Py_intptr_t const* strides() const { return detail::array_strides(*this); }
    std::size_t size() const {
        auto n = std::size_t{1};
        for (auto i = 0; i < ndim(); ++i) { n *= (std::size_t)shape()[i]; }
        return n;
    }
    static array ensure(handle h) { return array(detail::any_array(h, -1)); }
    static bool check_(handle h) { return detail::is_array(h, -1); }
};

template<class T>
class array_t : public array {
public:
    using array::array;
    array_t(std::size_t size, T const* data) {
        Py_intptr_t const shape[] = {(Py_intptr_t)size}, strides[] = {(Py_intptr_t)sizeof(T)};
        static_cast<object&>(*this) = detail::copy_of_array(detail::typenum(typeid(T)), 1, shape, strides, data);
    }
    T const* data() const { return static_cast<T const*>(detail::array_data(*this)); }
    static array_t ensure(handle h) { return array_t(detail::any_array(h, detail::typenum(typeid(T)))); }
    static bool check_(handle h) { return detail::is_array(h, detail::typenum(typeid(T))); }
};

// ---------------------------------------------------------------------------------------------
// wrapped classes

namespace detail {

struct type_record {
    PyTypeObject* type = nullptr;
    std::type_info const* cpp = nullptr;
    type_record const* base = nullptr;
    void* (*to_base)(void*) = nullptr;
};

struct instance {
    PyObject_HEAD
    void* value;                    ///< null until __init__
    std::shared_ptr<void>* holder;  ///< null for a reference
    type_record const* record;      ///< type of value
    PyObject* weakrefs;
    bool has_patients;
};

type_record const* find_type(std::type_info const& t);
type_record const* find_type(PyTypeObject* t); ///< first registered type in the MRO
type_record* new_type(handle scope, char const* name, std::type_info const& t, std::type_info const* base, void* (*to_base)(void*));
/// Python object for a C++ object
object wrap(void* value, std::shared_ptr<void> holder, type_record const* record);
/// Existing Python object for the C++ object or null
object existing(void* value, std::type_info const& t);
/// Pointer to an object of type t or null
void* unwrap(handle src, std::type_info const& t);
std::shared_ptr<void> holder_of(handle src);
/// Called by __init__
void set_value(handle self, void* value, std::shared_ptr<void> holder, std::type_info const& t);
std::string class_name(std::type_info const& t);

template<class T> using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;

template<class T, class = void> struct type_caster;
template<class T> using make_caster = type_caster<intrinsic_t<T>>;

constexpr char const* _(char const* s) { return s; }

template<class T, class = void> struct copier { static void* copy(T const&) { return nullptr; } };
template<class T> struct copier<T, std::enable_if_t<std::is_copy_constructible<T>::value>> { static void* copy(T const& x) { return new T(x); } };

/// Registered classes
template<class T, class>
struct type_caster {
    void* value = nullptr;
    bool none = false;

    bool load(handle src, bool convert) {
        if (src.is_none()) { none = true; return convert; }
        value = unwrap(src, typeid(T));
        return value != nullptr;
    }
    operator T*() { return static_cast<T*>(value); }
    operator T&() {
        if (!value) { throw cast_error("None is not an object of type " + class_name(typeid(T))); }
        return *static_cast<T*>(value);
    }

    static handle cast(T const* src, return_value_policy policy, handle parent) {
        if (!src) { return none_(); }
        auto const p = const_cast<void*>(static_cast<void const*>(src));
        if (auto o = existing(p, typeid(T))) { return o.release(); }
        auto const record = find_type(typeid(T));
        if (!record) { throw cast_error("Unregistered type: " + class_name(typeid(T))); }
        switch (policy) {
            case return_value_policy::automatic:
            case return_value_policy::take_ownership:
                return wrap(p, std::shared_ptr<T>(const_cast<T*>(src)), record).release();
            case return_value_policy::automatic_reference:
            case return_value_policy::reference:
                return wrap(p, nullptr, record).release();
            case return_value_policy::reference_internal: {
                auto o = wrap(p, nullptr, record);
                if (parent) { keep_alive_impl(o, parent); }
                return o.release();
            }
            default: {
                auto const q = copier<T>::copy(*src);
                if (!q) { throw cast_error(class_name(typeid(T)) + " can't be copied"); }
                return wrap(q, std::shared_ptr<T>(static_cast<T*>(q)), record).release();
            }
        }
    }
    static handle cast(T const& src, return_value_policy policy, handle parent) {
        if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference || policy == return_value_policy::move) {
            policy = return_value_policy::copy;
        }
        return cast(&src, policy, parent);
    }
    template<class U, class = std::enable_if_t<std::is_same<U, T>::value>>
    static handle cast(U&& src, return_value_policy, handle) {
        auto const record = find_type(typeid(T));
        if (!record) { throw cast_error("Unregistered type: " + class_name(typeid(T))); }
        auto p = std::shared_ptr<T>(new T(std::move(src)));
        auto const raw = p.get();
        return wrap(raw, std::move(p), record).release();
    }
    static handle none_() { Py_INCREF(Py_None); return Py_None; }
};

template<class T>
struct type_caster<std::shared_ptr<T>> {
    using U = std::remove_const_t<T>;
    std::shared_ptr<T> value;

    bool load(handle src, bool convert) {
        if (src.is_none()) { return convert; }
        auto const p = unwrap(src, typeid(U));
        if (!p) { return false; }
        auto const h = holder_of(src);
        if (!h) { throw cast_error("Unable to cast from non-held to held instance"); }
        value = std::shared_ptr<T>(h, static_cast<U*>(p));
        return true;
    }
    operator std::shared_ptr<T>&() { return value; }
    static handle cast(std::shared_ptr<T> const& src, return_value_policy, handle) {
        if (!src) { Py_INCREF(Py_None); return Py_None; }
        auto const p = const_cast<U*>(src.get());
        if (auto o = existing(p, typeid(U))) { return o.release(); }
        auto const record = find_type(typeid(U));
        if (!record) { throw cast_error("Unregistered type: " + class_name(typeid(U))); }
        return wrap(p, std::const_pointer_cast<U>(src), record).release();
    }
};

#define PYBIND11_TYPE_CASTER(type, py_name) \
    protected: \
        type value; \
    public: \
        static constexpr auto name = py_name; \
        operator type*() { return &value; } \
        operator type&() { return value; }

template<class T>
struct type_caster<T, std::enable_if_t<std::is_base_of<object, T>::value>> {
    object value;
    T* typed = nullptr;
    std::unique_ptr<T> store;
    bool load(handle src, bool) {
        if (!T::check_(src)) { return false; }
        store.reset(new T(src, object::borrowed{}));
        return true;
    }
    operator T&() { return *store; }
    static handle cast(handle const& src, return_value_policy, handle) { src.inc_ref(); return src; }
};

template<> struct type_caster<accessor> {
    static handle cast(accessor const& a, return_value_policy, handle) { auto o = a.get(); return o.release(); }
};
template<> struct type_caster<handle> {
    static handle cast(handle h, return_value_policy, handle) { h.inc_ref(); return h; }
};

template<> struct type_caster<bool> {
    bool load(handle src, bool convert) {
        if (src.ptr() == Py_True) { value = true; return true; }
        if (src.ptr() == Py_False) { value = false; return true; }
        auto const type = std::string(Py_TYPE(src.ptr())->tp_name);
        if (convert || type == "numpy.bool" || type == "numpy.bool_") {
            if (src.is_none()) { value = false; return true; }
            auto const n = Py_TYPE(src.ptr())->tp_as_number;
            if (!n || !n->nb_bool) { return false; }
            auto const r = n->nb_bool(src.ptr());
            if (r == 0 || r == 1) { value = r != 0; return true; }
            PyErr_Clear();
        }
        return false;
    }
    static handle cast(bool b, return_value_policy, handle) { return PyBool_FromLong(b); }
    PYBIND11_TYPE_CASTER(bool, _("bool"))
};

template<class T>
struct type_caster<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>> {
    bool load(handle src, bool convert) {
        if (!src) { return false; }
        auto out_of_range = false;
        if (std::is_floating_point<T>::value) {
            if (!convert && !PyFloat_Check(src.ptr())) { return false; }
            value = static_cast<T>(PyFloat_AsDouble(src.ptr()));
        } else {
            if (PyFloat_Check(src.ptr())) { return false; }
            if (std::is_unsigned<T>::value) {
                auto const index = PyNumber_Index(src.ptr());
                auto const v = index ? PyLong_AsUnsignedLongLong(index) : 0;
                Py_XDECREF(index);
                value = static_cast<T>(v);
                out_of_range = !PyErr_Occurred() && static_cast<unsigned long long>(value) != v;
            } else {
                auto const v = PyLong_AsLongLong(src.ptr());
                value = static_cast<T>(v);
                out_of_range = !PyErr_Occurred() && static_cast<long long>(value) != v;
            }
        }
        auto const failed = PyErr_Occurred() != nullptr;
        if (failed || out_of_range) {
            auto const wrong_type = failed && PyErr_ExceptionMatches(PyExc_TypeError);
            PyErr_Clear();
            if (wrong_type && convert && PyNumber_Check(src.ptr())) {
                auto const tmp = object(std::is_floating_point<T>::value ? PyNumber_Float(src.ptr()) : PyNumber_Long(src.ptr()), object::stolen{});
                PyErr_Clear();
                return tmp && load(tmp, false);
            }
            return false;
        }
        return true;
    }
    static handle cast(T v, return_value_policy, handle) {
        if (std::is_floating_point<T>::value) { return PyFloat_FromDouble((double)v); }
        return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long)v) : PyLong_FromLongLong((long long)v);
    }
    PYBIND11_TYPE_CASTER(T, _("number"))
};

template<class T>
struct type_caster<std::complex<T>> {
    bool load(handle src, bool convert) {
        if (!src || (!convert && !PyComplex_Check(src.ptr()))) { return false; }
        auto const r = PyComplex_AsCComplex(src.ptr());
        if (r.real == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
        value = std::complex<T>((T)r.real, (T)r.imag);
        return true;
    }
    static handle cast(std::complex<T> const& v, return_value_policy, handle) { return PyComplex_FromDoubles((double)v.real(), (double)v.imag()); }
    PYBIND11_TYPE_CASTER(std::complex<T>, _("complex"))
};

template<> struct type_caster<std::string> {
    bool load(handle src, bool) {
        if (!src) { return false; }
        if (PyUnicode_Check(src.ptr())) {
            Py_ssize_t n = 0;
            auto const s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
            if (!s) { PyErr_Clear(); return false; }
            value.assign(s, (std::size_t)n);
            return true;
        }
        if (PyBytes_Check(src.ptr())) {
            value.assign(PyBytes_AS_STRING(src.ptr()), (std::size_t)PyBytes_GET_SIZE(src.ptr()));
            return true;
        }
        return false;
    }
    static handle cast(std::string const& s, return_value_policy, handle) { return steal(PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr)).release(); }
    PYBIND11_TYPE_CASTER(std::string, _("str"))
};
template<std::size_t N> struct type_caster<char[N]> {
    static handle cast(char const (&s)[N], return_value_policy, handle) { return PyUnicode_FromString(s); }
};
template<> struct type_caster<char> {
    static handle cast(char const* s, return_value_policy, handle) { return PyUnicode_FromString(s); }
};

template<class T> T& load_into(make_caster<T>& c) { return c.operator T&(); }

/// Policy for the elements of a temporary container
template<class Container, class Element>
return_value_policy element_policy(return_value_policy p) { return std::is_lvalue_reference<Container>::value ? p : return_value_policy::move; }

template<class A, class B>
struct type_caster<std::pair<A, B>> {
    std::pair<std::unique_ptr<make_caster<A>>, std::unique_ptr<make_caster<B>>> c;
    bool load(handle src, bool convert) {
        if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) || PySequence_Size(src.ptr()) != 2) { PyErr_Clear(); return false; }
        c.first.reset(new make_caster<A>());
        c.second.reset(new make_caster<B>());
        auto a = steal(PySequence_GetItem(src.ptr(), 0)), b = steal(PySequence_GetItem(src.ptr(), 1));
        if (!c.first->load(a, convert) || !c.second->load(b, convert)) { return false; }
        value = {load_into<A>(*c.first), load_into<B>(*c.second)};
        return true;
    }
    template<class P>
    static handle cast(P&& src, return_value_policy policy, handle parent) {
        auto a = object(make_caster<A>::cast(src.first, policy, parent), object::stolen{});
        auto b = object(make_caster<B>::cast(src.second, policy, parent), object::stolen{});
        if (!a || !b) { return {}; }
        return PyTuple_Pack(2, a.ptr(), b.ptr());
    }
    using Pair = std::pair<A, B>;
    PYBIND11_TYPE_CASTER(Pair, _("tuple"))
};

template<class T, class A>
struct type_caster<std::vector<T, A>> {
    bool load(handle src, bool convert) {
        if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) || PyBytes_Check(src.ptr())) { return false; }
        auto const n = PySequence_Size(src.ptr());
        if (n < 0) { PyErr_Clear(); return false; }
        value.clear();
        for (auto i = Py_ssize_t{0}; i < n; ++i) {
            auto c = make_caster<T>();
            auto item = steal(PySequence_GetItem(src.ptr(), i));
            if (!c.load(item, convert)) { return false; }
            value.push_back(load_into<T>(c));
        }
        return true;
    }
    template<class V>
    static handle cast(V&& src, return_value_policy policy, handle parent) {
        policy = element_policy<V, T>(policy);
        auto l = list();
        for (auto&& x : src) {
            auto o = object(make_caster<T>::cast(x, policy, parent), object::stolen{});
            if (!o) { return {}; }
            PyList_Append(l.ptr(), o.ptr());
        }
        return l.release();
    }
    using Vector = std::vector<T, A>;
    PYBIND11_TYPE_CASTER(Vector, _("list"))
};

template<class M, class K, class T>
struct map_caster {
    bool load(handle src, bool convert) {
        if (!dict::check_(src)) { return false; }
        value.clear();
        PyObject *k, *v;
        auto pos = Py_ssize_t{0};
        while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
            auto ck = make_caster<K>();
            auto cv = make_caster<T>();
            if (!ck.load(k, convert) || !cv.load(v, convert)) { return false; }
            value.emplace(load_into<K>(ck), load_into<T>(cv));
        }
        return true;
    }
    template<class V>
    static handle cast(V&& src, return_value_policy policy, handle parent) {
        policy = element_policy<V, T>(policy);
        auto d = dict();
        for (auto&& kv : src) {
            auto k = object(make_caster<K>::cast(kv.first, policy, parent), object::stolen{});
            auto v = object(make_caster<T>::cast(kv.second, policy, parent), object::stolen{});
            if (!k || !v) { return {}; }
            PyDict_SetItem(d.ptr(), k.ptr(), v.ptr());
        }
        return d.release();
    }
    PYBIND11_TYPE_CASTER(M, _("dict"))
};
template<class K, class T, class... R> struct type_caster<std::unordered_map<K, T, R...>> : map_caster<std::unordered_map<K, T, R...>, K, T> {};
template<class K, class T, class... R> struct type_caster<std::map<K, T, R...>> : map_caster<std::map<K, T, R...>, K, T> {};

// variants
template<template<class...> class V> struct visit_helper;

struct variant_caster_visitor {
    using result_type = handle;
    return_value_policy policy;
    handle parent;
    template<class T> handle operator()(T&& x) const { return make_caster<T>::cast(std::forward<T>(x), policy, parent); }
};

template<class V> struct variant_caster;
template<template<class...> class V, class... Ts>
struct variant_caster<V<Ts...>> {
    template<class U>
    bool try_one(handle src, bool convert) {
        auto c = make_caster<U>();
        if (!c.load(src, convert)) { return false; }
        value = load_into<U>(c);
        return true;
    }
    bool load(handle src, bool convert) {
        if (convert && (try_one<Ts>(src, false) || ...)) { return true; }
        return (try_one<Ts>(src, convert) || ...);
    }
    template<class W>
    static handle cast(W&& src, return_value_policy policy, handle parent) {
        return visit_helper<V>::call(variant_caster_visitor{policy, parent}, std::forward<W>(src));
    }
    using Type = V<Ts...>;
    PYBIND11_TYPE_CASTER(Type, _("Union"))
};

// callbacks
template<class R, class... Args>
struct type_caster<std::function<R(Args...)>> {
    bool load(handle src, bool convert) {
        if (src.is_none()) { return convert; }
        if (!PyCallable_Check(src.ptr())) { return false; }
        auto f = std::shared_ptr<object>(new object(borrow(src.ptr())), [](object* o) { gil_scoped_acquire g; delete o; });
        value = [f](Args... args) -> R {
            gil_scoped_acquire g;
            object r = (*f)(args...);
            if constexpr (!std::is_void<R>::value) { return r.template cast<R>(); }
        };
        return true;
    }
    using Function = std::function<R(Args...)>;
    static handle cast(Function const& f, return_value_policy, handle);
    PYBIND11_TYPE_CASTER(Function, _("Callable"))
};

// ---------------------------------------------------------------------------------------------
// Eigen

template<class T> struct is_dense : std::false_type {};
template<class S, int R, int C, int O, int MR, int MC> struct is_dense<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};
template<class S, int R, int C, int O, int MR, int MC> struct is_dense<Eigen::Array<S, R, C, O, MR, MC>> : std::true_type {};

template<class T>
struct eigen_shape {
    static constexpr auto rows = T::RowsAtCompileTime, cols = T::ColsAtCompileTime;
    static constexpr bool vector = T::IsVectorAtCompileTime, fixed_rows = rows != Eigen::Dynamic, fixed_cols = cols != Eigen::Dynamic;
    /// Can an array of this shape be stored? (r, c) is the size
    static bool conformable(array const& a, Eigen::Index& r, Eigen::Index& c) {
        if (a.ndim() == 2) {
            r = a.shape(0);
            c = a.shape(1);
            return !(fixed_rows && r != rows) && !(fixed_cols && c != cols);
        }
        auto const n = (Eigen::Index)a.shape(0);
        if (vector) {
            if (T::SizeAtCompileTime != Eigen::Dynamic && n != T::SizeAtCompileTime) { return false; }
            r = rows == 1 ? 1 : n;
            c = cols == 1 ? 1 : n;
            return true;
        }
        if (fixed_rows && fixed_cols) { return false; }
        if (fixed_cols) {
            r = 1;
            c = n;
            return cols == n;
        }
        r = n;
        c = 1;
        return !(fixed_rows && rows != n);
    }
    template<class D>
    static object view(D const& m, bool writeable) {
        using S = typename T::Scalar;
        auto const p = const_cast<S*>(m.data());
        auto const flags = npy_api::NPY_ARRAY_ALIGNED_ | (writeable ? npy_api::NPY_ARRAY_WRITEABLE_ : 0);
        auto const type = typenum(typeid(S));
        if (vector) {
            Py_intptr_t const shape[] = {m.size()}, strides[] = {(Py_intptr_t)sizeof(S)};
            return make_array(type, 1, shape, strides, p, flags);
        }
        auto const s = (Py_intptr_t)sizeof(S);
        Py_intptr_t const shape[] = {m.rows(), m.cols()};
        Py_intptr_t const strides[] = {T::IsRowMajor ? s * m.cols() : s, T::IsRowMajor ? s : s * m.rows()};
        return make_array(type, 2, shape, strides, p, flags);
    }
    static object copy(T const& m) {
        auto v = view(m, false);
        return copy_of_array(typenum(typeid(typename T::Scalar)), array_ndim(v), array_shape(v), array_strides(v), m.data());
    }
};

template<class T>
struct type_caster<T, std::enable_if_t<is_dense<T>::value>> {
    using Scalar = typename T::Scalar;
    bool load(handle src, bool convert) {
        if (!convert && !array_t<Scalar>::check_(src)) { return false; }
        auto a = array::ensure(src);
        if (!a) { return false; }
        auto const dims = a.ndim();
        if (dims < 1 || dims > 2) { return false; }
        Eigen::Index r, c;
        if (!eigen_shape<T>::conformable(a, r, c)) { return false; }
        value = T(r, c);
        auto ref = array(eigen_shape<T>::view(value, true));
        if (dims == 1) { ref = array(squeezed(ref)); }
        else if (ref.ndim() == 1) { a = array(squeezed(a)); }
        if (!copy_into(ref, a)) { PyErr_Clear(); return false; }
        return true;
    }
    static handle cast(T&& src, return_value_policy, handle) { return eigen_shape<T>::copy(src).release(); }
    static handle cast(T const& src, return_value_policy policy, handle parent) {
        if (policy == return_value_policy::reference_internal) {
            auto v = eigen_shape<T>::view(src, false);
            set_base(v, parent, false);
            return v.release();
        }
        return eigen_shape<T>::copy(src).release();
    }
    static handle cast(T& src, return_value_policy policy, handle parent) {
        if (policy == return_value_policy::reference_internal) {
            auto v = eigen_shape<T>::view(src, true);
            set_base(v, parent, true);
            return v.release();
        }
        return eigen_shape<T>::copy(src).release();
    }
    PYBIND11_TYPE_CASTER(T, _("numpy.ndarray"))
};

/// Read-only reference to an array (or to a converted copy of it)
template<class T, int O, class S>
struct type_caster<Eigen::Ref<T const, O, S>> {
    using Ref = Eigen::Ref<T const, O, S>;
    using Scalar = typename T::Scalar;
    using Map = Eigen::Map<T const>;
    static_assert(T::IsVectorAtCompileTime, "");
    array_t<Scalar> keep;
    T copy;
    std::unique_ptr<Map> map;
    std::unique_ptr<Ref> ref;

    bool load(handle src, bool convert) {
        auto const direct = array_t<Scalar>::check_(src);
        if (!direct && !convert) { return false; }
        auto c = type_caster<T>();
        if (direct) {
            keep = array_t<Scalar>(borrow(src.ptr()));
            if (keep.ndim() == 1 && (keep.size() < 2 || keep.strides()[0] == (Py_intptr_t)sizeof(Scalar))) {
                map.reset(new Map(keep.data(), (Eigen::Index)keep.size()));
                ref.reset(new Ref(*map));
                return true;
            }
            if (!convert) { return false; }
        }
        if (!c.load(src, true)) { return false; }
        copy = c.operator T&();
        ref.reset(new Ref(copy));
        return true;
    }
    operator Ref&() { return *ref; }
    static handle cast(Ref const& src, return_value_policy, handle) { // the owner is unknown
        return eigen_shape<T>::copy(T(src)).release();
    }
};
template<class T, int O, class S> struct type_caster<Eigen::Ref<T, O, S>, std::enable_if_t<!std::is_const<T>::value>> {
    static handle cast(Eigen::Ref<T, O, S> const& src, return_value_policy, handle) { return eigen_shape<T>::copy(T(src)).release(); }
};
template<class T, int O, class S> struct type_caster<Eigen::Map<T, O, S>> {
    using P = std::remove_const_t<T>;
    static handle cast(Eigen::Map<T, O, S> const& src, return_value_policy, handle) { return eigen_shape<P>::copy(P(src)).release(); }
};

template<class Scalar, int O, class I>
struct type_caster<Eigen::SparseMatrix<Scalar, O, I>> {
    using Type = Eigen::SparseMatrix<Scalar, O, I>;
    static constexpr bool row_major = Type::IsRowMajor;
    static object matrix_type();
    bool load(handle src, bool);
    static handle cast(Type const& src, return_value_policy, handle);
    PYBIND11_TYPE_CASTER(Type, _("scipy.sparse"))
};

template<> struct type_caster<void> {};

} // namespace detail

// ---------------------------------------------------------------------------------------------
// conversions

template<class T>
object cast(T&& x, return_value_policy policy = return_value_policy::automatic_reference, handle parent = {}) {
    auto const h = detail::make_caster<T>::cast(std::forward<T>(x), policy, parent);
    if (!h) { if (PyErr_Occurred()) { throw error_already_set(); } throw cast_error("Unable to convert to a Python object"); }
    return object(h, object::stolen{});
}

template<class T> T handle::cast() const {
    using V = detail::intrinsic_t<T>;
    if constexpr (std::is_same<V, object>::value) { return object(*this, object::borrowed{}); }
    else {
        auto c = detail::make_caster<T>();
        if (!c.load(*this, true)) {
            throw cast_error("Unable to cast Python instance of type " + std::string(Py_TYPE(m_ptr)->tp_name) + " to C++ type '" + detail::class_name(typeid(V)) + "'");
        }
        if constexpr (std::is_pointer<T>::value) { return c.operator V*(); }
        else { return c.operator V&(); }
    }
}

template<class T> bool handle::contains(T const& key) const {
    auto k = pybind11::cast(key);
    auto const r = PySequence_Contains(m_ptr, k.ptr());
    if (r < 0) { throw error_already_set(); }
    return r == 1;
}

/// Argument name, possibly with a default value
struct arg {
    char const* name;
    explicit arg(char const* n) : name(n) {}
    template<class T> arg_v operator=(T&& value) const;
};
struct arg_v : arg {
    object value;
    arg_v(arg a, object v) : arg(a), value(std::move(v)) {}
};
template<class T> arg_v arg::operator=(T&& value) const { return {*this, pybind11::cast(std::forward<T>(value))}; }

namespace literals {
inline arg operator"" _a(char const* name, std::size_t) { return arg(name); }
}

template<class... Args, class> dict::dict(Args&&... args) : dict() {
    ((void)PyDict_SetItemString(m_ptr, args.name, args.value.ptr()), ...);
}

template<return_value_policy policy = return_value_policy::automatic_reference, class... Args>
tuple make_tuple(Args&&... args) {
    object const items[] = {pybind11::cast(std::forward<Args>(args), policy)..., object()};
    auto t = tuple(sizeof...(Args));
    for (std::size_t i = 0; i < sizeof...(Args); ++i) {
        items[i].inc_ref();
        PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, items[i].ptr());
    }
    return t;
}

namespace detail {
object call(handle f, std::vector<object> const& args, dict const& kwargs);
template<class T> void add_argument(std::vector<object>& args, dict& kwargs, T&& x) {
    if constexpr (std::is_same<std::decay_t<T>, arg_v>::value) { PyDict_SetItemString(kwargs.ptr(), x.name, x.value.ptr()); }
    else { args.push_back(pybind11::cast(std::forward<T>(x))); }
}
}

template<class... Args> object handle::operator()(Args&&... args) const {
    auto positional = std::vector<object>();
    auto kwargs = dict();
    (detail::add_argument(positional, kwargs, std::forward<Args>(args)), ...);
    return detail::call(*this, positional, kwargs);
}
template<class... Args> object accessor::operator()(Args&&... args) const { return get()(std::forward<Args>(args)...); }
template<class T> void accessor::operator=(T&& value) const {
    auto v = pybind11::cast(std::forward<T>(value));
    if ((is_attr ? PyObject_SetAttr(obj.ptr(), key.ptr(), v.ptr()) : PyObject_SetItem(obj.ptr(), key.ptr(), v.ptr())) != 0) { throw error_already_set(); }
}

namespace detail {
template<class Scalar, int O, class I>
object type_caster<Eigen::SparseMatrix<Scalar, O, I>>::matrix_type() {
    return steal(PyImport_ImportModule("scipy.sparse")).attr(row_major ? "csr_matrix" : "csc_matrix");
}
template<class Scalar, int O, class I>
bool type_caster<Eigen::SparseMatrix<Scalar, O, I>>::load(handle src, bool) {
    if (!src) { return false; }
    auto obj = borrow(src.ptr());
    auto type = matrix_type();
    if ((PyObject*)Py_TYPE(obj.ptr()) != type.ptr()) {
        try { obj = type(obj); } catch (error_already_set const&) { return false; }
    }
    auto const data = array_t<Scalar>::ensure(obj.attr("data").operator object());
    auto const inner = array_t<I>::ensure(obj.attr("indices").operator object());
    auto const outer = array_t<I>::ensure(obj.attr("indptr").operator object());
    auto const nnz = obj.attr("nnz").template cast<Eigen::Index>();
    auto const shape = obj.attr("shape").template cast<std::pair<Eigen::Index, Eigen::Index>>();
    if (!data || !inner || !outer) { return false; }
    value = Eigen::Map<Type const>(shape.first, shape.second, nnz, outer.data(), inner.data(), data.data());
    return true;
}
template<class Scalar, int O, class I>
handle type_caster<Eigen::SparseMatrix<Scalar, O, I>>::cast(Type const& src, return_value_policy, handle) {
    const_cast<Type&>(src).makeCompressed();
    auto const data = array_t<Scalar>((std::size_t)src.nonZeros(), src.valuePtr());
    auto const inner = array_t<I>((std::size_t)src.nonZeros(), src.innerIndexPtr());
    auto const outer = array_t<I>((std::size_t)(row_major ? src.rows() : src.cols()) + 1, src.outerIndexPtr());
    return matrix_type()(pybind11::make_tuple(data, inner, outer), pybind11::make_tuple(src.rows(), src.cols())).release();
}
} // namespace detail

// ---------------------------------------------------------------------------------------------
// functions

template<class... Guards> struct call_guard;
template<class G> struct call_guard<G> { using type = G; };

namespace detail {

/// Everything there is to know about one overload
struct overload {
    std::vector<arg_v> args;        ///< names and defaults (null value: no default) if there are any
    std::size_t nargs = 0;
    bool is_method = false;
    return_value_policy policy = return_value_policy::automatic;
    std::string doc;
    /// Null handle without a Python error: the arguments do not match
    std::function<handle(std::vector<handle> const& args, bool convert, handle parent)> impl;
};

/// Makes a function object or adds an overload to an existing one
void add_function(handle scope, char const* name, std::shared_ptr<overload> o, bool is_method);
object make_function(char const* name, std::shared_ptr<overload> o, bool is_method);
void add_property(handle scope, char const* name, object getter, object setter, char const* doc);

struct no_guard {};

template<class... Extra> struct find_guard { using type = no_guard; };
template<class G, class... R> struct find_guard<call_guard<G>, R...> { using type = G; };
template<class E, class... R> struct find_guard<E, R...> : find_guard<R...> {};

inline void process(overload& o, char const* doc) { o.doc = doc; }
inline void process(overload& o, arg const& a) { o.args.emplace_back(a, object()); }
inline void process(overload& o, arg_v const& a) { o.args.push_back(a); }
inline void process(overload& o, return_value_policy p) { o.policy = p; }
template<class G> void process(overload&, call_guard<G> const&) {}

template<class T> struct signature;
template<class R, class... A> struct signature<R (*)(A...)> { using type = R(A...); };
template<class R, class C, class... A> struct signature<R (C::*)(A...)> { using type = R(A...); };
template<class R, class C, class... A> struct signature<R (C::*)(A...) const> { using type = R(A...); };

template<class A> decltype(auto) pass(make_caster<A>& c) {
    using V = intrinsic_t<A>;
    if constexpr (std::is_pointer<A>::value) { return c.operator V*(); }
    else { return static_cast<V&>(c.operator V&()); }
}

template<class Guard, class F, class R, class... A, std::size_t... I>
std::function<handle(std::vector<handle> const&, bool, handle)> make_impl(F f, R (*)(A...), return_value_policy policy, std::index_sequence<I...>) {
    return [f = std::move(f), policy](std::vector<handle> const& args, bool convert, handle parent) mutable -> handle {
        auto casters = std::tuple<make_caster<A>...>();
        (void)args; (void)convert; (void)parent; (void)casters;
        auto ok = true;
        (void)std::initializer_list<int>{(ok = ok && std::get<I>(casters).load(args[I], convert), 0)...};
        if (!ok) { return {}; }
        if constexpr (std::is_void<R>::value) {
            { Guard guard{}; (void)guard; f(pass<A>(std::get<I>(casters))...); }
            Py_INCREF(Py_None);
            return Py_None;
        } else {
            auto run = [&]() -> R { Guard guard{}; (void)guard; return f(pass<A>(std::get<I>(casters))...); };
            auto const r = make_caster<R>::cast(run(), policy, parent);
            if (!r && !PyErr_Occurred()) { throw cast_error("Unable to convert the result to a Python object"); }
            return r;
        }
    };
}

template<class F, class R, class... A, class... Extra>
std::shared_ptr<overload> make_overload(F f, R (*sig)(A...), return_value_policy policy, bool is_method, Extra const&... extra) {
    auto o = std::make_shared<overload>();
    o->nargs = sizeof...(A);
    o->is_method = is_method;
    o->policy = policy;
    (process(*o, extra), ...);
    o->impl = make_impl<typename find_guard<Extra...>::type>(std::move(f), sig, o->policy, std::make_index_sequence<sizeof...(A)>());
    return o;
}

/// Free functions and lambdas
template<class F, class... Extra>
std::shared_ptr<overload> function(F f, return_value_policy policy, bool is_method, Extra const&... extra) {
    if constexpr (std::is_pointer<F>::value) {
        return make_overload(f, static_cast<typename signature<F>::type*>(nullptr), policy, is_method, extra...);
    } else {
        return make_overload(std::move(f), static_cast<typename signature<decltype(&F::operator())>::type*>(nullptr), policy, is_method, extra...);
    }
}
template<class R, class C, class... A, class... Extra>
std::shared_ptr<overload> function(R (C::*f)(A...), return_value_policy policy, bool is_method, Extra const&... extra) {
    return make_overload([f](C* self, A... a) -> R { return (self->*f)(std::forward<A>(a)...); }, static_cast<R (*)(C*, A...)>(nullptr), policy, is_method, extra...);
}
template<class R, class C, class... A, class... Extra>
std::shared_ptr<overload> function(R (C::*f)(A...) const, return_value_policy policy, bool is_method, Extra const&... extra) {
    return make_overload([f](C const* self, A... a) -> R { return (self->*f)(std::forward<A>(a)...); }, static_cast<R (*)(C const*, A...)>(nullptr), policy, is_method, extra...);
}

template<class R, class... Args>
handle type_caster<std::function<R(Args...)>>::cast(Function const& f, return_value_policy, handle) {
    if (!f) { Py_INCREF(Py_None); return Py_None; }
    return make_function("", make_overload(f, static_cast<R (*)(Args...)>(nullptr), return_value_policy::automatic, false), false).release();
}

template<class... Args> struct constructor {};
template<class F> struct factory { F f; };
template<class G, class S> struct pickle_factory { G get; S set; };

/// self of __init__
struct init_self { handle h; };
template<> struct type_caster<init_self> {
    init_self value;
    bool load(handle h, bool) { value.h = h; return h && find_type(Py_TYPE(h.ptr())) != nullptr; }
    operator init_self&() { return value; }
};

template<class T, class... A>
T* construct(A&&... a) {
    if constexpr (std::is_constructible<T, A...>::value) { return new T(std::forward<A>(a)...); }
    else { return new T{std::forward<A>(a)...}; }
}

template<class T, class F, class R, class... A, class... Extra>
std::shared_ptr<overload> init_from(F f, R (*)(A...), Extra const&... extra) {
    auto wrapped = [f](init_self self, A... a) {
        auto p = std::shared_ptr<T>(f(std::forward<A>(a)...));
        auto const raw = p.get();
        set_value(self.h, raw, std::move(p), typeid(T));
    };
    return make_overload(wrapped, static_cast<void (*)(init_self, A...)>(nullptr), return_value_policy::automatic, true, extra...);
}

} // namespace detail

template<class... Args> detail::constructor<Args...> init() { return {}; }
template<class F> detail::factory<F> init(F f) { return {std::move(f)}; }
template<class G, class S> detail::pickle_factory<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }

class module : public object {
public:
    using object::object;
    static module import(char const* name) { return module(steal(PyImport_ImportModule(name)).release(), stolen{}); }
    template<class F, class... Extra>
    module& def(char const* name, F f, Extra const&... extra) {
        detail::add_function(*this, name, detail::function(std::move(f), return_value_policy::automatic, false, extra...), false);
        return *this;
    }
    module def_submodule(char const* name);
};

template<class T, class... Options>
class class_ : public object {
    template<class U> struct is_base : std::integral_constant<bool, std::is_base_of<U, T>::value && !std::is_same<U, T>::value> {};
    template<class... Os> struct base_of { using type = void; };
    template<class O, class... Os> struct base_of<O, Os...> { using type = std::conditional_t<is_base<O>::value, O, typename base_of<Os...>::type>; };
    using Base = typename base_of<Options...>::type;

public:
    class_(handle scope, char const* name, char const* = "") {
        detail::type_record* r;
        if constexpr (std::is_void<Base>::value) { r = detail::new_type(scope, name, typeid(T), nullptr, nullptr); }
        else { r = detail::new_type(scope, name, typeid(T), &typeid(Base), [](void* p) -> void* { return static_cast<Base*>(static_cast<T*>(p)); }); }
        static_cast<object&>(*this) = borrow((PyObject*)r->type);
    }

    template<class F, class... Extra>
    class_& def(char const* name, F f, Extra const&... extra) {
        detail::add_function(*this, name, detail::function(std::move(f), return_value_policy::automatic, true, extra...), true);
        return *this;
    }
    template<class... Args, class... Extra>
    class_& def(detail::constructor<Args...>, Extra const&... extra) {
        auto f = [](Args... a) { return detail::construct<T>(std::forward<Args>(a)...); };
        detail::add_function(*this, "__init__", detail::init_from<T>(f, static_cast<T* (*)(Args...)>(nullptr), extra...), true);
        return *this;
    }
    template<class F, class... Extra>
    class_& def(detail::factory<F> f, Extra const&... extra) {
        if constexpr (std::is_pointer<F>::value) {
            detail::add_function(*this, "__init__", detail::init_from<T>(f.f, static_cast<typename detail::signature<F>::type*>(nullptr), extra...), true);
        } else {
            detail::add_function(*this, "__init__", detail::init_from<T>(f.f, static_cast<typename detail::signature<decltype(&F::operator())>::type*>(nullptr), extra...), true);
        }
        return *this;
    }
    template<class G, class S, class... Extra>
    class_& def(detail::pickle_factory<G, S> p, Extra const&... extra) {
        def("__getstate__", p.get, extra...);
        detail::add_function(*this, "__setstate__", detail::init_from<T>(p.set, static_cast<typename detail::signature<decltype(&S::operator())>::type*>(nullptr)), true);
        return *this;
    }
    template<class G, class... Extra>
    class_& def_property_readonly(char const* name, G g, Extra const&... extra) {
        detail::add_property(*this, name, getter(name, g, extra...), object(), "");
        return *this;
    }
    template<class G, class S, class... Extra>
    class_& def_property(char const* name, G g, S s, Extra const&... extra) {
        detail::add_property(*this, name, getter(name, g, extra...), detail::make_function(name, detail::function(s, return_value_policy::automatic, true), true), "");
        return *this;
    }
    template<class C, class D, class... Extra>
    class_& def_readonly(char const* name, D C::*pm, Extra const&... extra) {
        return def_property_readonly(name, [pm](T const& self) -> D const& { return self.*pm; }, extra...);
    }
    template<class C, class D, class... Extra>
    class_& def_readwrite(char const* name, D C::*pm, Extra const&... extra) {
        return def_property(name, [pm](T const& self) -> D const& { return self.*pm; }, [pm](T& self, D const& v) { self.*pm = v; }, extra...);
    }

private:
    template<class G, class... Extra>
    object getter(char const* name, G g, Extra const&... extra) {
        return detail::make_function(name, detail::function(g, return_value_policy::reference_internal, true, extra...), true);
    }
};

namespace detail { PyObject* init_module(char const* name, void (*f)(module&)); }

} // namespace pybind11

#define PYBIND11_MODULE(name, var) \
    static void pybind11_init_##name(pybind11::module&); \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() { return pybind11::detail::init_module(#name, pybind11_init_##name); } \
    void pybind11_init_##name(pybind11::module& var)
