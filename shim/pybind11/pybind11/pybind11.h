// A small stand-in for the part of pybind11 the bindings of docc use (pybind11 is not installed in the sandbox).
#pragma once
#include <Python.h>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct error_already_set : std::runtime_error {
    error_already_set() : std::runtime_error("Python error") {}
};

// ------------------------------------------------------------------ registry
struct instance {
    PyObject_HEAD
    void* ptr;
    void (*del)(void*);
    PyObject* parent;
};

struct type_record {
    PyTypeObject* type = nullptr;
    std::type_index base = typeid(void);
    void* (*to_base)(void*) = nullptr;
};

inline std::unordered_map<std::type_index, type_record>& types() {
    static std::unordered_map<std::type_index, type_record> t;
    return t;
}
inline std::unordered_map<std::type_index, PyObject*>& enums() {
    static std::unordered_map<std::type_index, PyObject*> t;
    return t;
}
inline std::type_index type_of(PyTypeObject* t) {
    for (auto& [i, r] : types())
        if (r.type == t) return i;
    return typeid(void);
}

// The address of the object as an object of the wanted type, or null.
inline void* pointer_as(PyObject* o, std::type_index want) {
    std::type_index at = typeid(void);
    for (PyTypeObject* t = Py_TYPE(o); t; t = t->tp_base) {
        at = type_of(t);
        if (at != typeid(void)) break;
    }
    if (at == typeid(void)) return nullptr;
    void* p = reinterpret_cast<instance*>(o)->ptr;
    while (p && at != want) {
        auto& r = types().at(at);
        if (!r.to_base) return nullptr;
        p = r.to_base(p);
        at = r.base;
    }
    return p;
}

inline PyObject* wrap(void* p, std::type_index i, void (*del)(void*), PyObject* parent) {
    auto it = types().find(i);
    if (it == types().end()) throw cast_error("unregistered type");
    auto* o = reinterpret_cast<instance*>(it->second.type->tp_alloc(it->second.type, 0));
    o->ptr = p;
    o->del = del;
    Py_XINCREF(parent);
    o->parent = parent;
    return reinterpret_cast<PyObject*>(o);
}

// ------------------------------------------------------------------ handles
class handle {
protected:
    PyObject* p_ = nullptr;

public:
    handle() = default;
    handle(PyObject* p) : p_(p) {}
    PyObject* ptr() const { return p_; }
    bool is_none() const { return p_ == Py_None; }
    template<typename T>
    T cast() const;
};

class object : public handle {
public:
    object() = default;
    struct borrow {};
    struct steal {};
    object(PyObject* p, borrow) : handle(p) { Py_XINCREF(p); }
    object(PyObject* p, steal) : handle(p) {}
    object(const object& o) : handle(o.p_) { Py_XINCREF(p_); }
    object(object&& o) noexcept : handle(o.p_) { o.p_ = nullptr; }
    object& operator=(const object& o) {
        Py_XINCREF(o.p_);
        Py_XDECREF(p_);
        p_ = o.p_;
        return *this;
    }
    ~object() { Py_XDECREF(p_); }
    PyObject* release() { return std::exchange(p_, nullptr); }
};

struct none : object {
    none() : object(Py_None, borrow{}) {}
};

class list : public object {
public:
    list() : object(PyList_New(0), steal{}) {}
    list(PyObject* p, borrow b) : object(p, b) {}
    struct iterator {
        PyObject* l;
        Py_ssize_t i;
        handle operator*() const { return handle(PyList_GetItem(l, i)); }
        iterator& operator++() {
            ++i;
            return *this;
        }
        bool operator!=(const iterator& o) const { return i != o.i; }
    };
    iterator begin() const { return {p_, 0}; }
    iterator end() const { return {p_, PyList_Size(p_)}; }
    size_t size() const { return PyList_Size(p_); }
    template<typename T>
    void append(const T& v);
};

class dict : public object {
public:
    dict() : object(PyDict_New(), steal{}) {}
    dict(PyObject* p, borrow b) : object(p, b) {}
    struct item {
        PyObject* d;
        std::string k;
        template<typename T>
        void operator=(const T& v);
    };
    item operator[](const char* k) { return {p_, k}; }
    item operator[](const std::string& k) { return {p_, k}; }
};

// ------------------------------------------------------------------ casters
struct try_next {};

template<typename T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;

template<typename T, typename = void>
struct from_py;
template<typename T, typename = void>
struct to_py;

template<typename T>
struct is_plain : std::false_type {};
template<>
struct is_plain<std::string> : std::true_type {};
template<typename T, typename A>
struct is_plain<std::vector<T, A>> : std::true_type {};
template<typename... A>
struct is_plain<std::unordered_map<A...>> : std::true_type {};
template<typename... A>
struct is_plain<std::map<A...>> : std::true_type {};
template<typename T>
struct is_plain<std::optional<T>> : std::true_type {};
template<typename T>
struct is_plain<std::unique_ptr<T>> : std::true_type {};
template<typename T>
struct is_plain<std::shared_ptr<T>> : std::true_type {};
template<typename... A>
struct is_plain<std::tuple<A...>> : std::true_type {};
template<typename A, typename B>
struct is_plain<std::pair<A, B>> : std::true_type {};

template<typename T>
constexpr bool is_class_v = std::is_class_v<T> && !is_plain<T>::value && !std::is_base_of_v<handle, T>;

template<typename T>
struct from_py<T, std::enable_if_t<std::is_same_v<T, bool>>> {
    bool v;
    void load(PyObject* o) {
        if (o == Py_True) v = true;
        else if (o == Py_False) v = false;
        else throw try_next{};
    }
    bool& get() { return v; }
};
template<typename T>
struct from_py<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    T v;
    void load(PyObject* o) {
        if (PyFloat_Check(o) || !PyIndex_Check(o)) throw try_next{};
        PyObject* i = PyNumber_Index(o);
        if (!i) {
            PyErr_Clear();
            throw try_next{};
        }
        if constexpr (std::is_unsigned_v<T>) v = static_cast<T>(PyLong_AsUnsignedLongLong(i));
        else v = static_cast<T>(PyLong_AsLongLong(i));
        Py_DECREF(i);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            throw try_next{};
        }
    }
    T& get() { return v; }
};
template<typename T>
struct from_py<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    T v;
    void load(PyObject* o) {
        v = static_cast<T>(PyFloat_AsDouble(o));
        if (PyErr_Occurred()) {
            PyErr_Clear();
            throw try_next{};
        }
    }
    T& get() { return v; }
};
template<>
struct from_py<std::string> {
    std::string v;
    void load(PyObject* o) {
        if (!PyUnicode_Check(o)) throw try_next{};
        Py_ssize_t n;
        const char* s = PyUnicode_AsUTF8AndSize(o, &n);
        v.assign(s, n);
    }
    std::string& get() { return v; }
};
template<typename T>
struct from_py<T, std::enable_if_t<std::is_enum_v<T>>> {
    T v;
    void load(PyObject* o) {
        auto it = enums().find(typeid(T));
        if (it == enums().end() || !PyObject_IsInstance(o, it->second)) throw try_next{};
        PyObject* i = PyObject_GetAttrString(o, "value");
        v = static_cast<T>(PyLong_AsLongLong(i));
        Py_DECREF(i);
    }
    T& get() { return v; }
};
template<typename E>
struct from_py<std::vector<E>> {
    std::vector<E> v;
    void load(PyObject* o) {
        if (!PySequence_Check(o) || PyUnicode_Check(o)) throw try_next{};
        PyObject* s = PySequence_Fast(o, "sequence");
        if (!s) {
            PyErr_Clear();
            throw try_next{};
        }
        object hold(s, object::steal{});
        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(s); ++i) {
            from_py<bare<E>> c;
            c.load(PySequence_Fast_GET_ITEM(s, i));
            v.push_back(c.get());
        }
    }
    std::vector<E>& get() { return v; }
};
template<typename K, typename V>
struct from_py<std::unordered_map<K, V>> {
    std::unordered_map<K, V> v;
    void load(PyObject* o) {
        if (!PyDict_Check(o)) throw try_next{};
        PyObject *k, *x;
        Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &x)) {
            from_py<bare<K>> ck;
            from_py<bare<V>> cv;
            ck.load(k);
            cv.load(x);
            v.emplace(ck.get(), cv.get());
        }
    }
    std::unordered_map<K, V>& get() { return v; }
};
template<typename T>
struct from_py<std::optional<T>> {
    std::optional<T> v;
    void load(PyObject* o) {
        if (o == Py_None) return;
        from_py<bare<T>> c;
        c.load(o);
        v = c.get();
    }
    std::optional<T>& get() { return v; }
};
template<typename T>
struct from_py<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
    T v;
    void load(PyObject* o) {
        if constexpr (std::is_same_v<T, list>) {
            if (!PyList_Check(o)) throw try_next{};
            v = list(o, object::borrow{});
        } else if constexpr (std::is_same_v<T, dict>) {
            if (!PyDict_Check(o)) throw try_next{};
            v = dict(o, object::borrow{});
        } else if constexpr (std::is_same_v<T, object>) v = object(o, object::borrow{});
        else v = handle(o);
    }
    T& get() { return v; }
};
template<typename T>
struct from_py<T, std::enable_if_t<is_class_v<T>>> {
    T* v = nullptr;
    void load(PyObject* o) {
        v = static_cast<T*>(pointer_as(o, typeid(T)));
        if (!v) throw try_next{};
    }
    T& get() { return *v; }
};
template<typename T>
struct from_py<T*> {
    T* v = nullptr;
    void load(PyObject* o) {
        if (o == Py_None) return;
        v = static_cast<T*>(pointer_as(o, typeid(std::remove_cv_t<T>)));
        if (!v) throw try_next{};
    }
    T*& get() { return v; }
};

template<typename T>
struct to_py<T, std::enable_if_t<std::is_same_v<T, bool>>> {
    static PyObject* make(bool v, return_value_policy, PyObject*) { return PyBool_FromLong(v); }
};
template<typename T>
struct to_py<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static PyObject* make(T v, return_value_policy, PyObject*) {
        if constexpr (std::is_unsigned_v<T>) return PyLong_FromUnsignedLongLong(v);
        else return PyLong_FromLongLong(v);
    }
};
template<typename T>
struct to_py<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static PyObject* make(T v, return_value_policy, PyObject*) { return PyFloat_FromDouble(v); }
};
template<>
struct to_py<std::string> {
    static PyObject* make(const std::string& v, return_value_policy, PyObject*) {
        return PyUnicode_FromStringAndSize(v.data(), v.size());
    }
};
template<>
struct to_py<const char*> {
    static PyObject* make(const char* v, return_value_policy, PyObject*) { return PyUnicode_FromString(v); }
};
template<>
struct to_py<std::nullptr_t> {
    static PyObject* make(std::nullptr_t, return_value_policy, PyObject*) { Py_RETURN_NONE; }
};
template<typename T>
struct to_py<T, std::enable_if_t<std::is_enum_v<T>>> {
    static PyObject* make(T v, return_value_policy, PyObject*) {
        auto it = enums().find(typeid(T));
        if (it == enums().end()) throw cast_error("unregistered enum");
        PyObject* r = PyObject_CallFunction(it->second, "L", static_cast<long long>(v));
        if (!r) throw error_already_set();
        return r;
    }
};
template<typename T>
struct to_py<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
    static PyObject* make(const T& v, return_value_policy, PyObject*) {
        Py_XINCREF(v.ptr());
        return v.ptr();
    }
};
template<typename E>
struct to_py<std::vector<E>> {
    static PyObject* make(const std::vector<E>& v, return_value_policy p, PyObject* parent) {
        PyObject* l = PyList_New(v.size());
        for (size_t i = 0; i < v.size(); ++i) PyList_SetItem(l, i, to_py<bare<E>>::make(v[i], p, parent));
        return l;
    }
};
template<typename E>
struct to_py<std::optional<E>> {
    static PyObject* make(const std::optional<E>& v, return_value_policy p, PyObject* parent) {
        if (!v) Py_RETURN_NONE;
        return to_py<bare<E>>::make(*v, p, parent);
    }
};
template<typename M>
PyObject* map_to_py(const M& v, return_value_policy p, PyObject* parent) {
    PyObject* d = PyDict_New();
    for (auto& [k, x] : v) {
        PyObject* a = to_py<bare<decltype(k)>>::make(k, p, parent);
        PyObject* b = to_py<bare<decltype(x)>>::make(x, p, parent);
        PyDict_SetItem(d, a, b);
        Py_DECREF(a);
        Py_DECREF(b);
    }
    return d;
}
template<typename... A>
struct to_py<std::unordered_map<A...>> {
    static PyObject* make(const std::unordered_map<A...>& v, return_value_policy p, PyObject* parent) { return map_to_py(v, p, parent); }
};
template<typename... A>
struct to_py<std::map<A...>> {
    static PyObject* make(const std::map<A...>& v, return_value_policy p, PyObject* parent) { return map_to_py(v, p, parent); }
};

// The most derived registered type of an object and its address as that type.
template<typename T>
std::pair<void*, std::type_index> dynamic_of(const T* p) {
    if constexpr (std::is_polymorphic_v<T>) {
        std::type_index i = typeid(*p);
        if (types().contains(i)) return {const_cast<void*>(dynamic_cast<const void*>(p)), i};
    }
    return {const_cast<void*>(static_cast<const void*>(p)), std::type_index(typeid(T))};
}
template<typename T>
void deleter(void* p) {
    delete static_cast<T*>(p);
}
template<typename T>
PyObject* own(T* p) {
    if (!p) Py_RETURN_NONE;
    auto [q, i] = dynamic_of(p);
    // the deleter works on the address as T
    if constexpr (std::is_polymorphic_v<T>) {
        static_assert(std::has_virtual_destructor_v<T> || !std::is_polymorphic_v<T>);
        if (q == static_cast<void*>(p)) return wrap(q, i, &deleter<T>, nullptr);
        return wrap(static_cast<void*>(p), typeid(T), &deleter<T>, nullptr);
    } else return wrap(q, i, &deleter<T>, nullptr);
}
template<typename T>
PyObject* refer(const T* p, PyObject* parent) {
    if (!p) Py_RETURN_NONE;
    auto [q, i] = dynamic_of(p);
    return wrap(q, i, nullptr, parent);
}

template<typename T>
struct to_py<T, std::enable_if_t<is_class_v<T>>> {
    static PyObject* make(T&& v, return_value_policy, PyObject*) { return own(new T(std::move(v))); }
    static PyObject* make(const T& v, return_value_policy p, PyObject* parent) {
        if constexpr (std::is_copy_constructible_v<T> && !std::is_abstract_v<T>) {
            if (p == return_value_policy::automatic || p == return_value_policy::copy) return own(new T(v));
        }
        return refer(&v, parent);
    }
};
template<typename T>
struct to_py<T*, std::enable_if_t<is_class_v<std::remove_cv_t<T>>>> {
    static PyObject* make(T* v, return_value_policy p, PyObject* parent) {
        if (p == return_value_policy::automatic || p == return_value_policy::take_ownership) return own(const_cast<std::remove_cv_t<T>*>(v));
        return refer(v, parent);
    }
};
template<typename T>
struct to_py<std::unique_ptr<T>> {
    static PyObject* make(std::unique_ptr<T>&& v, return_value_policy, PyObject*) { return own(v.release()); }
};
template<typename T>
struct to_py<std::shared_ptr<T>> {
    static PyObject* make(const std::shared_ptr<T>& v, return_value_policy, PyObject*) {
        new std::shared_ptr<T>(v); // kept for ever
        return refer(v.get(), nullptr);
    }
};

template<typename T>
object cast(T&& v, return_value_policy p = return_value_policy::automatic) {
    using B = std::decay_t<T>;
    if constexpr (std::is_lvalue_reference_v<T>) return object(to_py<B>::make(v, p, nullptr), object::steal{});
    else return object(to_py<B>::make(std::move(v), p, nullptr), object::steal{});
}
template<typename T>
T handle::cast() const {
    from_py<bare<T>> c;
    try {
        c.load(p_);
    } catch (try_next&) {
        throw cast_error("Unable to cast Python instance to C++ type");
    }
    return static_cast<T>(c.get());
}
template<typename T>
bool isinstance(const handle& h) {
    auto it = types().find(typeid(T));
    return it != types().end() && PyObject_TypeCheck(h.ptr(), it->second.type);
}
template<typename T>
void list::append(const T& v) {
    object o = pybind11::cast(v);
    PyList_Append(p_, o.ptr());
}
template<typename T>
void dict::item::operator=(const T& v) {
    object o = pybind11::cast(v);
    PyDict_SetItemString(d, k.c_str(), o.ptr());
}

// ------------------------------------------------------------------ functions
struct arg {
    std::string name;
    std::optional<object> def;
    explicit arg(const char* n) : name(n) {}
    template<typename T>
    arg operator=(T&& v) const {
        arg r(name.c_str());
        r.def = pybind11::cast(std::forward<T>(v));
        return r;
    }
    arg operator=(const char* v) const {
        arg r(name.c_str());
        r.def = object(PyUnicode_FromString(v), object::steal{});
        return r;
    }
    arg operator=(std::nullptr_t) const {
        arg r(name.c_str());
        r.def = none();
        return r;
    }
    arg(const arg&) = default;
};

struct overload {
    std::vector<arg> args;
    return_value_policy policy = return_value_policy::automatic;
    size_t arity = 0;   // with self
    bool method = false;
    std::function<PyObject*(PyObject**, return_value_policy)> call;
};

struct callable {
    std::string name;
    std::vector<overload> overloads;
    PyMethodDef def;
};

inline void set_error(const std::exception& e) {
    PyObject* t = PyExc_RuntimeError;
    if (dynamic_cast<const std::invalid_argument*>(&e) || dynamic_cast<const std::domain_error*>(&e) ||
        dynamic_cast<const std::length_error*>(&e) || dynamic_cast<const std::range_error*>(&e))
        t = PyExc_ValueError;
    else if (dynamic_cast<const std::out_of_range*>(&e)) t = PyExc_IndexError;
    else if (dynamic_cast<const std::overflow_error*>(&e)) t = PyExc_OverflowError;
    else if (dynamic_cast<const std::bad_alloc*>(&e)) t = PyExc_MemoryError;
    PyErr_SetString(t, e.what());
}

inline PyObject* dispatch(PyObject* capsule, PyObject* pos, PyObject* kw) {
    auto* c = static_cast<callable*>(PyCapsule_GetPointer(capsule, nullptr));
    size_t n = PyTuple_GET_SIZE(pos);
    size_t nk = kw ? PyDict_Size(kw) : 0;
    for (auto& o : c->overloads) {
        if (n > o.arity) continue;
        size_t off = o.method ? 1 : 0;
        std::vector<PyObject*> v(o.arity, nullptr);
        for (size_t i = 0; i < n; ++i) v[i] = PyTuple_GET_ITEM(pos, i);
        size_t used = 0;
        bool ok = true;
        for (size_t i = n; i < o.arity && ok; ++i) {
            PyObject* x = nullptr;
            if (i >= off && i - off < o.args.size()) {
                auto& a = o.args[i - off];
                if (kw) x = PyDict_GetItemString(kw, a.name.c_str());
                if (x) ++used;
                else if (a.def) x = a.def->ptr();
            }
            if (!x) ok = false;
            v[i] = x;
        }
        if (!ok || used != nk) continue;
        try {
            return o.call(v.data(), o.policy);
        } catch (try_next&) {
            continue;
        } catch (error_already_set&) {
            return nullptr;
        } catch (const std::exception& e) {
            set_error(e);
            return nullptr;
        }
    }
    std::string m = c->name + "(): incompatible function arguments: ";
    PyObject* r = PyObject_Repr(pos);
    if (r) m += PyUnicode_AsUTF8(r);
    else PyErr_Clear();
    PyErr_SetString(PyExc_TypeError, m.c_str());
    return nullptr;
}

inline PyObject* make_function(callable* c) {
    c->def = {c->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
    PyObject* cap = PyCapsule_New(c, nullptr, nullptr);
    return PyCFunction_NewEx(&c->def, cap, nullptr);
}

template<typename R, typename F, typename... A, size_t... I>
PyObject* invoke(F& f, PyObject** v, return_value_policy p, bool method, std::index_sequence<I...>) {
    std::tuple<from_py<bare<A>>...> cs;
    (std::get<I>(cs).load(v[I]), ...);
    PyObject* parent = nullptr;
    if constexpr (sizeof...(A) > 0) parent = method ? v[0] : nullptr;
    if constexpr (std::is_void_v<R>) {
        f(static_cast<A>(std::get<I>(cs).get())...);
        Py_RETURN_NONE;
    } else if constexpr (std::is_lvalue_reference_v<R>) {
        R r = f(static_cast<A>(std::get<I>(cs).get())...);
        return to_py<std::decay_t<R>>::make(r, p, parent);
    } else {
        R r = f(static_cast<A>(std::get<I>(cs).get())...);
        if constexpr (std::is_pointer_v<R>) return to_py<R>::make(r, p, parent);
        else return to_py<std::decay_t<R>>::make(std::move(r), p, parent);
    }
}

template<typename R, typename... A, typename F>
overload make_overload(F f) {
    overload o;
    o.arity = sizeof...(A);
    o.call = [f](PyObject** v, return_value_policy p) mutable {
        return invoke<R, F, A...>(f, v, p, true, std::index_sequence_for<A...>{});
    };
    return o;
}

// self is the class the function is bound to (a member function may belong to one of its bases)
template<typename C, typename R, typename... A>
overload describe(R (*f)(A...)) {
    return make_overload<R, A...>(f);
}
template<typename C, typename R, typename K, typename... A>
overload describe(R (K::*f)(A...)) {
    using S = std::conditional_t<std::is_void_v<C>, K, C>;
    return make_overload<R, S&, A...>([f](S& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template<typename C, typename R, typename K, typename... A>
overload describe(R (K::*f)(A...) const) {
    using S = std::conditional_t<std::is_void_v<C>, K, C>;
    return make_overload<R, const S&, A...>([f](const S& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template<typename L, typename R, typename K, typename... A>
overload describe_lambda(L l, R (K::*)(A...) const) {
    return make_overload<R, A...>(l);
}
template<typename L, typename R, typename K, typename... A>
overload describe_lambda(L l, R (K::*)(A...)) {
    return make_overload<R, A...>(l);
}
template<typename C, typename L>
    requires requires { &L::operator(); }
overload describe(L l) {
    return describe_lambda(l, &L::operator());
}

inline void extra(overload& o, const arg& a) { o.args.push_back(a); }
inline void extra(overload&, const char*) {}
inline void extra(overload& o, return_value_policy p) { o.policy = p; }

// ------------------------------------------------------------------ init
template<typename... A>
struct init_t {};
template<typename F>
struct init_f {
    F f;
};
template<typename... A>
init_t<A...> init() {
    return {};
}
template<typename F>
init_f<F> init(F f) {
    return {f};
}

// ------------------------------------------------------------------ modules and classes
class module_ : public object {
public:
    module_(PyObject* p, borrow b) : object(p, b) {}
    std::string doc_;
    std::string& doc() { return doc_; }
    template<typename F, typename... X>
    module_& def(const char* name, F f, const X&... x) {
        auto* c = new callable{name, {}, {}};
        overload o = describe<void>(f);
        (extra(o, x), ...);
        c->overloads.push_back(o);
        PyModule_AddObject(p_, name, make_function(c));
        return *this;
    }
};
using module = module_;

inline void instance_dealloc(PyObject* o) {
    auto* i = reinterpret_cast<instance*>(o);
    if (i->ptr && i->del) i->del(i->ptr);
    Py_XDECREF(i->parent);
    PyTypeObject* t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}

template<typename T, typename... B>
class class_ : public object {
    std::map<std::string, callable*> fns_;

    callable* slot(const std::string& n) {
        auto& c = fns_[n];
        if (!c) c = new callable{n, {}, {}};
        return c;
    }
    void add_method(const char* name, overload o) {
        o.method = true;
        auto* c = slot(name);
        c->overloads.push_back(std::move(o));
        if (c->overloads.size() > 1) return;
        PyObject* f = make_function(c);
        PyObject* m = PyInstanceMethod_New(f);
        PyObject_SetAttrString(p_, name, m);
        Py_DECREF(m);
        Py_DECREF(f);
    }

    template<typename F, typename... A, size_t... I>
    static void construct(F& f, PyObject** v, std::index_sequence<I...>) {
        std::tuple<from_py<bare<A>>...> cs;
        (std::get<I>(cs).load(v[I + 1]), ...);
        auto* s = reinterpret_cast<instance*>(v[0]);
        s->ptr = f(static_cast<A>(std::get<I>(cs).get())...);
        s->del = &deleter<T>;
    }
    template<typename... A, typename F, typename... X>
    void add_init(F f, const X&... x) {
        overload o;
        o.arity = sizeof...(A) + 1;
        o.call = [f](PyObject** v, return_value_policy) mutable -> PyObject* {
            construct<F, A...>(f, v, std::index_sequence_for<A...>{});
            Py_RETURN_NONE;
        };
        (extra(o, x), ...);
        add_method("__init__", o);
    }
    template<typename F, typename R, typename K, typename... A, typename... X>
    void add_init_lambda(F f, R (K::*)(A...) const, const X&... x) {
        add_init<A...>([f](A... a) { return f(std::forward<A>(a)...); }, x...);
    }

public:
    class_(module_& m, const char* name) {
        type_record r;
        PyTypeObject* base = nullptr;
        if constexpr (sizeof...(B) == 1) {
            using Base = std::tuple_element_t<0, std::tuple<B...>>;
            r.base = typeid(Base);
            r.to_base = [](void* p) -> void* { return static_cast<Base*>(static_cast<T*>(p)); };
            base = types().at(typeid(Base)).type;
        }
        std::string full = std::string("docc.sdfg._sdfg.") + name;
        static std::string keep;
        keep = full;
        PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void*>(&instance_dealloc)},
                               {Py_tp_new, reinterpret_cast<void*>(&PyType_GenericNew)},
                               {0, nullptr}};
        PyType_Spec spec = {keep.c_str(), sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        PyObject* bases = base ? PyTuple_Pack(1, base) : nullptr;
        p_ = PyType_FromSpecWithBases(&spec, bases);
        Py_XDECREF(bases);
        if (!p_) throw error_already_set();
        r.type = reinterpret_cast<PyTypeObject*>(p_);
        types()[typeid(T)] = r;
        Py_INCREF(p_);
        PyModule_AddObject(m.ptr(), name, p_);
    }

    template<typename F, typename... X>
    class_& def(const char* name, F f, const X&... x) {
        overload o = describe<T>(f);
        (extra(o, x), ...);
        add_method(name, o);
        return *this;
    }
    template<typename... A, typename... X>
    class_& def(init_t<A...>, const X&... x) {
        add_init<A...>([](A... a) { return new T(std::forward<A>(a)...); }, x...);
        return *this;
    }
    template<typename F, typename... X>
    class_& def(init_f<F> i, const X&... x) {
        add_init_lambda(i.f, &F::operator(), x...);
        return *this;
    }
    template<typename F, typename... X>
    class_& def_static(const char* name, F f, const X&... x) {
        overload o = describe<void>(f);
        (extra(o, x), ...);
        auto* c = slot(name);
        c->overloads.push_back(o);
        if (c->overloads.size() > 1) return *this;
        PyObject* fn = make_function(c);
        PyObject* sm = PyStaticMethod_New(fn);
        PyObject_SetAttrString(p_, name, sm);
        Py_DECREF(sm);
        Py_DECREF(fn);
        return *this;
    }
    template<typename F, typename... X>
    class_& def_property_readonly(const char* name, F f, const X&... x) {
        overload o = describe<T>(f);
        o.policy = return_value_policy::reference_internal;
        (extra(o, x), ...);
        o.method = true;
        auto* c = new callable{name, {}, {}};
        c->overloads.push_back(o);
        PyObject* fn = make_function(c);
        PyObject* pr = PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), fn, nullptr);
        PyObject_SetAttrString(p_, name, pr);
        Py_XDECREF(pr);
        Py_DECREF(fn);
        return *this;
    }
};

template<typename T>
class enum_ {
    PyObject* m_;
    std::string name_;
    std::vector<std::pair<std::string, long long>> values_;
    bool export_ = false;
    bool done_ = false;

public:
    template<typename... X>
    enum_(module_& m, const char* name, const X&...) : m_(m.ptr()), name_(name) {}
    enum_& value(const char* n, T v, const char* = nullptr) {
        values_.emplace_back(n, static_cast<long long>(v));
        return *this;
    }
    enum_& export_values() {
        export_ = true;
        return *this;
    }
    ~enum_() {
        PyObject* em = PyImport_ImportModule("enum");
        PyObject* ec = PyObject_GetAttrString(em, "Enum");
        PyObject* d = PyDict_New();
        for (auto& [n, v] : values_) {
            PyObject* i = PyLong_FromLongLong(v);
            PyDict_SetItemString(d, n.c_str(), i);
            Py_DECREF(i);
        }
        PyObject* e = PyObject_CallFunction(ec, "sO", name_.c_str(), d);
        Py_DECREF(d);
        Py_DECREF(ec);
        Py_DECREF(em);
        if (!e) return;
        enums()[typeid(T)] = e;
        Py_INCREF(e);
        PyModule_AddObject(m_, name_.c_str(), e);
        if (export_)
            for (auto& [n, v] : values_) PyModule_AddObject(m_, n.c_str(), PyObject_GetAttrString(e, n.c_str()));
    }
};

} // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                                                              \
    static void pybind11_fill(pybind11::module_&);                                                             \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() {                              \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject* p = PyModule_Create(&def);                                                                   \
        pybind11::module_ m(p, pybind11::object::borrow{});                                                    \
        try {                                                                                                  \
            pybind11_fill(m);                                                                                  \
        } catch (pybind11::error_already_set&) {                                                               \
            return nullptr;                                                                                    \
        } catch (const std::exception& e) {                                                                    \
            PyErr_SetString(PyExc_ImportError, e.what());                                                      \
            return nullptr;                                                                                    \
        }                                                                                                      \
        return p;                                                                                              \
    }                                                                                                          \
    static void pybind11_fill(pybind11::module_& VAR)
