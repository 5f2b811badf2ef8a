// A small stand-in for pybind11 (which is not installed here), written on the CPython API, so that
// /repo/src/wrapper.cpp can be compiled unmodified and imported by /repo/python/tinyfk.  It follows
// pybind11's documented behaviour for the features such a binding uses: classes, enums, overloads,
// keyword and default arguments, properties, conversion of numbers, strings, sequences, arrays,
// tuples and Eigen matrices, and the translation of C++ exceptions.
#pragma once
#include <Python.h>
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

// ------------------------------------------------------------------ objects
class handle {
protected:
  PyObject *p_ = nullptr;
public:
  handle() = default;
  handle(PyObject *p) : p_(p) {}
  PyObject *ptr() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  const handle &inc_ref() const { Py_XINCREF(p_); return *this; }
  const handle &dec_ref() const { Py_XDECREF(p_); return *this; }
  bool is_none() const { return p_ == Py_None; }
  template <class T> T cast() const;
};
class object : public handle {
public:
  object() = default;
  object(const object &o) : handle(o) { inc_ref(); }
  object(object &&o) noexcept { p_ = o.p_; o.p_ = nullptr; }
  ~object() { dec_ref(); }
  object &operator=(object o) { std::swap(p_, o.p_); return *this; }
  handle release() { PyObject *t = p_; p_ = nullptr; return handle(t); }
  static object steal(PyObject *p) { object o; o.p_ = p; return o; }
  static object borrow(PyObject *p) { Py_XINCREF(p); return steal(p); }
};
template <class T> T reinterpret_steal(handle h) { T t; static_cast<object &>(t) = object::steal(h.ptr()); return t; }
template <class T> T reinterpret_borrow(handle h) { T t; static_cast<object &>(t) = object::borrow(h.ptr()); return t; }

class error_already_set : public std::runtime_error {
public:
  error_already_set() : std::runtime_error("python error") {}
};
class value_error : public std::runtime_error { public: using std::runtime_error::runtime_error; value_error() : std::runtime_error("") {} };
class index_error : public std::runtime_error { public: using std::runtime_error::runtime_error; index_error() : std::runtime_error("") {} };
class key_error : public std::runtime_error { public: using std::runtime_error::runtime_error; key_error() : std::runtime_error("") {} };
class type_error : public std::runtime_error { public: using std::runtime_error::runtime_error; type_error() : std::runtime_error("") {} };
class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; cast_error() : std::runtime_error("") {} };

inline object check(PyObject *p) { if (!p) throw error_already_set(); return object::steal(p); }

class str : public object { public: str() = default; str(const std::string &s) : object(check(PyUnicode_FromStringAndSize(s.data(), s.size()))) {} str(const char *s) : str(std::string(s)) {} };
struct none : object { none() : object(object::borrow(Py_None)) {} };

enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <class...> struct call_guard {};
template <size_t, size_t> struct keep_alive {};
struct doc { const char *s; doc(const char *x) : s(x) {} };
struct is_operator {};
struct module_local { module_local(bool = true) {} };
struct dynamic_attr {};
struct arithmetic {};
struct kw_only {};
struct pos_only {};

// ------------------------------------------------------------------ conversions
namespace detail {

template <class T> struct plain { using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type; };
template <class T> using plain_t = typename plain<T>::type;

struct instance { PyObject_HEAD void *value; void (*del)(void *); };
inline std::unordered_map<std::type_index, PyTypeObject *> &types() { static std::unordered_map<std::type_index, PyTypeObject *> t; return t; }

struct no_match {};  // thrown by a conversion that does not apply

// value semantics: from Python by value, to Python as a new object
template <class T, class = void> struct conv {
  // a registered class
  static bool held(PyObject *o) {
    auto it = types().find(typeid(T));
    return it != types().end() && PyObject_TypeCheck(o, it->second) && reinterpret_cast<instance *>(o)->value;
  }
  static T &ref(PyObject *o) { if (!held(o)) throw no_match(); return *static_cast<T *>(reinterpret_cast<instance *>(o)->value); }
  static T from(PyObject *o) { return ref(o); }
  static PyObject *to(T v) {
    auto it = types().find(typeid(T));
    if (it == types().end()) { PyErr_SetString(PyExc_TypeError, "unregistered type"); return nullptr; }
    PyObject *o = it->second->tp_alloc(it->second, 0);
    if (!o) return nullptr;
    reinterpret_cast<instance *>(o)->value = new T(std::move(v));
    reinterpret_cast<instance *>(o)->del = [](void *p) { delete static_cast<T *>(p); };
    return o;
  }
};

template <> struct conv<bool> {
  static bool from(PyObject *o) {
    if (o == Py_True) return true;
    if (o == Py_False) return false;
    if (std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool_") == 0 || std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool") == 0) return PyObject_IsTrue(o) == 1;
    throw no_match();
  }
  static PyObject *to(bool b) { return PyBool_FromLong(b); }
};
template <class T> struct conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static T from(PyObject *o) {
    if (PyFloat_Check(o)) throw no_match();
    PyObject *i = PyNumber_Index(o);
    if (!i) { PyErr_Clear(); throw no_match(); }
    object hold = object::steal(i);
    if (std::is_unsigned<T>::value) {
      unsigned long long v = PyLong_AsUnsignedLongLong(i);
      if (PyErr_Occurred() || v != static_cast<unsigned long long>(static_cast<T>(v))) { PyErr_Clear(); throw no_match(); }
      return static_cast<T>(v);
    }
    long long v = PyLong_AsLongLong(i);
    if (PyErr_Occurred() || v != static_cast<long long>(static_cast<T>(v))) { PyErr_Clear(); throw no_match(); }
    return static_cast<T>(v);
  }
  static PyObject *to(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); }
};
template <class T> struct conv<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static T from(PyObject *o) {
    double d = PyFloat_AsDouble(o);
    if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); throw no_match(); }
    return static_cast<T>(d);
  }
  static PyObject *to(T v) { return PyFloat_FromDouble(v); }
};
template <> struct conv<std::string> {
  static std::string from(PyObject *o) {
    if (PyUnicode_Check(o)) {
      Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n);
      if (!s) { PyErr_Clear(); throw no_match(); }
      return std::string(s, n);
    }
    if (PyBytes_Check(o)) return std::string(PyBytes_AsString(o), PyBytes_Size(o));
    throw no_match();
  }
  static PyObject *to(const std::string &s) { return PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr); }
};
template <> struct conv<const char *> {
  static PyObject *to(const char *s) { return PyUnicode_FromString(s); }
};
template <class T> struct conv<T, typename std::enable_if<std::is_base_of<handle, T>::value>::type> {
  static T from(PyObject *o) { return reinterpret_borrow<T>(handle(o)); }
  static PyObject *to(const T &t) { Py_XINCREF(t.ptr()); return t.ptr(); }
};

inline object as_sequence(PyObject *o) {
  if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) throw no_match();
  PyObject *s = PySequence_Fast(o, "sequence");
  if (!s) { PyErr_Clear(); throw no_match(); }
  return object::steal(s);
}
template <class T> struct conv<std::vector<T>> {
  static std::vector<T> from(PyObject *o) {
    object s = as_sequence(o);
    std::vector<T> v; Py_ssize_t n = PySequence_Fast_GET_SIZE(s.ptr());
    v.reserve(n);
    for (Py_ssize_t i = 0; i < n; i++) v.push_back(conv<T>::from(PySequence_Fast_GET_ITEM(s.ptr(), i)));
    return v;
  }
  static PyObject *to(const std::vector<T> &v) {
    PyObject *l = PyList_New(v.size());
    for (size_t i = 0; i < v.size(); i++) { PyObject *x = conv<T>::to(v[i]); if (!x) { Py_DECREF(l); return nullptr; } PyList_SET_ITEM(l, i, x); }
    return l;
  }
};
template <class T, size_t N> struct conv<std::array<T, N>> {
  static std::array<T, N> from(PyObject *o) {
    object s = as_sequence(o);
    if (PySequence_Fast_GET_SIZE(s.ptr()) != Py_ssize_t(N)) throw no_match();
    std::array<T, N> v;
    for (size_t i = 0; i < N; i++) v[i] = conv<T>::from(PySequence_Fast_GET_ITEM(s.ptr(), i));
    return v;
  }
  static PyObject *to(const std::array<T, N> &v) {
    PyObject *l = PyList_New(N);
    for (size_t i = 0; i < N; i++) { PyObject *x = conv<T>::to(v[i]); if (!x) { Py_DECREF(l); return nullptr; } PyList_SET_ITEM(l, i, x); }
    return l;
  }
};
template <class A, class B> struct conv<std::pair<A, B>> {
  static std::pair<A, B> from(PyObject *o) {
    object s = as_sequence(o);
    if (PySequence_Fast_GET_SIZE(s.ptr()) != 2) throw no_match();
    return {conv<A>::from(PySequence_Fast_GET_ITEM(s.ptr(), 0)), conv<B>::from(PySequence_Fast_GET_ITEM(s.ptr(), 1))};
  }
  static PyObject *to(const std::pair<A, B> &v) {
    PyObject *a = conv<A>::to(v.first), *b = conv<B>::to(v.second);
    if (!a || !b) { Py_XDECREF(a); Py_XDECREF(b); return nullptr; }
    PyObject *t = PyTuple_New(2);
    PyTuple_SET_ITEM(t, 0, a); PyTuple_SET_ITEM(t, 1, b);
    return t;
  }
};
template <class... T> struct conv<std::tuple<T...>> {
  template <size_t... I> static std::tuple<T...> get(PyObject *s, std::index_sequence<I...>) { return std::tuple<T...>{conv<T>::from(PySequence_Fast_GET_ITEM(s, I))...}; }
  static std::tuple<T...> from(PyObject *o) {
    object s = as_sequence(o);
    if (PySequence_Fast_GET_SIZE(s.ptr()) != sizeof...(T)) throw no_match();
    return get(s.ptr(), std::index_sequence_for<T...>());
  }
  template <size_t... I> static PyObject *put(const std::tuple<T...> &v, std::index_sequence<I...>) {
    PyObject *x[] = {conv<T>::to(std::get<I>(v))..., nullptr};
    PyObject *t = PyTuple_New(sizeof...(T));
    for (size_t i = 0; i < sizeof...(T); i++) { if (!x[i]) { Py_DECREF(t); return nullptr; } PyTuple_SET_ITEM(t, i, x[i]); }
    return t;
  }
  static PyObject *to(const std::tuple<T...> &v) { return put(v, std::index_sequence_for<T...>()); }
};
template <class M, class K, class V> struct map_conv {
  static M from(PyObject *o) {
    if (!PyDict_Check(o)) throw no_match();
    M m; PyObject *k, *v; Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &v)) m.emplace(conv<K>::from(k), conv<V>::from(v));
    return m;
  }
  static PyObject *to(const M &m) {
    PyObject *d = PyDict_New();
    for (auto &kv : m) { PyObject *k = conv<K>::to(kv.first), *v = conv<V>::to(kv.second); PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); }
    return d;
  }
};
template <class K, class V> struct conv<std::map<K, V>> : map_conv<std::map<K, V>, K, V> {};
template <class K, class V> struct conv<std::unordered_map<K, V>> : map_conv<std::unordered_map<K, V>, K, V> {};

// arguments: references to registered classes alias the object, everything else is held by value
template <class T, class = void> struct holder { T v; void load(PyObject *o) { v = conv<T>::from(o); } T &get() { return v; } };
template <class T> struct by_ref { T *p; void load(PyObject *o) { p = &conv<T>::ref(o); } T &get() { return *p; } };
template <class T> class has_ref { template <class U> static char t(decltype(&conv<U>::ref)); template <class U> static long t(...); public: static const bool value = sizeof(t<T>(nullptr)) == 1; };
template <class T> using hold = typename std::conditional<has_ref<T>::value && std::is_class<T>::value, by_ref<T>, holder<T>>::type;
// a pointer argument
template <class A> struct arg_of { hold<plain_t<A>> h; void load(PyObject *o) { h.load(o); } A get() { return static_cast<A>(h.get()); } };
template <class T> struct arg_of<T *> { T *p; void load(PyObject *o) { p = o == Py_None ? nullptr : &conv<plain_t<T>>::ref(o); } T *get() { return p; } };
template <class T> struct arg_of<T &&> { hold<T> h; void load(PyObject *o) { h.load(o); } T &&get() { return std::move(h.get()); } };

template <class R> struct ret { static PyObject *to(R r) { return conv<plain_t<R>>::to(std::forward<R>(r)); } };

// ------------------------------------------------------------------ functions
struct arg_spec { std::string name; object value; bool has = false; };
struct record {
  std::function<PyObject *(PyObject **, size_t)> call;
  size_t n = 0;
  std::vector<arg_spec> args;  // without self
  bool method = false;
};
struct function_set { std::string name; std::vector<record> alts; PyMethodDef def; };

inline void translate() {
  try { throw; }
  catch (error_already_set &) {}
  catch (const value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const key_error &e) { PyErr_SetString(PyExc_KeyError, e.what()); }
  catch (const type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
  catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
  catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw) {
  auto *fs = static_cast<function_set *>(PyCapsule_GetPointer(self, "mini"));
  size_t given = PyTuple_GET_SIZE(args);
  for (auto &r : fs->alts) {
    if (given > r.n) continue;
    std::vector<PyObject *> v(r.n, nullptr);
    for (size_t i = 0; i < given; i++) v[i] = PyTuple_GET_ITEM(args, i);
    size_t used = 0; bool ok = true;
    size_t first = r.method ? 1 : 0;
    for (size_t i = given; i < r.n && ok; i++) {
      PyObject *x = nullptr;
      if (i >= first && i - first < r.args.size()) {
        auto &a = r.args[i - first];
        if (kw && !a.name.empty()) { x = PyDict_GetItemString(kw, a.name.c_str()); if (x) used++; }
        if (!x && a.has) x = a.value.ptr();
      }
      if (!x) ok = false;
      v[i] = x;
    }
    if (!ok || (kw && used != size_t(PyDict_Size(kw)))) continue;
    try { return r.call(v.data(), r.n); }
    catch (const no_match &) { continue; }
    catch (...) { translate(); return nullptr; }
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", fs->name.c_str());
  return nullptr;
}

template <class F, class R, class... A> struct invoker {
  template <size_t... I> static PyObject *go(F &f, PyObject **v, std::index_sequence<I...>, std::false_type) {
    std::tuple<arg_of<A>...> t;
    int dummy[] = {0, (std::get<I>(t).load(v[I]), 0)...}; (void)dummy;
    return ret<R>::to(f(std::get<I>(t).get()...));
  }
  template <size_t... I> static PyObject *go(F &f, PyObject **v, std::index_sequence<I...>, std::true_type) {
    std::tuple<arg_of<A>...> t;
    int dummy[] = {0, (std::get<I>(t).load(v[I]), 0)...}; (void)dummy;
    f(std::get<I>(t).get()...);
    Py_RETURN_NONE;
  }
};
template <class R, class... A, class F> record make_record(F f) {
  record r; r.n = sizeof...(A);
  auto shared = std::make_shared<F>(std::move(f));
  r.call = [shared](PyObject **v, size_t) { return invoker<F, R, A...>::go(*shared, v, std::index_sequence_for<A...>(), std::is_void<R>()); };
  return r;
}
// callables: free functions, members (object first), lambdas
template <class C, class R, class... A> record rec(R (*f)(A...)) { return make_record<R, A...>(f); }
template <class C, class R, class B, class... A> record rec(R (B::*f)(A...)) { return make_record<R, C &, A...>([f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); }
template <class C, class R, class B, class... A> record rec(R (B::*f)(A...) const) { return make_record<R, C &, A...>([f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); }
template <class L, class R, class... A> record lam(L l, R (L::*)(A...) const) { return make_record<R, A...>(std::move(l)); }
template <class L, class R, class... A> record lam(L l, R (L::*)(A...)) { return make_record<R, A...>(std::move(l)); }
template <class C, class L, class = decltype(&L::operator())> record rec(L l) { auto op = &L::operator(); return lam<L>(std::move(l), op); }

}  // namespace detail

template <class T> T handle::cast() const { try { return detail::conv<T>::from(p_); } catch (const detail::no_match &) { throw cast_error("cast"); } }
template <class T> object cast(T &&t) { return check(detail::conv<detail::plain_t<T>>::to(std::forward<T>(t))); }
template <class T> object cast(T &&t, return_value_policy) { return cast(std::forward<T>(t)); }
template <class T> T cast(const handle &h) { return h.cast<T>(); }

struct arg_v;
struct arg {
  const char *name;
  constexpr explicit arg(const char *n = nullptr) : name(n) {}
  template <class T> arg_v operator=(T &&v) const;
  arg &noconvert(bool = true) { return *this; }
  arg &none(bool = true) { return *this; }
};
struct arg_v : arg { object value; arg_v(const char *n, object v) : arg(n), value(std::move(v)) {} };
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(name, pybind11::cast(std::forward<T>(v))); }
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }

namespace detail {
inline void extra(record &r, const arg &a) { arg_spec s; s.name = a.name ? a.name : ""; r.args.push_back(s); }
inline void extra(record &r, const arg_v &a) { arg_spec s; s.name = a.name ? a.name : ""; s.value = a.value; s.has = true; r.args.push_back(s); }
template <class T> void extra(record &, const T &) {}

inline object make_function(function_set *fs) {
  object cap = check(PyCapsule_New(fs, "mini", nullptr));
  fs->def = PyMethodDef{fs->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
  return check(PyCFunction_New(&fs->def, cap.ptr()));
}
}  // namespace detail

// ------------------------------------------------------------------ modules, classes, enums
class module_ : public object {
public:
  module_() = default;
  struct doc_proxy { PyObject *m; doc_proxy &operator=(const char *s) { PyObject *d = PyUnicode_FromString(s); PyObject_SetAttrString(m, "__doc__", d); Py_DECREF(d); return *this; } };
  doc_proxy doc() { return doc_proxy{p_}; }
  struct attr_proxy {
    PyObject *m; std::string n;
    template <class T> attr_proxy &operator=(T &&v) { object o = pybind11::cast(std::forward<T>(v)); PyObject_SetAttrString(m, n.c_str(), o.ptr()); return *this; }
  };
  attr_proxy attr(const char *n) { return attr_proxy{p_, n}; }
  template <class F, class... E> module_ &def(const char *name, F f, const E &...e) {
    static std::map<std::pair<PyObject *, std::string>, detail::function_set *> known;
    auto &fs = known[{p_, name}];
    bool fresh = !fs;
    if (fresh) { fs = new detail::function_set; fs->name = name; }
    auto r = detail::rec<void>(f);
    int dummy[] = {0, (detail::extra(r, e), 0)...}; (void)dummy;
    fs->alts.push_back(r);
    if (fresh) PyObject_SetAttrString(p_, name, detail::make_function(fs).ptr());
    return *this;
  }
};
using module = module_;

template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f { F f; };
template <class F, class = decltype(&F::operator())> init_f<F> init(F f) { return {f}; }
template <class R, class... A> init_f<R (*)(A...)> init(R (*f)(A...)) { return {f}; }
template <class G, class S> struct pickle_t { G g; S s; };
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }

template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

template <class T, class... Bases> class class_ : public object {
  std::map<std::string, detail::function_set *> sets_;
  static PyObject *tp_new(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
  static void dealloc(PyObject *o) {
    auto *i = reinterpret_cast<detail::instance *>(o);
    if (i->value) i->del(i->value);
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
  }
  static void put(PyObject *self, T *v) {
    auto *i = reinterpret_cast<detail::instance *>(self);
    if (i->value) i->del(i->value);
    i->value = v;
    i->del = [](void *p) { delete static_cast<T *>(p); };
  }
  void add(const char *name, detail::record r, bool is_static = false) {
    auto &fs = sets_[name];
    bool fresh = !fs;
    if (fresh) { fs = new detail::function_set; fs->name = name; }
    r.method = !is_static;
    fs->alts.push_back(std::move(r));
    if (fresh) {
      object f = detail::make_function(fs);
      object b = is_static ? check(PyStaticMethod_New(f.ptr())) : check(PyInstanceMethod_New(f.ptr()));
      if (PyObject_SetAttrString(p_, name, b.ptr())) throw error_already_set();
    }
  }
  object getter(const char *name, detail::record r) {
    auto *fs = new detail::function_set; fs->name = name; r.method = true; fs->alts.push_back(std::move(r));
    return detail::make_function(fs);
  }
  void property(const char *name, object get, object set) {
    object prop = check(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get.ptr(), set ? set.ptr() : Py_None, nullptr));
    if (PyObject_SetAttrString(p_, name, prop.ptr())) throw error_already_set();
  }
public:
  template <class... E> class_(module_ &m, const char *name, const E &...) {
    std::string full = std::string(PyModule_GetName(m.ptr())) + "." + name;
    PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void *>(&tp_new)}, {Py_tp_dealloc, reinterpret_cast<void *>(&dealloc)}, {0, nullptr}};
    char *keep = strdup(full.c_str());
    PyType_Spec spec = {keep, sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HEAPTYPE | Py_TPFLAGS_BASETYPE, slots};
    static_cast<object &>(*this) = check(PyType_FromSpec(&spec));
    detail::types()[typeid(T)] = reinterpret_cast<PyTypeObject *>(p_);
    PyObject_SetAttrString(m.ptr(), name, p_);
  }
  template <class... A, class... E> class_ &def(init_t<A...>, const E &...e) {
    detail::record r = detail::make_record<void, handle, A...>([](handle self, A... a) { put(self.ptr(), new T(std::forward<A>(a)...)); });
    int dummy[] = {0, (detail::extra(r, e), 0)...}; (void)dummy;
    add("__init__", r);
    return *this;
  }
  static T *own(T v) { return new T(std::move(v)); }
  static T *own(T *v) { return v; }
  static T *own(std::unique_ptr<T> v) { return v.release(); }
  template <class F, class R, class... A, class... E> void def_factory(F f, R (F::*)(A...) const, const E &...e) {
    detail::record r = detail::make_record<void, handle, A...>([f](handle self, A... a) { put(self.ptr(), own(f(std::forward<A>(a)...))); });
    int dummy[] = {0, (detail::extra(r, e), 0)...}; (void)dummy;
    add("__init__", r);
  }
  template <class F, class... E> class_ &def(init_f<F> i, const E &...e) { def_factory(i.f, &F::operator(), e...); return *this; }
  template <class F, class... E> class_ &def(const char *name, F f, const E &...e) {
    detail::record r = detail::rec<T>(f);
    int dummy[] = {0, (detail::extra(r, e), 0)...}; (void)dummy;
    add(name, r);
    return *this;
  }
  template <class F, class... E> class_ &def_static(const char *name, F f, const E &...e) {
    detail::record r = detail::rec<T>(f);
    int dummy[] = {0, (detail::extra(r, e), 0)...}; (void)dummy;
    add(name, r, true);
    return *this;
  }
  template <class D, class B, class... E> class_ &def_readonly(const char *name, const D B::*m, const E &...) {
    property(name, getter(name, detail::make_record<D, T &>([m](T &t) -> D { return t.*m; })), object());
    return *this;
  }
  template <class D, class B, class... E> class_ &def_readwrite(const char *name, D B::*m, const E &...) {
    property(name, getter(name, detail::make_record<D, T &>([m](T &t) -> D { return t.*m; })),
             getter(name, detail::make_record<void, T &, const D &>([m](T &t, const D &d) { t.*m = d; })));
    return *this;
  }
  template <class F, class... E> class_ &def_property_readonly(const char *name, F f, const E &...) {
    property(name, getter(name, detail::rec<T>(f)), object());
    return *this;
  }
  template <class F, class G, class... E> class_ &def_property(const char *name, F f, G g, const E &...) {
    property(name, getter(name, detail::rec<T>(f)), getter(name, detail::rec<T>(g)));
    return *this;
  }
};

namespace detail {
template <class T> struct conv<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static T from(PyObject *o) {
    auto it = types().find(typeid(T));
    if (it == types().end() || !PyObject_TypeCheck(o, it->second)) throw no_match();
    return *static_cast<T *>(reinterpret_cast<instance *>(o)->value);
  }
  static PyObject *to(T v) {
    auto it = types().find(typeid(T));
    if (it == types().end()) { PyErr_SetString(PyExc_TypeError, "unregistered enum"); return nullptr; }
    PyObject *o = it->second->tp_alloc(it->second, 0);
    if (!o) return nullptr;
    reinterpret_cast<instance *>(o)->value = new T(v);
    reinterpret_cast<instance *>(o)->del = [](void *p) { delete static_cast<T *>(p); };
    return o;
  }
};
}  // namespace detail

template <class T> class enum_ : public object {
  PyObject *module_of_;
  static void dealloc(PyObject *o) {
    auto *i = reinterpret_cast<detail::instance *>(o);
    if (i->value) i->del(i->value);
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
  }
  static long num(PyObject *o) { return static_cast<long>(*static_cast<T *>(reinterpret_cast<detail::instance *>(o)->value)); }
  static PyObject *cmp(PyObject *a, PyObject *b, int op) {
    if (Py_TYPE(a) != Py_TYPE(b) || (op != Py_EQ && op != Py_NE)) { Py_RETURN_NOTIMPLEMENTED; }
    bool eq = num(a) == num(b);
    return PyBool_FromLong(op == Py_EQ ? eq : !eq);
  }
  static Py_hash_t hash(PyObject *a) { return num(a) + 1; }
  static PyObject *as_int(PyObject *a) { return PyLong_FromLong(num(a)); }
  std::vector<std::pair<std::string, object>> vals_;
public:
  template <class... E> enum_(module_ &m, const char *name, const E &...) : module_of_(m.ptr()) {
    std::string full = std::string(PyModule_GetName(m.ptr())) + "." + name;
    PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void *>(&dealloc)}, {Py_tp_richcompare, reinterpret_cast<void *>(&cmp)},
                           {Py_tp_hash, reinterpret_cast<void *>(&hash)}, {Py_nb_int, reinterpret_cast<void *>(&as_int)}, {0, nullptr}};
    PyType_Spec spec = {strdup(full.c_str()), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HEAPTYPE, slots};
    static_cast<object &>(*this) = check(PyType_FromSpec(&spec));
    detail::types()[typeid(T)] = reinterpret_cast<PyTypeObject *>(p_);
    PyObject_SetAttrString(m.ptr(), name, p_);
  }
  enum_ &value(const char *n, T v, const char * = nullptr) {
    object o = check(detail::conv<T>::to(v));
    PyObject_SetAttrString(p_, n, o.ptr());
    vals_.emplace_back(n, o);
    return *this;
  }
  enum_ &export_values() { for (auto &v : vals_) PyObject_SetAttrString(module_of_, v.first.c_str(), v.second.ptr()); return *this; }
};

namespace detail {
template <> struct conv<handle> { static handle from(PyObject *o) { return handle(o); } static PyObject *to(const handle &h) { Py_XINCREF(h.ptr()); return h.ptr(); } };
}
}  // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                                                   \
  static void mini_init_##NAME(pybind11::module_ &);                                                 \
  static PyModuleDef mini_def_##NAME = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##NAME() {                      \
    PyObject *m = PyModule_Create(&mini_def_##NAME);                                                 \
    if (!m) return nullptr;                                                                          \
    auto mod = pybind11::reinterpret_borrow<pybind11::module_>(pybind11::handle(m));                 \
    try { mini_init_##NAME(mod); } catch (...) { pybind11::detail::translate(); return nullptr; }    \
    return m;                                                                                        \
  }                                                                                                  \
  static void mini_init_##NAME(pybind11::module_ &VAR)
