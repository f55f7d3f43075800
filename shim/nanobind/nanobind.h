// Minimal stand-in for nanobind over the CPython C API, written so that the
// REAL sources under /repo/cpp_source compile unchanged in this offline
// sandbox (nanobind itself is not installed). Only what those sources use.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <Eigen/Core>
#include <Eigen/Sparse>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

namespace nanobind {

struct py_error : std::exception { const char *what() const noexcept override { return "python error"; } };
struct cast_error : std::exception { const char *what() const noexcept override { return "bad cast"; } };

// ---- owned reference
struct object {
  PyObject *p = nullptr;
  object() = default;
  static object steal(PyObject *q) { if (!q) throw py_error(); object o; o.p = q; return o; }
  static object borrow(PyObject *q) { Py_XINCREF(q); object o; o.p = q; return o; }
  object(const object &o) : p(o.p) { Py_XINCREF(p); }
  object(object &&o) noexcept : p(o.p) { o.p = nullptr; }
  object &operator=(object o) { std::swap(p, o.p); return *this; }
  ~object() { Py_XDECREF(p); }
  PyObject *release() { auto q = p; p = nullptr; return q; }
  object attr_get(const char *n) const { return steal(PyObject_GetAttrString(p, n)); }
  bool is_valid() const { return p != nullptr; }
};
struct tuple : object {
  tuple() = default;
  explicit tuple(object o) : object(std::move(o)) {}
  size_t size() const { return (size_t)PyTuple_Size(p); }
  object operator[](size_t i) const { auto q = PyTuple_GetItem(p, (Py_ssize_t)i); if (!q) throw py_error(); return borrow(q); }
};

template <class... A> object call(const object &f, A... a) {
  return object::steal(PyObject_CallFunctionObjArgs(f.p, a.p..., nullptr));
}
inline object import_(const char *m) { return object::steal(PyImport_ImportModule(m)); }

// ---- registries
struct TypeInfo { PyTypeObject *type = nullptr; size_t size = 0, align = 0; void (*dtor)(void *) = nullptr; };
inline std::map<std::type_index, TypeInfo> &types() { static std::map<std::type_index, TypeInfo> t; return t; }
inline std::map<std::type_index, object> &enums() { static auto *t = new std::map<std::type_index, object>(); return *t; }

struct Instance { PyObject_HEAD void *ptr; bool ready; void (*dtor)(void *); };

inline void inst_dealloc(PyObject *self) {
  auto *i = (Instance *)self;
  if (i->ptr) { if (i->ready && i->dtor) i->dtor(i->ptr); free(i->ptr); }
  PyTypeObject *tp = Py_TYPE(self);
  tp->tp_free(self);
  Py_DECREF(tp);
}
template <class T> void *alloc_for() {
  size_t al = alignof(T) < 64 ? 64 : alignof(T);
  size_t n = (sizeof(T) + al - 1) / al * al;
  void *q = aligned_alloc(al, n);
  std::memset(q, 0, n);
  return q;
}
template <class T> PyObject *inst_new(PyTypeObject *tp, PyObject *, PyObject *) {
  auto *self = (Instance *)tp->tp_alloc(tp, 0);
  if (!self) return nullptr;
  self->ptr = alloc_for<T>();
  self->ready = false;
  self->dtor = [](void *q) { ((T *)q)->~T(); };
  return (PyObject *)self;
}

// ---- casters: from(obj, convert) -> optional<holder>; to(value) -> PyObject*
template <class T, class = void> struct caster; // primary: bound class
template <class T> struct is_bound_holder { };

template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// bound classes (primary template)
template <class T, class> struct caster {
  using holder = T *;
  static bool from(PyObject *o, bool, holder &out) {
    auto it = types().find(typeid(T));
    if (it == types().end() || !PyObject_TypeCheck(o, it->second.type)) return false;
    auto *i = (Instance *)o;
    if (!i->ready) return false;
    out = (T *)i->ptr; return true;
  }
  static T &get(holder &h) { return *h; }
  static PyObject *to(const T &v) {
    auto it = types().find(typeid(T));
    if (it == types().end()) throw std::runtime_error("unregistered type");
    auto *tp = it->second.type;
    PyObject *o = tp->tp_new(tp, nullptr, nullptr);
    if (!o) throw py_error();
    auto *i = (Instance *)o;
    new (i->ptr) T(v); i->ready = true;
    return o;
  }
};
template <class T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  using holder = T;
  static bool from(PyObject *o, bool, holder &out) {
    if (PyFloat_Check(o) || PyBool_Check(o) ? PyFloat_Check(o) : false) return false;
    if (!PyIndex_Check(o)) return false;
    PyObject *n = PyNumber_Index(o);
    if (!n) { PyErr_Clear(); return false; }
    bool ok = true;
    if (std::is_unsigned_v<T>) {
      unsigned long long v = PyLong_AsUnsignedLongLong(n);
      if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
      else { out = (T)v; ok = ((unsigned long long)out == v); }
    } else {
      long long v = PyLong_AsLongLong(n);
      if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
      else { out = (T)v; ok = ((long long)out == v); }
    }
    Py_DECREF(n);
    return ok;
  }
  static T &get(holder &h) { return h; }
  static PyObject *to(T v) { return std::is_unsigned_v<T> ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); }
};
template <> struct caster<bool> {
  using holder = bool;
  static bool from(PyObject *o, bool, holder &out) {
    if (o == Py_True) { out = true; return true; }
    if (o == Py_False) { out = false; return true; }
    return false;
  }
  static bool &get(holder &h) { return h; }
  static PyObject *to(bool v) { return PyBool_FromLong(v); }
};
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using holder = T;
  static bool from(PyObject *o, bool, holder &out) {
    if (!PyFloat_Check(o) && !PyLong_Check(o) && !(Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_float)) return false;
    if (PyObject_HasAttrString(o, "ndim")) { /* numpy scalar or array: only 0-d */
      PyObject *nd = PyObject_GetAttrString(o, "ndim"); long d = nd ? PyLong_AsLong(nd) : 1; Py_XDECREF(nd); PyErr_Clear();
      if (d != 0) return false;
    }
    double v = PyFloat_AsDouble(o);
    if (PyErr_Occurred()) { PyErr_Clear(); return false; }
    out = (T)v; return true;
  }
  static T &get(holder &h) { return h; }
  static PyObject *to(T v) { return PyFloat_FromDouble((double)v); }
};
template <class T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  using holder = T;
  static bool from(PyObject *o, bool, holder &out) {
    auto it = enums().find(typeid(T));
    if (it == enums().end()) return false;
    if (PyObject_IsInstance(o, it->second.p) != 1) { PyErr_Clear(); return false; }
    object v = object::steal(PyObject_GetAttrString(o, "value"));
    out = (T)PyLong_AsLongLong(v.p); return true;
  }
  static T &get(holder &h) { return h; }
  static PyObject *to(T v) {
    auto &e = enums().at(typeid(T));
    return PyObject_CallFunction(e.p, "L", (long long)v);
  }
};
template <> struct caster<std::string> {
  using holder = std::string;
  static bool from(PyObject *o, bool, holder &out) {
    if (!PyUnicode_Check(o)) return false;
    Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) { PyErr_Clear(); return false; }
    out.assign(s, n); return true;
  }
  static std::string &get(holder &h) { return h; }
  static PyObject *to(const std::string &v) { return PyUnicode_FromStringAndSize(v.data(), v.size()); }
};
template <> struct caster<object> {
  using holder = object;
  static bool from(PyObject *o, bool, holder &out) { out = object::borrow(o); return true; }
  static object &get(holder &h) { return h; }
  static PyObject *to(const object &v) { Py_XINCREF(v.p); return v.p; }
};
template <> struct caster<tuple> {
  using holder = tuple;
  static bool from(PyObject *o, bool, holder &out) { if (!PyTuple_Check(o)) return false; out = tuple(object::borrow(o)); return true; }
  static tuple &get(holder &h) { return h; }
  static PyObject *to(const tuple &v) { Py_XINCREF(v.p); return v.p; }
};
template <class T, class A> struct caster<std::vector<T, A>> {
  using holder = std::vector<T, A>;
  static bool from(PyObject *o, bool conv, holder &out) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o)) return false;
    object f = object::borrow(PySequence_Fast(o, "seq"));
    if (!f.p) { PyErr_Clear(); return false; }
    Py_DECREF(f.p);
    Py_ssize_t n = PySequence_Fast_GET_SIZE(f.p);
    out.clear(); out.reserve(n);
    for (Py_ssize_t i = 0; i < n; i++) {
      typename caster<T>::holder h{};
      if (!caster<T>::from(PySequence_Fast_GET_ITEM(f.p, i), conv, h)) return false;
      out.push_back(caster<T>::get(h));
    }
    return true;
  }
  static holder &get(holder &h) { return h; }
  static PyObject *to(const holder &v) {
    PyObject *l = PyList_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyList_SET_ITEM(l, i, caster<T>::to(v[i]));
    return l;
  }
};
template <class A, class B> struct caster<std::pair<A, B>> {
  using holder = std::pair<A, B>;
  static bool from(PyObject *o, bool conv, holder &out) {
    if (!PySequence_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
    object a = object::steal(PySequence_GetItem(o, 0)), b = object::steal(PySequence_GetItem(o, 1));
    typename caster<A>::holder ha{}; typename caster<B>::holder hb{};
    if (!caster<A>::from(a.p, conv, ha) || !caster<B>::from(b.p, conv, hb)) return false;
    out = holder(caster<A>::get(ha), caster<B>::get(hb)); return true;
  }
  static holder &get(holder &h) { return h; }
  static PyObject *to(const holder &v) {
    PyObject *t = PyTuple_New(2);
    PyTuple_SET_ITEM(t, 0, caster<A>::to(v.first)); PyTuple_SET_ITEM(t, 1, caster<B>::to(v.second));
    return t;
  }
};
template <class K, class V> struct caster<std::map<K, V>> {
  using holder = std::map<K, V>;
  static PyObject *to(const holder &m) {
    PyObject *d = PyDict_New();
    for (auto &kv : m) { PyObject *k = caster<K>::to(kv.first), *v = caster<V>::to(kv.second); PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); }
    return d;
  }
};
template <class... Ts> struct caster<std::tuple<Ts...>> {
  struct holder { std::tuple<typename caster<Ts>::holder...> hs; std::optional<std::tuple<Ts...>> v; };
  template <size_t... I> static bool from_(PyObject *o, bool conv, holder &h, std::index_sequence<I...>) {
    bool ok = true;
    ((ok = ok && [&] { object e = object::steal(PySequence_GetItem(o, I)); return caster<Ts>::from(e.p, conv, std::get<I>(h.hs)); }()), ...);
    if (ok) h.v.emplace(caster<Ts>::get(std::get<I>(h.hs))...);
    return ok;
  }
  static bool from(PyObject *o, bool conv, holder &h) {
    if (!PySequence_Check(o) || PySequence_Size(o) != (Py_ssize_t)sizeof...(Ts)) { PyErr_Clear(); return false; }
    return from_(o, conv, h, std::index_sequence_for<Ts...>{});
  }
  static std::tuple<Ts...> &get(holder &h) { return *h.v; }
  template <size_t... I> static PyObject *to_(const std::tuple<Ts...> &v, std::index_sequence<I...>) {
    PyObject *t = PyTuple_New(sizeof...(Ts));
    (PyTuple_SET_ITEM(t, I, caster<Ts>::to(std::get<I>(v))), ...);
    return t;
  }
  static PyObject *to(const std::tuple<Ts...> &v) { return to_(v, std::index_sequence_for<Ts...>{}); }
};
template <class... Ts> struct caster<std::variant<Ts...>> {
  using holder = std::variant<Ts...>;
  template <class T> static bool try_(PyObject *o, bool conv, holder &out) {
    typename caster<T>::holder h{};
    if (!caster<T>::from(o, conv, h)) return false;
    out = caster<T>::get(h); return true;
  }
  static bool from(PyObject *o, bool conv, holder &out) {
    bool ok = false;
    ((ok = ok || try_<Ts>(o, false, out)), ...);
    if (!ok && conv) ((ok = ok || try_<Ts>(o, true, out)), ...);
    return ok;
  }
  static holder &get(holder &h) { return h; }
  static PyObject *to(const holder &v) {
    return std::visit([](auto &x) { return caster<bare<decltype(x)>>::to(x); }, v);
  }
};

// ---- numpy helpers via the python-level API and the buffer protocol
template <class T> const char *np_name() {
  if (std::is_same_v<T, double>) return "float64";
  if (std::is_same_v<T, float>) return "float32";
  if (std::is_same_v<T, int>) return "int32";
  return "int64";
}
inline object np() { return import_("numpy"); }
template <class T> object np_empty(const std::vector<Py_ssize_t> &shape, bool fortran = false) {
  object s = object::steal(PyTuple_New(shape.size()));
  for (size_t i = 0; i < shape.size(); i++) PyTuple_SET_ITEM(s.p, i, PyLong_FromSsize_t(shape[i]));
  return object::steal(PyObject_CallMethod(np().p, "empty", "Oss", s.p, np_name<T>(), fortran ? "F" : "C"));
}
struct Buf { Py_buffer b; bool ok = false; Buf(PyObject *o, int flags) { ok = PyObject_GetBuffer(o, &b, flags) == 0; if (!ok) PyErr_Clear(); } ~Buf() { if (ok) PyBuffer_Release(&b); } };
inline bool is_ndarray(PyObject *o) { object a = np().attr_get("ndarray"); return PyObject_IsInstance(o, a.p) == 1; }
inline bool has_dtype(PyObject *o, const char *name) {
  PyObject *d = PyObject_GetAttrString(o, "dtype"); if (!d) { PyErr_Clear(); return false; }
  object dd = object::steal(d); object n = object::steal(PyObject_GetAttrString(dd.p, "name"));
  return PyUnicode_CompareWithASCIIString(n.p, name) == 0;
}
template <class T> bool vec_from(PyObject *o, std::vector<T> &out) {
  PyObject *c = PyObject_CallMethod(np().p, "ascontiguousarray", "Os", o, np_name<T>());
  if (!c) { PyErr_Clear(); return false; }
  object cc = object::steal(c);
  Buf b(cc.p, PyBUF_CONTIG_RO | PyBUF_FORMAT);
  if (!b.ok || b.b.ndim != 1) return false;
  out.resize(b.b.shape[0]);
  if (b.b.len) std::memcpy(out.data(), b.b.buf, b.b.len);
  return true;
}
template <class T> object vec_to(const T *p, size_t n) {
  object a = np_empty<T>({(Py_ssize_t)n});
  Buf b(a.p, PyBUF_CONTIG);
  if (n) std::memcpy(b.b.buf, p, n * sizeof(T));
  return a;
}

// ---- Eigen dense (dynamic x dynamic)
template <class S, int R, int C, int O, int MR, int MC> struct caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using Mat = Eigen::Matrix<S, R, C, O, MR, MC>;
  using holder = Mat;
  static bool from(PyObject *o, bool conv, holder &out) {
    if (!is_ndarray(o)) return false;
    if (!conv && !has_dtype(o, np_name<S>())) return false;
    PyObject *c = PyObject_CallMethod(np().p, "ascontiguousarray", "Os", o, np_name<S>());
    if (!c) { PyErr_Clear(); return false; }
    object cc = object::steal(c);
    Buf b(cc.p, PyBUF_CONTIG_RO | PyBUF_FORMAT);
    if (!b.ok) return false;
    if constexpr (C == 1 || R == 1) {
      if (b.b.ndim != 1) return false;
      out.resize(b.b.shape[0]);
      std::memcpy((void *)out.data(), b.b.buf, b.b.len);
      return true;
    }
    if (b.b.ndim != 2) return false;
    using RM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
    out = Eigen::Map<const RM>((const S *)b.b.buf, b.b.shape[0], b.b.shape[1]);
    return true;
  }
  static Mat &get(holder &h) { return h; }
  static PyObject *to(const Mat &m) {
    if constexpr (C == 1 || R == 1) return vec_to<S>(m.data(), m.size()).release();
    object a = np_empty<S>({m.rows(), m.cols()});
    { Buf b(a.p, PyBUF_CONTIG);
      using RM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
      Eigen::Map<RM>((S *)b.b.buf, m.rows(), m.cols()) = m; }
    return a.release();
  }
};
// Eigen::Ref<RowMajor>: no conversion, writable C-contiguous view as nanobind
template <class Mat> struct caster<Eigen::Ref<Mat>> {
  using S = typename Mat::Scalar;
  struct holder { object keep; std::unique_ptr<Eigen::Ref<Mat>> ref; };
  static bool from(PyObject *o, bool, holder &h) {
    if (!is_ndarray(o) || !has_dtype(o, np_name<S>())) return false;
    Buf b(o, PyBUF_STRIDES | PyBUF_FORMAT);
    if (!b.ok || b.b.ndim != 2) return false;
    Py_ssize_t r = b.b.shape[0], c = b.b.shape[1];
    if (c > 1 && b.b.strides[1] != (Py_ssize_t)sizeof(S)) return false;
    Py_ssize_t os = b.b.strides[0] / (Py_ssize_t)sizeof(S);
    if (r > 1 && (os < c || os != c)) return false;
    h.keep = object::borrow(o);
    h.ref.reset(new Eigen::Ref<Mat>(Eigen::Map<Mat>((S *)b.b.buf, r, c)));
    return true;
  }
  static Eigen::Ref<Mat> &get(holder &h) { return *h.ref; }
};
// Eigen sparse
template <class S, int O, class I> struct caster<Eigen::SparseMatrix<S, O, I>> {
  using Mat = Eigen::SparseMatrix<S, O, I>;
  using holder = Mat;
  static constexpr bool row = (O & Eigen::RowMajorBit) != 0;
  static object cls() { return import_("scipy.sparse").attr_get(row ? "csr_matrix" : "csc_matrix"); }
  static bool from(PyObject *o, bool conv, holder &out) {
    object obj = object::borrow(o), k = cls();
    if ((PyObject *)Py_TYPE(o) != k.p) {
      if (!conv) return false;
      PyObject *c = PyObject_CallFunctionObjArgs(k.p, o, nullptr);
      if (!c) { PyErr_Clear(); return false; }
      obj = object::steal(c);
    }
    { PyObject *r = PyObject_CallMethod(obj.p, "sort_indices", nullptr); if (!r) { PyErr_Clear(); return false; } Py_DECREF(r); }
    object d = obj.attr_get("data"), ix = obj.attr_get("indices"), ip = obj.attr_get("indptr"), sh = obj.attr_get("shape");
    if (!conv && !has_dtype(d.p, np_name<S>())) return false;
    std::vector<S> data; std::vector<I> idx, ptr;
    if (!vec_from<S>(d.p, data) || !vec_from<I>(ix.p, idx) || !vec_from<I>(ip.p, ptr)) return false;
    Py_ssize_t r = PyLong_AsSsize_t(PyTuple_GetItem(sh.p, 0)), c = PyLong_AsSsize_t(PyTuple_GetItem(sh.p, 1));
    out = Eigen::Map<const Mat>(r, c, (I)data.size(), ptr.data(), idx.data(), data.data());
    return true;
  }
  static Mat &get(holder &h) { return h; }
  static PyObject *to(const Mat &m0) {
    Mat m(m0); m.makeCompressed();
    object d = vec_to<S>(m.valuePtr(), m.nonZeros()), ix = vec_to<I>(m.innerIndexPtr(), m.nonZeros()), ip = vec_to<I>(m.outerIndexPtr(), m.outerSize() + 1);
    object t = object::steal(PyTuple_Pack(3, d.p, ix.p, ip.p));
    object s = object::steal(Py_BuildValue("(nn)", (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols()));
    object k = cls();
    return PyObject_CallFunctionObjArgs(k.p, t.p, s.p, nullptr);
  }
};

template <class T> T cast(const object &o) {
  typename caster<T>::holder h{};
  if (!caster<T>::from(o.p, true, h)) throw cast_error();
  return caster<T>::get(h);
}
template <class... A> tuple make_tuple(const A &...a) {
  PyObject *t = PyTuple_New(sizeof...(A)); size_t i = 0;
  (PyTuple_SET_ITEM(t, i++, caster<bare<A>>::to(a)), ...);
  return tuple(object::steal(t));
}

// ---- arguments
struct arg_v { std::string name; object def; };
struct arg {
  std::string name;
  explicit arg(const char *n) : name(n) {}
  template <class T> arg_v operator=(T &&v) const { return {name, object::steal(caster<bare<T>>::to(v))}; }
};
struct ArgInfo { std::string name; object def; };

struct Overload {
  std::vector<ArgInfo> args; size_t n = 0; bool method = false;
  std::function<PyObject *(const std::vector<PyObject *> &, bool conv, bool &matched)> fn;
};
struct FuncRec { std::string name; std::vector<Overload> ov; PyMethodDef def; };

inline PyObject *translate() {
  try { throw; }
  catch (py_error &) { return nullptr; }
  catch (cast_error &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  return nullptr;
}
inline PyObject *dispatch(PyObject *cap, PyObject *args, PyObject *kw) {
  auto *rec = (FuncRec *)PyCapsule_GetPointer(cap, "shim.func");
  for (int conv = 0; conv < 2; conv++)
    for (auto &o : rec->ov) {
      Py_ssize_t np_ = PyTuple_GET_SIZE(args);
      if ((size_t)np_ > o.n) continue;
      std::vector<PyObject *> v(o.n, nullptr);
      for (Py_ssize_t i = 0; i < np_; i++) v[i] = PyTuple_GET_ITEM(args, i);
      size_t off = o.method ? 1 : 0, used = 0; bool bad = false;
      for (size_t i = np_; i < o.n; i++) {
        if (i < off || i - off >= o.args.size()) { bad = true; break; }
        auto &a = o.args[i - off];
        PyObject *k = kw ? PyDict_GetItemString(kw, a.name.c_str()) : nullptr;
        if (k) { v[i] = k; used++; } else if (a.def.p) v[i] = a.def.p; else { bad = true; break; }
      }
      if (bad || (kw && (size_t)PyDict_Size(kw) != used)) continue;
      bool matched = false; PyObject *r = nullptr;
      try { r = o.fn(v, conv, matched); } catch (...) { return translate(); }
      if (matched) return r;
    }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", rec->name.c_str());
  return nullptr;
}

template <class R> PyObject *to_py(R &&r) { return caster<bare<R>>::to(r); }

// generic invoker over callable F with signature R(A...)
template <class R, class... A> struct Inv {
  template <class F, size_t... I>
  static PyObject *go(F &f, const std::vector<PyObject *> &v, bool conv, bool &matched, std::index_sequence<I...>) {
    std::tuple<typename caster<bare<A>>::holder...> hs;
    bool ok = true;
    ((ok = ok && caster<bare<A>>::from(v[I], conv, std::get<I>(hs))), ...);
    if (!ok) return nullptr;
    matched = true;
    if constexpr (std::is_void_v<R>) { f(caster<bare<A>>::get(std::get<I>(hs))...); Py_RETURN_NONE; }
    else if constexpr (std::is_lvalue_reference_v<R>) {
      auto &r = f(caster<bare<A>>::get(std::get<I>(hs))...);
      for (PyObject *o : v) { // same C++ object as an argument: return that python object
        auto it = types().find(typeid(bare<R>));
        if (it != types().end() && PyObject_TypeCheck(o, it->second.type) && ((Instance *)o)->ptr == (void *)&r) { Py_INCREF(o); return o; }
      }
      return to_py(r);
    } else { return to_py(f(caster<bare<A>>::get(std::get<I>(hs))...)); }
  }
};
template <class F> struct sig;
template <class R, class... A> struct sig<R (*)(A...)> { template <class F> static Overload mk(F f) {
  Overload o; o.n = sizeof...(A);
  o.fn = [f](const std::vector<PyObject *> &v, bool c, bool &m) mutable { return Inv<R, A...>::go(f, v, c, m, std::index_sequence_for<A...>{}); };
  return o; } };
template <class R, class C, class... A> struct sig<R (C::*)(A...)> { 
  template <class T, class F> static Overload mem(F f) { return sig<R (*)(T &, A...)>::mk([f](T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }); }
  template <class F> static Overload mk(F f) { return sig<R (*)(A...)>::mk(f); } };
template <class R, class C, class... A> struct sig<R (C::*)(A...) const> {
  template <class T, class F> static Overload mem(F f) { return sig<R (*)(T &, A...)>::mk([f](T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }); }
  template <class F> static Overload mk(F f) { return sig<R (*)(A...)>::mk(f); } };

template <class T, class F> Overload make_overload(F f) {
  if constexpr (std::is_member_function_pointer_v<F>) return sig<F>::template mem<T>(f);
  else if constexpr (std::is_pointer_v<F>) return sig<F>::mk(f);
  else return sig<decltype(&F::operator())>::mk(f);
}
inline void add_arg(Overload &o, const arg &a) { o.args.push_back({a.name, object()}); }
inline void add_arg(Overload &o, const arg_v &a) { o.args.push_back({a.name, a.def}); }
inline void add_arg(Overload &, const char *) {}

inline std::map<std::pair<PyObject *, std::string>, FuncRec *> &recs() { static std::map<std::pair<PyObject *, std::string>, FuncRec *> r; return r; }
inline void install(PyObject *scope, const char *name, Overload o, bool method) {
  o.method = method;
  auto &slot = recs()[{scope, name}];
  if (slot) { slot->ov.push_back(std::move(o)); return; }
  slot = new FuncRec();
  slot->name = name; slot->ov.push_back(std::move(o));
  slot->def = {slot->name.c_str(), (PyCFunction)(void *)dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
  object cap = object::steal(PyCapsule_New(slot, "shim.func", nullptr));
  object f = object::steal(PyCFunction_NewEx(&slot->def, cap.p, nullptr));
  if (method) f = object::steal(PyInstanceMethod_New(f.p));
  if (PyObject_SetAttrString(scope, name, f.p)) throw py_error();
}

template <class... A> struct init {};

struct attr_proxy { PyObject *o; std::string n;
  template <class T> void operator=(const T &v) { object x = object::steal(caster<T>::to(v)); if (PyObject_SetAttrString(o, n.c_str(), x.p)) throw py_error(); } };
struct doc_proxy { PyObject *o; void operator=(const std::string &s) { object x = object::steal(PyUnicode_FromString(s.c_str())); PyObject_SetAttrString(o, "__doc__", x.p); } };
struct module_ {
  PyObject *p;
  template <class F, class... E> module_ &def(const char *name, F f, const E &...e) {
    Overload o = make_overload<void>(f); (add_arg(o, e), ...); install(p, name, std::move(o), false); return *this; }
  attr_proxy attr(const char *n) { return {p, n}; }
  doc_proxy doc() { return {p}; }
};

template <class T> struct class_ {
  PyTypeObject *tp;
  std::string qual;
  class_(module_ &m, const char *name) {
    qual = std::string(PyModule_GetName(m.p)) + "." + name;
    static PyType_Slot slots[] = {{Py_tp_new, (void *)inst_new<T>}, {Py_tp_dealloc, (void *)inst_dealloc}, {0, nullptr}};
    PyType_Spec spec = {strdup(qual.c_str()), sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    PyObject *t = PyType_FromSpec(&spec);
    if (!t) throw py_error();
    tp = (PyTypeObject *)t;
    types()[typeid(T)] = {tp, sizeof(T), alignof(T), nullptr};
    PyObject_SetAttrString(m.p, name, t);
  }
  template <class... A, class... E> class_ &def(init<A...>, const E &...e) {
    Overload o; o.n = sizeof...(A) + 1;
    o.fn = [](const std::vector<PyObject *> &v, bool conv, bool &matched) -> PyObject * {
      return mkinit<A...>(v, conv, matched, std::index_sequence_for<A...>{}); };
    (add_arg(o, e), ...);
    install((PyObject *)tp, "__init__", std::move(o), true);
    return *this;
  }
  template <class... A, size_t... I> static PyObject *mkinit(const std::vector<PyObject *> &v, bool conv, bool &matched, std::index_sequence<I...>) {
    std::tuple<typename caster<bare<A>>::holder...> hs;
    bool ok = true;
    ((ok = ok && caster<bare<A>>::from(v[I + 1], conv, std::get<I>(hs))), ...);
    if (!ok) return nullptr;
    matched = true;
    auto *self = (Instance *)v[0];
    if (self->ready) { self->dtor(self->ptr); self->ready = false; }
    new (self->ptr) T(caster<bare<A>>::get(std::get<I>(hs))...);
    self->ready = true;
    Py_RETURN_NONE;
  }
  template <class F, class... E> class_ &def(const char *name, F f, const E &...e) {
    Overload o = make_overload<T>(f); (add_arg(o, e), ...);
    if (!strcmp(name, "__setstate__")) {
      auto inner = o.fn;
      o.fn = [inner](const std::vector<PyObject *> &v, bool c, bool &m) -> PyObject * {
        auto *self = (Instance *)v[0]; bool was = self->ready;
        self->ready = true; // storage is there; the callable placement-constructs into it
        PyObject *r = nullptr;
        try { r = inner(v, c, m); } catch (...) { self->ready = was; throw; }
        if (!m) self->ready = was;
        return r; };
    }
    install((PyObject *)tp, name, std::move(o), true);
    return *this;
  }
  template <class D, class C> class_ &def_rw(const char *name, D C::*pm) {
    std::string g = std::string("_get_") + name, s = std::string("_set_") + name;
    install((PyObject *)tp, g.c_str(), sig<D (*)(T &)>::mk([pm](T &t) -> D { return t.*pm; }), true);
    install((PyObject *)tp, s.c_str(), sig<void (*)(T &, const D &)>::mk([pm](T &t, const D &v) { t.*pm = v; }), true);
    object b = import_("builtins").attr_get("property");
    object gf = object::steal(PyObject_GetAttrString((PyObject *)tp, g.c_str())), sf = object::steal(PyObject_GetAttrString((PyObject *)tp, s.c_str()));
    object pr = call(b, gf, sf);
    PyObject_SetAttrString((PyObject *)tp, name, pr.p);
    return *this;
  }
};
template <class T> struct enum_ {
  module_ m; std::string name; std::vector<std::pair<std::string, long long>> vals;
  enum_(module_ &m_, const char *n) : m(m_), name(n) {}
  enum_ &value(const char *n, T v) { vals.push_back({n, (long long)v}); build(); return *this; }
  void build() { // (re)create enum.Enum with the values so far
    object d = object::steal(PyDict_New());
    for (auto &x : vals) { object v = object::steal(PyLong_FromLongLong(x.second)); PyDict_SetItemString(d.p, x.first.c_str(), v.p); }
    object E = import_("enum").attr_get("Enum");
    object a = object::steal(Py_BuildValue("(sO)", name.c_str(), d.p)), k = object::steal(Py_BuildValue("{s:s}", "module", PyModule_GetName(m.p)));
    object e = object::steal(PyObject_Call(E.p, a.p, k.p));
    enums()[typeid(T)] = e;
    PyObject_SetAttrString(m.p, name.c_str(), e.p);
  }
};
} // namespace nanobind

#define NB_MODULE(name, var)                                                   \
  static void shim_init_##name(nanobind::module_ &var);                        \
  static PyModuleDef shim_def_##name = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr}; \
  extern "C" PyObject *PyInit_##name(void) {                                   \
    PyObject *m = PyModule_Create(&shim_def_##name);                           \
    if (!m) return nullptr;                                                    \
    nanobind::module_ mod{m};                                                  \
    try { shim_init_##name(mod); } catch (...) { if (!PyErr_Occurred()) nanobind::translate(); return nullptr; } \
    return m;                                                                  \
  }                                                                            \
  static void shim_init_##name(nanobind::module_ &var)
