// A model of the part of pybind11 that upd/python.hpp may use, small enough to be executed symbolically:
// Python values, calls, classes, conversions (with the range checks of pybind11) and reference counts.
#pragma once
#include <array>
#include <cstddef>
#include <cstring>
#include <functional>
#include <limits>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {
struct cast_error { const char *what; };        // RuntimeError: a C++ conversion asked for by C++ code
struct type_error { const char *what; };        // TypeError: arguments which fit no overload
struct import_error { const char *what; };
struct attribute_error { const char *what; };
struct stop_iteration {};
using size_t = std::size_t;
using ssize_t = std::ptrdiff_t;

class object;
using handle = object;
namespace model {
enum kind { NONE, BOOL, INT, ENUM, BYTES, LIST, FUNC, BOUND, INST, CLASS, MODULE };
struct callable { virtual object call(object *args, std::size_t n) = 0; virtual ~callable() {} };
struct method { const char *name; callable *fn; };
struct record { const char *name = nullptr; method methods[16]; std::size_t n = 0; callable *init = nullptr; bool is_enum = false; };
struct attribute;
struct value {
  int refs = 1;
  kind k = NONE;
  long long num = 0;      // BOOL, INT, ENUM
  bool uns = false;       // num is to be read as unsigned
  std::size_t len = 0;    // BYTES, LIST
  unsigned char *bytes = nullptr;
  object *items = nullptr;
  callable *fn = nullptr; // FUNC, BOUND (owned if FUNC)
  object *self = nullptr; // BOUND
  record *cls = nullptr;  // INST, CLASS, ENUM
  void *inst = nullptr;
  void (*drop)(void *) = nullptr;
  attribute *attrs = nullptr; std::size_t nattrs = 0;
  ~value();
};
template<typename T> record &of() { static record r; return r; }
template<typename T, typename = void> struct conv;
template<typename T> struct builtin : std::false_type {};
template<typename T, std::size_t N> struct builtin<std::array<T, N>> : std::true_type {};
template<typename S> struct builtin<std::function<S>> : std::true_type {};
template<typename T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
} // namespace model

class accessor;
class iterator;
struct null_t {};
class object {
public:
  model::value *p;
  object();
  explicit object(null_t) : p{nullptr} {}
  explicit object(model::value *v) : p{v} {}
  object(const object &o) : p{o.p} { if (p) p->refs++; }
  object(object &&o) noexcept : p{o.p} { o.p = nullptr; }
  object &operator=(object o) { std::swap(p, o.p); return *this; }
  ~object() { if (p && --p->refs == 0) delete p; }
  int ref_count() const { return p->refs; }
  explicit operator bool() const { return p != nullptr; }
  bool is_none() const { return p && p->k == model::NONE; }
  const object *ptr() const { return p ? this : nullptr; }
  template<typename T> T cast() const & { return model::conv<model::bare<T>>::cast(*this); }
  template<typename T> T cast() && { return model::conv<model::bare<T>>::cast(*this); }
  accessor attr(const char *name) const;
  accessor attr(const std::string &name) const;
  accessor operator[](std::size_t i) const;
  template<typename... As> object operator()(As &&...as) const;
  object call(object *args, std::size_t n) const;
  iterator begin() const;
  iterator end() const;
};
namespace model {
struct attribute { const char *name; object v; };
inline value::~value() {
  delete[] bytes;
  delete[] items;
  if (k == FUNC) delete fn;
  delete self;
  if (drop) drop(inst);
  delete[] attrs;
}
inline value *fresh(kind k) { value *v = new value; v->k = k; return v; }
} // namespace model
inline object::object() : p{model::fresh(model::NONE)} {}
inline object none() { return object{}; }

namespace model {
inline object lookup(const object &o, const char *name) {
  value *v = o.p;
  if (!v) throw attribute_error{name};
  if (v->k == MODULE) {
    for (std::size_t i = v->nattrs; i-- > 0;)
      if (!std::strcmp(v->attrs[i].name, name)) return v->attrs[i].v;
  } else if (v->k == INST) {
    for (std::size_t i = 0; i < v->cls->n; i++)
      if (!std::strcmp(v->cls->methods[i].name, name)) {
        value *b = fresh(BOUND);
        b->fn = v->cls->methods[i].fn;
        b->self = new object{o};
        return object{b};
      }
  }
  throw attribute_error{name};
}
inline void assign(const object &o, const char *name, object x) {
  value *v = o.p;
  attribute *a = new attribute[v->nattrs + 1]{};
  for (std::size_t i = 0; i < v->nattrs; i++) a[i] = v->attrs[i];
  char *n = new char[std::strlen(name) + 1];   // names live as long as the module: for ever
  std::strcpy(n, name);
  a[v->nattrs].name = n;
  a[v->nattrs].v = x;
  delete[] v->attrs;
  v->attrs = a;
  v->nattrs++;
}
template<typename T> object make(T &&x) { return conv<bare<T>>::make(std::forward<T>(x)); }
} // namespace model

class accessor {
  object m_obj; const char *m_name; std::size_t m_index;
  object get() const { return m_name ? model::lookup(m_obj, m_name) : item(); }
  object item() const {
    if (m_index >= m_obj.p->len) throw stop_iteration{};
    return m_obj.p->k == model::BYTES ? model::make((int)m_obj.p->bytes[m_index]) : m_obj.p->items[m_index];
  }
public:
  accessor(object o, const char *n) : m_obj{o}, m_name{n}, m_index{0} {}
  accessor(object o, std::size_t i) : m_obj{o}, m_name{nullptr}, m_index{i} {}
  template<typename T> void operator=(T &&x) && { model::assign(m_obj, m_name, model::make(std::forward<T>(x))); }
  template<typename T> void operator=(T &&x) & { model::assign(m_obj, m_name, model::make(std::forward<T>(x))); }
  operator object() const { return get(); }
  template<typename... As> object operator()(As &&...as) const { return get()(std::forward<As>(as)...); }
  template<typename T> T cast() const { return get().template cast<T>(); }
  accessor attr(const char *n) const { return accessor{get(), n}; }
};
inline accessor object::attr(const char *n) const { return accessor{*this, n}; }
inline accessor object::attr(const std::string &n) const { return accessor{*this, n.c_str()}; }
inline accessor object::operator[](std::size_t i) const { return accessor{*this, i}; }

// Iterators: nothing is fetched before the first dereference or increment, as in pybind11
class iterator {
  object m_src; std::size_t m_next = 0; bool m_end; mutable object m_value{null_t{}};
  void advance() {
    if (m_src.p->k != model::BYTES && m_src.p->k != model::LIST) throw type_error{"not iterable"};
    if (m_next >= m_src.p->len) { m_value = object{null_t{}}; return; }
    m_value = m_src[m_next++];
  }
public:
  using iterator_category = std::input_iterator_tag; using difference_type = std::ptrdiff_t; using value_type = object; using reference = const object &; using pointer = const object *;
  iterator(object o, bool end) : m_src{o}, m_end{end} {}
  iterator &operator++() { advance(); return *this; }
  iterator operator++(int) { iterator r = *this; advance(); return r; }
  const object &operator*() const { if (!m_end && !m_value) const_cast<iterator *>(this)->advance(); return m_value; }
  const object *operator->() const { return &**this; }
  static iterator sentinel() { return iterator{object{}, true}; }
  friend bool operator==(const iterator &a, const iterator &b) { return (a.m_end || !*a) == (b.m_end || !*b); }
  friend bool operator!=(const iterator &a, const iterator &b) { return !(a == b); }
};
inline iterator object::begin() const { return iterator{*this, false}; }
inline iterator object::end() const { return iterator{*this, true}; }
inline iterator iter(const object &o) { return o.begin(); }
inline std::size_t len(const object &o) { return o.p->len; }

class function : public object {
public:
  function() {}
  function(const object &o) : object{o} {}
  function(object &&o) : object{std::move(o)} {}
};
class str : public object {};
class bytes : public object {
public:
  bytes(const char *s, std::size_t n) : object{model::fresh(model::BYTES)} { fill(s, n); }
  template<typename N> bytes(const char *s, N n) : bytes{s, static_cast<std::size_t>(n)} {}
  bytes(const std::string &s) : bytes{s.data(), s.size()} {}
  bytes(const object &o) : object{o} { if (!p || p->k != model::BYTES) throw type_error{"bytes"}; }
  operator std::string() const { return std::string(reinterpret_cast<const char *>(p->bytes), p->len); }
private:
  void fill(const char *s, std::size_t n) {
    p->bytes = new unsigned char[n ? n : 1];
    p->len = n;
    std::memcpy(p->bytes, s, n);
  }
};
class list : public object { public: list() : object{model::fresh(model::LIST)} {} list(const object &o) : object{o} {} };
class module_ : public object { public: module_() : object{model::fresh(model::MODULE)} {} };
using module = module_;

namespace model {
inline bool numeric(const value *v) { return v && (v->k == INT || v->k == BOOL); }
// integers, with the range checks of pybind11
template<typename T> struct conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static_assert(!std::is_same<T, char>::value && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value, "characters are not modelled");
  static bool accepts(const object &o) {
    if (!numeric(o.p)) return false;
    bool neg = !o.p->uns && o.p->num < 0;
    unsigned long long u = (unsigned long long)o.p->num, top = (unsigned long long)std::numeric_limits<T>::max();
    if (std::is_unsigned<T>::value) return !neg & (u <= top);
    return neg ? o.p->num >= (long long)std::numeric_limits<T>::min() : u <= top;
  }
  static T cast(const object &o) { if (!accepts(o)) throw cast_error{"int"}; return (T)o.p->num; }
  static object make(T x) {
    value *v = fresh(INT);
    v->num = (long long)x;
    v->uns = std::is_unsigned<T>::value;
    return object{v};
  }
};
template<> struct conv<bool> {
  static bool accepts(const object &o) { return numeric(o.p) || (o.p && o.p->k == NONE); }
  static bool cast(const object &o) { if (!accepts(o)) throw cast_error{"bool"}; return o.p->num != 0; }
  static object make(bool x) { value *v = fresh(BOOL); v->num = x; return object{v}; }
};
template<typename T> struct conv<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static bool accepts(const object &o) { return o.p && o.p->k == ENUM && o.p->cls == &of<T>(); }
  static T cast(const object &o) { if (!accepts(o)) throw cast_error{"enum"}; return (T)o.p->num; }
  static object make(T x) { if (!of<T>().name) throw type_error{"unregistered type"}; value *v = fresh(ENUM); v->num = (long long)x; v->cls = &of<T>(); return object{v}; }
};
template<typename T, std::size_t N> struct conv<std::array<T, N>> {
  static bool accepts(const object &o) {
    if (!o.p || (o.p->k != LIST && o.p->k != BYTES) || o.p->len != N || o.p->k == BYTES) return false;
    for (std::size_t i = 0; i < N; i++) if (!conv<T>::accepts(o.p->items[i])) return false;
    return true;
  }
  static std::array<T, N> cast(const object &o) {
    if (!accepts(o)) throw cast_error{"array"};
    std::array<T, N> a{};
    for (std::size_t i = 0; i < N; i++) a[i] = conv<T>::cast(o.p->items[i]);
    return a;
  }
  static object make(const std::array<T, N> &a) {
    value *v = fresh(LIST);
    v->items = new object[N];
    v->len = N;
    for (std::size_t i = 0; i < N; i++) v->items[i] = conv<T>::make(a[i]);
    return object{v};
  }
};
template<typename T> struct conv<T, typename std::enable_if<std::is_base_of<object, T>::value>::type> {
  static bool accepts(const object &o) {
    return o.p && (!std::is_same<T, function>::value || o.p->k == FUNC || o.p->k == BOUND || o.p->k == CLASS) && (!std::is_same<T, bytes>::value || o.p->k == BYTES);
  }
  static T cast(const object &o) { if (!accepts(o)) throw cast_error{"object"}; return T(o); }
  static object make(const object &o) { return o; }
};
template<> struct conv<accessor> { static object make(const accessor &a) { return a; } };
template<typename R> struct from_python { static R get(const object &o) { return o.template cast<R>(); } };
template<> struct from_python<void> { static void get(const object &) {} };
template<typename R, typename... As> struct conv<std::function<R(As...)>> {
  static bool accepts(const object &o) { return conv<function>::accepts(o); }
  static std::function<R(As...)> cast(const object &o) {
    if (!accepts(o)) throw cast_error{"function"};
    return [o](As... as) -> R { return from_python<R>::get(o(std::forward<As>(as)...)); };
  }
};
// instances of bound classes
template<typename T> struct conv<T, typename std::enable_if<std::is_class<T>::value && !std::is_base_of<object, T>::value && !std::is_same<T, accessor>::value && !builtin<T>::value>::type> {
  static bool accepts(const object &o) { return o.p && o.p->k == INST && o.p->cls == &of<T>(); }
  static T &ref(const object &o) { if (!accepts(o)) throw cast_error{"instance"}; return *static_cast<T *>(o.p->inst); }
  template<typename U> static U copy(U &x, std::true_type) { return x; }
  template<typename U> static U copy(U &, std::false_type) { throw cast_error{"not copyable and referenced elsewhere"}; }
  static T cast(const object &o) {
    T &x = ref(o);
    if (o.p->refs == 1) return std::move(x);   // nobody else sees it
    return copy(x, std::is_copy_constructible<T>{});
  }
  template<typename U> static object make(U &&x) {
    if (!of<T>().name) throw type_error{"unregistered type"};
    value *v = fresh(INST);
    v->cls = &of<T>();
    v->inst = new T(std::forward<U>(x));
    v->drop = [](void *p) { delete static_cast<T *>(p); };
    return object{v};
  }
};
// a parameter of a bound function
template<typename T, typename = void> struct param { static bool accepts(const object &o) { return conv<bare<T>>::accepts(o); } static bare<T> get(const object &o) { return conv<bare<T>>::cast(o); } };
template<typename T> struct param<T, typename std::enable_if<std::is_class<bare<T>>::value && !std::is_base_of<object, bare<T>>::value && std::is_reference<T>::value>::type> {
  template<typename U, typename C = conv<U>> static auto get1(const object &o, int) -> decltype(C::ref(o)) { return C::ref(o); }
  template<typename U> static U get1(const object &o, ...) { return conv<U>::cast(o); }
  static bool accepts(const object &o) { return conv<bare<T>>::accepts(o); }
  static decltype(get1<bare<T>>(std::declval<const object &>(), 0)) get(const object &o) { return get1<bare<T>>(o, 0); }
};
template<typename T> struct param<T, typename std::enable_if<std::is_base_of<object, bare<T>>::value && std::is_lvalue_reference<T>::value && !std::is_const<typename std::remove_reference<T>::type>::value>::type> {
  static bool accepts(const object &o) { return conv<bare<T>>::accepts(o); }
  static bare<T> &get(object &o) { return static_cast<bare<T> &>(o); }
};
template<typename R> struct returned { template<typename F, typename... As> static object call(F &f, As &&...as) { return make(f(std::forward<As>(as)...)); } };
template<> struct returned<void> { template<typename F, typename... As> static object call(F &f, As &&...as) { f(std::forward<As>(as)...); return object{}; } };
template<typename F, typename Sig> struct wrapper;
template<typename F, typename R, typename... As> struct wrapper<F, R(As...)> : callable {
  F f;
  explicit wrapper(F x) : f(std::move(x)) {}
  template<std::size_t... Is> object go(object *a, std::index_sequence<Is...>) {
    bool ok[] = {true, param<As>::accepts(a[Is])...};
    for (bool b : ok) if (!b) throw type_error{"incompatible function arguments"};
    return returned<R>::call(f, param<As>::get(a[Is])...);
  }
  object call(object *a, std::size_t n) override {
    if (n != sizeof...(As)) throw type_error{"wrong number of arguments"};
    return go(a, std::index_sequence_for<As...>{});
  }
};
template<typename T> struct signature;
template<typename C, typename R, typename... As> struct signature<R (C::*)(As...) const> { using type = R(As...); };
template<typename C, typename R, typename... As> struct signature<R (C::*)(As...)> { using type = R(As...); };
template<typename F> callable *wrap(F f) { return new wrapper<F, typename signature<decltype(&F::operator())>::type>(std::move(f)); }
template<typename R, typename... As> callable *wrap(R (*f)(As...)) { return new wrapper<R (*)(As...), R(As...)>(f); }
} // namespace model

inline object object::call(object *args, std::size_t n) const {
  if (!p) throw type_error{"null"};
  switch (p->k) {
  case model::FUNC: return p->fn->call(args, n);
  case model::CLASS: if (!p->cls->init) throw type_error{"no constructor"}; return p->cls->init->call(args, n);
  case model::BOUND: {
    object *a = new object[n + 1];
    a[0] = *p->self;
    for (std::size_t i = 0; i < n; i++) a[i + 1] = args[i];
    struct guard { object *a; ~guard() { delete[] a; } } g{a};
    return p->fn->call(a, n + 1);
  }
  default: throw type_error{"not callable"};
  }
}
template<typename... As> object object::operator()(As &&...as) const {
  object a[] = {object{null_t{}}, model::make(std::forward<As>(as))...};
  return call(a + 1, sizeof...(As));
}
class cpp_function : public function {
public:
  template<typename F, typename... Extra> cpp_function(F f, const Extra &...) : function(object{model::fresh(model::FUNC)}) { p->fn = model::wrap(std::move(f)); }
};
template<typename T> T cast(const object &o) { return o.template cast<T>(); }
template<typename T> object cast(T &&x) { return model::make(std::forward<T>(x)); }

// ---- classes
template<typename... As> struct init_t {};
template<typename... As> init_t<As...> init() { return {}; }
struct arg { const char *name; explicit arg(const char *n) : name{n} {} };
struct module_local { module_local(bool = true) {} };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
namespace literals { inline arg operator""_a(const char *n, std::size_t) { return arg{n}; } }
template<typename T, typename... Options> class class_ : public object {
public:
  template<typename... Extra> class_(object scope, const char *name, const Extra &...) : object{model::fresh(model::CLASS)} {
    model::record &r = model::of<T>();
    if (r.name) throw import_error{"type already registered"};
    r.name = name;
    p->cls = &r;
    model::assign(scope, name, *this);
  }
  template<typename F, typename... Extra> class_ &def(const char *name, F f, const Extra &...) { return add(name, model::wrap(std::move(f))); }
  template<typename R, typename C, typename... As, typename... Extra> class_ &def(const char *name, R (C::*f)(As...), const Extra &...) {
    return add(name, model::wrap([f](T &self, As... as) -> R { return (self.*f)(std::forward<As>(as)...); }));
  }
  template<typename R, typename C, typename... As, typename... Extra> class_ &def(const char *name, R (C::*f)(As...) const, const Extra &...) {
    return add(name, model::wrap([f](const T &self, As... as) -> R { return (self.*f)(std::forward<As>(as)...); }));
  }
  template<typename... As, typename... Extra> class_ &def(init_t<As...>, const Extra &...) {
    model::of<T>().init = model::wrap([](As... as) { return created(std::forward<As>(as)...); });
    return *this;
  }
private:
  template<typename... As> static object created(As &&...as) {
    model::value *v = model::fresh(model::INST);
    v->cls = &model::of<T>();
    v->inst = new T(std::forward<As>(as)...);
    v->drop = [](void *p) { delete static_cast<T *>(p); };
    return object{v};
  }
  class_ &add(const char *name, model::callable *f) {
    model::record &r = model::of<T>();
    r.methods[r.n].name = name;
    r.methods[r.n].fn = f;
    r.n++;
    return *this;
  }
};
template<typename T> class enum_ : public object {
public:
  template<typename... Extra> enum_(object scope, const char *name, const Extra &...) : object{model::fresh(model::CLASS)} {
    model::of<T>().name = name;
    p->cls = &model::of<T>();
    model::assign(scope, name, *this);
  }
  enum_ &value(const char *, T) { return *this; }
};
} // namespace pybind11
