// Stand-in for pybind11: same declarations as the parts of the real interface a
// binding uses; every registration is handed to the witness (sa_py::*).
#pragma once
#include <functional>
#include <type_traits>
#include <string>
#include <vector>
#include <memory>
namespace sa_py {
template <class C> struct Cls {};
// given by the witness
template <class C, class F> void onMethod(const char *name, F f);
template <class C, class... A> void onInit();
template <class C, class F> void onStatic(const char *name, F f);
template <class C, class M, class B> void onField(const char *name, M B::*f, bool writable);
template <class C> void onClass(const char *name);
template <class E> void onEnum(const char *name);
template <class E> void onValue(const char *name, E v);
template <class F> void onFunction(const char *name, F f);
}
namespace pybind11 {
struct handle {};
struct object : handle {};
struct none : object {};
struct arg {
  constexpr explicit arg(const char * = nullptr) {}
  arg &noconvert(bool = true) { return *this; }
  arg &none(bool = true) { return *this; }
  template <class T> arg operator=(T &&) const { return *this; }
};
namespace literals { constexpr arg operator"" _a(const char *n, size_t) { return arg(n); } }
struct doc { explicit doc(const char *) {} };
template <class... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <size_t N, size_t P> struct keep_alive {};
enum class return_value_policy { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct module_local { constexpr explicit module_local(bool = true) {} };
struct dynamic_attr {};
struct arithmetic {};
class module_ : public object {
 public:
  template <class F, class... X> module_ &def(const char *name, F &&f, const X &...) { sa_py::onFunction(name, f); return *this; }
  const char *&doc() { static const char *d; return d; }
  template <class T> void attr_set(const char *, T) {}
  module_ def_submodule(const char *, const char * = nullptr) { return *this; }
};
using module = module_;
namespace detail {
template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*p)(A...)) const noexcept -> decltype(p) { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const noexcept -> decltype(p) { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const noexcept -> decltype(p) { return p; }
};
template <class... A> struct init {};
template <class F> struct factory { F f; };
template <class C> struct ctor;
template <class... A> struct ctor<init<A...>> { template <class T> static void go() { static_assert(std::is_constructible_v<T, A...>, "no such constructor"); sa_py::onInit<T, A...>(); } };
}
template <class... A> static constexpr detail::overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};
template <class... A> detail::init<A...> init() { return {}; }
template <class F, class = std::enable_if_t<!std::is_void_v<F>>> detail::factory<F> init(F &&f) { return {f}; }
template <class T, class... O> class class_ : public object {
 public:
  template <class... X> class_(handle, const char *name, const X &...) { sa_py::onClass<T>(name); }
  template <class F, class... X> class_ &def(const char *name, F &&f, const X &...) { sa_py::onMethod<T>(name, static_cast<std::decay_t<F>>(f)); return *this; }
  template <class... A, class... X> class_ &def(const detail::init<A...> &, const X &...) { detail::ctor<detail::init<A...>>::template go<T>(); return *this; }
  template <class F, class... X> class_ &def_static(const char *name, F &&f, const X &...) { sa_py::onStatic<T>(name, static_cast<std::decay_t<F>>(f)); return *this; }
  template <class M, class B, class... X> class_ &def_readonly(const char *name, M B::*f, const X &...) {
    static_assert(std::is_base_of_v<B, T>, "not a member of the class");
    sa_py::onField<T>(name, const_cast<std::remove_const_t<M> B::*>(f), false);
    return *this;
  }
  template <class M, class B, class... X> class_ &def_readwrite(const char *name, M B::*f, const X &...) {
    static_assert(std::is_base_of_v<B, T>, "not a member of the class");
    sa_py::onField<T>(name, f, true);
    return *this;
  }
  template <class F, class... X> class_ &def_property_readonly(const char *name, F &&f, const X &...) { sa_py::onMethod<T>(name, static_cast<std::decay_t<F>>(f)); return *this; }
};
template <class E> class enum_ : public object {
 public:
  template <class... X> enum_(handle, const char *name, const X &...) { sa_py::onEnum<E>(name); }
  enum_ &value(const char *name, E v, const char * = nullptr) { sa_py::onValue<E>(name, v); return *this; }
  enum_ &export_values() { return *this; }
};
}
#define PYBIND11_MODULE(name, var, ...) void sa_py_module(::pybind11::module_ &var)
