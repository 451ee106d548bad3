// Analysis stand-in for embind.  Every registration hands the analyser the JavaScript name together with a uniform entry point
// (buffers in, buffers out) to whatever function was registered under it.
#ifndef VSA_EMBIND_H
#define VSA_EMBIND_H
#include <string>
#include <vector>
#include <map>
#include <type_traits>
#include <utility>
#include "../emscripten.h"
struct vsa_arg { const void *p; unsigned long n; };
typedef void (*vsa_entry)(const void *f, void *self, const vsa_arg *in, vsa_arg *out);
extern "C" void vsa_bind(const char *cls, const char *name, vsa_entry entry, const void *f, unsigned long size);
extern "C" void vsa_bind_value(const char *en, const char *name, long value);
namespace emscripten {
template <class F> struct vsa_box { F f; };
template <class T, class = void> struct vsa_get { static T &get(const vsa_arg &a) { return *(T *)a.p; } };
template <class T> struct vsa_get<T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value>> { static T get(const vsa_arg &a) { return (T)a.n; } };
template <> struct vsa_get<std::string> { static std::string get(const vsa_arg &a) { return std::string((const char *)a.p, a.n); } };
template <> struct vsa_get<std::vector<unsigned char>> {
    static std::vector<unsigned char> get(const vsa_arg &a) { return std::vector<unsigned char>((const unsigned char *)a.p, (const unsigned char *)a.p + a.n); }
};
template <class R> struct vsa_ret {
    template <class C> static void put(vsa_arg *o, C call) {
        if constexpr (std::is_void<R>::value) { call(); }
        else if constexpr (std::is_integral<R>::value || std::is_enum<R>::value) { o->n = (unsigned long)call(); }
        else if constexpr (std::is_same<std::decay_t<R>, std::string>::value || std::is_same<std::decay_t<R>, std::vector<unsigned char>>::value) {
            auto r = call();
            o->n = r.size();
            __builtin_memcpy((void *)o->p, r.data(), r.size());
        } else if constexpr (std::is_pointer<R>::value || std::is_reference<R>::value) { call(); }
        else { o->p = new R(call()); }
    }
};
template <class A> using vsa_in = vsa_get<std::remove_cv_t<std::remove_reference_t<A>>>;
template <class F> struct vsa_thunk;
template <class R, class... A> struct vsa_thunk<R (*)(A...)> {
    typedef R (*F)(A...);
    template <size_t... I> static void go(F f, const vsa_arg *in, vsa_arg *o, std::index_sequence<I...>) { vsa_ret<R>::put(o, [&]() -> R { return f(vsa_in<A>::get(in[I])...); }); }
    static void entry(const void *b, void *, const vsa_arg *in, vsa_arg *o) { go(((const vsa_box<F> *)b)->f, in, o, std::index_sequence_for<A...>()); }
};
template <class C, class R, class... A> struct vsa_thunk<R (C::*)(A...)> {
    typedef R (C::*F)(A...);
    template <size_t... I> static void go(F f, C *c, const vsa_arg *in, vsa_arg *o, std::index_sequence<I...>) { vsa_ret<R>::put(o, [&]() -> R { return (c->*f)(vsa_in<A>::get(in[I])...); }); }
    static void entry(const void *b, void *self, const vsa_arg *in, vsa_arg *o) { go(((const vsa_box<F> *)b)->f, (C *)self, in, o, std::index_sequence_for<A...>()); }
};
template <class C, class R, class... A> struct vsa_thunk<R (C::*)(A...) const> {
    typedef R (C::*F)(A...) const;
    template <size_t... I> static void go(F f, const C *c, const vsa_arg *in, vsa_arg *o, std::index_sequence<I...>) { vsa_ret<R>::put(o, [&]() -> R { return (c->*f)(vsa_in<A>::get(in[I])...); }); }
    static void entry(const void *b, void *self, const vsa_arg *in, vsa_arg *o) { go(((const vsa_box<F> *)b)->f, (const C *)self, in, o, std::index_sequence_for<A...>()); }
};
template <class F> inline void vsa_reg(const char *cls, const char *n, F f) {
    vsa_box<F> b{f};
    vsa_bind(cls, n, &vsa_thunk<F>::entry, &b, sizeof b);
}
template <class F, class... P> void function(const char *n, F f, P...) { vsa_reg("", n, f); }
template <class R, class... A, class... P> void function(const char *n, R (&f)(A...), P...) { vsa_reg("", n, &f); }
template <class T> void constant(const char *, const T &) {}
template <class T> void register_vector(const char *) {}
template <class K, class V> void register_map(const char *) {}
template <class T> struct enum_ {
    const char *en;
    explicit enum_(const char *n) : en(n) {}
    enum_ &value(const char *n, T v) { vsa_bind_value(en, n, (long)v); return *this; }
};
template <class... A> struct constructor_ {};
template <class... T> struct base {};
template <class T, class... B> struct class_ {
    const char *cls;
    explicit class_(const char *n) : cls(n) {}
    template <class... A, class... P> class_ &constructor(P...) { return *this; }
    template <class F, class... P> class_ &class_function(const char *n, F f, P...) { vsa_reg(cls, n, f); return *this; }
    template <class F, class... P> class_ &function(const char *n, F f, P...) { vsa_reg(cls, n, f); return *this; }
    template <class... P> class_ &property(const char *, P...) { return *this; }
    template <class... P> class_ &smart_ptr(P...) { return *this; }
};
template <class T> struct value_object { explicit value_object(const char *) {} template <class... P> value_object &field(P...) { return *this; } };
}
#define VSA_CAT2(a, b) a##b
#define VSA_CAT(a, b) VSA_CAT2(a, b)
#define EMSCRIPTEN_BINDINGS(name) __attribute__((used)) static void VSA_CAT(vsa_bindings_, name)()
#endif
