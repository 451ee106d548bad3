// Stand-in for embind: registrations are accepted and ignored.
#ifndef DEMO_EMBIND_H
#define DEMO_EMBIND_H
#include <string>
#include <vector>
#include <map>
#include "../emscripten.h"
namespace emscripten {
template <class... A> void function(const char *, A...) {}
template <class T> void constant(const char *, const T &) {}
template <class T> void register_vector(const char *) {}
template <class K, class V> void register_map(const char *) {}
template <class T> struct enum_ { explicit enum_(const char *) {} enum_ &value(const char *, T) { return *this; } };
template <class T> struct class_ {
    explicit class_(const char *) {}
    template <class... P> class_ &class_function(const char *, P...) { return *this; }
    template <class... P> class_ &function(const char *, P...) { return *this; }
};
}
#define EMSCRIPTEN_BINDINGS(name) __attribute__((used)) static void demo_bindings_##name()
#endif
