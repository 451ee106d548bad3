// Entry points for the analyser: what a moved-from signing object still holds.
#include <utility>
#include <type_traits>
#include <cstdint>
#include <cstddef>
#include <vector>
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
template <class T> static size_t moved(T *a, T *b) {
    size_t r = 0;
    if constexpr (std::is_move_assignable<T>::value) { *b = std::move(*a); r += a->getSK().size(); *a = std::move(*b); }
    if constexpr (std::is_move_constructible<T>::value) { T *c = new T(std::move(*a)); r += a->getSK().size(); (void) c; }
    return r;
}
extern "C" {
size_t vsa_fast_moved(XmssFast *a, XmssFast *b) { return moved(a, b); }
size_t vsa_basic_moved(XmssBasic *a, XmssBasic *b) { return moved(a, b); }
}
