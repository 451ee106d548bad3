// Declaration-only stand-in for the PicoSHA2 submodule (not present offline).
// The analyser takes vsa_sha256 as SHA-256.
#ifndef VSA_PICOSHA2_H
#define VSA_PICOSHA2_H
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <vector>
#include <string>
#include <algorithm>
extern "C" void vsa_sha256(const uint8_t *in, size_t n, uint8_t *out, size_t outlen);
namespace picosha2 {
static const size_t k_digest_size = 32;
template <typename I, typename O>
inline void hash256(I first, I last, O ofirst, O olast) {
    vsa_sha256(first == last ? nullptr : reinterpret_cast<const uint8_t *>(&*first), (size_t)(last - first),
               reinterpret_cast<uint8_t *>(&*ofirst), (size_t)(olast - ofirst));
}
template <typename In, typename Out>
inline void hash256(const In &src, Out &dst) {
    hash256(src.begin(), src.end(), dst.begin(), dst.end());
}
}
#endif
