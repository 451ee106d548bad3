// Entry points for the analyser over text encodings, seeds and word lists.
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include "qrl/misc.h"
#include "qrl/wordlist.h"
#include "qrl/hashing.h"
template class std::basic_string<char>;
typedef std::vector<uint8_t> V;
static inline V mk(const uint8_t *p, size_t n) { return V(p, p + n); }
static inline size_t put(const V &v, uint8_t *out) { std::memcpy(out, v.data(), v.size()); return v.size(); }
static inline size_t puts_(const std::string &s, char *out) { std::memcpy(out, s.data(), s.size()); return s.size(); }
extern "C" {
size_t vsa_vshake128(size_t k, const uint8_t *p, size_t n, uint8_t *out) { return put(shake128(k, mk(p, n)), out); }
size_t vsa_vshake256(size_t k, const uint8_t *p, size_t n, uint8_t *out) { return put(shake256(k, mk(p, n)), out); }
size_t vsa_vsha2(const uint8_t *p, size_t n, uint8_t *out) { return put(sha2_256(mk(p, n)), out); }
size_t vsa_vsha2n(const uint8_t *p, size_t n, size_t k, uint8_t *out) { return put(sha2_256_n(mk(p, n), k), out); }
size_t vsa_word(size_t i, char *out) { return puts_(wordlist[i], out); }
size_t vsa_words() { return wordlist.size(); }
size_t vsa_bin2mnemonic(const uint8_t *p, size_t n, char *out) { return puts_(bin2mnemonic(mk(p, n)), out); }
size_t vsa_mnemonic2bin(const char *p, size_t n, uint8_t *out) { return put(mnemonic2bin(std::string(p, n)), out); }
size_t vsa_bin2hstr(const uint8_t *p, size_t n, uint32_t wrap, char *out) { return puts_(bin2hstr(mk(p, n), wrap), out); }
size_t vsa_sbin2hstr(const char *p, size_t n, uint32_t wrap, char *out) { return puts_(bin2hstr(std::string(p, n), wrap), out); }
size_t vsa_hstr2bin(const char *p, size_t n, uint8_t *out) { return put(hstr2bin(std::string(p, n)), out); }
size_t vsa_str2bin(const char *p, size_t n, uint8_t *out) { return put(str2bin(std::string(p, n)), out); }
size_t vsa_random_seed(uint32_t size, const char *e, size_t n, uint8_t *out) { return put(getRandomSeed(size, std::string(e, n)), out); }
// count seeds, one after another; returns the number, lens gets their sizes
size_t vsa_chain_seed(const uint8_t *s, size_t n, uint32_t shift, uint32_t count, uint8_t *out, uint64_t *lens) {
    std::vector<V> r = getHashChainSeed(mk(s, n), shift, count);
    for (size_t i = 0; i < r.size(); i++) { lens[i] = r[i].size(); out += put(r[i], out); }
    return r.size();
}
}
