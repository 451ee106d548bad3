// Layout of the parameter and state structures as the headers declare them (read by the analyser, never run).
#include <cstddef>
#include <cstdint>
#include "xmss-alt/algsxmss.h"
#include "xmss-alt/algsxmss_fast.h"
#define SZ(T) unsigned vsa_sizeof_##T() { return sizeof(T); }
#define FD(T, F) unsigned vsa_off_##T##_##F() { return offsetof(T, F); } unsigned vsa_size_##T##_##F() { return sizeof(((T *) 0)->F); }
extern "C" {
SZ(wots_params) SZ(xmss_params) SZ(treehash_inst) SZ(bds_state)
FD(wots_params, len) FD(wots_params, w) FD(wots_params, len_1) FD(wots_params, len_2) FD(wots_params, log_w) FD(wots_params, n) FD(wots_params, keysize)
FD(treehash_inst, h) FD(treehash_inst, next_idx) FD(treehash_inst, stackusage) FD(treehash_inst, completed) FD(treehash_inst, node)
FD(bds_state, stack) FD(bds_state, stackoffset) FD(bds_state, stacklevels) FD(bds_state, auth) FD(bds_state, keep) FD(bds_state, treehash)
FD(bds_state, retain) FD(bds_state, next_leaf)
}
