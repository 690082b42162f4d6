#include "fast/swab.h"
#include "fast/big-endian.h"
#include "c17_shim.h"
#define E(nm, w, m) static uint64_t be_##nm(uint64_t x) { return (uint64_t)m((uint##w##_t)x); }
E(b, 32, __cpu_to_le32) E(c, 64, __cpu_to_le64) E(e, 32, __cpu_to_be32) E(f, 64, __cpu_to_be64) E(h, 32, __le32_to_cpu) E(i, 64, __le64_to_cpu) E(k, 32, __be32_to_cpu) E(l, 64, __be64_to_cpu) E(m, 64, htonll) E(n, 64, ntohll)
E(o, 64, __constant_htonll) E(p, 64, __constant_ntohll) E(q, 32, __constant_htonl) E(r, 32, __constant_ntohl) E(s, 16, __constant_htons) E(t, 16, __constant_ntohs)
const ep_t ep_be[] = {{"__cpu_to_le32 (big endian)", 32, 1, be_b}, {"__cpu_to_le64 (big endian)", 64, 1, be_c}, {"__cpu_to_be32 (big endian)", 32, 0, be_e}, {"__cpu_to_be64 (big endian)", 64, 0, be_f}, {"__le32_to_cpu (big endian)", 32, 1, be_h}, {"__le64_to_cpu (big endian)", 64, 1, be_i}, {"__be32_to_cpu (big endian)", 32, 0, be_k}, {"__be64_to_cpu (big endian)", 64, 0, be_l}, {"htonll (big endian)", 64, 0, be_m}, {"ntohll (big endian)", 64, 0, be_n}, {"__constant_htonll (big endian)", 64, 0, be_o}, {"__constant_ntohll (big endian)", 64, 0, be_p}, {"__constant_htonl (big endian)", 32, 0, be_q}, {"__constant_ntohl (big endian)", 32, 0, be_r}, {"__constant_htons (big endian)", 16, 0, be_s}, {"__constant_ntohs (big endian)", 16, 0, be_t}, {0, 0, 0, 0}};
