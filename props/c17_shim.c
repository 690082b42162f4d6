#include <string.h>
#include "utils/utils.h"
#include "fast/encdec.h"
#include "fast/tmutils.h"
#include "fast/byteorder.h"
#include "bits.h"
#include "c17_shim.h"
#define E(nm, w, m) static uint64_t le_##nm(uint64_t x) { return (uint64_t)m((uint##w##_t)x); }
E(a, 16, __cpu_to_le16) E(b, 32, __cpu_to_le32) E(c, 64, __cpu_to_le64) E(d, 16, __cpu_to_be16) E(e, 32, __cpu_to_be32) E(f, 64, __cpu_to_be64)
E(g, 16, __le16_to_cpu) E(h, 32, __le32_to_cpu) E(i, 64, __le64_to_cpu) E(j, 16, __be16_to_cpu) E(k, 32, __be32_to_cpu) E(l, 64, __be64_to_cpu)
E(m, 64, htonll) E(n, 64, ntohll) E(o, 64, __constant_htonll) E(p, 64, __constant_ntohll) E(q, 32, __constant_htonl) E(r, 32, __constant_ntohl) E(s, 16, __constant_htons) E(t, 16, __constant_ntohs)
E(u, 16, __swab16) E(v, 32, __swab32) E(w, 64, __swab64) E(x, 16, __constant_swab16) E(y, 32, __constant_swab32) E(z, 64, __constant_swab64)
const ep_t ep_le[] = {{"__cpu_to_le16", 16, 0, le_a}, {"__cpu_to_le32", 32, 0, le_b}, {"__cpu_to_le64", 64, 0, le_c}, {"__cpu_to_be16", 16, 1, le_d}, {"__cpu_to_be32", 32, 1, le_e}, {"__cpu_to_be64", 64, 1, le_f}, {"__le16_to_cpu", 16, 0, le_g}, {"__le32_to_cpu", 32, 0, le_h}, {"__le64_to_cpu", 64, 0, le_i}, {"__be16_to_cpu", 16, 1, le_j}, {"__be32_to_cpu", 32, 1, le_k}, {"__be64_to_cpu", 64, 1, le_l}, {"htonll", 64, 1, le_m}, {"ntohll", 64, 1, le_n}, {"__constant_htonll", 64, 1, le_o}, {"__constant_ntohll", 64, 1, le_p}, {"__constant_htonl", 32, 1, le_q}, {"__constant_ntohl", 32, 1, le_r}, {"__constant_htons", 16, 1, le_s}, {"__constant_ntohs", 16, 1, le_t}, {"__swab16", 16, 1, le_u}, {"__swab32", 32, 1, le_v}, {"__swab64", 64, 1, le_w}, {"__constant_swab16", 16, 1, le_x}, {"__constant_swab32", 32, 1, le_y}, {"__constant_swab64", 64, 1, le_z}, {0, 0, 0, 0}};
#define W(expr) switch (width) { case 1: { uint8_t v = (uint8_t)v0; expr; } case 2: { uint16_t v = (uint16_t)v0; expr; } case 4: { uint32_t v = (uint32_t)v0; expr; } case 8: { uint64_t v = v0; expr; } default: { unsigned char* v = (unsigned char*)(uintptr_t)v0; expr; } }
uint64_t u_align(int op, int width, uint64_t v0, uint64_t n) { if (op == 0) W(return (uint64_t)(uintptr_t)_ALIGN_UP(v, n)) if (op == 1) W(return (uint64_t)(uintptr_t)_ALIGN_DOWN(v, n)) W(return (uint64_t)_IS_ALIGNED(v, n)) return 0; }
int u_ispow2(int width, uint64_t v0) { W(return _IS_POW2(v)) return 0; }
uint64_t u_nextpow2(int width, uint64_t v0) { W(return (uint64_t)(uintptr_t)NEXTPOW2(v)) return 0; }
uint64_t u_dur(int u, uint64_t n) { switch (u) { case 0: return _Hour(n); case 1: return _Minute(n); case 2: return _Second(n); case 3: return _Millisecond(n); case 4: return _Microsecond(n); default: return _Nanosecond(n); } }
uint64_t u_tm(int u, long n) { int i = (int)n; switch (u) { case 0: return _SEC(n); case 1: return _MSEC(n); case 2: return _USEC(n); case 3: return _SEC(i); case 4: return _MSEC(i); default: return _USEC(i); } }
uint64_t u_now(int w) { return w == 0 ? timenow_us() : w == 1 ? timenow() : now(); }
size_t u_arrsz(int i) { int a[7]; char b[300]; uint64_t c[1][5]; return i == 0 ? ARRAY_SIZE(a) : i == 1 ? ARRAY_SIZE(b) : ARRAY_SIZE(c[0]); }
void dl_test(const uint8_t* set, size_t n, uint8_t in[256], int sgn) { struct { uint64_t a; delim d; uint64_t b; } x; x.a = x.b = 0x5a5a5a5a5a5a5a5aull; memset(&x.d, 0xff, sizeof x.d); __init_delim(&x.d); for (size_t i = 0; i < n; i++) { if (sgn) { char c = (char)set[i]; __add_delim(&x.d, c); } else { int c = set[i]; __add_delim(&x.d, c); } } for (int k = 0; k < 256; k++) { if (sgn) { char c = (char)k; in[k] = __is_delim(&x.d, c) ? 1 : 0; } else in[k] = __is_delim(&x.d, k) ? 1 : 0; } if (x.a != 0x5a5a5a5a5a5a5a5aull || x.b != x.a) in[0] = 2; }
int u_consts(void) { static const uint32_t a = __constant_swab32(0x11223344); static const uint16_t b = __constant_swab16(0x1122); static const uint64_t d = __constant_swab64(0x1122334455667788ull); return a == 0x44332211 && b == 0x2211 && d == 0x8877665544332211ull && __swab32(0xff000001u) == 0x010000ffu && __swab16(0x80ff) == 0xff80 && __swab64(0x80000000000000ffull) == 0xff00000000000080ull; }
static double D(uint64_t v) { double d; memcpy(&d, &v, 8); return d; } static uint64_t V(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
unsigned char* ed_enc(int k, unsigned char* b, uint64_t v) { switch (k) { case 0: return enc_LE_u16(b, (uint16_t)v); case 1: return enc_BE_u16(b, (uint16_t)v); case 2: return enc_LE_u32(b, (uint32_t)v); case 3: return enc_BE_u32(b, (uint32_t)v); case 4: return enc_LE_u64(b, v); case 5: return enc_BE_u64(b, v); case 6: return enc_LE_float64(b, D(v)); default: return enc_BE_float64(b, D(v)); } }
uint64_t ed_dec(int k, unsigned char* b) { switch (k) { case 0: return dec_LE_u16(b); case 1: return dec_BE_u16(b); case 2: return dec_LE_u32(b); case 3: return dec_BE_u32(b); case 4: return dec_LE_u64(b); case 5: return dec_BE_u64(b); case 6: return V(dec_LE_float64(b)); default: return V(dec_BE_float64(b)); } }
#include "utils/nospec.h"
uint64_t u_nospec(int width, uint64_t i0, uint64_t n0) { switch (width) { case 1: { uint8_t i = (uint8_t)i0, n = (uint8_t)n0; return (uint64_t)array_index_nospec(i, n); } case 2: { uint16_t i = (uint16_t)i0, n = (uint16_t)n0; return (uint64_t)array_index_nospec(i, n); } case 4: { uint32_t i = (uint32_t)i0, n = (uint32_t)n0; return (uint64_t)array_index_nospec(i, n); }
    case 5: { int i = (int)i0; size_t n = n0; return (uint64_t)(int64_t)array_index_nospec(i, n); } default: return (uint64_t)array_index_nospec(i0, n0); } }
