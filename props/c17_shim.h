#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { const char* name; int bits, swaps; uint64_t (*f)(uint64_t); } ep_t; // swaps: 1 reverses the bytes, 0 keeps
extern const ep_t ep_le[], ep_be[];
uint64_t u_align(int op, int width, uint64_t v, uint64_t n); // op 0 up, 1 down, 2 is-aligned; width 1,2,4,8 bytes, 9: pointer
int u_ispow2(int width, uint64_t v); uint64_t u_nextpow2(int width, uint64_t v);
uint64_t u_dur(int unit, uint64_t n); // 0 hour 1 minute 2 second 3 ms 4 us 5 ns
uint64_t u_tm(int unit, long n);      // 0 _SEC 1 _MSEC 2 _USEC with long, 3-5 with int
uint64_t u_now(int which);            // 0 timenow_us 1 timenow 2 now()
size_t u_arrsz(int i);
void dl_test(const uint8_t* set, size_t n, uint8_t in[256], int sgn);
int u_consts(void);
uint64_t u_nospec(int width, uint64_t i, uint64_t n); // array_index_nospec; width 5: a signed index
unsigned char* ed_enc(int k, unsigned char* b, uint64_t v); uint64_t ed_dec(int k, unsigned char* b); // k: 0 LE16 1 BE16 2 LE32 3 BE32 4 LE64 5 BE64 6 LEf64 7 BEf64
#ifdef __cplusplus
}
#endif
