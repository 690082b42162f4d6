#pragma once
#include <pthread.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*w_func)(void* ctx, void* job, int nr);
void* w_new(int kind, int n, w_func f, void* ctx, int* r);   // kind 0: job manager, 1: work manager
int w_submit(void* m, int next, void* job);
int w_wait(void* m);
void w_del(void* m, int destroy);
#ifdef __cplusplus
}
#endif
