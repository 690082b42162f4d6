#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include "utils/utils.h"
#include "posix/job.h"
#include "posix/work.h"
#include "w_shim.h"
struct m { int kind; job_manager j; work_manager w; };
void* w_new(int kind, int n, w_func f, void* ctx, int* r) { struct m* m = (struct m*)malloc(sizeof *m); m->kind = kind; *r = kind ? work_manager_init(&m->w, n, f, ctx) : job_manager_init(&m->j, n, f, ctx); return m; }
int w_submit(void* p, int next, void* job) { struct m* m = p; if (m->kind) return work_manager_submit_work(&m->w, next, job); job_manager_submit_job(&m->j, job); return -1; }
int w_wait(void* p) { struct m* m = p; return m->kind ? work_manager_wait(&m->w) : job_manager_wait(&m->j); }
void w_del(void* p, int destroy) { struct m* m = p; if (destroy) { if (m->kind) work_manager_destroy(&m->w); else job_manager_destroy(&m->j); } free(m); }
