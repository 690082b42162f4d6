// Uninstrumented: takes a ring through so many elements that its free-running 32-bit indices are about to wrap.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"
#include "q_ring.h"
// moves 'total' elements through the (empty) ring in blocks of k; returns how many went through before something was wrong
uint64_t rgl_pump(void* ring, unsigned k, uint64_t total) {
    rte_ring* r = ring; void** o = malloc(2 * k * sizeof *o), **d = o + k; uint64_t done = 0; for (unsigned i = 0; i < k; i++) o[i] = (void*)(uintptr_t)(i * 8 + 1);
    while (done < total) { unsigned n = total - done < k ? (unsigned)(total - done) : k; if (rte_ring_enqueue_bulk(r, o, n) != (int)n) break; if (rte_ring_dequeue_bulk(r, d, n) != (int)n || memcmp(o, d, n * sizeof *o)) break; done += n; }
    free(o); return done;
}
