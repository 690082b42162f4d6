// Engine: worker loop, coverage feedback, supervision, shrinking, replay. Linked into every property binary.
#include "pbt.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unordered_set>
#include <unordered_map>

namespace pbt {

static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
Rng::Rng(uint64_t seed) { for (int i = 0; i < 4; i++) s[i] = mix(seed + 0x1234567ull * (i + 1)); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

// ---------------------------------------------------------------- comparison operand dictionary
static uint64_t dict[512]; static unsigned ndict = 0; static bool dict_on = false;
static void dict_add(uint64_t v) {
    if (!dict_on || ndict >= 512) return;
    for (unsigned i = 0; i < ndict; i++) if (dict[i] == v) return;
    dict[ndict++] = v;
}
static thread_local bool in_main_thread = false;

// ---------------------------------------------------------------- choices
void Src::put(uint64_t v, int n) {
    for (int i = 0; i < n; i++) { if (nrec < reccap) rec[nrec] = (uint8_t)(v >> (8 * i)); nrec++; }
    if (nrec_shared) *nrec_shared = nrec < reccap ? nrec : reccap;
    if (nrec >= reccap) { // a case too big to record: treat as simplest from here on
        rng = nullptr;
    }
}
uint64_t Src::raw(int n) {
    uint64_t v = 0;
    if (pos < inlen) {
        for (int i = 0; i < n; i++) v |= (uint64_t)(pos + i < inlen ? in[pos + i] : 0) << (8 * i);
        pos += n;
    } else if (rng) v = rng->next();
    if (n < 8) v &= (1ull << (8 * n)) - 1;
    put(v, n);
    return v;
}
static int width(uint64_t span) { int n = 1; while (n < 8 && span >= (1ull << (8 * n))) n++; return n; }
uint64_t Src::range(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = hi - lo; int n = width(span);
    if (fresh()) {
        uint64_t r = rng->next(), v;
        if (span > 12 && ndict && (r & 15) == 0) {
            for (int t = 0; t < 6; t++) {
                uint64_t d = dict[rng->next() % ndict] + (uint64_t)(t & 1 ? 0 : (int64_t)(rng->next() % 3) - 1);
                if (d >= lo && d <= hi) { put(d - lo, n); return d; }
            }
        }
        uint64_t x = rng->next();
        v = span == UINT64_MAX ? x : x % (span + 1);
        put(v, n);
        return lo + v;
    }
    uint64_t x = raw(n);
    return lo + (span == UINT64_MAX ? x : x % (span + 1));
}
bool Src::chance(unsigned num, unsigned den) {
    // decoded so that byte 0 is false: true iff v >= den-num
    uint64_t v = den <= 256 ? raw(1) : raw(4);
    if (den <= 256) return (v * den) / 256 >= den - num && v != 0;
    return v % den >= den - num && v != 0;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0; for (unsigned x : w) tot += x;
    uint64_t v = raw(2) * tot / 65536; size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return w.size() - 1;
}
uint64_t Src::u(int bits) {
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (weighted({4, 3, 2, 2, 2})) {
    case 0: return range(0, 20) & mask;
    case 1: return range(0, mask);
    case 2: return ((1ull << range(0, bits - 1)) + range(0, 4) - 2) & mask;
    case 3: return (mask - range(0, 4)) & mask;
    default: { int b = (int)range(1, bits); return range(0, b == 64 ? ~0ull : (1ull << b) - 1) & mask; }
    }
}
size_t Src::size(size_t max) {
    switch (weighted({6, 4, 2})) {
    case 0: return range(0, std::min<size_t>(max, 8));
    case 1: return range(0, std::min<size_t>(max, 40));
    default: return range(0, max);
    }
}
std::string Src::bytes(size_t n) {
    std::string s; s.reserve(n);
    for (size_t i = 0; i < n; i++) s.push_back((char)raw(1));
    return s;
}
size_t Src::big(size_t max) {
    int top = 0; while (top < 62 && (size_t(2) << top) <= max) top++;
    int k = (int)range(top > 5 ? 5 : 0, top); size_t b = size_t(1) << k;
    size_t n = chance(1, 2) ? b + irange(-2, 2) : b + range(0, b - 1);
    return n > max ? max : n;
}
std::string Src::fill(size_t n, const std::string& al) {
    uint64_t x = raw(4), z = 0; std::string s(n, 0);
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) { x += 0x9e3779b97f4a7c15ull; z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; } else z >>= 8;
        s[i] = al.empty() ? (char)z : al[(size_t)(uint8_t)z * al.size() >> 8];
    }
    return s;
}
std::string Src::text(const std::string& a, size_t n) {
    std::string s; s.reserve(n);
    for (size_t i = 0; i < n; i++) s.push_back(a[range(0, a.size() - 1)]);
    return s;
}

// ---------------------------------------------------------------- context, targets
Ctx* cur = nullptr;
static std::vector<Target>& targets() { static std::vector<Target> t; return t; }
Reg::Reg(const char* n, double w, TargetFn f, const char* rule, unsigned flags) { targets().push_back({n, w, f, rule, flags}); }

static const int MAXLAB = 200;
struct LabelCnt { char name[56]; uint64_t n; };
struct Shared { // per worker, MAP_SHARED
    volatile uint64_t case_start_ms, case_no, nrec, target, phase; // phase 1 = running a case
    uint64_t evals[32], nontriv[32], discards[32], corpus[32];
    LabelCnt lab[MAXLAB];
    volatile uint64_t edges;
};
static const size_t RECCAP = 4u << 20;
static Shared* sh = nullptr; static uint8_t* recbuf = nullptr;

void Ctx::label(const char* name, uint64_t n) {
    if (!sh) return;
    for (int i = 0; i < MAXLAB; i++) {
        if (!sh->lab[i].name[0]) { snprintf(sh->lab[i].name, sizeof sh->lab[i].name, "%s", name); sh->lab[i].n = n; return; }
        if (!strcmp(sh->lab[i].name, name)) { sh->lab[i].n += n; return; }
    }
}
void Ctx::tr(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    fputs("  | ", stderr); fputs(b, stderr); fputc('\n', stderr);
}
std::string fmt(const char* f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string show(const void* p, size_t n, size_t max) { return show(std::string((const char*)p, n), max); }
std::string show(const std::string& s, size_t max) {
    std::string o = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch >= 32 && ch < 127) o += (char)ch;
        else { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    }
    o += "\"";
    if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
    return o;
}
static void flush_all() { fflush(stdout); fflush(stderr); }
void fail(const char* file, int line, const char* f, ...) {
    va_list ap; va_start(ap, f);
    const char* b = strrchr(file, '/');
    fprintf(stderr, "ORACLE %s:%d: ", b ? b + 1 : file, line); vfprintf(stderr, f, ap); fputc('\n', stderr);
    va_end(ap); flush_all(); _exit(77);
}
void harness_error(const char* f, ...) {
    va_list ap; va_start(ap, f); fprintf(stderr, "HARNESS-ERROR: "); vfprintf(stderr, f, ap); fputc('\n', stderr);
    va_end(ap); flush_all(); _exit(99);
}
static std::string workdir; static bool is_thorough = false; static int worker_idx = 0;
bool thorough() { return is_thorough; }
const std::string& scratch() {
    static std::string d; static pid_t who = 0;
    if (who != getpid()) { who = getpid(); d = workdir + "/scratch." + std::to_string((long)who); mkdir(d.c_str(), 0777); }
    return d;
}

// ---------------------------------------------------------------- live allocation accounting
static volatile long live_allocs = 0;
} // namespace pbt
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace pbt {
static void mh(const volatile void* p, size_t) { if (p) __atomic_add_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }
static void fh(const volatile void* p) { if (p) __atomic_sub_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }

// ---------------------------------------------------------------- coverage
static std::vector<std::pair<uint8_t*, uint8_t*>>* mods; static bool cov_busy = false;
static uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static std::vector<std::vector<uint8_t>> seen; // per module
static int cov_new() { // returns number of new (edge,bucket) pairs; clears counters
    int nw = 0; if (!mods) return 0;
    seen.resize(mods->size());
    for (size_t m = 0; m < mods->size(); m++) {
        uint8_t *a = (*mods)[m].first, *b = (*mods)[m].second;
        if (seen[m].empty()) seen[m].assign(b - a, 0);
        for (uint8_t* p = a; p < b;) {
            if (b - p >= 8 && *(uint64_t*)p == 0) { p += 8; continue; }
            if (*p) { uint8_t k = bucket(*p); uint8_t& s = seen[m][p - a]; if (!(s & k)) { if (!s) sh->edges++; s |= k; nw++; } *p = 0; }
            p++;
        }
    }
    return nw;
}
} // namespace pbt
extern "C" {
void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) {
    if (a == b) return;
    if (!pbt::mods) pbt::mods = new std::vector<std::pair<uint8_t*, uint8_t*>>();
    for (auto& m : *pbt::mods) if (m.first == a) return;
    // align start to 8 for the fast scan
    pbt::mods->push_back({a, b});
}
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
#define NS __attribute__((no_sanitize("all")))
NS void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
NS void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
NS void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
NS void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
NS void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { if (pbt::dict_on && pbt::in_main_thread) pbt::dict_add(a); }
NS void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { if (pbt::dict_on && pbt::in_main_thread) pbt::dict_add(a); }
NS void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { if (pbt::dict_on && pbt::in_main_thread) pbt::dict_add(a); }
NS void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { if (pbt::dict_on && pbt::in_main_thread) pbt::dict_add(a); }
NS void __sanitizer_cov_trace_switch(uint64_t, uint64_t* c) { if (pbt::dict_on && pbt::in_main_thread) for (uint64_t i = 0; i < c[0] && i < 64; i++) pbt::dict_add(c[2 + i]); }
NS void __sanitizer_cov_trace_div4(uint32_t) {}
NS void __sanitizer_cov_trace_div8(uint64_t) {}
NS void __sanitizer_cov_trace_gep(uintptr_t) {}
}
namespace pbt {

static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

// ---------------------------------------------------------------- one case
static uint64_t hash_bytes(const uint8_t* p, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull; return mix(h); }

static void run_case(const Target& t, Src& s, Ctx& c) {
    cur = &c;
    long before = live_allocs;
    t.fn(s, c);
    if (c.leakcheck && live_allocs > before) {
        // confirm by repetition: one-time lazy allocations of libc do not grow again
        std::vector<uint8_t> copy(s.rec, s.rec + std::min(s.nrec, s.reccap));
        int grew = 0; long g = 0;
        for (int i = 0; i < 3; i++) {
            std::vector<uint8_t> r(copy.size() + 4096); Src s2; s2.in = copy.data(); s2.inlen = copy.size(); s2.rec = r.data(); s2.reccap = r.size();
            Ctx c2; long b = live_allocs;
            cur = &c2; t.fn(s2, c2); cur = &c;
            if (live_allocs > b) { grew++; g = live_allocs - b; }
        }
        if (grew == 3) FAIL("memory leak: %ld allocation(s) still live after the case, on each of 3 repetitions", g);
    }
    cur = nullptr;
}

static std::vector<uint8_t> mutate(const std::vector<std::vector<uint8_t>>& corpus, Rng& r) {
    // recent entries preferred
    size_t n = corpus.size(); size_t i = (r.next() & 1) ? n - 1 - r.next() % std::min<size_t>(n, 32) : r.next() % n;
    std::vector<uint8_t> b = corpus[i];
    int k = 1 + r.next() % 4;
    while (k--) {
        size_t L = b.size();
        switch (r.next() % 9) {
        case 0: case 1: if (L) b[r.next() % L] = (uint8_t)r.next(); break;
        case 2: if (L) b[r.next() % L] += (uint8_t)(r.next() % 9) - 4; break;
        case 3: if (L) b[r.next() % L] ^= 1u << (r.next() & 7); break;
        case 4: if (L) { size_t a = r.next() % L, m = 1 + r.next() % std::min<size_t>(L - a, 16); b.erase(b.begin() + a, b.begin() + a + m); } break;
        case 5: { size_t a = r.next() % (L + 1), m = 1 + r.next() % 8; std::vector<uint8_t> x(m); for (auto& y : x) y = (uint8_t)r.next(); b.insert(b.begin() + a, x.begin(), x.end()); } break;
        case 6: if (L) { size_t a = r.next() % L, m = 1 + r.next() % std::min<size_t>(L - a, 64); std::vector<uint8_t> x(b.begin() + a, b.begin() + a + m); b.insert(b.begin() + r.next() % (L + 1), x.begin(), x.end()); } break;
        case 7: { const auto& o = corpus[r.next() % n]; if (o.size() && L) { b.resize(r.next() % L); size_t a = r.next() % o.size(); b.insert(b.end(), o.begin() + a, o.end()); } } break;
        case 8: if (L) b.resize(r.next() % L); break; // the rest is drawn afresh
        }
        if (b.size() > 65536) b.resize(65536);
    }
    return b;
}

struct Opts {
    uint64_t seed = 1; int workers = 8; double secs = 20; uint64_t mincases = 200, maxcases = ~0ull; std::string only, out, replay, work, logdir;
    double hang = 60; bool verbose = false; int trace = 0; std::string tier = "quick"; std::string hex;
};

// sched: exact number of cases per target (used to repeat a worker's history), or null
static void worker_main(const Opts& o, int w, int logfd, const std::string& hashfile, const std::vector<uint64_t>* sched = nullptr) {
    dup2(logfd, 2); dup2(logfd, 1);
    in_main_thread = true; worker_idx = w;
    std::unordered_set<uint64_t> distinct; std::vector<std::vector<uint8_t>> keep;
    double totw = 0; auto& ts = targets();
    for (auto& t : ts) if (o.only.empty() || o.only == t.name) totw += t.weight;
    std::string samplefile = hashfile + ".samples"; FILE* sf = w == 0 ? fopen(samplefile.c_str(), "w") : nullptr;
    for (size_t ti = 0; ti < ts.size(); ti++) {
        const Target& t = ts[ti];
        if (!o.only.empty() && o.only != t.name) continue;
        Rng r(o.seed * 1000003ull + w * 7919ull + ti * 104729ull + 12345);
        std::vector<std::vector<uint8_t>> corpus;
        for (auto& m : seen) std::fill(m.begin(), m.end(), 0);
        double budget = o.secs * t.weight / totw; uint64_t t0 = now_ms(); uint64_t nsamp = 0;
        sh->target = ti;
        if ((t.flags & ONCE) && w != 0) continue;
        for (uint64_t n = 0;; n++) {
            uint64_t el = now_ms() - t0;
            if (sched) { if (n >= (*sched)[ti]) break; }
            else if (t.flags & ONCE) { if (n >= 1) break; }
            else { if (n >= o.mincases && el > budget * 1000) break; if (el > budget * 3000 + 5000) break; if (n >= o.maxcases) break; }
            Src s; s.rec = recbuf; s.reccap = RECCAP; s.nrec_shared = (uint64_t*)&sh->nrec;
            Rng cr(r.next()); s.rng = &cr;
            std::vector<uint8_t> m;
            if (!corpus.empty() && (r.next() % 5) < 2) { m = mutate(corpus, r); s.in = m.data(); s.inlen = m.size(); }
            sh->nrec = 0; sh->case_no = n; sh->case_start_ms = now_ms(); __sync_synchronize(); sh->phase = 1;
            Ctx c; dict_on = true;
            run_case(t, s, c);
            dict_on = false;
            sh->phase = 0;
            sh->evals[ti]++;
            if (c.discard) sh->discards[ti]++;
            size_t L = std::min(s.nrec, s.reccap);
            if (c.nontriv) {
                if (distinct.size() < 4000000 && distinct.insert(hash_bytes(recbuf, L, ti * 77 + 1)).second) sh->nontriv[ti]++;
                if (sf && L < 65536 && (nsamp < 1 || (nsamp < 3 && n > 50 && (n % 97) == 0))) {
                    nsamp++; fprintf(sf, "%zu ", ti); for (size_t i = 0; i < L; i++) fprintf(sf, "%02x", recbuf[i]); fputc('\n', sf); fflush(sf);
                }
            }
            if (cov_new() > 0 && L <= 65536 && L > 0) {
                std::vector<uint8_t> x(recbuf, recbuf + L);
                if (corpus.size() < 2000) corpus.push_back(x); else corpus[r.next() % corpus.size()] = x;
                sh->corpus[ti] = corpus.size();
            }
        }
    }
    if (sf) fclose(sf);
    FILE* f = fopen(hashfile.c_str(), "wb");
    { std::vector<uint64_t> v(distinct.begin(), distinct.end()); fwrite(v.data(), 8, v.size(), f); }
    fclose(f);
    flush_all();
    _exit(42);
}

static void drop_scratch(pid_t p) {
    if (workdir.empty() || workdir[0] != '/') return;
    std::string d = workdir + "/scratch." + std::to_string((long)p);
    if (access(d.c_str(), F_OK)) return;
    pid_t k = fork(); if (k == 0) { execl("/bin/chmod", "chmod", "-R", "u+rwx", d.c_str(), (char*)0); _exit(1); } waitpid(k, 0, 0);
    k = fork(); if (k == 0) { execl("/bin/rm", "rm", "-rf", d.c_str(), (char*)0); _exit(1); } waitpid(k, 0, 0);
}

// status of a forked execution
enum { PASS = 0, BAD = 1, HANG = 2, HERR = 3 };
static int classify(int st) {
    if (WIFEXITED(st)) { int e = WEXITSTATUS(st); return e == 42 ? PASS : e == 99 ? HERR : BAD; } // 42, so that an exit() by the code under test is not taken for success
    return BAD;
}
// A case that eats memory without bound is stopped before it takes the machine with it.
static const uint64_t MEMLIMIT = 3500ull << 20;
static bool over_memory(pid_t p) {
    char f[64], b[128]; snprintf(f, sizeof f, "/proc/%d/statm", (int)p); int fd = open(f, O_RDONLY | O_CLOEXEC); if (fd < 0) return false;
    ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return false; b[n] = 0;
    unsigned long long vs = 0, rs = 0; return sscanf(b, "%llu %llu", &vs, &rs) == 2 && rs * 4096 > MEMLIMIT;
}
static void note_memory(const std::string& log) { FILE* h = fopen(log.c_str(), "a"); if (h) { fprintf(h, "FAIL: the case uses more than %llu MB of memory\n", (unsigned long long)(MEMLIMIT >> 20)); fclose(h); } }
static int try_case(const Target& t, const std::vector<uint8_t>& b, const Opts& o, const std::string& log, bool trace, double hang) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    *(volatile uint64_t*)&sh->nrec = 0;
    flush_all();
    pid_t p = fork();
    if (p == 0) {
        dup2(fd, 2); dup2(fd, 1); in_main_thread = true; setpgid(0, 0);
        Rng dummy(1); Src s; s.in = b.data(); s.inlen = b.size(); s.rec = recbuf; s.reccap = RECCAP; s.nrec_shared = (uint64_t*)&sh->nrec;
        Ctx c; c.trace = trace;
        run_case(t, s, c);
        flush_all(); _exit(42);
    }
    close(fd);
    uint64_t t0 = now_ms(); int st; useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now_ms() - t0 > hang * 1000) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); drop_scratch(p); return HANG; }
        if (nap >= 5000 && over_memory(p)) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); drop_scratch(p); note_memory(log); return BAD; }
        usleep(nap); if (nap < 20000) nap += nap / 4;
    }
    kill(-p, SIGKILL);
    drop_scratch(p);
    return classify(st);
}
static std::string slurp(const std::string& f, size_t max = 60000) {
    std::string s; FILE* h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t n;
    while (s.size() < max && (n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s;
}
static std::string tail(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(s.size() - n); }

// shrink on choice bytes
static std::vector<uint8_t> shrink(const Target& t, std::vector<uint8_t> best, const Opts& o, int kind, double secs) {
    uint64_t t0 = now_ms(); int tries = 0;
    double hang = kind == HANG ? 5 : 20;
    auto over = [&]() { return now_ms() - t0 > secs * 1000; };
    auto ok = [&](std::vector<uint8_t> c) {
        if (over()) return false;
        // shortlex order only
        if (c.size() > best.size() || (c.size() == best.size() && c >= best)) return false;
        tries++;
        int k = try_case(t, c, o, o.logdir + "/shrink.log", false, hang);
        if (k == kind) {
            size_t used = (size_t)sh->nrec; if (used < c.size()) c.resize(used); // bytes never read
            best = c; return true;
        }
        return false;
    };
    while (!best.empty() && best.back() == 0) { auto c = best; c.pop_back(); if (!ok(c)) break; }
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t blk = std::max<size_t>(best.size() / 2, 1); blk >= 1 && !over(); blk /= 2) { // delete blocks
            for (size_t i = best.size() > blk ? best.size() - blk : 0;; i = i > blk ? i - blk : 0) {
                if (i + blk <= best.size()) { auto c = best; c.erase(c.begin() + i, c.begin() + i + blk); if (ok(c)) progress = true; }
                if (i == 0 || over()) break;
            }
            if (blk == 1) break;
        }
        for (size_t blk : {16, 8, 4, 2, 1}) // zero blocks
            for (size_t i = 0; i + blk <= best.size() && !over(); i += blk) {
                bool z = true; for (size_t k = 0; k < blk; k++) z = z && best[i + k] == 0;
                if (z) continue;
                auto c = best; for (size_t k = 0; k < blk; k++) c[i + k] = 0;
                if (ok(c)) progress = true;
            }
        for (size_t i = 0; i < best.size() && !over(); i++) { // lower bytes
            for (int d : {128, 64, 32, 16, 8, 4, 2, 1}) while (i < best.size() && best[i] >= d && !over()) { auto c = best; c[i] -= d; if (!ok(c)) break; progress = true; }
        }
    }
    fprintf(stderr, "shrunk to %zu choice bytes in %d attempts\n", best.size(), tries);
    return best;
}

static std::string hex(const std::vector<uint8_t>& b) { std::string s; char x[4]; for (uint8_t v : b) { snprintf(x, sizeof x, "%02x", v); s += x; } return s; }
static std::vector<uint8_t> unhex(const std::string& h) { std::vector<uint8_t> b; for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), 0, 16)); return b; }
static std::string jstr(const std::string& s) {
    std::string o = "\""; char b[8];
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += (char)ch; }
    return o + "\"";
}

static int main_impl(int argc, char** argv) {
    Opts o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 0);
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--secs") o.secs = atof(val().c_str());
        else if (a == "--maxcases") o.maxcases = strtoull(val().c_str(), 0, 0);
        else if (a == "--target") o.only = val();
        else if (a == "--out") o.out = val();
        else if (a == "--work") o.work = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--hex") o.hex = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--hang") o.hang = atof(val().c_str());
        else if (a == "--list") { for (auto& t : targets()) printf("%s\n", t.name); return 0; }
    }
    is_thorough = o.tier == "thorough";
    workdir = o.work.empty() ? "/tmp/pbt.work" : o.work; mkdir(workdir.c_str(), 0777); o.logdir = workdir;
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
    signal(SIGPIPE, SIG_IGN);
    int W = o.workers;
    std::vector<Shared*> shs(W); std::vector<uint8_t*> recs(W);
    for (int w = 0; w < W; w++) {
        shs[w] = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        recs[w] = (uint8_t*)mmap(0, RECCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    sh = shs[0]; recbuf = recs[0];
    if (!o.replay.empty()) { // file: lines target=..., hex=...
        std::string f = slurp(o.replay, 16u << 20); size_t a = f.find("target="), h = f.find("\nhex=");
        if (a == std::string::npos || h == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string tn = f.substr(a + 7, f.find('\n', a) - a - 7); std::string hx = f.substr(h + 5, f.find('\n', h + 1) - h - 5);
        for (auto& t : targets()) if (tn == t.name) {
            int k = try_case(t, unhex(hx), o, workdir + "/replay.log", true, o.hang);
            fputs(slurp(workdir + "/replay.log").c_str(), stdout);
            printf("replay of %s: %s\n", tn.c_str(), k == PASS ? "passes" : k == HANG ? "HANGS" : k == HERR ? "harness error" : "FAILS");
            return k == PASS ? 0 : k == HERR ? 2 : 1;
        }
        fprintf(stderr, "no target %s in this binary\n", tn.c_str()); return 3;
    }
    std::vector<pid_t> pids(W); std::vector<int> done(W, 0);
    uint64_t t0 = now_ms();
    for (int w = 0; w < W; w++) {
        std::string lf = o.logdir + "/w" + std::to_string(w) + ".log"; int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        flush_all();
        pid_t p = fork();
        if (p == 0) { setpgid(0, 0); sh = shs[w]; recbuf = recs[w]; worker_main(o, w, fd, o.logdir + "/h" + std::to_string(w)); }
        pids[w] = p; close(fd);
    }
    int bad = -1, kind = PASS; int left = W; int herr = -1;
    for (unsigned round = 0; left && bad < 0 && herr < 0; round++) {
        for (int w = 0; w < W; w++) {
            if (done[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                done[w] = 1; left--; int k = classify(st);
                if (k == HERR) herr = w; else if (k == BAD) { if (shs[w]->phase == 1) { bad = w; kind = BAD; } else herr = w; }
            } else if (shs[w]->phase == 1) {
                uint64_t s = shs[w]->case_start_ms, n = now_ms();
                if (n > s && n - s > o.hang * 1000 && shs[w]->phase == 1 && shs[w]->case_start_ms == s) { bad = w; kind = HANG; }
                else if (round % 10 == (unsigned)w % 10 && over_memory(pids[w]) && shs[w]->phase == 1) { kill(pids[w], SIGSTOP); bad = w; kind = BAD; note_memory(o.logdir + "/w" + std::to_string(w) + ".log"); }
            }
            if (bad >= 0 || herr >= 0) break;
        }
        usleep(5000);
    }
    for (int w = 0; w < W; w++) { if (!done[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], 0, 0); } else kill(-pids[w], SIGKILL); drop_scratch(pids[w]); }
    int rc = 0; std::string vjson = "null";
    if (herr >= 0) { fprintf(stderr, "harness error in worker %d:\n%s\n", herr, tail(slurp(o.logdir + "/w" + std::to_string(herr) + ".log"), 4000).c_str()); rc = 2; }
    auto& ts = targets();
    if (bad >= 0) {
        const Target& t = ts[shs[bad]->target]; std::vector<uint8_t> b(recs[bad], recs[bad] + std::min<uint64_t>((uint64_t)shs[bad]->nrec, RECCAP));
        std::string wlog = tail(slurp(o.logdir + "/w" + std::to_string(bad) + ".log", 1 << 20), 6000);
        fprintf(stderr, "worker %d, target %s, case %llu failed (%s), %zu choice bytes\n%s\n", bad, t.name, (unsigned long long)shs[bad]->case_no, kind == HANG ? "hang" : "fail", b.size(), wlog.c_str());
        sh = shs[0]; recbuf = recs[0];
        bool nondet = t.flags & NONDET; int reps = nondet ? 12 : 3, hits = 0;
        double h = kind == HANG ? std::min(o.hang, 30.0) : o.hang;
        std::string lg = o.logdir + "/confirm.log", msg;
        for (int i = 0; i < reps; i++) { int k = try_case(t, b, o, lg, false, h); if (k == BAD || k == HANG) { hits++; if (msg.empty()) msg = tail(slurp(lg), 6000); if (k != kind) kind = k; if (nondet) break; } }
        if (!nondet && hits < reps) {
            // state carried over from earlier cases of this worker: repeat the worker's whole history
            std::vector<uint64_t> sched(ts.size()); size_t bt = shs[bad]->target; uint64_t cn = shs[bad]->case_no;
            for (size_t i = 0; i < ts.size(); i++) sched[i] = i < bt ? (uint64_t)shs[bad]->evals[i] : i == bt ? cn + 1 : 0;
            int again = 0;
            for (int rep = 0; rep < 2; rep++) {
                int fd = open(lg.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                memset(shs[0], 0, sizeof(Shared)); flush_all();
                pid_t p = fork();
                if (p == 0) { setpgid(0, 0); sh = shs[0]; recbuf = recs[0]; worker_main(o, bad, fd, o.logdir + "/hx", &sched); }
                close(fd); int st; uint64_t r0 = now_ms(); bool hung = false;
                while (waitpid(p, &st, WNOHANG) != p) { if (now_ms() - r0 > 300000) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; } usleep(5000); }
                kill(-p, SIGKILL); drop_scratch(p);
                if (!hung && classify(st) == BAD && shs[0]->phase == 1 && shs[0]->target == bt && shs[0]->case_no == cn) again++; else break;
            }
            bool ok2 = again == 2;
            fprintf(stderr, "from its own bytes: %d/%d; by repeating the worker's history: %d/2\n", hits, reps, again);
            std::string hist = "seed=" + std::to_string(o.seed) + " worker=" + std::to_string(bad) + " cases="; for (auto x : sched) hist += std::to_string(x) + ",";
            vjson = std::string("{\"reproduced\":") + (ok2 ? "true" : "false") + ",\"kind\":\"history\",\"history\":" + jstr(hist) + ",\"target\":" + jstr(t.name) + ",\"hex\":" + jstr(hex(b)) + ",\"log\":" + jstr(wlog) + "}";
            rc = ok2 ? 1 : kind == HANG ? 5 : 4;
        } else if (nondet && hits == 0 && kind == HANG) {
            vjson = "{\"reproduced\":false,\"target\":" + jstr(t.name) + ",\"hex\":" + jstr(hex(b)) + ",\"log\":" + jstr(wlog) + "}"; rc = 5;
        } else {
            std::vector<uint8_t> m = b;
            if (hits == reps || (nondet && hits)) { if (!nondet) m = shrink(t, b, o, kind, o.tier == "thorough" ? 120 : 40); }
            int k = try_case(t, m, o, lg, true, h); std::string trace = slurp(lg);
            if (k == PASS) { m = b; if (!nondet) k = try_case(t, m, o, lg, true, h); trace = nondet ? wlog : slurp(lg); }
            vjson = "{\"reproduced\":true,\"kind\":" + jstr(kind == HANG ? "hang" : "fail") + ",\"target\":" + jstr(t.name) + ",\"hex\":" + jstr(hex(m)) + ",\"log\":" + jstr(trace) + "}";
            rc = 1;
        }
    }
    // report
    std::vector<uint64_t> all; uint64_t ev = 0, disc = 0;
    std::map<std::string, uint64_t> labs; uint64_t edges = 0;
    for (int w = 0; w < W; w++) {
        for (size_t i = 0; i < ts.size(); i++) { ev += shs[w]->evals[i]; disc += shs[w]->discards[i]; }
        for (int i = 0; i < MAXLAB && shs[w]->lab[i].name[0]; i++) labs[shs[w]->lab[i].name] += shs[w]->lab[i].n;
        edges = std::max<uint64_t>(edges, (uint64_t)shs[w]->edges);
        FILE* f = fopen((o.logdir + "/h" + std::to_string(w)).c_str(), "rb");
        if (f) { std::vector<uint64_t> buf(1 << 16); size_t k; while ((k = fread(buf.data(), 8, buf.size(), f)) > 0) all.insert(all.end(), buf.begin(), buf.begin() + (long)k); fclose(f); }
    }
    std::string samples; int ns = 0;
    if (rc == 0) {
        sh = shs[0]; recbuf = recs[0];
        FILE* f = fopen((o.logdir + "/h0.samples").c_str(), "r"); 
        if (f) { char* line = nullptr; size_t cap = 0; ssize_t L;
            while ((L = getline(&line, &cap, f)) > 0 && ns < 24) {
                size_t ti = strtoul(line, 0, 10); char* sp = strchr(line, ' '); if (!sp || ti >= ts.size()) continue;
                std::string hx(sp + 1); while (!hx.empty() && hx.back() == '\n') hx.pop_back();
                std::string lg = o.logdir + "/sample.log"; try_case(ts[ti], unhex(hx), o, lg, true, 60);
                std::string tx = slurp(lg); if (tx.size() > 1200) tx = tx.substr(0, 1200) + " ...";
                if (tx.empty()) tx = "(choices " + hx.substr(0, 200) + ")";
                samples += (ns++ ? "," : "") + std::string("{\"target\":") + jstr(ts[ti].name) + ",\"case\":" + jstr(tx) + "}";
            }
            free(line); fclose(f); }
    }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    std::string js = "{\"rc\":" + std::to_string(rc) + ",\"evaluations\":" + std::to_string(ev) + ",\"discarded\":" + std::to_string(disc) + ",\"distinct_nontrivial\":" + std::to_string(all.size()) + ",\"edges\":" + std::to_string(edges) + ",\"wall_s\":" + fmt("%.2f", (now_ms() - t0) / 1000.0) + ",\"targets\":[";
    bool first = true;
    for (size_t i = 0; i < ts.size(); i++) {
        if (!o.only.empty() && o.only != ts[i].name) continue;
        uint64_t e = 0, n = 0, co = 0; for (int w = 0; w < W; w++) { e += shs[w]->evals[i]; n += shs[w]->nontriv[i]; co += shs[w]->corpus[i]; }
        js += (first ? "" : ",") + std::string("{\"name\":") + jstr(ts[i].name) + ",\"rule\":" + jstr(ts[i].rule) + ",\"cases\":" + std::to_string(e) + ",\"nontrivial\":" + std::to_string(n) + ",\"corpus\":" + std::to_string(co) + "}"; first = false;
    }
    js += "],\"labels\":{"; first = true;
    for (auto& l : labs) { js += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); first = false; }
    js += "},\"samples\":[" + samples + "],\"violation\":" + vjson + "}\n";
    if (!o.out.empty()) { FILE* f = fopen(o.out.c_str(), "w"); fputs(js.c_str(), f); fclose(f); } else fputs(js.c_str(), stdout);
    return rc;
}
} // namespace pbt

extern "C" __attribute__((weak)) const char* __asan_default_options() { return "exitcode=78:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=2048:malloc_context_size=8:symbolize=1:quarantine_size_mb=16:allow_user_segv_handler=1"; }
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=78"; }
extern "C" __attribute__((weak)) const char* __tsan_default_options() { return "exitcode=78:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:detect_deadlocks=0:history_size=4"; }
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
