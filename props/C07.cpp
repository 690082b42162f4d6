//@ src: src/hashtable/bloom.c src/hashtable/bloom_marshal.c src/hashtable/xorfilter.c src/hashtable/xorfilter_marshal.c src/humanize.c src/strcopy.c
//@ wrap: getentropy mkostemp mkstemp open ftruncate posix_fallocate mmap munmap msync fsync fdatasync close rename unlink write pwrite
//@ libs: -lm -lsodium
//@ quick: 25
// C07: saving is all-or-nothing under a failing system call and under death at any point.
#include "bloom_common.h"
#define XOR_NO_GETENTROPY
#include "xor_common.h"
#include "filt_file.h"
#include <sys/wait.h>
#include <errno.h>

// --- system-call layer ------------------------------------------------------------------------------------------
enum { NONE, FAULT, KILL_BEFORE, KILL_AFTER };
static bool armed; static int at, mode, cnt, ferr; static const char* hit; static std::string hitname; static std::string target;
static std::map<void*, size_t> maps; static bool dirty; static bool synced_at_rename; static std::string at_rename; static bool renamed, in_wrap;
static bool step(const char* n) { // true: fail this call
    if (!armed || in_wrap) return false;
    if (cnt++ == at) { hitname = n; if (mode == KILL_BEFORE) _exit(42); if (mode == FAULT) { errno = ferr; return true; } }
    return false;
}
static void after() { if (armed && !in_wrap && mode == KILL_AFTER && cnt - 1 == at) _exit(42); }
#define REAL(r, f, a) extern "C" r __real_##f a;
REAL(int, mkostemp, (char*, int)) REAL(int, mkstemp, (char*)) REAL(int, ftruncate, (int, off_t)) REAL(int, posix_fallocate, (int, off_t, off_t)) REAL(void*, mmap, (void*, size_t, int, int, int, off_t)) REAL(int, munmap, (void*, size_t)) REAL(int, msync, (void*, size_t, int)) REAL(int, fsync, (int)) REAL(int, fdatasync, (int)) REAL(int, close, (int)) REAL(int, rename, (const char*, const char*)) REAL(int, unlink, (const char*)) REAL(ssize_t, write, (int, const void*, size_t)) REAL(ssize_t, pwrite, (int, const void*, size_t, off_t)) REAL(int, open, (const char*, int, ...))
extern "C" int __wrap_mkostemp(char* t, int f) { if (step("mkostemp")) return -1; int r = __real_mkostemp(t, f); after(); return r; }
extern "C" int __wrap_mkstemp(char* t) { if (step("mkstemp")) return -1; int r = __real_mkstemp(t); after(); return r; }
extern "C" int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (step("open")) return -1; int r = __real_open(p, f, m); after(); return r; }
extern "C" int __wrap_ftruncate(int fd, off_t n) { if (step("ftruncate")) return -1; dirty = true; int r = __real_ftruncate(fd, n); after(); return r; }
extern "C" int __wrap_posix_fallocate(int fd, off_t o, off_t n) { if (step("posix_fallocate")) return ferr; dirty = true; int r = __real_posix_fallocate(fd, o, n); after(); return r; }
extern "C" void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (fd < 0) return __real_mmap(a, n, p, f, fd, o); if (step("mmap")) return MAP_FAILED; void* r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED) { maps[r] = n; if (p & PROT_WRITE) dirty = true; } after(); return r; }
extern "C" int __wrap_munmap(void* a, size_t n) { maps.erase(a); return __real_munmap(a, n); }
extern "C" int __wrap_msync(void* a, size_t n, int f) { if (step("msync")) return -1; int r = __real_msync(a, n, f); if (f & MS_SYNC) dirty = false; after(); return r; }
extern "C" int __wrap_fsync(int fd) { if (step("fsync")) return -1; if (maps.empty() || true) dirty = false; after(); return 0; }
extern "C" int __wrap_fdatasync(int fd) { if (step("fdatasync")) return -1; dirty = false; after(); return 0; }
extern "C" int __wrap_close(int fd) { bool f = step("close"); int r = __real_close(fd); if (f) { errno = ferr; return -1; } after(); return r; }
extern "C" int __wrap_rename(const char* a, const char* b) { if (step("rename")) return -1; if (armed) { renamed = true; synced_at_rename = !dirty; in_wrap = true; at_rename = rdfile(a); in_wrap = false; } int r = __real_rename(a, b); after(); return r; }
extern "C" int __wrap_unlink(const char* p) { if (step("unlink")) return -1; int r = __real_unlink(p); after(); return r; }
extern "C" ssize_t __wrap_write(int fd, const void* b, size_t n) { if (armed && !in_wrap) { if (step("write")) return -1; dirty = true; ssize_t r = __real_write(fd, b, n); after(); return r; } return __real_write(fd, b, n); }
extern "C" ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { if (step("pwrite")) return -1; dirty = true; ssize_t r = __real_pwrite(fd, b, n, o); after(); return r; }

struct Filt { Bloom* b = nullptr; Xorfilter* x = nullptr; int save(const char* p) { return b ? Bloom_marshal(b, p) : Xorfilter_marshal(x, p); } void del() { if (b) Bloom_delete(b); if (x) Xorfilter_delete(x); } };
static Filt gen_filt(pbt::Src& g) {
    Filt f; bl_fixed = false; bl_salt = g.u();
    if (g.weighted({2, 1}) == 0) { int typ = (int)g.range(0, 2); uint64_t n = 1 + (g.chance(1, 25) ? g.big(30000) : g.range(0, 60)); f.b = bl_make(typ, n, g.pick<double>({0.01, 0.1, 0.5, 0.001}), nullptr); size_t m = g.size(3 * n); for (size_t i = 0; i < m; i++) Bloom_probe(f.b, i * 7919 + 1); GTR("%s bloom of %zu elements, n=%llu", btypname[typ], m, (unsigned long long)n); }
    else { auto ks = xr_keys(g, 1 + (g.chance(1, 25) ? g.big(30000) : g.range(0, 40))); f.x = g.flip() ? Xorfilter_new16(ks.data(), ks.size()) : Xorfilter_new8(ks.data(), ks.size()); CHECK(f.x, "no filter"); GTR("xor filter of %zu keys", ks.size()); }
    return f;
}
static std::string path(const char* n) { return pbt::scratch() + "/" + n; }
static void rmall() { for (auto& n : lsdir(pbt::scratch())) { unlink(path(n.c_str()).c_str()); rmdir(path(n.c_str()).c_str()); } }
// what is at the target before: missing, garbage, or an older filter
static std::string setup_old(pbt::Src& g) {
    rmall(); target = path("t");
    switch (g.range(0, 2)) {
    case 0: { Filt o = gen_filt(g); CHECK(o.save(target.c_str()) == 0, "save failed"); o.del(); break; }
    case 1: wrfile(target, g.bytes(g.size(300))); break;
    default: break; }
    return rdfile(target);
}
static std::string image(Filt& f) { std::string p = path("ref"); int r = f.save(p.c_str()); CHECK(r == 0, "plain save failed: %d", r); std::string s = rdfile(p); unlink(p.c_str()); return s; }

TARGET(faults, 4, "fail one system call of a save (each reached in turn, several errno values): an error leaves the target's old bytes and no stray file, success leaves exactly the new filter, data flushed before the rename, no descriptor or mapping kept; non-trivial: the fault was hit") {
    c.leakcheck = true; std::string old = setup_old(g); Filt f = gen_filt(g); std::string neu = image(f); maps.clear();
    at = (int)g.range(0, 11); mode = FAULT; ferr = g.pick<int>({EIO, ENOSPC, EINTR, EACCES, ENOMEM, EDQUOT}); cnt = 0; hitname.clear(); renamed = false; dirty = false; errno = 0;
    int fd0 = lowfd(); armed = true; int r = f.save(target.c_str()); armed = false;
    TR("failing call %d (%s) with errno %d: returned %d", at, hitname.c_str(), ferr, r);
    std::string now = rdfile(target); auto ls = lsdir(pbt::scratch()); bool stray = false; for (auto& n : ls) if (n != "t") stray = true;
    if (r == 0) {
        CHECK(now == neu, "save reported success but the target is not the new filter (failed call: %s)", hitname.c_str());
        CHECK(hitname.empty() || hitname == "unlink", "%s failed but the save reported success", hitname.c_str());
        CHECK(renamed, "the target was not replaced by a rename"); CHECK(synced_at_rename, "the new file took the target's name before its data was flushed"); CHECK(at_rename == neu, "the file was renamed before it was complete");
    } else {
        CHECK(r < 0, "save returned %d after %s failed", r, hitname.c_str());
        CHECK(!hitname.empty(), "save failed (%d) although no call failed", r);
        CHECK(now == old, "save failed (%s) and changed the target", hitname.c_str());
    }
    if (hitname != "unlink") CHECK(!stray, "stray temporary left after %s failed", hitname.empty() ? "nothing" : hitname.c_str());
    CHECK(maps.empty(), "a mapping was left behind after %s failed", hitname.c_str()); CHECK(lowfd() == fd0, "descriptor leaked after %s failed", hitname.c_str());
    c.nontrivial(!hitname.empty()); c.label(hitname.empty() ? "no fault" : hitname.c_str());
    // the filter itself is still good: saving again works
    r = f.save(target.c_str()); CHECK(r == 0 && rdfile(target) == neu, "a second save after a failed one does not work: %d", r);
    f.del(); rmall(); maps.clear();
}
TARGET(kills, 3, "the process dies before or after each system call of a save: the target then holds exactly the old or the new bytes; non-trivial: it died inside the save") {
    std::string old = setup_old(g); Filt f = gen_filt(g); std::string neu = image(f);
    at = (int)g.range(0, 9); mode = g.flip() ? KILL_AFTER : KILL_BEFORE; cnt = 0;
    fflush(0); pid_t pid = fork(); if (pid < 0) pbt::harness_error("fork: %d", errno);
    if (pid == 0) { armed = true; f.save(target.c_str()); armed = false; _exit(43); }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) pbt::harness_error("waitpid");
    CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43), "the save itself crashed (status %x)", st);
    std::string now = rdfile(target); TR("died %s call %d: %d", mode == KILL_AFTER ? "after" : "before", at, WEXITSTATUS(st));
    CHECK(now == old || now == neu, "after death %s call %d the target holds %zu bytes that are neither the old (%zu) nor the new (%zu) file", mode == KILL_AFTER ? "after" : "before", at, now.size(), old.size(), neu.size());
    if (WEXITSTATUS(st) == 43) CHECK(now == neu, "save completed but the target is not the new filter");
    if (now == neu) { void* p = 0; int r = f.b ? Bloom_unmarshal((Bloom**)&p, target.c_str(), 0) : Xorfilter_unmarshal((Xorfilter**)&p, target.c_str(), 0); CHECK(r == 0, "the new file does not load: %d", r); if (f.b) Bloom_delete((Bloom*)p); else Xorfilter_delete((Xorfilter*)p); c.label("new"); } else c.label("old");
    c.nontrivial(WEXITSTATUS(st) == 42); f.del(); rmall(); maps.clear();
}
TARGET(bad_targets, 1, "save to a missing directory, onto a directory, with an over-long name or in an unwritable place: error, nothing left behind; non-trivial: always") {
    c.leakcheck = true; rmall(); Filt f = gen_filt(g); armed = false; maps.clear(); int fd0 = lowfd(); std::string p; int k = (int)g.range(0, 3);
    switch (k) { case 0: p = path("nodir/x"); break; case 1: p = path("d"); mkdir(p.c_str(), 0700); break; case 2: p = path(std::string(200 + g.range(0, 56), 'n').c_str()); break; default: p = pbt::scratch() + "/" + std::string(4000 + g.range(0, 200), '/') + "y"; }
    int r = f.save(p.c_str()); TR("kind %d, %zu characters: %d", k, p.size(), r);
    auto ls = lsdir(pbt::scratch());
    if (r == 0) { CHECK(k >= 2, "saving to a bad target succeeded"); CHECK(ls.size() == 1, "stray files"); void* q = 0; int r2 = f.b ? Bloom_unmarshal((Bloom**)&q, p.c_str(), 0) : Xorfilter_unmarshal((Xorfilter**)&q, p.c_str(), 0); CHECK(r2 == 0, "saved file does not load: %d", r2); if (f.b) Bloom_delete((Bloom*)q); else Xorfilter_delete((Xorfilter*)q); }
    else { CHECK(r < 0, "save returned %d", r); CHECK(ls.size() == (k == 1), "stray file after a failed save"); }
    CHECK(maps.empty() && lowfd() == fd0, "mapping or descriptor leaked"); c.nontrivial(true);
    f.del(); rmall(); maps.clear();
}
