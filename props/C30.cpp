//@ src: src/mkdirhier.c src/rotatefile.c src/posix/mmap.cpp src/posix/syserror.cpp src/sysexception.cpp
//@ wrap: mkdir rename unlink stat fstat ftruncate mmap mlock munlock
//@ quick: 14
#include "utils/utils.h"
#include "utils/mkdirhier.h"
#include "utils/rotatefile.h"
#include "utils/mmap.h"
#include "pbt.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
using pbt::Src; using pbt::Ctx; using std::string; typedef unsigned long long ull;
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
// ---------------------------------------------------------------- scratch
static void rmtree(int dfd, const string& name) {
    struct stat st; if (fstatat(dfd, name.c_str(), &st, AT_SYMLINK_NOFOLLOW)) return; if (!S_ISDIR(st.st_mode)) { unlinkat(dfd, name.c_str(), 0); return; }
    fchmodat(dfd, name.c_str(), 0700, 0); int fd = openat(dfd, name.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return; std::vector<string> v; DIR* d = fdopendir(fd); if (!d) { close(fd); return; }
    while (dirent* p = readdir(d)) if (strcmp(p->d_name, ".") && strcmp(p->d_name, "..")) v.push_back(p->d_name); for (auto& s : v) rmtree(dirfd(d), s); closedir(d); unlinkat(dfd, name.c_str(), AT_REMOVEDIR);
}
struct Box { string d, tag; Box(const char* t) : tag(t) { d = pbt::scratch() + "/" + t; wipe(); if (mkdirat(AT_FDCWD, d.c_str(), 0755) || chdir(d.c_str())) pbt::harness_error("scratch %s: %s", d.c_str(), strerror(errno)); }
    void wipe() { int fd = open(pbt::scratch().c_str(), O_RDONLY | O_DIRECTORY); rmtree(fd, tag); close(fd); } ~Box() { if (chdir("/")) {} wipe(); } };
typedef std::map<string, std::pair<mode_t, string>> Listing; // path -> mode, contents
static void list(int dfd, const string& pre, Listing& l) {
    int fd = openat(dfd, ".", O_RDONLY | O_DIRECTORY); DIR* d = fdopendir(fd); if (!d) pbt::harness_error("fdopendir"); std::vector<string> v; while (dirent* p = readdir(d)) if (strcmp(p->d_name, ".") && strcmp(p->d_name, "..")) v.push_back(p->d_name);
    for (auto& s : v) { struct stat st; if (fstatat(dirfd(d), s.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue; string data; if (S_ISREG(st.st_mode)) { int f = openat(dirfd(d), s.c_str(), O_RDONLY); char b[4096]; ssize_t n = pread(f, b, sizeof b, 0); if (n > 0) data.assign(b, n); data += pbt::fmt("/%lld", (long long)st.st_size); close(f); } else if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t n = readlinkat(dirfd(d), s.c_str(), b, sizeof b); data.assign(b, n > 0 ? n : 0); }
        l[pre + s] = {st.st_mode, data}; if (S_ISDIR(st.st_mode)) { int k = openat(dirfd(d), s.c_str(), O_RDONLY | O_DIRECTORY); if (k >= 0) { list(k, pre + s + "/", l); close(k); } } }
    closedir(d);
}
static Listing list(const string& dir) { Listing l; int fd = open(dir.c_str(), O_RDONLY | O_DIRECTORY); if (fd >= 0) { list(fd, "", l); close(fd); } return l; }
static void put(const string& f, const string& data) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) pbt::harness_error("write %s: %s", f.c_str(), strerror(errno)); close(fd); }
static string diff(const Listing& a, const Listing& b) { string r; for (auto& p : a) if (!b.count(p.first)) r += " missing '" + pbt::show(p.first) + "'"; else if (b.at(p.first) != p.second) r += pbt::fmt(" '%s' has mode %o instead of %o or other contents", pbt::show(p.first).c_str(), b.at(p.first).first, p.second.first); for (auto& p : b) if (!a.count(p.first)) r += " unexpected '" + pbt::show(p.first) + "'"; return r; }
// ---------------------------------------------------------------- what others do meanwhile, and faults
static bool hooks; static bool mk_hit; static int mk_calls, mk_at, mk_what; static int ren_calls, fail_at, st_calls, st_at = -1;
extern "C" {
int __real_mkdir(const char*, mode_t); int __real_rename(const char*, const char*); int __real_unlink(const char*);
int __wrap_mkdir(const char* p, mode_t m) { struct stat q; if (hooks && lstat(p, &q) && mk_calls++ == mk_at) { mk_hit = true; if (mk_what == 1) __real_mkdir(p, 0755); else if (mk_what == 2) { int fd = open(p, O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); } else if (mk_what == 3) { errno = EIO; return -1; } else if (mk_what == 4) { __real_mkdir(p, 0755); string sub = string(p) + "/other"; __real_mkdir(sub.c_str(), 0755); } } return __real_mkdir(p, m); }
int __wrap_rename(const char* a, const char* b) { if (hooks && ren_calls++ == fail_at) { errno = EIO; return -1; } return __real_rename(a, b); }
int __real_stat(const char*, struct stat*); int __wrap_stat(const char* p, struct stat* s) { if (hooks && st_at >= 0 && st_calls++ == st_at) { memset(s, 0x5a, sizeof *s); errno = EIO; return -1; } return __real_stat(p, s); }
int __real_fstat(int, struct stat*); int __real_ftruncate(int, off_t); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_mlock(const void*, size_t); int __real_munlock(const void*, size_t);
static int mm_fail = -1, mm_err; static bool mm_hit; static bool lk_on; static std::vector<std::pair<uintptr_t, size_t>> lk[2]; // 0 fstat 1 ftruncate 2 mmap 3 mlock 4 munlock
static bool mmf(int k) { if (k != mm_fail) return false; mm_hit = true; errno = mm_err; return true; }
int __wrap_fstat(int fd, struct stat* st) { if (mmf(0)) return -1; return __real_fstat(fd, st); }
int __wrap_ftruncate(int fd, off_t n) { if (mmf(1)) return -1; return __real_ftruncate(fd, n); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (mmf(2)) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
int __wrap_mlock(const void* p, size_t n) { if (mmf(3)) return -1; if (lk_on) { lk[0].push_back({(uintptr_t)p, n}); return 0; } return __real_mlock(p, n); }
int __wrap_munlock(const void* p, size_t n) { if (mmf(4)) return -1; if (lk_on) { lk[1].push_back({(uintptr_t)p, n}); return 0; } return __real_munlock(p, n); }
int __wrap_unlink(const char* a) { return __real_unlink(a); }
}
// ---------------------------------------------------------------- directories
static string gpath(Src& g) {
    string p; int n = (int)g.range(1, 6); if (g.chance(1, 6)) p = "./";
    for (int i = 0; i < n; i++) { if (i) p += g.chance(1, 8) ? "//" : g.chance(1, 12) ? "/./" : "/"; p += g.chance(1, 14) ? ".." : g.pick(std::vector<string>{"a", "b", "c", "d", "f", "l", "dang", "e e", "..."}); }
    if (g.chance(1, 5)) p += g.chance(1, 4) ? "//" : g.chance(1, 4) ? "/." : "/";
    if (g.chance(1, 40)) p = "a/" + string(g.range(250, 300), 'n') + "/b"; return p;
}
static void prepare(Src& g, std::vector<string>& steps) { int n = (int)g.range(0, 6); for (int i = 0; i < n; i++) { string p = g.pick(std::vector<string>{"a", "a/b", "a/b/c", "b", "c/d", "d"}); int k = (int)g.weighted({4, 1, 1, 1, 1}); steps.push_back(string(1, "dflxp"[k]) + p); } }
static void materialise(const std::vector<string>& steps) { for (auto& s : steps) { string p = s.substr(1); switch (s[0]) { case 'd': for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdirat(AT_FDCWD, p.substr(0, i).c_str(), 0750); break; case 'f': { string q = p + "/f"; int fd = open(q.c_str(), O_CREAT | O_WRONLY | O_NONBLOCK, 0600); if (fd >= 0) close(fd); fd = open("f", O_CREAT | O_WRONLY | O_NONBLOCK, 0600); if (fd >= 0) close(fd); break; } case 'p': { string q = p + "/f"; if (mkfifo(q.c_str(), 0600)) {} if (mkfifo(p.c_str(), 0600)) {} if (p.size() > 1 && symlink("f", "dang")) {} if (mkfifo("f", 0600)) {} break; } case 'l': if (symlink("a", "l")) {} break; default: if (symlink("missing-target", "dang")) {} } } }
static int ref_mkdirs(const string& path, mode_t m) { // one component after the other
    if (path.empty()) return ENOENT; struct stat st; string cur; size_t i = 0; if (path[0] == '/') cur = "/";
    while (i < path.size()) { while (i < path.size() && path[i] == '/') i++; size_t j = path.find('/', i); if (j == string::npos) j = path.size(); if (i == j) break; string comp = path.substr(i, j - i); cur += (cur.empty() || cur.back() == '/' ? "" : "/") + comp; i = j;
        if (!stat(cur.c_str(), &st)) { if (!S_ISDIR(st.st_mode)) return ENOTDIR; continue; } if (errno != ENOENT) return errno; if (mkdirat(AT_FDCWD, cur.c_str(), m)) return errno; }
    return 0;
}
TARGET(mkdirs, 5, "at least one directory has to be made, below an existing one or with others at work") {
    std::vector<string> steps; prepare(g, steps); string path = gpath(g); mode_t m = g.pick(std::vector<mode_t>{0755, 0700, 0777, 01777, 0711, 0}); mode_t um = g.pick(std::vector<mode_t>{0, 022, 077}); bool abs = g.chance(1, 4); int what = g.chance(1, 3) ? (int)g.range(1, 4) : 0, at = (int)g.range(0, 3); bool conc = what == 1 || what == 4;
    string prep; for (auto& s : steps) prep += " " + s; TR("prepared:%s", prep.c_str()); TR("mkdirhier('%s'%s, %o) with umask %o%s", pbt::show(path).c_str(), abs ? " absolute" : "", m, um, what ? pbt::fmt("; at mkdir call %d %s", at, what == 1 ? "another process makes it first" : what == 4 ? "another process makes it and one below first" : what == 2 ? "another process makes a file of that name" : "mkdir fails with EIO").c_str() : "");
    Listing want, before; int ref; { Box b("m"); umask(0); materialise(steps); before = list("."); umask(um); ref = ref_mkdirs(abs ? b.d + "/" + path : path, m); umask(022); want = list("."); }
    Box b("m"); umask(0); materialise(steps); string full = abs ? b.d + "/" + path : path; Exact arg(full, true); int f0 = nfds(); umask(um); hooks = what != 0; mk_calls = 0; mk_hit = false; mk_at = at; mk_what = what; int r = mkdirhier(arg.c(), m); hooks = false; umask(022); bool hit = mk_hit; int f1 = nfds(); Listing got = list(".");
    CHECK(f0 == f1, "descriptors leaked"); TR("returned %d", r); c.label(ref == 0 ? "possible" : "impossible"); if (hit) c.label(conc ? "others create" : "fault"); c.nontrivial((want.size() > before.size() && !before.empty()) || hit);
    struct stat st; bool isdir = !stat(full.c_str(), &st) && S_ISDIR(st.st_mode);
    if (hit && !conc) { CHECK(r < 0, "reported success although a component could not be made"); CHECK(!isdir, "failed although the directory is there"); if (what == 3) CHECK(r == -EIO, "returned %d for EIO", r); else CHECK(r == -EEXIST || r == -ENOTDIR, "returned %d for a file in the way", r); for (auto& p : before) CHECK(got.count(p.first) && got[p.first] == p.second, "changed '%s'", p.first.c_str()); return; }
    if (ref == 0) { CHECK(r == 0, "mkdirhier('%s') returned %d (%s) although every component exists or can be made%s", pbt::show(full).c_str(), r, strerror(-r), hit ? " and others only made the same directories" : ""); CHECK(isdir, "reported success without making the directory"); }
    else { CHECK(r < 0, "reported success, but '%s' cannot exist (%s)", pbt::show(full).c_str(), strerror(ref)); if (!hit) CHECK(r == -ref || (ref == ENOTDIR && r == -EEXIST) || (ref == EEXIST && r == -ENOENT), "returned %d (%s), the cause is %d (%s)", r, strerror(-r), ref, strerror(ref)); }
    if (!hit) { string d; if (ref == 0) d = diff(want, got); else { for (auto& p : before) if (!got.count(p.first) || got[p.first] != p.second) d += " lost or changed " + p.first; for (auto& p : got) if (!want.count(p.first)) d += " unexpected " + p.first; } CHECK(d.empty(), "the result differs:%s", d.c_str()); }
    else for (auto& p : want) { CHECK(got.count(p.first), "'%s' is missing", p.first.c_str()); if (before.count(p.first)) CHECK(got[p.first] == p.second, "'%s' changed", p.first.c_str()); }
}
TARGET(longdirs, 1, "a path longer than PATH_MAX") {
    Box b("q"); int total = (int)g.pick(std::vector<int>{4000, 4090, 4094, 4095, 4096, 4097, 5000, 9000}); string p; while ((int)p.size() < total) { int left = total - (int)p.size(); int n = std::min(left, 200); if (left - n == 1) n--; p += string(std::max(1, n - 1), 'k'); if ((int)p.size() < total) p += '/'; } p.resize(total); if (p.back() == '/') p.back() = 'k';
    TR("mkdirhier of a path of %zu bytes", p.size()); c.nontrivial(p.size() >= 4096); Exact a(p, true); int r = mkdirhier(a.c(), 0755); if (p.size() >= PATH_MAX) CHECK(r == -ENAMETOOLONG, "returned %d for a path of %zu bytes", r, p.size()); else { CHECK(r == 0, "returned %d for a path of %zu bytes", r, p.size()); struct stat st; CHECK(!stat(p.c_str(), &st) && S_ISDIR(st.st_mode), "not made"); }
}
// ---------------------------------------------------------------- rotation
static string key(const string& s, int i) { return s + "." + std::to_string(i); }
TARGET(rotate, 5, "at least two rotations with saves present") {
    Box b("r"); string fn = g.pick(std::vector<string>{"log", "sub/log", "l.0", "log.1", "a b", "%s%n"}); mkdirat(AT_FDCWD, "sub", 0755); std::map<int, string> saves; bool have = false; string cur; int id = 0; std::map<string, string> other;
    auto opath = [&](const string& s) { return fn.substr(0, 4) == "sub/" ? "sub/" + s : s; };
    for (const char* o : {"other", "log.x", "log.01", "log.0x", "log.-1", "logg.0", "log0", "log.", "log.1000", "log.2.gz"}) if (g.flip()) { string p = opath(o); if (p == fn) continue; bool clash = p.size() > fn.size() + 1 && p.compare(0, fn.size() + 1, fn + ".") == 0 && std::to_string(atoi(p.c_str() + fn.size() + 1)) == p.substr(fn.size() + 1) && atoi(p.c_str() + fn.size() + 1) >= 0; if (clash) continue; other[p] = "other " + p; put(p, other[p]); }
    int ini = (int)g.range(0, 6); for (int i = 0; i < ini; i++) { int k = (int)g.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 9, 10, 11, 99}); saves[k] = "initial " + std::to_string(k); put(key(fn, k), saves[k]); } // gaps are allowed
    int n = (int)g.range(1, 8), rot = 0; bool deep = false;
    for (int s = 0; s < n; s++) {
        if (g.chance(4, 5)) { cur = "contents " + std::to_string(id++); have = true; put(fn, cur); }
        int keep = g.chance(1, 8) ? (int)g.range(9, 14) : (int)g.range(1, 5); bool fault = g.chance(1, 8); hooks = fault; ren_calls = 0; fail_at = (int)g.range(0, 3); bool sf = fault && g.chance(1, 3); st_calls = 0; st_at = sf ? (int)g.range(0, 5) : -1; if (sf) fail_at = -1; Exact arg(fn, true); int f0 = nfds(); int r = rotate_filename(arg.c(), keep, 0); hooks = false; bool hit = fault && (sf ? st_calls > st_at : ren_calls > fail_at); st_at = -1; CHECK(nfds() == f0, "descriptors leaked");
        TR("%srotate_filename('%s', %d)%s -> %d", have ? "" : "(no current file) ", fn.c_str(), keep, hit ? sf ? " with a failing stat" : " with a failing rename" : "", r); rot++; if (!saves.empty()) deep = true;
        Listing l = list("."); auto rd = [&](const string& p) -> const string* { auto it = l.find(p); static string v; if (it == l.end()) return nullptr; v = it->second.second.substr(0, it->second.second.rfind('/')); return &v; };
        if (hit) { CHECK(r == -EIO, "returned %d for a failing %s", r, sf ? "stat" : "rename"); // nothing but the oldest and the surplus may be lost
            std::multiset<string> now; for (auto& e : l) now.insert(e.second.second.substr(0, e.second.second.rfind('/'))); if (have) CHECK(now.count(cur), "the current file was lost by a failing rename"); for (auto& sv : saves) if (sv.first < keep - 1) CHECK(now.count(sv.second), "save %d was lost by a failing rename", sv.first); for (auto& o : other) { const string* v = rd(o.first); CHECK(v && *v == o.second, "'%s' was touched", o.first.c_str()); } c.label(sf ? "failing stat" : "failing rename"); break; }
        CHECK(r == 0, "returned %d", r); std::map<int, string> want; for (auto& sv : saves) { if (sv.first >= keep && sv.first < keep + 100) continue; if (sv.first >= keep) want[sv.first] = sv.second; else if (sv.first + 1 < keep) want[sv.first + 1] = sv.second; }
        for (auto& sv : saves) if (sv.first == keep - 1 && !want.count(keep - 1)) want[keep - 1] = sv.second; // not pushed out
        if (have) want[0] = cur; have = false; saves = want;
        std::set<string> known; for (auto& sv : saves) { const string* v = rd(key(fn, sv.first)); CHECK(v, "save %d is missing after rotation", sv.first); CHECK(*v == sv.second, "save %d has '%s' instead of '%s'", sv.first, v->c_str(), sv.second.c_str()); known.insert(key(fn, sv.first)); }
        CHECK(!l.count(fn), "the file is still there after rotation"); for (auto& o : other) { const string* v = rd(o.first); CHECK(v && *v == o.second, "'%s', which is no save, was touched", o.first.c_str()); known.insert(o.first); }
        for (auto& e : l) if (!S_ISDIR(e.second.first)) CHECK(known.count(e.first), "unexpected file '%s' after rotation", e.first.c_str());
    }
    c.nontrivial(rot >= 2 && deep);
}
TARGET(rotate_size, 2, "size within one megabyte of the limit") {
    Box b("s"); uint64_t mb = g.weighted({5, 1}) ? g.range(1000, 2000) : g.range(0, 5); long long size; switch (g.weighted({3, 2, 1})) { case 0: size = (long long)mb * 1048576 + g.irange(-3, 3); break; case 1: size = (long long)mb * 1048576 + g.irange(-1048576, 2097152); break; default: size = (long long)g.range(0, 8ull << 20); } if (size < 0) size = 0;
    if (g.chance(1, 30)) mb = g.pick(std::vector<uint64_t>{UINT64_MAX, UINT64_MAX / 1048576, UINT64_MAX / 1048576 + 1, 1ull << 44}); put("log", "x"); if (truncate("log", size)) pbt::harness_error("truncate"); put("log.0", "old"); bool exceeds = (unsigned __int128)size > (unsigned __int128)mb * 1048576;
    int r = rotate_filename_by_size("log", 3, mb, 0); TR("rotate_filename_by_size(file of %lld bytes, limit %llu MB) -> %d", size, (ull)mb, r); struct stat st; bool moved = stat("log", &st) != 0; c.nontrivial(mb < 5000 && llabs(size - (long long)mb * 1048576) < 1048576); CHECK(r == 0, "returned %d", r);
    CHECK(moved == exceeds, "a file of %lld bytes was %s with a limit of %llu MB (%llu bytes)", size, moved ? "rotated" : "not rotated", (ull)mb, (ull)mb * 1048576); if (moved) { CHECK(!stat("log.0", &st) && st.st_size == size, "log.0 is not the old file"); CHECK(!stat("log.1", &st), "the old save is gone"); }
    else CHECK(!stat("log.0", &st) && st.st_size == 3, "saves touched"); CHECK(rotate_filename_by_size("nothere", 3, mb, 0) == 0, "missing file"); mkdirat(AT_FDCWD, "dir", 0755); CHECK(rotate_filename_by_size("dir", 3, 0, 0) == -EINVAL, "directory accepted");
}
TARGET(rotate_long, 1, "a path whose saves' names do not fit in PATH_MAX") {
    Box b("t"); int total = (int)g.range(4070, 4095); string p, dir; while (total - (int)p.size() > 230) { p += string(200, 'k') + "/"; if (mkdirat(AT_FDCWD, p.substr(0, p.size() - 1).c_str(), 0755)) pbt::harness_error("mkdir"); } p += string(total - p.size(), 'z'); put(p, "data"); int keep = (int)g.range(1, 12); std::vector<string> near; for (size_t cut = 0; cut < 3; cut++) { string q = p.substr(0, p.size() - cut - 1); if (q.back() != '/' ) { put(q, "near"); near.push_back(q); } string d = p + string(cut + 1, '.'); if (d.size() < PATH_MAX) { put(d, "near"); near.push_back(d); } }
    Exact a(p, true); int r = rotate_filename(a.c(), keep, 0); TR("rotate_filename(path of %zu bytes, %d) -> %d", p.size(), keep, r); c.nontrivial(p.size() + 2 >= PATH_MAX); struct stat st; bool here = !stat(p.c_str(), &st), saved = p.size() + 2 < PATH_MAX && !stat((p + ".0").c_str(), &st);
    CHECK(here || saved, "the file is gone"); if (r == 0) CHECK(!here && saved, "reported success without rotating"); else { CHECK(here, "failed but moved the file"); CHECK(r == -ENAMETOOLONG, "returned %d", r); } for (auto& q : near) CHECK(!stat(q.c_str(), &st), "another file was removed");
}
// ---------------------------------------------------------------- mapped files
static bool gone(char* p, size_t n) { unsigned char vec[4]; for (size_t o = 0; o < n; o += 4096) if (mincore(p + o, 1, vec) == 0) return false; return true; }
using putils::mmap_file; using putils::sys_exception;
TARGET(mapping, 4, "at least two mappings of parts of a file, written and read back") {
    c.leakcheck = true; Box b("p"); const size_t PG = 4096; CHECK(mmap_file::pagesize() == (size_t)sysconf(_SC_PAGESIZE), "page size"); size_t size = g.weighted({3, 3, 1}) == 0 ? g.range(1, 3) * PG : g.range(1, 5 * PG); if (g.chance(1, 20)) size = 0;
    string model(size, 0); uint64_t z = g.u(16) + 1; for (auto& ch : model) { z = z * 6364136223846793005ull + 1; ch = (char)(z >> 56); } put("f", model); put("g", "untouched");
    unsigned fl = (g.flip() ? MMAP_RDWR : 0) | (g.flip() ? MMAP_SHARED : 0) | (g.chance(1, 3) ? MMAP_CREATE : 0); bool rw = fl & MMAP_RDWR, shared = fl & MMAP_SHARED; int f0 = nfds(); std::vector<std::pair<char*, size_t>> all; TR("mmap_file(file of %zu bytes, flags %s%s%s)", size, rw ? "RDWR" : "RDONLY", shared ? "|SHARED" : "", fl & MMAP_CREATE ? "|CREATE" : ""); c.label(shared ? "shared" : "private");
    { mmap_file m("f", fl); CHECK(m.filesize() == (off_t)size && m.filename() == "f", "size or name wrong"); struct Mp { char* p; size_t off, n; }; std::vector<Mp> v; int steps = (int)g.range(1, 10), maps = 0; bool reached = false; string view = model; // what mappings show, when writes may be private
      for (int s = 0; s < steps; s++) switch (g.weighted({4, 4, 1, 1})) {
        case 0: { size_t off = g.range(0, model.size() / PG + 1) * PG + (g.chance(1, 10) ? g.range(1, PG - 1) : 0), n = g.chance(1, 3) && off < model.size() ? model.size() - off : g.range(0, 2 * PG); if (g.chance(1, 6)) { off = 0; n = model.size(); }
            bool fits = off + n <= model.size(), can = (fits || ((fl & MMAP_CREATE) && rw)) && n > 0 && off % PG == 0; void* p = nullptr; string err; int ec = 0; try { p = m.mmap((off_t)off, n); } catch (const sys_exception& e) { err = e.what(); ec = e.errcode(); if (err.empty()) err = "?"; }
            TR("  mmap(%zu, %zu) -> %s", off, n, err.empty() ? "mapped" : err.c_str()); if (!can) { CHECK(!err.empty(), "mapping %zu bytes at %zu of a file of %zu succeeded", n, off, model.size()); if (ec) CHECK(err.find(strerror(ec)) != string::npos, "the exception '%s' does not tell the cause (%s)", err.c_str(), strerror(ec)); struct stat st; stat("f", &st); if ((size_t)st.st_size != model.size()) { CHECK((fl & MMAP_CREATE) && rw && (size_t)st.st_size == off + n && !fits, "a failed mapping changed the file's size"); model.resize(off + n, 0); view.resize(off + n, 0); } break; }
            CHECK(err.empty(), "mapping %zu bytes at %zu of a file of %zu failed: %s", n, off, model.size(), err.c_str()); if (!fits) { model.resize(off + n, 0); view.resize(off + n, 0); } struct stat st; stat("f", &st); CHECK((size_t)st.st_size == model.size() && m.filesize() == (off_t)model.size(), "file size is %lld, should be %zu", (long long)st.st_size, model.size());
            bool wrote = view != model; if (!wrote || shared) CHECK(!memcmp(p, model.data() + off, n), "the mapping at %zu does not show the file's bytes", off); bool dup = false; for (auto& x : v) if (x.p == p) dup = true; else CHECK(x.p + x.n <= (char*)p || (char*)p + n <= x.p, "two mappings overlap in memory"); if (!dup) v.push_back({(char*)p, off, n}); maps++; break; }
        case 1: { if (v.empty() || !rw) break; Mp& x = v[g.range(0, v.size() - 1)]; size_t at = g.range(0, x.n - 1), n = std::min<size_t>(x.n - at, g.range(1, 64)); char ch = (char)g.u(8); memset(x.p + at, ch, n); TR("  write %zu bytes at %zu through the mapping at %zu", n, x.off + at, x.off); view.replace(x.off + at, n, n, ch); if (shared) { model = view; string f(model.size(), 0); int fd = open("f", O_RDONLY); if (pread(fd, &f[0], f.size(), 0) != (ssize_t)f.size()) {} close(fd); CHECK(f == model, "a write through a shared mapping did not reach the file, or changed other bytes"); for (auto& y : v) CHECK(!memcmp(y.p, model.data() + y.off, y.n), "another shared mapping does not show the write"); } reached = true; break; }
        case 2: { if (v.empty()) break; size_t i = g.range(0, v.size() - 1); m.unmap(v[i].p); CHECK(gone(v[i].p, v[i].n), "still mapped after unmap"); TR("  unmap mapping at %zu", v[i].off); v.erase(v.begin() + i); break; }
        default: { char dummy; m.unmap(&dummy); if (!v.empty()) { Mp& x = v[g.range(0, v.size() - 1)]; try { m.mlock(x.p, std::min<size_t>(x.n, PG)); m.munlock(x.p, std::min<size_t>(x.n, PG)); } catch (const sys_exception&) { c.label("mlock refused"); } } } }
      c.nontrivial(maps >= 2 && (reached || !rw)); for (auto& x : v) all.push_back({x.p, x.n});
    }
    for (auto& x : all) CHECK(gone(x.first, x.second), "a mapping outlives the mmap_file");
    CHECK(nfds() == f0, "%d descriptors left open", nfds() - f0); string f; Listing l = list("."); CHECK(l["g"].second == "untouched/9", "another file changed"); if (shared || !rw) { f.resize(model.size()); int fd = open("f", O_RDONLY); ssize_t n = pread(fd, &f[0], f.size(), 0); close(fd); CHECK(n == (ssize_t)f.size() && f == model, "the file's contents are wrong after the mappings are gone"); }
}
TARGET(mapfail, 1, "a system call fails, or an offset beyond the end of the file is asked for") {
    c.leakcheck = true; Box b("q"); const size_t PG = 4096; size_t pages = g.range(1, 4); put("f", string(pages * PG, 'm')); int f0 = nfds(), k = (int)g.range(0, 4), e = g.pick<int>({EIO, ENOMEM, EACCES, EAGAIN, EPERM}); static const char* const nm[] = {"fstat", "ftruncate", "mmap", "mlock", "munlock"}; string w; int ec = 0; bool thrown = false, hit = false; off_t far = (off_t)(PG * (pages + g.u(g.range(1, 40))));
    auto told = [&](const char* what) { CHECK(thrown, "a failing %s goes unreported", what); CHECK(ec == e, "the cause given for a failing %s is %d, not %d", what, ec, e); CHECK(w.find(strerror(e)) != string::npos, "the exception '%s' does not tell the cause (%s)", w.c_str(), strerror(e)); };
    auto call = [&](int fail, auto fn) { w.clear(); ec = 0; thrown = false; mm_fail = fail; mm_err = e; mm_hit = false; try { fn(); } catch (const sys_exception& x) { mm_fail = -1; thrown = true; w = x.what(); ec = x.errcode(); } mm_fail = -1; hit = mm_hit; };
    TR("%s fails with %d", nm[k], e); c.nontrivial(true); c.label(nm[k]);
    if (k == 0) { call(0, [&] { mmap_file m("f", g.flip() ? MMAP_RDWR : 0); }); if (!hit) { c.discard = true; return; } told(nm[0]); CHECK(nfds() == f0, "%d descriptor(s) leaked by a failing fstat", nfds() - f0); return; }
    { mmap_file m("f", MMAP_RDWR | (k == 1 ? MMAP_CREATE : 0)); char* p = (char*)m.mmap(0, pages * PG);
      if (k == 1 || k == 2) { call(k, [&] { m.mmap(k == 1 ? far : (off_t)PG * (off_t)g.range(0, pages - 1), k == 1 ? PG : 1); }); if (hit) { told(nm[k]); struct stat st; CHECK(!stat("f", &st) && st.st_size == (off_t)(pages * PG) && m.filesize() == st.st_size, "a mapping that failed changed the file's size"); } else if (k == 2) FAIL("no mapping was made");
          if (k == 2) { call(-1, [&] { m.mmap(far, PG); }); CHECK(thrown, "mapped %llu bytes at %lld of a file of %zu, without MMAP_CREATE", (ull)PG, (long long)far, pages * PG); bool tells = false; for (size_t i = 0; i < w.size();) if (isdigit((unsigned char)w[i])) { size_t j = i; while (j < w.size() && isalnum((unsigned char)w[j])) j++; if (w.substr(i, j - i) == std::to_string(far)) tells = true; i = j; } else i++; CHECK(tells, "the exception '%s' does not tell the offset, %lld", w.c_str(), (long long)far); } }
      else { size_t at = g.range(0, pages * PG - 1), n = g.range(1, pages * PG - at); if (g.flip()) at = at / PG * PG; if (g.chance(1, 3)) n = std::min<size_t>(pages * PG - at, g.range(1, 5)); // every byte asked for is locked, and whole pages only
          for (int u = 0; u < 2; u++) { lk_on = true; lk[0].clear(); lk[1].clear(); call(-1, [&] { u ? m.munlock(p + at, n) : m.mlock(p + at, n); }); lk_on = false; CHECK(!thrown, "%s of %zu bytes at %zu failed: %s", nm[3 + u], n, at, w.c_str()); CHECK(lk[1 - u].empty(), "%s did the opposite", nm[3 + u]); std::set<uintptr_t> pg; for (auto& r : lk[u]) for (uintptr_t q = r.first / PG; q < (r.first + r.second + PG - 1) / PG; q++) pg.insert(q);
              std::set<uintptr_t> want; for (uintptr_t q = (uintptr_t)(p + at) / PG; q <= (uintptr_t)(p + at + n - 1) / PG; q++) want.insert(q); TR("%s(%zu, %zu): %zu pages, needs %zu", nm[3 + u], at, n, pg.size(), want.size()); CHECK(pg == want, "%s of %zu bytes at offset %zu covers %zu pages, not the %zu they lie in", nm[3 + u], n, at, pg.size(), want.size()); }
          call(k, [&] { if (k == 3) m.mlock(p + at, n); else m.munlock(p + at, n); }); CHECK(hit, "%s was not called", nm[k]); told(nm[k]); }
      CHECK(p[0] == 'm' && p[pages * PG - 1] == 'm', "an earlier mapping was lost"); }
    CHECK(nfds() == f0, "descriptors leaked");
}
TARGET(openfail, 1, "a file that cannot be opened") {
    Box b("o"); string fn = g.flip() ? "missing" : string(g.range(200, 1200), 'x'); if (g.chance(1, 3)) fn = "missing/" + string(g.range(1, 250), 'y') + "/" + string(g.range(1, 250), 'y') + "/" + string(g.range(1, 250), 'y') + "/" + string(g.range(1, 250), 'y') + "/" + string(g.range(1, 250), 'y'); int f0 = nfds(); string w; int ec = 0; TR("mmap_file of a missing file, name of %zu bytes", fn.size()); c.nontrivial(true);
    try { mmap_file m(fn, g.flip() ? MMAP_RDWR : 0); FAIL("opened a missing file"); } catch (const sys_exception& e) { w = e.what(); ec = e.errcode(); } CHECK(ec == (fn.size() > 255 && fn[0] == 'x' ? ENAMETOOLONG : ENOENT), "the cause given is %d", ec); if (fn.size() < 900) CHECK(w.find(strerror(ec)) != string::npos, "the exception '%s' does not tell the cause (%s)", w.c_str(), strerror(ec)); CHECK(nfds() == f0, "descriptor leaked");
}
TARGET(bigfile, 1, "an offset beyond 2 GB") {
    Box b("b"); off_t base = (off_t)g.pick(std::vector<uint64_t>{0, 1ull << 20, (1ull << 31) - 8192, 1ull << 31, (1ull << 32) - 4096, 1ull << 32, 5ull << 30}), off = base + (off_t)g.range(0, 3) * 4096; size_t n = g.range(1, 9000); bool sh = g.flip(); int fd = open("f", O_CREAT | O_RDWR, 0644); if (ftruncate(fd, 6ll << 30)) { close(fd); c.discard = true; return; } string d = "here " + std::to_string((long long)off); d.resize(n, 'z'); if (pwrite(fd, d.data(), n, off) != (ssize_t)n) pbt::harness_error("pwrite");
    TR("mmap(%lld, %zu) of a 6 GB file", (long long)off, n); c.nontrivial(off >= (1ll << 31)); { mmap_file m("f", MMAP_RDWR | (sh ? MMAP_SHARED : 0)); CHECK(m.filesize() == 6ll << 30, "file size"); char* p = (char*)m.mmap(off, n); CHECK(!memcmp(p, d.data(), n), "the mapping at %lld does not show the file's bytes", (long long)off); if (sh) { p[n - 1] = '!'; char q = 0; if (pread(fd, &q, 1, off + n - 1) != 1) q = 0; CHECK(q == '!', "write at %lld did not reach the file", (long long)off); } } close(fd);
}
