//@ src: src/sysexception.cpp src/posix/syserror.cpp
//@ quick: 10
//@ assume: the C library's strerror and vsnprintf
// C41: texts and codes of the C++ exceptions for failed system calls, against formatted references.
#include "pbt.h"
#include "syserror.h"
#include <errno.h>
#include <string.h>
#include <new>
using std::string; using pbt::Src; using pbt::Ctx; using namespace putils;
static string gtext(Src& g, int near) {
    size_t n; switch (g.weighted({6, 2, 4, 1})) { case 0: n = g.range(0, 12); break; case 1: n = g.range(0, 300); break; case 2: n = (size_t)std::max<int64_t>(0, near + g.irange(-6, 6)); break; default: n = g.range(900, 5000); }
    string s; unsigned x = (unsigned)g.range(0, 65535); for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += (char)(' ' + x / 65536 % 95); } return s;
}
static int gerr(Src& g) { return g.weighted({6, 1, 1}) == 0 ? (int)g.range(0, 133) : g.flip() ? (int)g.irange(-200, 5000) : g.pick<int>({0, -1, 134, 512, INT32_MAX, INT32_MIN}); }
// the object lives in memory of exactly its size; one copy of it is thrown, one is kept
template <class T, class F> static void exam(F mk, const string& want_full, size_t msglen, bool joined, int code) {
    Exact a(sizeof(T)), b(sizeof(T)); T* e = mk(a.p); T* k = new (b.p) T(*e); string w(e->what());
    auto judge = [&](const string& w, const char* how) {
        CHECK(w.size() <= sizeof(T), "%s: text longer than the object", how);
        if (want_full.size() <= 1000) { CHECK(w == want_full, "%s: text is %s", how, pbt::show(w).c_str()); return; }
        CHECK(w.size() >= 1000, "%s: only %zu bytes of a text of %zu", how, w.size(), want_full.size());
        bool ok = w.size() <= want_full.size() && !want_full.compare(0, w.size(), w); if (!ok && joined && msglen >= 1000 && w.back() == ':') ok = !want_full.compare(0, w.size() - 1, w, 0, w.size() - 1);
        CHECK(ok, "%s: text (%zu bytes) is not a beginning of the message: %s ... %s", how, w.size(), pbt::show(w.substr(0, 40)).c_str(), pbt::show(w.substr(w.size() - 40)).c_str()); };
    judge(w, "the object"); CHECK(e->errcode() == code, "error code %d, expected %d", e->errcode(), code);
    e->~T(); CHECK(string(k->what()) == w && k->errcode() == code, "the copy says %d %s", k->errcode(), pbt::show(k->what()).c_str());
    bool caught = false; try { throw T(*k); } catch (std::exception& x) { caught = true; CHECK(string(x.what()) == w, "caught as std::exception it says %s", pbt::show(x.what()).c_str()); } CHECK(caught, "not caught as std::exception"); k->~T();
}
static string es(int e) { return strerror(e); }
TARGET(exceptions, 3, "an exception of a generated kind with a generated message and error, in memory of its exact size, then copied, destroyed, thrown and caught by its base: code and text (or its beginning of at least 1000 bytes) as expected; non-trivial: text cut, or a message together with an error") {
    int kind = (int)g.range(0, 6), err = gerr(g); string et; bool viaerrno = g.chance(1, 3); int hold = err;
    string pre = g.chance(1, 3) ? gtext(g, 1000) : ""; syserror se = viaerrno ? (errno = err, pre.empty() ? geterror() : geterror(pre)) : pre.empty() && g.flip() ? geterror(err) : geterror(err, g.flip() ? pre : pre.c_str());
    et = (pre.empty() ? "" : pre + ": ") + es(hold); CHECK(se.err == hold && se.errstr == et, "geterror says %d %s, expected %d %s", se.err, pbt::show(se.errstr).c_str(), hold, pbt::show(et).c_str());
    if (g.chance(1, 5)) { errno = err; CHECK(geterrno() == err, "geterrno"); }
    string m = gtext(g, kind == 1 ? 1021 - (g.flip() ? (int)et.size() : 0) : 1023); string f; for (char x : m) { f += x; if (x == '%') f += x; } bool direct = g.flip(); int num = (int)g.irange(-5, 100000); bool mixed = g.chance(1, 4); string mm = mixed ? m + pbt::fmt("/%d", num) : m;
    TR("kind %d err %d prefix %zu message %zu bytes %s", kind, err, pre.size(), mm.size(), pbt::show(mm.substr(0, 30)).c_str());
    switch (kind) {
    case 0: exam<sys_exception>([&](void* p) { return new (p) sys_exception(se); }, et, 0, false, err); break;
    case 1: exam<sys_exception>([&](void* p) { return mixed ? new (p) sys_exception(se, "%s/%d", m.c_str(), num) : direct ? new (p) sys_exception(se, f.c_str(), 0) : new (p) sys_exception(se, "%s", m.c_str()); }, mm + ":" + et, mm.size(), true, err); break;
    case 2: exam<sys_exception>([&](void* p) { return mixed ? new (p) sys_exception("%s/%d", m.c_str(), num) : direct ? new (p) sys_exception(f.c_str(), 0) : new (p) sys_exception("%s", m.c_str()); }, mm, 0, false, 0); break;
    case 3: exam<syscall_interrupted>([&](void* p) { return mixed ? new (p) syscall_interrupted("%s/%d", m.c_str(), num) : direct ? new (p) syscall_interrupted(f.c_str(), 0) : new (p) syscall_interrupted("%s", m.c_str()); }, mm, 0, false, EINTR); break;
    case 4: exam<dll_not_found>([&](void* p) { errno = err; return new (p) dll_not_found(m.c_str()); }, "Can't load DLL " + m + ":" + es(err), m.size() + 15, true, err); break;
    case 5: { string d = gtext(g, 500); exam<dll_symbol_not_found>([&](void* p) { errno = err; return new (p) dll_symbol_not_found(d.c_str(), m.c_str()); }, "Can't find '" + m + "()' in DLL " + d + ":" + es(err), m.size() + d.size() + 22, true, err); break; }
    default: exam<lock_owner_died>([&](void* p) { return new (p) lock_owner_died(m); }, "Thread owning locked '" + m + "' died", 0, false, 0);
    }
    c.nontrivial(kind == 1 || mm.size() + et.size() > 1000); c.label(pbt::fmt("kind %d%s", kind, mm.size() > 1000 ? " long" : "").c_str());
}
