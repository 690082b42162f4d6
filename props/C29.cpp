//@ src: src/fts.c src/ftw.c@-Dftw=plib_ftw
//@ quick: 18
//@ wrap: malloc realloc open opendir fstat lstat stat fchdir fcntl readdir
//@ hang: 40
#include "utils/utils.h"
#include "pbt.h"
#include <functional>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <limits.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <ftw.h>
#include "fts.h"
extern "C" int plib_ftw(const char*, int (*)(const char*, const struct stat*, int), int);
extern "C" { // declared here as inc/fts.h guards some of them
FTS* fts_open(char* const*, int, int (*)(const FTSENT**, const FTSENT**)); FTSENT* fts_read(FTS*); int fts_close(FTS*); int fts_set(FTS*, FTSENT*, int); FTSENT* fts_children(FTS*, int);
}
using pbt::Src; using pbt::Ctx; using std::string;
static const char* IN[] = {"?", "D", "DC", "DEFAULT", "DNR", "DOT", "DP", "ERR", "F", "INIT", "NS", "NSOK", "SL", "SLNONE", "W"};
static string in_name(int i) { return i >= 0 && i < 15 ? IN[i] : pbt::fmt("%d", i); }
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static bool isdot(const string& s) { return s == "." || s == ".."; }

// ---------------------------------------------------------------- the tree on disk
struct Ent { string name; int par; char type; string target; mode_t mode; string rel; };
struct Tree { std::vector<Ent> e; string base, shm; bool priv = false; };
static void rmtree(int dfd, const string& name) { // never follows a link
    struct stat st; if (fstatat(dfd, name.c_str(), &st, AT_SYMLINK_NOFOLLOW)) return;
    if (!S_ISDIR(st.st_mode)) { unlinkat(dfd, name.c_str(), 0); return; }
    fchmodat(dfd, name.c_str(), 0700, 0); int fd = openat(dfd, name.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return;
    std::vector<string> v; DIR* d = fdopendir(fd); if (!d) { close(fd); return; } while (dirent* p = readdir(d)) if (!isdot(p->d_name)) v.push_back(p->d_name);
    for (auto& s : v) rmtree(dirfd(d), s);
    closedir(d); unlinkat(dfd, name.c_str(), AT_REMOVEDIR);
}
static string gname(Src& g, std::set<string>& used) {
    string s;
    switch (g.weighted({10, 2, 1, 1})) { case 0: s = string(1, "abcdefgh"[g.range(0, 7)]); if (g.chance(1, 3)) s += "abc"[g.range(0, 2)]; break; case 1: s = g.pick(std::vector<string>{"...", ".a", " ", "-", "a b", "\xff\x80", "*", "..a", "a.", "~", "\n", "A", "\xc3\xa9"}); break;
        case 2: s = string(g.range(50, 255), "xyz"[g.range(0, 2)]); break; default: s = g.text("abc.", 4); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); }
    if (s.empty() || isdot(s)) s = "q"; while (used.count(s)) { if (s.size() > 250) s.resize(100); s += "0123456789"[used.size() % 10]; } used.insert(s); return s;
}
static string up(int n) { string s; for (int i = 0; i < n; i++) s += "../"; return s; }
static int depth_of(const Tree& t, int i) { int d = 0; while (i > 0) { i = t.e[i].par; d++; } return d; }
static void gen_tree(Src& g, Tree& t, size_t maxn, bool perms, bool links) {
    t.e.push_back({"t", -1, 'd', "", 0755, "t"}); std::map<int, std::set<string>> used; int dirs = 1; std::vector<int> dl{0}; (void)dirs;
    size_t n = g.size(maxn); int deep = g.chance(1, 3);
    for (size_t i = 0; i < n; i++) {
        Ent e; e.par = deep ? dl[dl.size() - 1 - g.range(0, std::min<size_t>(dl.size() - 1, 1))] : dl[g.range(0, dl.size() - 1)]; e.name = gname(g, used[e.par]); e.mode = 0755; e.rel = t.e[e.par].rel + "/" + e.name;
        e.type = "fdlp"[g.weighted({4, 4, (unsigned)(links ? 3 : 0), 1})]; int me = (int)t.e.size();
        if (e.type == 'l') { int d = depth_of(t, e.par); // depth of the directory that holds the link
            switch (g.weighted({5, 2, 1, 1, 1, 1, 1})) {
                case 0: { int to = (int)g.range(0, t.e.size() - 1); e.target = up(d + 1) + t.e[to].rel; break; } // any earlier entry, ancestors included
                case 1: { int to = (int)g.range(0, t.e.size() - 1); e.target = t.base + "/" + t.e[to].rel; break; }
                case 2: e.target = "."; break; case 3: e.target = e.name; break; case 4: e.target = "missing"; break; case 5: e.target = t.shm.empty() ? "." : t.shm; break; default: e.target = d > 0 ? ".." : "."; } }
        if (e.type == 'd') { dl.push_back(me); if (perms && g.chance(1, 3)) e.mode = g.pick(std::vector<mode_t>{0, 0444, 0111, 0311, 0500}); }
        t.e.push_back(e);
    }
}
static void build(const Tree& t, int cwd) { // through directory descriptors, so that paths may be of any length
    std::vector<int> fds(t.e.size(), -1); std::vector<int> uses(t.e.size(), 0); for (size_t i = 1; i < t.e.size(); i++) uses[t.e[i].par]++;
    for (size_t i = 0; i < t.e.size(); i++) { const Ent& e = t.e[i]; int at = e.par < 0 ? cwd : fds[e.par]; const char* nm = e.name.c_str(); int r = 0;
        if (e.type == 'd') { r = mkdirat(at, nm, 0755); if (!r && uses[i]) fds[i] = openat(at, nm, O_RDONLY | O_DIRECTORY); }
        else if (e.type == 'f') { int fd = openat(at, nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd < 0) r = -1; else { if (write(fd, nm, e.name.size()) < 0) r = -1; close(fd); } }
        else if (e.type == 'l') r = symlinkat(e.target.c_str(), at, nm);
        else r = mkfifoat(at, nm, 0644);
        if (r) pbt::harness_error("cannot create %s: %s", e.rel.c_str(), strerror(errno));
        if (e.par >= 0 && --uses[e.par] == 0) { close(fds[e.par]); fds[e.par] = -1; } }
    for (size_t i = t.e.size(); i-- > 0;) if (t.e[i].type == 'd' && t.e[i].mode != 0755) if (chmod(t.e[i].rel.c_str(), t.e[i].mode)) pbt::harness_error("chmod: %s", strerror(errno));
}

// ---------------------------------------------------------------- the model
struct Node; typedef std::shared_ptr<Node> NP;
struct Node { string name, path; int level = 0; NP par; int info = 0, info0 = 0, err = 0, instr = 0; bool followed = false, reread = false, nsok = false; struct stat st; int fd = -1; std::vector<NP> kids; bool have_kids = false; int posterr = 0; long num = 0;
    ~Node() { if (fd >= 0) close(fd); } };
static int cmpk; // which comparison
static bool cmp_type_ok; // entries' types known to the comparison
static int scmp(const string& a, const string& b) { return a < b ? -1 : a > b; }
static int cmp_generic(const string& an, int ai, const string& bn, int bi) {
    switch (cmpk) { case 1: return scmp(an, bn); case 2: return scmp(bn, an); case 3: return an.size() < bn.size() ? -1 : an.size() > bn.size(); default: { bool ad = ai == FTS_D, bd = bi == FTS_D; if (ad != bd) return ad ? -1 : 1; return scmp(an, bn); } } }
static int cmp_fts(const FTSENT** a, const FTSENT** b) { return cmp_generic(string((*a)->fts_name, (*a)->fts_namelen), (*a)->fts_info, string((*b)->fts_name, (*b)->fts_namelen), (*b)->fts_info); }
struct Walk {
    Ctx& c; int opt; FTS* f = nullptr; NP top, cur; int cwd; struct stat cwdst; bool nochdir; dev_t rootdev = 0; bool started = false; int events = 0; long ids = 0; bool deleting = false;
    std::map<FTSENT*, NP> seen; int depth_max = 0, links_followed = 0, prunes = 0, cycles = 0, errors = 0, agains = 0;
    Walk(Ctx& c_) : c(c_) {}
    int dstat(const Node& n, struct stat* st, bool follow) const { int fl = follow ? 0 : AT_SYMLINK_NOFOLLOW;
        if (n.level == 0 || nochdir) return fstatat(cwd, n.path.c_str(), st, fl);
        return fstatat(n.par->fd, n.name.c_str(), st, fl); }
    void classify(Node& n, bool follow) {
        bool fo = follow || (opt & FTS_LOGICAL); n.err = 0; memset(&n.st, 0, sizeof n.st);
        if (n.level > 0 && n.par->posterr && !nochdir) { n.info = FTS_NS; n.err = n.par->posterr; return; } // could not enter the directory
        if (fo) { if (dstat(n, &n.st, true)) { int e = errno; if (!dstat(n, &n.st, false)) { n.info = FTS_SLNONE; return; } n.err = e; memset(&n.st, 0, sizeof n.st); n.info = FTS_NS; return; } }
        else if (dstat(n, &n.st, false)) { n.err = errno; memset(&n.st, 0, sizeof n.st); n.info = FTS_NS; return; }
        if (S_ISDIR(n.st.st_mode)) { if (n.level > 0 && isdot(n.name)) { n.info = FTS_DOT; return; }
            for (NP t = n.par; t && t->level >= 0; t = t->par) if (t->st.st_ino == n.st.st_ino && t->st.st_dev == n.st.st_dev) { n.info = FTS_DC; return; }
            n.info = FTS_D; }
        else n.info = S_ISLNK(n.st.st_mode) ? FTS_SL : S_ISREG(n.st.st_mode) ? FTS_F : FTS_DEFAULT;
    }
    // read a directory: false with n.err set when it cannot be opened
    bool scan(NP n) {
        n->kids.clear(); n->have_kids = false; if (n->fd >= 0) { close(n->fd); n->fd = -1; } n->posterr = 0;
        int fd = n->level == 0 || nochdir ? openat(cwd, n->path.c_str(), O_RDONLY | O_DIRECTORY) : openat(n->par->fd, n->name.c_str(), O_RDONLY | O_DIRECTORY);
        if (fd < 0) { n->err = errno; return false; }
        n->fd = fd; struct stat x; if (!nochdir && fstatat(fd, ".", &x, 0)) n->posterr = errno;
        int d2 = openat(fd, ".", O_RDONLY | O_DIRECTORY); if (d2 < 0) d2 = dup(fd); DIR* d = fdopendir(d2); if (!d) pbt::harness_error("fdopendir");
        rewinddir(d); while (dirent* p = readdir(d)) { string nm = p->d_name; if (isdot(nm) && !(opt & FTS_SEEDOT)) continue; NP k = std::make_shared<Node>(); k->name = nm; k->level = n->level + 1; k->par = n; k->path = n->path + (n->path.back() == '/' ? "" : "/") + nm; n->kids.push_back(k); }
        closedir(d); n->have_kids = true; for (auto& k : n->kids) { classify(*k, false); k->info0 = k->info; } return true;
    }
    bool nostat_ok(const Node& n, bool names) const { return names || ((opt & FTS_NOSTAT) && (opt & FTS_PHYSICAL) && n.info != FTS_D && n.info != FTS_DC && n.info != FTS_DOT); }
    static bool less(const NP& a, const NP& b) { return cmp_generic(a->name, a->info0, b->name, b->info0) < 0; }
    void check_entry(FTSENT* p, NP n, const char* what) {
        string id = pbt::show(n->path); if (n->level == 0) rootdev = n->st.st_dev;
        if (n->info == FTS_D || n->info == FTS_DP || n->info == FTS_DC) depth_max = std::max(depth_max, n->level);
        CHECK(string(p->fts_path, p->fts_pathlen) == n->path && !p->fts_path[p->fts_pathlen], "%s: the path of %s is '%s' (length %u)", what, id.c_str(), pbt::show(string(p->fts_path)).c_str(), p->fts_pathlen);
        CHECK(p->fts_level == n->level, "%s: level of %s is %d, should be %d", what, id.c_str(), p->fts_level, n->level);
        if (n->level > 0) CHECK(string(p->fts_name) == n->name && p->fts_namelen == n->name.size(), "%s: name of %s is '%s'", what, id.c_str(), pbt::show(string(p->fts_name)).c_str());
        CHECK(p->fts_parent && p->fts_parent->fts_level == n->level - 1, "%s: parent of %s has the wrong level", what, id.c_str());
        bool nsok = p->fts_info == FTS_NSOK && nostat_ok(*n, false) && !n->reread; n->nsok = nsok;
        bool dpok = n->info == FTS_ERR && p->fts_info == FTS_DP && (opt & FTS_NOSTAT) && (opt & FTS_PHYSICAL); // nothing had to be looked at
        CHECK(p->fts_info == n->info || nsok || dpok, "%s: %s is reported as %s, should be %s", what, id.c_str(), in_name(p->fts_info).c_str(), in_name(n->info).c_str());
        if (n->info == FTS_NS || n->info == FTS_DNR || n->info == FTS_ERR) { errors++; if (!nsok && !dpok) CHECK(p->fts_errno == n->err, "%s: error of %s is %d, should be %d", what, id.c_str(), p->fts_errno, n->err); }
        if (opt & FTS_NOSTAT) {} else if (!nsok && n->info != FTS_NS) { const struct stat* s = p->fts_statp; CHECK(s, "no stat data for %s", id.c_str());
            CHECK(s->st_ino == n->st.st_ino && s->st_dev == n->st.st_dev && s->st_mode == n->st.st_mode && (n->info == FTS_DOT || s->st_size == n->st.st_size && s->st_uid == n->st.st_uid && s->st_mtim.tv_nsec == n->st.st_mtim.tv_nsec), "%s: wrong stat data for %s", what, id.c_str()); }
        if (n->info == FTS_D || n->info == FTS_DP) CHECK(p->fts_ino == n->st.st_ino && p->fts_dev == n->st.st_dev, "%s: inode of directory %s wrong", what, id.c_str());
        if (n->info == FTS_DC) { cycles++; FTSENT* t = p->fts_parent; while (t && t->fts_level >= 0 && t != p->fts_cycle) t = t->fts_parent; CHECK(t == p->fts_cycle && t->fts_level >= 0, "cycle node of %s is no ancestor of it", id.c_str()); CHECK(t->fts_ino == n->st.st_ino, "cycle node of %s is another directory", id.c_str()); }
        if (!deleting && n->info != FTS_NS && !(n->level > 0 && n->par->posterr)) { struct stat s; bool fo = n->followed || (opt & FTS_LOGICAL); if (n->info == FTS_SLNONE || n->info == FTS_SL) fo = false;
            int r = fo ? stat(p->fts_accpath, &s) : lstat(p->fts_accpath, &s); CHECK(!r, "%s: %s cannot be reached through its access path '%s': %s", what, id.c_str(), pbt::show(string(p->fts_accpath)).c_str(), strerror(errno)); CHECK(s.st_ino == n->st.st_ino && s.st_dev == n->st.st_dev, "%s: the access path of %s, '%s', is another file", what, id.c_str(), pbt::show(string(p->fts_accpath)).c_str()); }
        if (nochdir) { struct stat s; CHECK(!stat(".", &s) && s.st_ino == cwdst.st_ino, "the working directory changed under NOCHDIR"); }
        if (n->num) CHECK(p->fts_number == n->num && p->fts_pointer == (void*)n.get(), "%s: the user's data of %s was lost", what, id.c_str());
        else { CHECK(p->fts_number == 0 && !p->fts_pointer, "%s: %s comes with user data nobody set", what, id.c_str()); n->num = ++ids; p->fts_number = n->num; p->fts_pointer = n.get(); }
    }
    // the candidates for the next entry, and the one the library chose
    void pick(FTSENT* p, NP par, const char* why) {
        std::vector<NP>& v = par->kids; string path(p->fts_path, p->fts_pathlen);
        size_t at = v.size(); for (size_t i = 0; i < v.size(); i++) if (v[i]->path == path && (at == v.size() || less(v[i], v[at]))) at = i;
        if (at == v.size()) FAIL("%s: '%s' (%s, level %d) is not one of the %zu entries still to visit in '%s'", why, pbt::show(path).c_str(), in_name(p->fts_info).c_str(), p->fts_level, v.size(), pbt::show(par->path).c_str());
        NP n = v[at]; if (cmpk) { for (auto& o : v) if (o != n && o->instr != FTS_SKIP && less(o, n)) FAIL("'%s' visited before '%s', against the comparison", pbt::show(n->path).c_str(), pbt::show(o->path).c_str()); }
        else if (n->level == 0) CHECK(at == 0, "root '%s' visited before '%s'", n->path.c_str(), v[0]->path.c_str());
        // an entry the caller asked to skip through fts_children may be passed over
        if (cmpk) { std::vector<NP> rest; for (auto& o : v) if (o != n && !(o->instr == FTS_SKIP && less(o, n))) rest.push_back(o); v = rest; } else v.erase(v.begin() + at);
        if (n->instr == FTS_FOLLOW && n->level > 0) { int was = n->info; if (p->fts_info != FTS_SL || was != FTS_SL) { if (was == FTS_SL || was == FTS_SLNONE) { n->followed = true; links_followed++; } classify(*n, true); n->instr = 0; n->reread = true; } } // taken up now, or at the next step
        cur = n; if (n->level == 0) rootdev = n->st.st_dev; check_entry(p, n, why);
    }
    void next_after(FTSENT* p) {
        NP par = cur->par; bool left = false, must = false; for (auto& k : par->kids) { left = true; if (k->instr != FTS_SKIP || par->level < 0) must = true; }
        if (par->level < 0) { if (!left) { CHECK(!p, "'%s' returned after the last root", p ? p->fts_path : ""); CHECK(errno == 0, "errno is %d at the end of the walk", errno); cur = nullptr; return; } CHECK(p, "the walk ended (errno %d: %s) with %zu roots not visited", errno, strerror(errno), par->kids.size()); pick(p, par, "next root"); return; }
        CHECK(p, "the walk ended (errno %d: %s) inside '%s'", errno, strerror(errno), pbt::show(par->path).c_str());
        bool isparent = p->fts_level == par->level && string(p->fts_path, p->fts_pathlen) == par->path && !must;
        if (left && !isparent) { pick(p, par, "next entry"); return; }
        cur = par; par->kids.clear(); par->have_kids = false; par->info = par->posterr ? FTS_ERR : FTS_DP; par->err = par->posterr; if (par->fd >= 0) { close(par->fd); par->fd = -1; } check_entry(p, par, "directory, after its contents");
    }
    void step() { // advance library and model
        NP n = cur; int instr = n ? n->instr : 0; if (n) n->instr = 0; errno = 77; FTSENT* p = fts_read(f); int e = errno; events++; ent = p;
        if (p) TR("  fts_read -> %s %s level %d", in_name(p->fts_info).c_str(), pbt::show(string(p->fts_path)).c_str(), p->fts_level); else TR("  fts_read -> NULL, errno %d", e);
        errno = e;
        if (!started) { started = true; if (top->kids.empty()) { CHECK(!p, "entry returned for no roots"); cur = nullptr; return; } CHECK(p, "nothing returned for the first root, errno %d", e); pick(p, top, "first root"); return; }
        if (instr == FTS_AGAIN) { CHECK(p, "nothing returned for the entry to revisit (errno %d)", e); bool was = n->followed; n->reread = true; classify(*n, false); agains++;
            if (was && p->fts_info != n->info) { classify(*n, true); } else n->followed = false;
            check_entry(p, n, "visited again"); return; }
        if (instr == FTS_FOLLOW && !n->nsok && (n->info == FTS_SL || n->info == FTS_SLNONE)) { CHECK(p, "nothing returned for the link to follow (errno %d: %s)", e, strerror(e)); n->reread = true; n->followed = true; links_followed++; classify(*n, true); check_entry(p, n, "link followed"); return; }
        if (n->info == FTS_D) {
            bool xdev = (opt & FTS_XDEV) && n->st.st_dev != rootdev;
            if (instr == FTS_SKIP || xdev) { prunes++; CHECK(p, "nothing returned after pruning '%s'", pbt::show(n->path).c_str()); n->info = FTS_DP; n->kids.clear(); n->have_kids = false; if (n->fd >= 0) { close(n->fd); n->fd = -1; } check_entry(p, n, xdev ? "directory on another device" : "pruned directory"); return; }
            bool fresh = !n->have_kids; if (fresh && !scan(n)) { CHECK(p, "the walk ended at the unreadable '%s' (errno %d)", pbt::show(n->path).c_str(), e); n->info = FTS_DNR; check_entry(p, n, "unreadable directory"); return; }
            if (n->kids.empty()) { CHECK(p, "the walk ended at the empty directory '%s' (errno %d: %s)", pbt::show(n->path).c_str(), e, strerror(e)); n->info = FTS_DP; n->have_kids = false; if (n->fd >= 0) { close(n->fd); n->fd = -1; } if (n->posterr && p->fts_info == FTS_ERR) { n->info = FTS_ERR; n->err = n->posterr; } check_entry(p, n, "empty directory"); return; }
            CHECK(p, "the walk ended (errno %d: %s) on entering '%s'", e, strerror(e), pbt::show(n->path).c_str()); bool all_skip = true; for (auto& k : n->kids) if (k->instr != FTS_SKIP) all_skip = false;
            if (all_skip && p->fts_level == n->level) { next_parent(p, n); return; }
            pick(p, n, "first entry"); return; }
        next_after(p);
    }
    void next_parent(FTSENT* p, NP n) { n->kids.clear(); n->have_kids = false; n->info = n->posterr ? FTS_ERR : FTS_DP; n->err = n->posterr; check_entry(p, n, "directory with every entry skipped"); }
    FTSENT* ent = nullptr;
    void children(Src& g, bool names) {
        struct stat a, b; CHECK(!stat(".", &a), "stat ."); errno = 77; FTSENT* l = fts_children(f, names ? FTS_NAMEONLY : 0); int e = errno; CHECK(!stat(".", &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev, "fts_children changed the working directory");
        TR("  fts_children(%s) -> %s, errno %d", names ? "names" : "", l ? pbt::show(string(l->fts_name)).c_str() : "NULL", e);
        std::vector<NP> want; bool dir = false;
        if (!started) want = top->kids; else if (cur && cur->info == FTS_D) { dir = true; if (!scan(cur)) { CHECK(!l && e == cur->err, "fts_children of an unreadable directory: %s, errno %d", l ? "a list" : "none", e); return; } want = cur->kids; }
        std::vector<FTSENT*> got; for (FTSENT* p = l; p; p = p->fts_link) got.push_back(p);
        if (!l) { CHECK(want.empty(), "fts_children returned nothing (errno %d), %zu entries expected", e, want.size()); CHECK(e == 0 || !started || (dir && cur->posterr == e), "fts_children of a node without children set errno %d", e); if (cur && dir) { cur->kids.clear(); cur->have_kids = false; if (cur->fd >= 0) { close(cur->fd); cur->fd = -1; } } return; }
        CHECK(got.size() == want.size(), "fts_children returned %zu entries, %zu expected", got.size(), want.size());
        std::map<string, std::vector<NP>> byname; for (auto& n : want) byname[n->level == 0 ? n->path : n->name].push_back(n); std::vector<std::pair<FTSENT*, NP>> pr;
        for (FTSENT* p : got) { auto it = byname.find(p->fts_name); CHECK(it != byname.end() && !it->second.empty(), "fts_children lists '%s', which is not an entry or is listed twice", pbt::show(string(p->fts_name)).c_str()); NP n = it->second.back(); it->second.pop_back(); pr.push_back({p, n}); CHECK(p->fts_namelen == strlen(p->fts_name) && p->fts_level == n->level, "name length or level of child wrong");
            if (!names) CHECK(p->fts_info == n->info || (p->fts_info == FTS_NSOK && nostat_ok(*n, false)), "fts_children: %s is %s, should be %s", pbt::show(n->path).c_str(), in_name(p->fts_info).c_str(), in_name(n->info).c_str()); }
        for (size_t i = 1; i < pr.size(); i++) { if (cmpk >= 1 && cmpk <= 3) CHECK(!less(pr[i].second, pr[i - 1].second), "fts_children lists '%s' before '%s', against the comparison", pbt::show(pr[i - 1].second->name).c_str(), pbt::show(pr[i].second->name).c_str()); }
        if (names || !started) { if (dir) { cur->kids.clear(); cur->have_kids = false; if (cur->fd >= 0) { close(cur->fd); cur->fd = -1; } } return; } // read again by the library
        if (!deleting && dir) for (auto& pn : pr) if (g.chance(1, 6)) { int in = g.chance(1, 2) ? FTS_SKIP : FTS_FOLLOW; if (in == FTS_FOLLOW && pn.first->fts_info != FTS_SL && pn.first->fts_info != FTS_SLNONE) continue; CHECK(fts_set(f, pn.first, in) == 0, "fts_set failed"); pn.second->instr = in; TR("    fts_set(%s, %s)", pbt::show(pn.second->name).c_str(), in == FTS_SKIP ? "SKIP" : "FOLLOW"); }
        if (!dir) return;
    }
};
static string base_dir, shm_dir;
static int xfer(const string& d) { mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777); return 0; }
struct Priv { bool on = false; void drop() { if (geteuid() == 0 && setegid(65534) == 0 && seteuid(65534) == 0) on = true; } void back() { if (on) { if (seteuid(0) || setegid(0)) pbt::harness_error("cannot regain privileges"); on = false; } } ~Priv() { back(); } };

static void run_walk(Src& g, Ctx& c, Tree& t, Walk& w, std::vector<string> roots, bool users, int maxev) {
    std::vector<char*> av; for (auto& r : roots) av.push_back((char*)r.c_str()); av.push_back(nullptr);
    string rs; for (auto& r : roots) rs += " '" + pbt::show(r) + "'"; TR("fts_open(%s, options 0x%x, comparison %d)", rs.c_str(), w.opt, cmpk);
    for (auto& e : t.e) GTR("  %c %o %s%s%s", e.type, (unsigned)e.mode, pbt::show(e.rel).c_str(), e.type == 'l' ? " -> " : "", pbt::show(e.target).c_str());
    int fd0 = nfds(); w.cwd = open(".", O_RDONLY | O_DIRECTORY); if (w.cwd < 0) pbt::harness_error("open ."); fstat(w.cwd, &w.cwdst); w.nochdir = (w.opt & (FTS_NOCHDIR | FTS_LOGICAL)) != 0;
    w.top = std::make_shared<Node>(); w.top->level = -1; for (auto& r : roots) { NP n = std::make_shared<Node>(); n->name = n->path = r; n->level = 0; n->par = w.top; w.classify(*n, w.opt & FTS_COMFOLLOW); if (w.opt & FTS_COMFOLLOW) n->followed = true; n->info0 = n->info; w.top->kids.push_back(n); }
    w.f = fts_open(av.data(), w.opt, cmpk ? cmp_fts : nullptr); CHECK(w.f, "fts_open failed: %s", strerror(errno));
    std::vector<std::pair<int, ino_t>> mine; bool ended = false;
    if (users && g.chance(1, 6)) w.children(g, g.flip());
    int limit = g.chance(1, 6) ? (int)g.range(0, 12) : maxev;
    while (w.events < limit) {
        w.step(); if (!w.cur) { ended = true; break; }
        if (w.deleting) { int i = w.ent->fts_info; const char* ap = w.ent->fts_accpath; if (w.cur->level > 0) { if (i == FTS_DP) CHECK(rmdir(ap) == 0, "cannot remove directory '%s' after its contents: %s", pbt::show(w.cur->path).c_str(), strerror(errno)); else if (i != FTS_D) CHECK(unlink(ap) == 0, "cannot remove '%s' through its access path: %s", pbt::show(w.cur->path).c_str(), strerror(errno)); } }
        if (!users) continue;
        if (g.chance(1, 12) && mine.size() < 20) { int fd = open("/dev/null", O_RDONLY); struct stat s; fstat(fd, &s); mine.push_back({fd, s.st_ino}); }
        if (w.cur->info == FTS_D ? g.chance(1, 6) : g.chance(1, 30)) { w.children(g, g.chance(1, 3)); if (g.chance(1, 4)) w.children(g, g.chance(1, 3)); }
        if (w.cur->instr) continue; // an instruction given through fts_children stands
        if (!w.deleting && (g.chance(1, 5) || (w.cur->reread && g.chance(2, 5))) && w.cur->info != FTS_ERR && !(w.cur->level > 0 && w.cur->par->posterr)) { int in = (int)g.pick(std::vector<int>{FTS_SKIP, FTS_AGAIN, FTS_FOLLOW, FTS_NOINSTR, FTS_FOLLOW, FTS_SKIP}); if (w.cur->reread && g.flip()) in = w.cur->followed ? FTS_AGAIN : FTS_FOLLOW; // to and fro
            if (in == FTS_AGAIN && (w.agains > 8)) continue; // bounded number of visits
            if (in == FTS_AGAIN && w.cur->info == FTS_D && w.cur->have_kids) continue; // list of children already handed out
            CHECK(fts_set(w.f, w.ent, in) == 0, "fts_set failed"); w.cur->instr = in; TR("    fts_set(%s)", in == FTS_SKIP ? "SKIP" : in == FTS_AGAIN ? "AGAIN" : in == FTS_FOLLOW ? "FOLLOW" : "NOINSTR"); }
    }
    if (ended && g.chance(1, 3)) CHECK(!fts_read(w.f), "an entry after the end of the walk");
    int r = fts_close(w.f); TR("fts_close -> %d%s", r, ended ? "" : " (early)"); CHECK(r == 0, "fts_close returned %d: %s", r, strerror(errno));
    struct stat s; CHECK(!stat(".", &s) && s.st_ino == w.cwdst.st_ino && s.st_dev == w.cwdst.st_dev, "the working directory is another one after the walk");
    for (auto& m : mine) { struct stat q; CHECK(fstat(m.first, &q) == 0 && q.st_ino == m.second, "a descriptor the caller opened during the walk was closed"); close(m.first); }
    for (NP n = w.cur; n; n = n->par) n->kids.clear(); w.cur = nullptr; w.top->kids.clear(); w.top = nullptr; close(w.cwd);
    if (!c.discard) { int fd1 = nfds(); CHECK(fd1 == fd0, "%d descriptors are left open by the walk", fd1 - fd0); }
}
static string setup(const char* tag) { string d = pbt::scratch() + "/" + tag; int dfd = open(pbt::scratch().c_str(), O_RDONLY | O_DIRECTORY); rmtree(dfd, tag); close(dfd); xfer(d); chmod(pbt::scratch().c_str(), 0755); if (chdir(d.c_str())) pbt::harness_error("chdir %s", d.c_str()); return d; }
struct Back { string d; ~Back() { if (chdir("/")) {} int dfd = open(pbt::scratch().c_str(), O_RDONLY | O_DIRECTORY); if (dfd >= 0) { rmtree(dfd, d); close(dfd); } } };
static int gopt(Src& g, bool phys) {
    int o = phys || g.chance(3, 5) ? FTS_PHYSICAL : FTS_LOGICAL; if (g.chance(1, 3)) o |= FTS_NOCHDIR; if (g.chance(1, 4)) o |= FTS_COMFOLLOW; if (g.chance(1, 4)) o |= FTS_NOSTAT; if (g.chance(1, 5)) o |= FTS_SEEDOT; if (g.chance(1, 3)) o |= FTS_XDEV; return o; }
static void body(Src& g, Ctx& c, int mode) { // 0: as we are, 1: unprivileged with permissions, 2: removing the tree
    c.leakcheck = true; string tag = "w"; string base = setup("w"); Back bk{tag}; Tree t; t.base = base; string shm;
    bool useshm = mode == 0 && g.chance(1, 3); if (useshm) { shm = pbt::fmt("/dev/shm/pbt-fts.%ld", (long)getpid()); mkdir(shm.c_str(), 0755); string f = shm + "/x"; int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); mkdir((shm + "/d").c_str(), 0755); t.shm = shm; }
    struct Shm { string s; ~Shm() { if (!s.empty()) { unlink((s + "/x").c_str()); rmdir((s + "/d").c_str()); rmdir(s.c_str()); } } } sh{shm};
    gen_tree(g, t, 16, mode == 1, true); Priv pv; if (mode) { pv.drop(); if (!pv.on) { c.discard = true; return; } }
    int cw = open(".", O_RDONLY | O_DIRECTORY); if (cw < 0) pbt::harness_error("open . : %s", strerror(errno)); build(t, cw); close(cw);
    Walk w(c); w.opt = gopt(g, mode == 2); if (mode == 2) { w.deleting = true; w.opt &= ~(FTS_COMFOLLOW | FTS_SEEDOT); } cmpk = (int)g.weighted({2, 2, 1, 1, 1}); if (cmpk == 4 && (w.opt & FTS_NOSTAT)) cmpk = 1;
    std::vector<string> roots; int nr = g.chance(2, 3) ? 1 : (int)g.range(mode == 2 ? 1 : 0, 3);
    for (int i = 0; i < nr; i++) { if (mode == 2) { roots.push_back(i == 0 ? "t" : g.pick(std::vector<string>{"t/", "nothere", "./t"})); break; } const Ent& e = t.e[g.range(0, t.e.size() - 1)];
        switch (g.weighted({5, 4, 1, 1, 1, 1, 1, 1})) { case 0: roots.push_back("t"); break; case 1: roots.push_back(e.rel); break; case 2: roots.push_back(e.rel + "/"); break; case 3: roots.push_back("./" + e.rel); break; case 4: roots.push_back(base + "/" + e.rel); break; case 5: roots.push_back("."); break; case 6: roots.push_back(g.flip() ? "nothere" : "t/nothere"); break; default: roots.push_back("t/.."); } }
    run_walk(g, c, t, w, roots, mode != 2 || g.flip(), 250);
    pv.back(); if (mode == 2) c.label("removing"); if (w.cycles) c.label("cycle"); if (w.links_followed) c.label("link followed"); if (w.prunes) c.label("pruned"); if (w.errors) c.label("error"); if (w.opt & FTS_LOGICAL) c.label("logical"); if (w.agains) c.label("revisited");
    c.nontrivial(w.depth_max >= 2 && w.events >= 6);
}
TARGET(walk, 6, "a walk of at least six entries that goes down at least two levels") { body(g, c, 0); }
TARGET(perms, 3, "a walk of at least six entries that goes down at least two levels") { body(g, c, 1); }
TARGET(remove, 2, "a walk of at least six entries that goes down at least two levels") { body(g, c, 2); }
// paths longer than the system's limit, and the growth of the path buffer
TARGET(longpath, 1, "paths longer than PATH_MAX") {
    c.leakcheck = true; string base = setup("l"); Back bk{"l"}; Tree t; t.base = base; t.e.push_back({"t", -1, 'd', "", 0755, "t"}); int depth = (int)g.range(1, 45), at = 0; size_t total = 1; int ln = (int)g.range(60, 255);
    for (int i = 0; i < depth; i++) { string nm = string(std::max(1, ln - (int)g.range(0, 20)), "abc"[g.range(0, 2)]); int me = (int)t.e.size(); t.e.push_back({nm, at, 'd', "", 0755, t.e[at].rel + "/" + nm}); total += nm.size() + 1;
        size_t plen = t.e[at].rel.size() + 1; for (size_t lim : {4096u, 8192u}) if (plen + 2 < lim && plen + 250 > lim && g.chance(3, 4)) { string fn(lim - plen - 1 + g.range(0, 2), 'e'); t.e.push_back({fn, at, "fd"[g.range(0, 1)], "", 0755, t.e[at].rel + "/" + fn}); } // right at the size of the path buffer
        int files = (int)g.range(0, 3); for (int k = 0; k < files; k++) { string fn = string(g.flip() ? g.range(1, 3) : g.range(200, 254), 'f') + "012"[k]; t.e.push_back({fn, at, "fdp"[g.weighted({4, 1, 1})], "", 0755, t.e[at].rel + "/" + fn}); }
        at = me; }
    int cw = open(".", O_RDONLY | O_DIRECTORY); build(t, cw); close(cw); Walk w(c); w.opt = FTS_PHYSICAL | (g.chance(1, 3) ? FTS_NOCHDIR : 0) | (g.chance(1, 4) ? FTS_NOSTAT : 0); if (g.chance(1, 6)) w.opt = FTS_LOGICAL; cmpk = (int)g.range(0, 2);
    c.nontrivial(total > 4096); c.label(w.opt & (FTS_NOCHDIR | FTS_LOGICAL) ? "without chdir" : "with chdir"); run_walk(g, c, t, w, {"t"}, g.chance(1, 3), 400);
}
TARGET(args, 1, "an invalid argument") {
    c.leakcheck = true; setup("a"); Back bk{"a"}; char a[] = "."; char em[] = ""; c.nontrivial(true); int fd0 = nfds();
    switch (g.range(0, 3)) {
        case 0: { int o = 1 << g.range(8, 20); char* av[] = {a, nullptr}; TR("fts_open with option 0x%x", o); errno = 0; CHECK(!fts_open(av, o | FTS_PHYSICAL, nullptr) && errno == EINVAL, "unknown option accepted"); break; }
        case 1: { std::vector<char*> av; int n = (int)g.range(0, 3); for (int i = 0; i < n; i++) av.push_back(a); av.push_back(em); av.push_back(nullptr); TR("fts_open with an empty path"); errno = 0; CHECK(!fts_open(av.data(), FTS_PHYSICAL, nullptr) && errno == ENOENT, "empty path: errno %d", errno); break; }
        case 2: { char* av[] = {a, nullptr}; FTS* f = fts_open(av, FTS_PHYSICAL, nullptr); CHECK(f, "fts_open"); FTSENT* p = fts_read(f); CHECK(p, "fts_read"); int bad = g.pick(std::vector<int>{5, 6, -1, 100}); TR("fts_set(%d)", bad); errno = 0; CHECK(fts_set(f, p, bad) != 0 && errno == EINVAL, "fts_set accepted instruction %d", bad); errno = 0; CHECK(!fts_children(f, bad) && errno == EINVAL, "fts_children accepted instruction %d", bad); CHECK(!fts_close(f), "fts_close"); break; }
        default: { int n = (int)g.range(0, 3); std::vector<char*> av(n, a); av.push_back(nullptr); TR("fts_open of %d roots, closed unread", n); FTS* f = fts_open(av.data(), g.flip() ? FTS_PHYSICAL : FTS_LOGICAL, nullptr); CHECK(f, "fts_open"); if (n == 0 && g.flip()) CHECK(!fts_read(f), "entry for no roots"); CHECK(!fts_close(f), "fts_close"); } }
    CHECK(nfds() == fd0, "descriptors left open");
}
// directories of many entries, and of sizes that just fit or outgrow what an earlier one needed
TARGET(wide, 1, "a directory of at least 40 entries, sorted") {
    c.leakcheck = true; string base = setup("v"); Back bk{"v"}; Tree t; t.base = base; t.e.push_back({"t", -1, 'd', "", 0755, "t"}); int n = (int)g.range(2, 8), big = 0;
    for (int k = 0; k < 3; k++) { string dn = string(1, "abc"[k]); int me = (int)t.e.size(); t.e.push_back({dn, 0, 'd', "", 0755, "t/" + dn}); for (int i = 0; i < n; i++) { string fn = pbt::fmt("%c%d", "xyz"[(i * 7 + k) % 3], (i * 37) % 1000); t.e.push_back({fn, me, "fd"[i % 11 == 5], "", 0755, t.e[me].rel + "/" + fn}); } big = std::max(big, n); n += (int)g.pick(std::vector<int>{0, 38, 39, 40, 41, 42, 60}); }
    int cw = open(".", O_RDONLY | O_DIRECTORY); build(t, cw); close(cw); Walk w(c); w.opt = FTS_PHYSICAL | (g.flip() ? FTS_NOCHDIR : 0) | (g.chance(1, 4) ? FTS_NOSTAT : 0); cmpk = (int)g.range(0, 3); c.nontrivial(big >= 40 && cmpk); run_walk(g, c, t, w, {"t"}, g.chance(1, 3), 1000);
}
// ---------------------------------------------------------------- ftw() on top of it
struct FtwCall { string path; int flag; struct stat st; };
static std::vector<FtwCall>* ftw_calls; static size_t ftw_stop; static int ftw_ret;
static int ftw_cb(const char* p, const struct stat* st, int flag) { FtwCall k; k.path = p; k.flag = flag; memset(&k.st, 0, sizeof k.st); if (flag != FTW_NS) k.st = *st; ftw_calls->push_back(k); return ftw_calls->size() == ftw_stop ? ftw_ret : 0; }
static const char* ftw_name(int f) { return f == FTW_F ? "FTW_F" : f == FTW_D ? "FTW_D" : f == FTW_DNR ? "FTW_DNR" : f == FTW_NS ? "FTW_NS" : f == FTW_SL ? "FTW_SL" : "?"; }
struct FtwWant { int flag = 0; bool known = false, readable = true; struct stat st; std::set<string> kids; };
static void ftw_model(const string& path, bool follow, std::map<string, FtwWant>& m) { // what is there, by looking
    FtwWant w; memset(&w.st, 0, sizeof w.st); int r = follow ? stat(path.c_str(), &w.st) : lstat(path.c_str(), &w.st);
    if (r) w.flag = FTW_NS; else if (S_ISDIR(w.st.st_mode)) { w.flag = FTW_D; DIR* d = opendir(path.c_str()); if (!d) w.readable = false; else { while (dirent* p = readdir(d)) if (!isdot(p->d_name)) w.kids.insert(p->d_name); closedir(d); } }
    else w.flag = S_ISLNK(w.st.st_mode) ? FTW_SL : FTW_F;
    m[path] = w; for (auto& k : w.kids) ftw_model(path + (path.back() == '/' ? "" : "/") + k, false, m);
}
TARGET(ftw, 2, "at least six calls, two levels down, or stopped by the function") {
    c.leakcheck = true; string base = setup("f"); Back bk{"f"}; Tree t; t.base = base; bool perms = g.chance(1, 3); gen_tree(g, t, 16, perms, true); Priv pv; if (perms) { pv.drop(); if (!pv.on) { c.discard = true; return; } }
    int cw = open(".", O_RDONLY | O_DIRECTORY); if (cw < 0) pbt::harness_error("open ."); build(t, cw); close(cw);
    const Ent& e = t.e[g.range(0, t.e.size() - 1)]; string root; switch (g.weighted({6, 4, 1, 1, 1, 1})) { case 0: root = "t"; break; case 1: root = e.rel; break; case 2: root = "./" + e.rel; break; case 3: root = base + "/" + e.rel; break; case 4: root = "t/"; break; default: root = "nothere"; }
    std::map<string, FtwWant> m; ftw_model(root, true, m); bool slash = root.back() == '/';
    std::vector<FtwCall> calls; ftw_calls = &calls; ftw_stop = g.chance(1, 3) ? g.range(1, m.size() + 1) : 0; ftw_ret = g.pick(std::vector<int>{1, -1, 7, 255, -12345});
    TR("ftw(\"%s\"): %zu entries, stop at call %zu with %d", root.c_str(), m.size(), ftw_stop, ftw_ret); int fd0 = nfds(); char cwd0[5000], cwd1[5000]; if (!getcwd(cwd0, sizeof cwd0)) cwd0[0] = 0;
    int r = plib_ftw(root.c_str(), ftw_cb, (int)g.range(1, 20));
    CHECK(nfds() == fd0, "ftw left descriptors open"); if (!getcwd(cwd1, sizeof cwd1)) cwd1[0] = 0; CHECK(!strcmp(cwd0, cwd1), "ftw left the process in %s", cwd1);
    std::map<string, std::vector<int>> got; std::vector<string> open_dirs; size_t depth = 0;
    if (calls.empty()) { CHECK(r == -1, "nothing reported, %d returned", r); CHECK(m[root].flag == FTW_NS, "%s was not reported", root.c_str()); c.label("missing root"); return; }
    for (size_t i = 0; i < calls.size(); i++) { auto& k = calls[i]; string p = k.path; if (slash && !m.count(p) && m.count(p + "/")) p += "/"; auto it = m.find(p); GTR("%s %s", ftw_name(k.flag), p.c_str());
        CHECK(it != m.end(), "%s reported, which is not there", p.c_str()); FtwWant& w = it->second; auto& seen = got[p];
        CHECK(i > 0 || p == root, "the first report is %s", p.c_str());
        if (i > 0 && p != root) { size_t sl = p.rfind('/'); string par = p.substr(0, sl); if (!m.count(par) && m.count(par + "/")) par += "/"; // the walk is inside the directory that holds it
            while (!open_dirs.empty() && open_dirs.back() != par) open_dirs.pop_back(); CHECK(!open_dirs.empty(), "%s reported when its directory had been left or not yet reported", p.c_str()); }
        bool ok; if (w.flag == FTW_D && !w.readable) ok = (k.flag == FTW_DNR && (seen.empty() || (seen.size() == 1 && seen[0] == FTW_D && calls[i - 1].path == k.path))) || (k.flag == FTW_D && seen.empty());
        else ok = k.flag == w.flag && seen.empty();
        CHECK(ok, "%s reported as %s%s, it is %s%s", p.c_str(), ftw_name(k.flag), seen.empty() ? "" : " again", ftw_name(w.flag), w.readable ? "" : " (not readable)"); seen.push_back(k.flag);
        if (k.flag != FTW_NS) CHECK(k.st.st_ino == w.st.st_ino && k.st.st_dev == w.st.st_dev && k.st.st_mode == w.st.st_mode && k.st.st_size == w.st.st_size, "%s: the status reported is another's", p.c_str());
        if (k.flag == FTW_D) { open_dirs.push_back(p); depth = std::max(depth, open_dirs.size()); }
    }
    if (ftw_stop && calls.size() >= ftw_stop) { CHECK(calls.size() == ftw_stop, "%zu calls after the one that returned %d", calls.size() - ftw_stop, ftw_ret); CHECK(r == ftw_ret, "the function returned %d, ftw %d", ftw_ret, r); c.label("stopped"); }
    else { CHECK(r == 0, "walk of everything returned %d (%s)", r, strerror(errno)); for (auto& kv : m) { auto& s = got[kv.first]; CHECK(!s.empty(), "%s never reported", kv.first.c_str()); if (kv.second.flag == FTW_D && !kv.second.readable) CHECK(s.back() == FTW_DNR, "%s cannot be read, last reported as %s", kv.first.c_str(), ftw_name(s.back())); } }
    pv.back(); for (auto& kv : m) c.label(ftw_name(kv.second.flag)); c.nontrivial((calls.size() >= 6 && depth >= 2) || (ftw_stop && calls.size() == ftw_stop));
}

// --- failing calls: the k-th of the chosen kinds of calls made by the library fails, or all from there on
static struct Fault { bool on = false, sticky = false, hit = false, dir = false; unsigned mask = 0; long k = 0, n = 0; int err = 0; } flt;
static bool fail_now(int cls) { if (!flt.on || !(flt.mask >> cls & 1)) return false; long i = flt.n++; if (flt.sticky ? i < flt.k : i != flt.k) return false; flt.hit = true; if (cls == 7) flt.dir = true; errno = flt.err; return true; }
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); int __real_open(const char*, int, ...); DIR* __real_opendir(const char*); int __real_fstat(int, struct stat*); int __real_lstat(const char*, struct stat*); int __real_stat(const char*, struct stat*); int __real_fchdir(int); int __real_fcntl(int, int, ...);
void* __wrap_malloc(size_t n) { return fail_now(0) ? nullptr : __real_malloc(n); }
void* __wrap_realloc(void* p, size_t n) { return fail_now(1) ? nullptr : __real_realloc(p, n); }
int __wrap_open(const char* f, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return fail_now(2) ? -1 : __real_open(f, fl, m); }
DIR* __wrap_opendir(const char* d) { return fail_now(3) ? nullptr : __real_opendir(d); }
int __wrap_fstat(int f, struct stat* s) { return fail_now(4) ? -1 : __real_fstat(f, s); }
int __wrap_lstat(const char* f, struct stat* s) { return fail_now(5) ? -1 : __real_lstat(f, s); }
int __wrap_stat(const char* f, struct stat* s) { return fail_now(6) ? -1 : __real_stat(f, s); }
int __wrap_fchdir(int f) { return fail_now(7) ? -1 : __real_fchdir(f); }
int __wrap_fcntl(int f, int c, ...) { va_list a; va_start(a, c); long m = va_arg(a, long); va_end(a); return fail_now(8) ? -1 : __real_fcntl(f, c, m); }
struct dirent* __real_readdir(DIR*); struct dirent* __wrap_readdir(DIR* d) { return fail_now(9) ? nullptr : __real_readdir(d); }
}
struct Arm { Arm() { flt.on = true; } ~Arm() { flt.on = false; } };
struct FE { bool dir = false; char type = 0; int pre = 0, post = 0, err = 0; };
TARGET(faults, 3, "a call made by the library failed during a walk of a tree of at least six entries") {
    c.leakcheck = true; string base = setup("w"); Back bk{"w"}; Tree t; t.base = base; gen_tree(g, t, g.chance(1, 6) ? 60 : 16, false, true);
    int cw = open(".", O_RDONLY | O_DIRECTORY); if (cw < 0) pbt::harness_error("open ."); build(t, cw); struct stat cst; fstat(cw, &cst);
    int opt = gopt(g, g.chance(3, 4)) & ~FTS_XDEV; bool phys = !(opt & FTS_LOGICAL); cmpk = g.flip() ? 1 : 0;
    std::map<string, FE> m; std::function<void(const string&, bool)> look = [&](const string& p, bool top) { struct stat s; if (top && ((opt & FTS_COMFOLLOW) || !phys) ? stat(p.c_str(), &s) && lstat(p.c_str(), &s) : lstat(p.c_str(), &s)) return; FE e; e.dir = S_ISDIR(s.st_mode); e.type = S_ISLNK(s.st_mode) ? 'l' : S_ISREG(s.st_mode) ? 'f' : 'o'; m[p] = e; if (!e.dir || !phys) return; DIR* d = opendir(p.c_str()); if (!d) pbt::harness_error("opendir"); while (dirent* x = readdir(d)) if (!isdot(x->d_name) || (opt & FTS_SEEDOT)) { string k = p + "/" + x->d_name; if (isdot(x->d_name)) { m[k].type = '.'; } else look(k, false); } closedir(d); };
    string root = g.chance(2, 3) ? "t" : t.e[g.range(0, t.e.size() - 1)].rel; look(root, true); bool missing = m.empty();
    flt = Fault(); flt.mask = g.flip() ? 1u << g.range(0, 9) : (unsigned)g.range(1, 1023); flt.k = g.flip() ? (long)g.range(0, 6) : (long)g.range(0, 6 * m.size() + 4); flt.sticky = g.chance(1, 4); flt.err = g.pick(std::vector<int>{ENOMEM, EMFILE, EIO, EACCES, ENOENT, ENAMETOOLONG});
    TR("walk of '%s' (%zu entries), options 0x%x; calls 0x%x fail %s the %ldth with %s", pbt::show(root).c_str(), m.size(), opt, flt.mask, flt.sticky ? "from" : "at", flt.k, strerror(flt.err)); for (auto& e : t.e) GTR("  %c %s%s%s", e.type, pbt::show(e.rel).c_str(), e.type == 'l' ? " -> " : "", pbt::show(e.target).c_str());
    int fd0 = nfds(); std::vector<char*> av{(char*)root.c_str(), nullptr}; FTS* f; { Arm a; errno = 0; f = fts_open(av.data(), opt, cmpk ? cmp_fts : nullptr); }
    if (!f) { int e = errno; CHECK(flt.hit && e != 0, "fts_open failed, errno %d, without a failing call", e); CHECK(nfds() == fd0, "the failed fts_open left descriptors open"); struct stat s; CHECK(!stat(".", &s) && s.st_ino == cst.st_ino && s.st_dev == cst.st_dev, "the failed fts_open left the working directory"); close(cw); c.label("open failed"); c.nontrivial(m.size() >= 6); return; }
    bool errs = false, ended = false; int ev = 0, e = 0; long n = 0; 
    for (; ev < 600; ev++) {
        if (g.chance(1, 12)) { Arm a; bool was = flt.hit; errno = 0; FTSENT* l = fts_children(f, g.flip() ? FTS_NAMEONLY : 0); if (!l && errno) { CHECK(flt.hit || was || errs, "fts_children failed (errno %d) without a failing call", errno); errs = true; } TR("  fts_children -> %s", l ? l->fts_name : "none"); }
        FTSENT* p; { Arm a; errno = 0; p = fts_read(f); e = errno; } if (!p) { ended = true; TR("  end, errno %d", e); break; }
        string path(p->fts_path, p->fts_pathlen); TR("  %s %s", in_name(p->fts_info).c_str(), pbt::show(path).c_str()); int i = p->fts_info; bool bad = i == FTS_NS || i == FTS_DNR || i == FTS_ERR; if (bad) { errs = true; CHECK(p->fts_errno != 0, "%s reported as %s without an error number", path.c_str(), in_name(i).c_str()); CHECK(flt.hit || missing || i == FTS_NS, "%s reported as %s without a failing call", path.c_str(), in_name(i).c_str()); }
        if (!phys) { CHECK(path == root || path.compare(0, root.size() + 1, root + "/") == 0 , "'%s' is outside '%s'", path.c_str(), root.c_str()); continue; }
        auto it = m.find(path); if (missing) { CHECK(bad && path == root, "'%s' (%s) reported under a missing root", path.c_str(), in_name(i).c_str()); continue; } CHECK(it != m.end(), "'%s' reported, which is not there", pbt::show(path).c_str()); FE& x = it->second; n++;
        if (bad) { x.err++; CHECK(x.err <= 2, "'%s' reported with an error three times", path.c_str()); continue; }
        if (i == FTS_D) { CHECK(x.dir, "'%s' reported as a directory", path.c_str()); x.pre++; } else if (i == FTS_DP) { CHECK(x.dir && x.pre == 1, "'%s' reported after its contents, %d times before", path.c_str(), x.pre); x.post++; }
        else if (i == FTS_NSOK) { CHECK(!x.dir && (opt & FTS_NOSTAT), "'%s' reported as NSOK", path.c_str()); x.pre++; } else if (i == FTS_SLNONE && flt.hit && (flt.mask & 64)) { errs = true; x.pre++; } // stat fails, lstat does not
        else { CHECK(!x.dir, "directory '%s' reported as %s", path.c_str(), in_name(i).c_str()); CHECK(i == (x.type == 'l' ? FTS_SL : x.type == 'f' ? FTS_F : x.type == '.' ? FTS_DOT : FTS_DEFAULT) || (i == FTS_SLNONE && path == root), "'%s' reported as %s", path.c_str(), in_name(i).c_str()); x.pre++; }
        CHECK(x.pre <= 1 && x.post <= 1, "'%s' reported %d times before and %d times after its contents", path.c_str(), x.pre, x.post);
    }
    CHECK(ended || !phys, "the walk does not end"); if (ended && e == 0 && !errs && phys && !missing) for (auto& x : m) CHECK(x.second.pre == 1 && x.second.post == (int)x.second.dir, "the walk ended without reporting an error%s, and '%s' was reported %d times before and %d times after its contents", flt.hit ? " although a call failed" : "", pbt::show(x.first).c_str(), x.second.pre, x.second.post);
    if (ended && e) CHECK(flt.hit, "the walk ended with errno %d and no call had failed", e);
    bool hitd = flt.hit; int r; { Arm a; errno = 0; r = fts_close(f); } if (r) CHECK(flt.hit, "fts_close failed: %s", strerror(errno));
    CHECK(nfds() == fd0, "%d descriptors are left open by the walk", nfds() - fd0); struct stat s; bool home = !stat(".", &s) && s.st_ino == cst.st_ino && s.st_dev == cst.st_dev; if (!home) { CHECK(flt.dir && r, "the working directory is another one after the walk, and fts_close returned %d", r); if (fchdir(cw)) pbt::harness_error("fchdir"); }
    close(cw); c.nontrivial(flt.hit && m.size() >= 6); if (hitd) { c.label(errs ? "reported at an entry" : e ? "walk ended early" : "no consequence"); }
}
