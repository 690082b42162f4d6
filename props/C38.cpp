//@ src: src/c_resolve.c@-Dgetifaddrs=p_getifaddrs,-Dfreeifaddrs=p_freeifaddrs,-Dsocket=p_socket,-Dioctl=p_ioctl,-Dclose=p_close,-Dgetaddrinfo=p_getaddrinfo,-Dfreeaddrinfo=p_freeaddrinfo src/strcopy.c
//@ quick: 10
//@ assume: interface names are at most 15 characters and addresses are AF_INET, AF_INET6 or AF_PACKET, as on Linux
#include "utils/utils.h"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <net/if.h>
#include <linux/if_packet.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <unistd.h>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include "utils/resolve.h"
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector; using std::map; using std::pair;
// a model of the host: its interfaces with their addresses, and what its resolver knows
struct Ifc { string name; sa_family_t fam; string sa; unsigned flags; };
static struct Host { bool real; vector<Ifc> list; std::set<string> up; map<string, vector<pair<sa_family_t, string>>> dns; int gifail, sockfail, eai, eaierrno; int lists, infos, fds, looked; string asked; } H;
static size_t salen(sa_family_t f) { return f == AF_INET6 ? sizeof(struct sockaddr_in6) : f == AF_PACKET ? sizeof(struct sockaddr_ll) : sizeof(struct sockaddr_in); }
extern "C" {
int p_getifaddrs(struct ifaddrs** o) { if (H.real) { H.lists++; return getifaddrs(o); } if (H.gifail) { errno = H.gifail; return -1; } struct ifaddrs *h = nullptr, **t = &h; for (auto& i : H.list) { auto* p = (struct ifaddrs*)calloc(1, sizeof(struct ifaddrs)); p->ifa_name = strdup(i.name.c_str()); p->ifa_flags = i.flags; if (i.fam) { p->ifa_addr = (struct sockaddr*)malloc(i.sa.size()); memcpy(p->ifa_addr, i.sa.data(), i.sa.size()); } *t = p; t = &p->ifa_next; } *o = h; H.lists++; return 0; }
void p_freeifaddrs(struct ifaddrs* p) { H.lists--; if (H.real) { freeifaddrs(p); return; } while (p) { auto* n = p->ifa_next; free(p->ifa_name); free(p->ifa_addr); free(p); p = n; } }
int p_socket(int a, int b, int d) { if (H.real) { H.fds++; return socket(a, b, d); } if (H.sockfail) { errno = H.sockfail; return -1; } H.fds++; return 77; }
int p_close(int fd) { H.fds--; return H.real ? close(fd) : 0; }
int p_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); struct ifreq* r = va_arg(ap, struct ifreq*); va_end(ap); if (H.real) return ioctl(fd, req, r); if (!memchr(r->ifr_name, 0, IFNAMSIZ)) { errno = EINVAL; return -1; } if (H.up.count(r->ifr_name)) { r->ifr_mtu = 1500; return 0; } errno = ENODEV; return -1; }
int p_getaddrinfo(const char* n, const char*, const struct addrinfo* h, struct addrinfo** o) {
    H.looked++; H.asked = n; if (H.eai) { errno = H.eaierrno; return H.eai; } auto it = H.dns.find(n); if (it == H.dns.end()) { errno = H.eaierrno; return EAI_NONAME; } struct addrinfo *l = nullptr, **t = &l; for (auto& a : it->second) { if (h && h->ai_family && h->ai_family != a.first) continue; auto* p = (struct addrinfo*)calloc(1, sizeof(struct addrinfo)); p->ai_family = a.first; p->ai_addrlen = (socklen_t)a.second.size(); p->ai_addr = (struct sockaddr*)malloc(a.second.size()); memcpy(p->ai_addr, a.second.data(), a.second.size()); *t = p; t = &p->ai_next; } if (!l) { errno = H.eaierrno; return EAI_NONAME; } *o = l; H.infos++; return 0; }
void p_freeaddrinfo(struct addrinfo* p) { H.infos--; while (p) { auto* n = p->ai_next; free(p->ai_addr); free(p); p = n; } } }
static string gname(Src& g) { string s = g.pick<const char*>({"lo", "eth", "wlan", "br-", "e", "tun", "veth"}); size_t n = g.size(8) + 1; while (n-- && s.size() < 15) s += "0123456789ab.:-"[g.range(0, 14)]; if (g.chance(1, 4)) s.resize(15, 'x'); return s; }
static string gsa(Src& g, sa_family_t f) { string b(salen(f), 0); if (f == AF_INET) { struct sockaddr_in a{}; a.sin_family = f; a.sin_addr.s_addr = (in_addr_t)g.u(32); memcpy(&b[0], &a, sizeof a); } else if (f == AF_INET6) { struct sockaddr_in6 a{}; a.sin6_family = f; for (auto& x : a.sin6_addr.s6_addr) x = g.flip() ? 0 : (uint8_t)g.u(8); a.sin6_scope_id = (uint32_t)g.range(0, 5); memcpy(&b[0], &a, sizeof a); } else { struct sockaddr_ll a{}; a.sll_family = f; a.sll_halen = 6; a.sll_ifindex = (int)g.range(1, 99); for (auto& x : a.sll_addr) x = (uint8_t)g.u(8); memcpy(&b[0], &a, sizeof a); } return b; }
static unsigned bit(sa_family_t f) { return f == AF_INET6 ? F_INET6 : f == AF_PACKET ? F_LINK : F_INET; }
static vector<pair<string, unsigned>> content(const if_addr_vect& v, bool flags) { vector<pair<string, unsigned>> o; for (size_t i = 0; i < VECT_LEN(&v); i++) { auto& a = VECT_ELEM(&v, i); o.push_back({string((const char*)&a.sa, salen(a.sa.ss_family)), flags ? a.flags : 0}); } std::sort(o.begin(), o.end()); return o; }
static vector<pair<string, unsigned>> ofif(const string& n, unsigned mask) { vector<pair<string, unsigned>> o; for (auto& i : H.list) if (i.name == n && i.fam && (mask & bit(i.fam))) o.push_back({i.sa, i.flags}); std::sort(o.begin(), o.end()); return o; }
static string shosts() { string s; for (auto& i : H.list) s += pbt::fmt(" %s:%s", i.name.c_str(), i.fam == AF_INET ? "4" : i.fam == AF_INET6 ? "6" : i.fam ? "mac" : "none"); return s; }
static void ghost(Src& g) {
    H = Host(); vector<string> names; size_t n = g.size(8); for (size_t i = 0; i < n; i++) { string s = gname(g); if (g.chance(1, 5) && names.size()) { s = g.pick(names); if (g.flip() && s.size() > 1) s.resize(s.size() - 1); else if (s.size() < 15) s += "1"; } names.push_back(s); if (g.chance(9, 10)) H.up.insert(s); size_t k = g.size(4); for (size_t j = 0; j < k; j++) { sa_family_t f = g.pick<sa_family_t>({AF_INET, AF_INET6, AF_PACKET, 0}); H.list.push_back({s, f, f ? gsa(g, f) : "", (unsigned)g.u(17)}); } }
    for (auto& i : H.list) H.up.insert(i.name); for (size_t i = H.list.size(); i > 1; i--) if (g.chance(1, 2)) std::swap(H.list[i - 1], H.list[g.range(0, i - 1)]); // the kernel lists links first, then addresses: any order
}
static void closed() { CHECK(H.lists == 0, "%d interface lists are not freed", H.lists); CHECK(H.infos == 0, "%d resolver answers are not freed", H.infos); CHECK(H.fds == 0, "%d sockets stay open", H.fds); }
static unsigned gmask(Src& g) { return (unsigned)g.range(0, 7); }
TARGET(all, 6, "two or more interfaces or a failure") {
    ghost(g); if (g.chance(1, 8)) H.gifail = g.pick<int>({ENOMEM, EMFILE, ENOSYS, EACCES}); unsigned mask = gmask(g), m = mask ? mask : F_INET | F_INET6; c.leakcheck = true; if_address_vect v; VECT_INIT(&v, g.range(1, 10)); int reps = g.chance(1, 4) ? 2 : 1;
    for (int k = 0; k < reps; k++) { if (k) { free_all_if_address(&v); VECT_INIT(&v, 1); } errno = 0; int r = get_all_if_address(&v, mask); map<string, vector<pair<string, unsigned>>> want; for (auto& i : H.list) if (i.fam && (m & bit(i.fam))) want[i.name] = ofif(i.name, m);
        TR("interfaces:%s, mask %u%s: %d", shosts().c_str(), mask, H.gifail ? ", getifaddrs fails" : "", r); c.nontrivial(want.size() > 1 || H.gifail); CHECK(r == -H.gifail, "returns %d instead of %d", r, -H.gifail); closed(); if (r) { CHECK(VECT_LEN(&v) == 0, "%zu interfaces on failure", VECT_LEN(&v)); continue; }
        std::set<string> seen; for (size_t i = 0; i < VECT_LEN(&v); i++) { auto& a = VECT_ELEM(&v, i); CHECK(memchr(a.if_name, 0, sizeof a.if_name), "the interface name is not terminated"); CHECK(seen.insert(a.if_name).second, "interface %s twice", a.if_name); CHECK(want.count(a.if_name), "interface %s with no such address", a.if_name); CHECK(content(a.if_addr, true) == want[a.if_name], "the addresses or flags of %s are not those the system reported (%zu instead of %zu)", a.if_name, VECT_LEN(&a.if_addr), want[a.if_name].size()); }
        CHECK(seen.size() == want.size(), "%zu interfaces instead of %zu", seen.size(), want.size()); }
    free_all_if_address(&v);
}
TARGET(names, 10, "an interface, a host name or a failure") {
    ghost(g); if (g.chance(1, 10)) H.gifail = g.pick<int>({ENOMEM, EMFILE}); if (g.chance(1, 15)) H.sockfail = EMFILE; H.eaierrno = g.pick<int>({0, 0, ENOENT, EINTR, ECONNREFUSED}); if (g.chance(1, 8)) { H.eai = g.pick<int>({EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_NONAME, EAI_SYSTEM}); if (H.eai == EAI_SYSTEM) H.eaierrno = g.pick<int>({EMFILE, ENOMEM, EIO}); }
    vector<string> hosts; for (size_t i = g.size(4); i > 0; i--) { string h = g.chance(1, 3) && H.up.size() ? *H.up.begin() + (g.flip() ? ".example.com" : "-host") : g.pick<const char*>({"a", "localhost", "www.", "x1", "averyverylongname."}) + string(g.chance(1, 3) ? g.range(1, 200) : 3, 'h'); auto& a = H.dns[h]; for (size_t k = g.range(1, 4); k > 0; k--) { sa_family_t f = g.flip() ? AF_INET : AF_INET6; a.push_back({f, gsa(g, f)}); } hosts.push_back(h); }
    vector<string> ifs; for (auto& s : H.up) ifs.push_back(s); string name; in_addr ip{}; int kind = (int)g.weighted({4, 4, 2, 1, 2}); if (kind == 0 && ifs.size()) name = g.pick(ifs); else if (kind == 1 && hosts.size()) name = g.pick(hosts); else if (kind == 2) { ip.s_addr = (in_addr_t)g.u(32); name = inet_ntoa(ip); } else if (kind == 3) name = g.flip() ? "" : "*"; else { name = ifs.size() && g.flip() ? g.pick(ifs) : "nowhere.example"; if (g.flip()) name += "q"; else if (name.size()) name.resize(name.size() - 1); if (name.empty()) name = "z"; }
    unsigned mask = gmask(g), m = mask ? mask : F_INET | F_INET6; bool resolve = g.chance(2, 3); c.leakcheck = true; if_addr_vect v; VECT_INIT(&v, g.range(1, 10)); if (g.flip()) { if_addr x; memset(&x, 7, sizeof x); x.sa.ss_family = AF_INET; VECT_PUSH_BACK(&v, x); } // what it held before goes
    int r; if (resolve) r = resolve_host_or_ifname(name.c_str(), &v, mask); else r = get_interface_address(name.c_str(), &v, mask); bool isif = H.up.count(name) && !H.sockfail, isip = kind == 2, any = name.empty() || name == "*"; in_addr num{}; if (!any && !isip && inet_aton(name.c_str(), &num)) { isip = true; ip = num; }
    TR("interfaces:%s, %zu hosts; %s(%s, mask %u)%s%s%s: %d, %zu addresses", shosts().c_str(), H.dns.size(), resolve ? "resolve_host_or_ifname" : "get_interface_address", pbt::show(name).c_str(), mask, H.gifail ? ", getifaddrs fails" : "", H.sockfail ? ", socket fails" : "", H.eai ? ", getaddrinfo fails" : "", r, VECT_LEN(&v)); c.nontrivial(isif || r || H.dns.count(name)); closed();
    if (!resolve) { c.label("interface"); if (H.sockfail && H.up.count(name)) { CHECK(r < 0, "success without asking the system"); } else if (!isif) CHECK(r == -ENOENT, "%d for a name that is no interface, instead of -ENOENT", r); else if (H.gifail) CHECK(r == -H.gifail, "returns %d instead of %d", r, -H.gifail); else { CHECK(r == 0, "returns %d for an interface", r); CHECK(content(v, true) == ofif(name, m), "the addresses of %s are not those the system reported (%zu instead of %zu)", name.c_str(), VECT_LEN(&v), ofif(name, m).size()); } VECT_FINI(&v); return; }
    if (any || isip) { c.label(any ? "any" : "numeric"); CHECK(r == 0 && VECT_LEN(&v) == 1, "%s gives %d and %zu addresses", any ? "the wildcard" : "a numeric address", r, VECT_LEN(&v)); auto* s = (struct sockaddr_in*)&VECT_ELEM(&v, 0).sa; CHECK(s->sin_family == AF_INET && s->sin_addr.s_addr == (any ? INADDR_ANY : ip.s_addr), "address %s instead of %s", inet_ntoa(s->sin_addr), name.c_str()); CHECK(!H.looked, "a lookup for a numeric address"); VECT_FINI(&v); return; }
    if (isif && !H.gifail) { c.label("interface"); CHECK(r == 0 && content(v, true) == ofif(name, m), "%d and %zu addresses for interface %s instead of its %zu", r, VECT_LEN(&v), name.c_str(), ofif(name, m).size()); CHECK(!H.looked, "interface %s is also looked up as a host", name.c_str()); VECT_FINI(&v); return; }
    c.label("host"); CHECK(H.looked == 1 && H.asked == name, "%d lookups, for %s", H.looked, pbt::show(H.asked).c_str()); auto it = H.dns.find(name); if (H.eai || it == H.dns.end()) { CHECK(r < 0, "resolving %s succeeds (%d) although its lookup failed", pbt::show(name).c_str(), r); if (H.eai == EAI_SYSTEM) CHECK(r == -H.eaierrno, "returns %d instead of %d", r, -H.eaierrno); }
    else { vector<pair<string, unsigned>> w; for (auto& a : it->second) if (m & bit(a.first)) w.push_back({a.second, 0}); std::sort(w.begin(), w.end()); if (w.empty()) CHECK(VECT_LEN(&v) == 0, "addresses of another family"); else { CHECK(r == 0, "returns %d", r); CHECK(content(v, false) == w, "%zu addresses, not the %zu of the host", VECT_LEN(&v), w.size()); } }
    VECT_FINI(&v);
}
TARGET(str, 6, "a buffer within a byte of what is needed, or a long address") {
    sa_family_t f = g.pick<sa_family_t>({AF_INET, AF_INET6, AF_PACKET, AF_UNIX}); string sa = f == AF_UNIX ? string(16, 0) : gsa(g, f); sa_family_t ff = f; memcpy(&sa[0], &ff, sizeof ff); string want; if (f == AF_INET || f == AF_INET6) { char b[64]; inet_ntop(f, f == AF_INET ? (void*)&((struct sockaddr_in*)&sa[0])->sin_addr : (void*)&((struct sockaddr_in6*)&sa[0])->sin6_addr, b, sizeof b); want = b; } else if (f == AF_PACKET) { auto* l = (struct sockaddr_ll*)&sa[0]; for (int i = 0; i < 6; i++) want += pbt::fmt("%s%02x", i ? ":" : "", l->sll_addr[i]); }
    size_t need = f == AF_UNIX ? 14 : want.size() + 1; size_t n = g.chance(1, 2) ? need - 1 + g.range(0, 2) : g.chance(1, 4) ? g.range(1, 64) : need + 64; Exact in(sa), b(n); errno = 0; const char* r = sockaddr_to_string(b.c(), n, (struct sockaddr*)in.p); TR("%s into %zu bytes: %s", want.c_str(), n, r ? pbt::show(string(r, strnlen(r, n))).c_str() : "null"); c.nontrivial(n <= need + 1 || f == AF_INET6); c.label(r ? "text" : "no room");
    if (r) { CHECK(r == b.c() && memchr(b.p, 0, n), "the text is not terminated within the buffer"); if (f != AF_UNIX && n >= need) CHECK(want == r, "%s instead of %s", r, want.c_str()); if (f != AF_UNIX && n < need) CHECK(strlen(r) < n, "text past the buffer"); } else CHECK(n < need, "nothing although the buffer has room for %s", want.c_str());
}
// what this machine really has
TARGETF(real, 1, "always", pbt::NONDET) {
    H = Host(); H.real = true; unsigned mask = gmask(g), m = mask ? mask : F_INET | F_INET6; c.nontrivial(true); c.leakcheck = true; struct ifaddrs* l = nullptr; if (getifaddrs(&l)) { c.discard = true; return; } for (auto* p = l; p; p = p->ifa_next) if (p->ifa_addr) { sa_family_t f = p->ifa_addr->sa_family; if (f == AF_INET || f == AF_INET6 || f == AF_PACKET) H.list.push_back({p->ifa_name, f, string((const char*)p->ifa_addr, salen(f)), p->ifa_flags}); } freeifaddrs(l);
    std::set<string> want; for (auto& i : H.list) if (m & bit(i.fam)) want.insert(i.name); if_address_vect v; VECT_INIT(&v, 1); int r = get_all_if_address(&v, mask); TR("this machine has%s, mask %u: %d, %zu interfaces", shosts().c_str(), mask, r, VECT_LEN(&v)); CHECK(r == 0 && VECT_LEN(&v) == want.size(), "%d and %zu interfaces instead of %zu", r, VECT_LEN(&v), want.size());
    for (size_t i = 0; i < VECT_LEN(&v); i++) { auto& a = VECT_ELEM(&v, i); CHECK(want.count(a.if_name), "interface %s", a.if_name); CHECK(content(a.if_addr, true) == ofif(a.if_name, m), "the addresses of %s differ from the system's", a.if_name); if_addr_vect w; VECT_INIT(&w, 1); int k = get_interface_address(a.if_name, &w, mask); if (k == 0) CHECK(content(w, true) == ofif(a.if_name, m), "the addresses of %s alone differ", a.if_name); VECT_FINI(&w); } free_all_if_address(&v); closed();
}
