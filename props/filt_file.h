#pragma once
#include "pbt.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <dirent.h>
static inline std::string rdfile(const std::string& p) { std::string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "\x01missing"; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); close(fd); return s; }
static inline void wrfile(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) pbt::harness_error("cannot write %s", p.c_str()); size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) pbt::harness_error("short write"); o += (size_t)n; } close(fd); }
static inline std::vector<std::string> lsdir(const std::string& d) { std::vector<std::string> v; DIR* D = opendir(d.c_str()); if (!D) return v; while (auto e = readdir(D)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(D); std::sort(v.begin(), v.end()); return v; }
static inline int lowfd() { int fd = open("/dev/null", O_RDONLY); if (fd >= 0) close(fd); return fd; }
