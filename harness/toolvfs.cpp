// The in-memory file system behind the stream headers of harness/vfs.
#include "tool.h"
#include "vfs/vfs_stdio.h"
extern "C" unsigned vp_cpu_ecx(void) { return 0; }
extern "C" void vfs_fail_fast(const char *) { vp_assert(0, "an exception nothing catches"); __builtin_trap(); }
namespace vfs {
Node *find(const std::string &p) { if (p.empty() || !isDir(parentOf(norm(p)))) return nullptr; return lookup(norm(p)); }
Node *openWrite(const std::string &p, bool append) { int k = st().openN++; std::string n = norm(p); if (k == st().failOpen || p.empty() || p.back() == '/' || !isDir(parentOf(n))) return nullptr; Node *x = lookup(n); if (x && x->dir) return nullptr; if (!x) x = add(n, ""); if (!append) x->data.clear(); return x; }
bool writeFails() { return st().writeN++ == st().failWrite; } bool closeFails() { return st().closeN++ == st().failClose; }
bool outFails() { return st().outN++ == st().failOut; }
void out(int fd, const char *p, std::size_t n) { (fd == 1 ? st().out : st().err).append(p, n); }
int put(int fd, const char *p, std::size_t n) { if (fd == 1 && outFails()) return -1; out(fd, p, n); return (int)n; }
int flush(int fd) { if (fd == 1 && st().failFlush) return -1; return 0; }
int format(int fd, const char *f, const Arg *a, int n) {
	std::string s; int k = 0;
	for (; *f; ++f) { if (*f != '%') { s.push_back(*f); continue; } ++f; if (*f == '%') { s.push_back('%'); continue; } while (*f == 'l' || *f == 'z') ++f; vp_assert(k < n, "an argument for every conversion"); if (k >= n) break; const Arg &x = a[k++];
		switch (*f) { case 's': vp_assert(x.kind == 1 && x.s, "a string for %s"); s += x.s; break; case 'c': s.push_back((char)x.u); break; case 'd': case 'i': case 'u': s += x.kind == 2 ? std::to_string((long long)x.u) : std::to_string(x.u); break; default: vp_note("unsupported conversion"); __builtin_trap(); } }
	return put(fd, s.data(), s.size());
}
Term cout_(1), cerr_(2); In cin_;
}
extern "C" int vfs_mkdir(const char *path, unsigned) { using namespace vfs; int k; std::string n = norm(path); if (!*path) { errno = ENOENT; return -1; } if (isDir(n) || lookup(n)) { errno = EEXIST; return -1; } k = st().mkdirN++; if (k == st().failMkdir) { errno = EACCES; return -1; } if (!isDir(parentOf(n))) { errno = ENOENT; return -1; } addDir(n); return 0; }
