// printf and friends to captured output, mkdir in the in-memory file system. Included after the real headers.
#pragma once
#include <cstddef>
#include <cstdint>
namespace vfs { struct Arg { int kind; unsigned long long u; const char *s; Arg(const char *p) : kind(1), u(0), s(p) {} Arg(char *p) : kind(1), u(0), s(p) {} Arg(int v) : kind(2), u((unsigned long long)(long long)v), s(nullptr) {} Arg(long v) : kind(2), u((unsigned long long)v), s(nullptr) {} Arg(unsigned v) : kind(3), u(v), s(nullptr) {} Arg(unsigned long v) : kind(3), u(v), s(nullptr) {} Arg(char v) : kind(2), u((unsigned char)v), s(nullptr) {} Arg() : kind(0), u(0), s(nullptr) {} };
int format(int fd, const char *f, const Arg *a, int n); int put(int fd, const char *s, std::size_t n); int flush(int fd);
inline int fdOf(const void *f) { return (int)(intptr_t)f; }
template <class... A> int vfs_printf(const char *f, A... a) { Arg x[] = {Arg(a)..., Arg()}; return format(1, f, x, (int)sizeof...(a)); }
template <class... A> int vfs_fprintf(const void *to, const char *f, A... a) { Arg x[] = {Arg(a)..., Arg()}; return format(fdOf(to), f, x, (int)sizeof...(a)); }
inline int vfs_puts(const char *s) { return format(1, "%s\n", new Arg(s), 1); } inline int vfs_fputs(const char *s, const void *to) { Arg x(s); return format(fdOf(to), "%s", &x, 1); } inline int vfs_putchar(int c) { char b = (char)c; return put(1, &b, 1) < 0 ? -1 : c; } inline int vfs_fputc(int c, const void *to) { char b = (char)c; return put(fdOf(to), &b, 1) < 0 ? -1 : c; }
inline std::size_t vfs_fwrite(const void *p, std::size_t s, std::size_t n, const void *to) { return put(fdOf(to), (const char *)p, s * n) < 0 ? 0 : n; } inline int vfs_fflush(const void *to) { return to ? flush(fdOf(to)) : flush(1); } inline int vfs_ferror(const void *to) { return flush(fdOf(to)) != 0; } inline void vfs_perror(const char *s) { Arg x(s); format(2, "%s: error\n", &x, 1); } inline int vfs_fclose(const void *to) { return flush(fdOf(to)); }
}
namespace std { using vfs::vfs_printf; using vfs::vfs_fprintf; using vfs::vfs_puts; using vfs::vfs_fputs; using vfs::vfs_putchar; using vfs::vfs_fputc; using vfs::vfs_fwrite; using vfs::vfs_fflush; using vfs::vfs_ferror; using vfs::vfs_perror; using vfs::vfs_fclose; }
using vfs::vfs_printf; using vfs::vfs_fprintf; using vfs::vfs_puts; using vfs::vfs_fputs; using vfs::vfs_putchar; using vfs::vfs_fputc; using vfs::vfs_fwrite; using vfs::vfs_fflush; using vfs::vfs_ferror; using vfs::vfs_perror; using vfs::vfs_fclose;
#undef stdout
#undef stderr
#define stdout ((void *)1)
#define stderr ((void *)2)
#define printf vfs_printf
#define fprintf vfs_fprintf
#define puts vfs_puts
#define fputs vfs_fputs
#undef putchar
#define putchar vfs_putchar
#define fputc vfs_fputc
#define fwrite vfs_fwrite
#define fflush vfs_fflush
#define ferror vfs_ferror
#define perror vfs_perror
#define fclose vfs_fclose
