// Streams over an in-memory file system, in place of libstdc++'s. Only what is in a text file's read and write path: no locales, no formatting flags.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" void vfs_fail_fast(const char *msg); // an exception of the real library that nothing catches
namespace vfs {
struct Node { std::string path; bool dir; bool readable; std::size_t failAt; std::string data; Node() : dir(false), readable(true), failAt((std::size_t)-1) {} };
Node *find(const std::string &path);
Node *openWrite(const std::string &path, bool append); // null: cannot be opened
bool writeFails(); bool closeFails();               // whether the next write or close of a file fails
void out(int fd, const char *p, std::size_t n); bool outFails();
}
namespace std {
class ios_base { public:
	typedef int iostate; typedef int openmode; typedef int seekdir;
	static const int goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static const int app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static const int beg = 0, cur = 1, end = 2;
};
template <> class basic_streambuf<char, char_traits<char>> { public: // the reading side
	const std::string *src; size_t pos, failAt; basic_streambuf() : src(nullptr), pos(0), failAt((size_t)-1) {}
	int peek() { if (!src) return -1; if (pos >= failAt) vfs_fail_fast("error reading the file"); return pos < src->size() ? (unsigned char)(*src)[pos] : -1; }
	int sgetc() { return peek(); } int sbumpc() { int c = peek(); if (c >= 0) ++pos; return c; } int snextc() { return sbumpc() < 0 ? -1 : peek(); }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base { protected: int m_state; basic_streambuf<char> m_buf; basic_ios() : m_state(0) {} virtual ~basic_ios() {}
public:
	bool good() const { return m_state == 0; } bool eof() const { return (m_state & 2) != 0; } bool fail() const { return (m_state & 5) != 0; } bool bad() const { return (m_state & 1) != 0; }
	explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } int rdstate() const { return m_state; } void clear(int s = 0) { m_state = s; } void setstate(int s) { m_state |= s; }
	basic_streambuf<char> *rdbuf() { return &m_buf; } void exceptions(int) {}
};
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> { protected: streamsize m_count; basic_istream() : m_count(0) {}
	size_t avail(bool &error) const { error = false; if (!m_buf.src) return 0; size_t end = m_buf.src->size(); if (m_buf.failAt < end) { end = m_buf.failAt; error = true; } return m_buf.pos < end ? end - m_buf.pos : 0; }
	void short_(bool error, bool some) { if (error) m_state |= badbit; else m_state |= eofbit; if (!some) m_state |= failbit; }
public:
	void attach(const std::string *s, size_t failAt = (size_t)-1) { m_buf.src = s; m_buf.pos = 0; m_buf.failAt = failAt; m_state = 0; }
	basic_istream &read(char *p, streamsize n) { m_count = 0; if (!good()) { m_state |= failbit; return *this; } bool e; size_t a = avail(e), k = a < (size_t)n ? a : (size_t)n; if (k) memcpy(p, m_buf.src->data() + m_buf.pos, k); m_buf.pos += k; m_count = (streamsize)k; if (k < (size_t)n) short_(e, false); return *this; }
	streamsize gcount() const { return m_count; }
	int get() { m_count = 0; if (!good()) { m_state |= failbit; return -1; } bool e; if (!avail(e)) { short_(e, false); return -1; } m_count = 1; return (unsigned char)(*m_buf.src)[m_buf.pos++]; }
	basic_istream &get(char &c) { int r = get(); if (r >= 0) c = (char)r; return *this; }
	int peek() { m_count = 0; if (!good()) return -1; bool e; if (!avail(e)) { short_(e, true); return -1; } return (unsigned char)(*m_buf.src)[m_buf.pos]; }
	basic_istream &seekg(streamoff o, int dir = 0) { m_state &= ~eofbit; if (fail() || !m_buf.src) { m_state |= failbit; return *this; } streamoff b = dir == beg ? 0 : dir == cur ? (streamoff)m_buf.pos : (streamoff)m_buf.src->size(); if (b + o < 0) m_state |= failbit; else m_buf.pos = (size_t)(b + o); return *this; }
	streamoff tellg() { return fail() || !m_buf.src ? -1 : (streamoff)m_buf.pos; }
};
inline basic_istream<char> &getline(basic_istream<char> &is, std::string &s, char d = '\n') { s.clear(); bool any = false; if (!is.good()) { is.setstate(4); return is; } for (int c; (c = is.get()) >= 0;) { any = true; if ((char)c == d) return is; s.push_back((char)c); } is.clear((is.rdstate() & ~4) | (any ? 0 : 4)); return is; }
template <> class istreambuf_iterator<char, char_traits<char>> { basic_streambuf<char> *m_b; public:
	typedef input_iterator_tag iterator_category; typedef char value_type; typedef streamoff difference_type; typedef char *pointer; typedef char reference;
	istreambuf_iterator() : m_b(nullptr) {} istreambuf_iterator(basic_istream<char> &s) : m_b(s.rdbuf()) {} istreambuf_iterator(basic_streambuf<char> *b) : m_b(b) {}
	char operator*() const { return (char)m_b->peek(); } istreambuf_iterator &operator++() { m_b->sbumpc(); return *this; } istreambuf_iterator operator++(int) { istreambuf_iterator r = *this; m_b->sbumpc(); return r; }
	bool atEnd() const { return !m_b || m_b->peek() < 0; } bool equal(const istreambuf_iterator &o) const { return atEnd() == o.atEnd(); }
};
inline bool operator==(const istreambuf_iterator<char> &a, const istreambuf_iterator<char> &b) { return a.equal(b); }
inline bool operator!=(const istreambuf_iterator<char> &a, const istreambuf_iterator<char> &b) { return !a.equal(b); }
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> { protected: virtual void put_(const char *p, size_t n) = 0;
public:
	basic_ostream &write(const char *p, streamsize n) { if (good()) put_(p, (size_t)n); return *this; } basic_ostream &put(char c) { return write(&c, 1); } virtual basic_ostream &flush() { return *this; }
	basic_ostream &operator<<(const char *s) { return write(s, (streamsize)strlen(s)); } basic_ostream &operator<<(const std::string &s) { return write(s.data(), (streamsize)s.size()); } basic_ostream &operator<<(char c) { return put(c); }
	basic_ostream &operator<<(int v) { return *this << to_string(v); } basic_ostream &operator<<(unsigned v) { return *this << to_string(v); } basic_ostream &operator<<(long v) { return *this << to_string(v); } basic_ostream &operator<<(unsigned long v) { return *this << to_string(v); }
	basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
};
inline basic_ostream<char> &endl(basic_ostream<char> &o) { o.put('\n'); return o.flush(); }
inline basic_ostream<char> &flush(basic_ostream<char> &o) { return o.flush(); }
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> { bool m_open; public:
	basic_ifstream() : m_open(false) {} explicit basic_ifstream(const char *p, int = 8) : m_open(false) { open(p); } explicit basic_ifstream(const std::string &p, int = 8) : m_open(false) { open(p); }
	void open(const std::string &p, int = 8) { vfs::Node *f = vfs::find(p); m_open = f && f->readable; if (!m_open) { m_state |= failbit; return; } attach(&f->data, f->dir ? 0 : f->failAt); if (f->dir) m_buf.failAt = 0; }
	bool is_open() const { return m_open; } void close() { if (!m_open) m_state |= failbit; m_open = false; m_buf.src = nullptr; }
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> { vfs::Node *m_f; bool m_pending; public:
	basic_ofstream() : m_f(nullptr), m_pending(false) {} explicit basic_ofstream(const char *p, int m = 16) : m_f(nullptr), m_pending(false) { open(p, m); } explicit basic_ofstream(const std::string &p, int m = 16) : m_f(nullptr), m_pending(false) { open(p, m); } ~basic_ofstream() { if (m_f) close(); }
	void open(const std::string &p, int m = 16) { m_f = vfs::openWrite(p, (m & app) != 0); if (!m_f) m_state |= failbit; }
	bool is_open() const { return m_f != nullptr; }
	void put_(const char *p, size_t n) override { if (!m_f) { m_state |= badbit; return; } if (!n) return; if (vfs::writeFails()) { m_state |= badbit; return; } m_f->data.append(p, n); m_pending = true; }
	void close() { if (!m_f) { m_state |= failbit; return; } if (m_pending && vfs::closeFails()) { m_f->data.clear(); m_state |= failbit; } m_f = nullptr; }
	basic_ostream<char> &flush() override { if (m_f && m_pending && vfs::closeFails()) { m_f->data.clear(); m_state |= badbit; } m_pending = false; return *this; }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> { std::string m_s; void put_(const char *p, size_t n) override { m_s.append(p, n); } public: basic_ostringstream() {} std::string str() const { return m_s; } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> { std::string m_s; public: explicit basic_istringstream(const std::string &s) : m_s(s) { attach(&m_s); } };
}
namespace vfs { struct Term : std::basic_ostream<char> { int fd; explicit Term(int f) : fd(f) {} void put_(const char *p, std::size_t n) override { if (fd == 1 && outFails()) m_state |= badbit; else vfs::out(fd, p, n); } }; struct In : std::basic_istream<char> {}; extern Term cout_, cerr_; extern In cin_; }
namespace std { static basic_ostream<char> &cout = vfs::cout_, &cerr = vfs::cerr_, &clog = vfs::cerr_; static basic_istream<char> &cin = vfs::cin_; }
