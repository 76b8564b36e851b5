// The tool in an in-memory file system: files, captured output, faults, and a reader for its result.
#pragma once
#include "vp.h"
#include "vfs/vfs_stream.h"
#include <cerrno>
namespace vfs {
struct State { std::vector<Node *> nodes; std::string out, err; std::string in; int openN, writeN, closeN, mkdirN, outN; int failOpen, failWrite, failClose, failMkdir, failOut, failFlush; std::size_t inFailAt;
	State() : openN(0), writeN(0), closeN(0), mkdirN(0), outN(0), failOpen(-1), failWrite(-1), failClose(-1), failMkdir(-1), failOut(-1), failFlush(0), inFailAt((std::size_t)-1) {} };
inline State &st() { static State *s = new State; return *s; }
inline std::string norm(const std::string &p) { std::string r; if (!p.empty() && p[0] == '/') r = "/"; for (std::size_t i = 0; i < p.size();) { if (p[i] == '/') { ++i; continue; } std::size_t e = i; while (e < p.size() && p[e] != '/') ++e; if (!(e == i + 1 && p[i] == '.')) { if (!r.empty() && r.back() != '/') r.push_back('/'); r.append(p, i, e - i); } i = e; } return r; } // without "." and repeated or trailing slashes
inline Node *lookup(const std::string &n) { for (Node *x : st().nodes) if (x->path == n) return x; return nullptr; }
inline bool isDir(const std::string &n) { if (n.empty() || n == "/") return true; Node *x = lookup(n); return x && x->dir; }
inline std::string parentOf(const std::string &n) { std::size_t p = n.rfind('/'); return p == std::string::npos ? std::string() : p == 0 ? std::string("/") : n.substr(0, p); }
inline Node *add(const std::string &path, const std::string &data) { Node *n = new Node; n->path = norm(path); n->data = data; st().nodes.push_back(n); return n; }
inline Node *addDir(const std::string &path) { Node *n = add(path, ""); n->dir = true; return n; }
}
