// The simulated disk: an in-memory file tree behind the C library calls that libstdc++, FreeImage and
// Cuttlefish use, with injected faults. Paths below /sim and relative paths belong to it.
#include "rt.h"
#include <errno.h>
#include <istream>
#include <ostream>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <set>

namespace sim {
extern int g_live;
namespace fs {
struct Node { bool dir = false; bool ro = false, noSearch = false; std::vector<uint8_t> data; uint64_t ino = 0; };
struct File {
  bool used = false, r = false, w = false, append = false, dirty = false;
  std::shared_ptr<Node> node;
  std::string path;
  uint64_t pos = 0;
};
enum { FD0 = 1000000, MAXF = 512 };
static std::map<std::string, std::shared_ptr<Node>>* g_tree;
static File* g_files;
static std::vector<Rule>* g_rules;
static int64_t g_seen[K_KINDS];
static std::vector<OpRec>* g_ops;
static std::map<FILE*, int>* g_fp;
static int64_t g_capacity = -1;
static int64_t g_raceAt = -1, g_raceSeen;
static bool g_raceOther;
static int64_t g_hard, g_hardW, g_hardR, g_mkdirF;
static uint64_t g_mut, g_ino, g_closes;
const char* opName[K_KINDS] = {"open-read", "open-write", "write", "read", "close-written", "close-read", "lseek", "mkdir", "other", "stat", "fsync"};

static bool virt(const char* p) {
  if (!g_armed || !p) return false;
  if (p[0] == '/') { while (p[1] == '/') ++p; return strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0); }
  return t_sut > 0;
}
// Nothing Cuttlefish writes may ever reach the real disk, wherever it wants it.
static bool virtW(const char* p) { return virt(p) || (g_armed && p && t_sut > 0); }
static inline bool isV(int fd) { return g_armed && fd >= FD0 && fd < FD0 + MAXF; }

// Resolves a path the way the kernel does. Returns 0 and the normalised path; the last component need not exist.
static int resolve(const char* p, std::string& out, bool* trailing = nullptr) {
  if (!*p) return ENOENT;
  std::vector<std::string> comps;
  std::string full = p[0] == '/' ? std::string(p) : std::string("/sim/cwd/") + p;
  if (trailing) *trailing = full.size() > 1 && full.back() == '/';
  size_t i = 0;
  std::vector<std::string> parts;
  while (i < full.size()) {
    while (i < full.size() && full[i] == '/') ++i;
    size_t j = full.find('/', i);
    if (j == std::string::npos) j = full.size();
    if (j > i) parts.push_back(full.substr(i, j - i));
    i = j;
  }
  for (size_t k = 0; k < parts.size(); ++k) {
    if (parts[k].size() > 255) return ENAMETOOLONG;
    std::string cur;
    for (auto& c : comps) cur += "/" + c;
    if (k > 0 && !cur.empty()) {
      auto it = g_tree->find(cur);
      if (it == g_tree->end()) return ENOENT;
      if (!it->second->dir) return ENOTDIR;
      if (it->second->noSearch) return EACCES;
    }
    if (parts[k] == ".") continue;
    if (parts[k] == "..") { if (!comps.empty()) comps.pop_back(); continue; }
    comps.push_back(parts[k]);
  }
  out.clear();
  for (auto& c : comps) out += "/" + c;
  if (out.empty()) out = "/";
  return 0;
}
static std::string parentOf(const std::string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
static bool roAbove(const std::string& p) {
  std::string q = p;
  while (q.size() > 1) { q = parentOf(q); auto it = g_tree->find(q); if (it != g_tree->end() && it->second->ro) return true; }
  return false;
}
static Node* find(const std::string& p) { auto it = g_tree->find(p); return it == g_tree->end() ? nullptr : it->second.get(); }
static std::shared_ptr<Node> mk(bool dir) { auto n = std::make_shared<Node>(); n->dir = dir; n->ino = ++g_ino; return n; }

static void rec(OpKind k, const std::string& path, int64_t res, int err, uint64_t bytes, bool inj) {
  ev(0xf500 + k); ev((uint64_t)res); ev(err);
  if (g_ops->size() < 20000) g_ops->push_back(OpRec{k, path, res, err, bytes, inj});
  if (inj || err) logf("  disk: %s %s -> %lld errno %d%s", opName[k], path.c_str(), (long long)res, err, inj ? " (injected)" : "");
}
// Returns the rule that hits this occurrence.
static Rule* hit(OpKind k) {
  int64_t n = g_seen[k]++;
  for (auto& r : *g_rules) if (r.kind == k && n >= r.nth && n < r.nth + r.cnt) { r.fired = true; return &r; }
  return nullptr;
}
// A killed process: from its nth change to the disk on, nothing it does reaches the disk any more.
static int64_t g_killAt = -1, g_killSeen;
static uint64_t g_killTorn;
static bool dead(const char* what, const std::string& path, bool* first = nullptr) {
  if (g_killAt < 0) return false;
  int64_t n = g_killSeen++;
  if (first) *first = n == g_killAt;
  if (n == g_killAt) { count(F_process_killed); ev(0xdead); logf("  killed at: %s %s", what, path.c_str()); }
  return n >= g_killAt;
}
static void hard(OpKind k, bool w) { ++g_hard; if (k == K_MKDIR) ++g_mkdirF; else if (w) ++g_hardW; else ++g_hardR; }

static int newFd() { for (int i = 0; i < MAXF; ++i) if (!g_files[i].used) { g_files[i] = File(); g_files[i].used = true; return i; } return -1; }

static int doOpen(const char* p, int flags) {
  Harness hs;
  advance(20000);
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  OpKind k = w ? K_OPEN_W : K_OPEN_R;
  std::string path; bool trailing;
  if (w && dead("open", p)) { errno = EIO; return -1; }
  if (Rule* r = hit(k)) {
    count(F_open_error); hard(k, w);
    rec(k, p, -1, r->err, 0, true);
    errno = r->err; return -1;
  }
  int e = resolve(p, path, &trailing);
  if (e) { rec(k, p, -1, e, 0, false); errno = e; return -1; }
  Node* n = find(path);
  if (!n) {
    if (!(flags & O_CREAT)) e = ENOENT;
    else if (trailing) e = EISDIR;
    else if (roAbove(path)) e = EACCES;
    else {
      Node* par = find(parentOf(path));
      if (!par) e = ENOENT; else if (!par->dir) e = ENOTDIR;
    }
    if (e) { rec(k, path, -1, e, 0, false); errno = e; return -1; }
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
    else if (n->dir && w) e = EISDIR;
    else if (n->dir && !(flags & O_DIRECTORY)) e = 0;
    else if (!n->dir && (trailing || (flags & O_DIRECTORY))) e = ENOTDIR;
    else if (w && (roAbove(path) || n->ro)) e = EACCES;
    if (e) { rec(k, path, -1, e, 0, false); errno = e; return -1; }
  }
  int i = newFd();
  if (i < 0) { errno = EMFILE; return -1; }
  if (!n) { auto sp = mk(false); (*g_tree)[path] = sp; n = sp.get(); ++g_mut; }
  else if (w && (flags & O_TRUNC)) { if (!n->data.empty()) { if (g_capacity >= 0) g_capacity += n->data.size(); n->data.clear(); } ++g_mut; }
  File& f = g_files[i];
  f.node = (*g_tree)[path]; f.path = path; f.r = (flags & O_ACCMODE) != O_WRONLY; f.w = w; f.append = flags & O_APPEND;
  rec(k, path, FD0 + i, 0, 0, false);
  return FD0 + i;
}
static int doClose(int i) {
  Harness hs;
  advance(5000);
  File& f = g_files[i];
  if (!f.used) { errno = EBADF; return -1; }
  OpKind k = f.w ? K_CLOSE_W : K_CLOSE_R;
  if (f.w && dead("close", f.path)) { f = File(); ++g_closes; return 0; }
  Rule* r = hit(k);
  std::string path = f.path; bool w = f.w;
  if (r && w && f.node && !f.node->dir && !f.node->data.empty() && f.dirty) {
    // The data that only reached a cache is lost: that is what the close error reports.
    size_t n = f.node->data.size(), lose = 1 + r->arg % n;
    f.node->data.resize(n - lose); ++g_mut;
    logf("  disk: close of %s fails, last %zu bytes lost", path.c_str(), lose);
  }
  f = File();
  ++g_closes;
  if (r) { count(F_close_error); if (w) count(P_fault_at_close); hard(k, w); rec(k, path, -1, r->err, 0, true); errno = r->err; return -1; }
  rec(k, path, 0, 0, 0, false);
  return 0;
}
static ssize_t doWrite(int i, const void* p, size_t n, int64_t at = -1) {
  Harness hs;
  advance(1000 + n / 4);
  File& f = g_files[i];
  if (!f.used || !f.w) { errno = EBADF; return -1; }
  bool dying = false;
  if (dead("write", f.path, &dying)) {
    if (!dying || !n || !(n = g_killTorn % (n + 1))) { errno = EIO; return -1; }   // part of it may get through
    count(F_write_torn); logf("  %zu bytes of the write get through", n);
  }
  else if (Rule* r = hit(K_WRITE)) {
    if (r->err > 0 && r->err != EINTR) {
      count(r->err == ENOSPC ? F_write_enospc : F_write_eio); hard(K_WRITE, true);
      rec(K_WRITE, f.path, -1, r->err, 0, true); errno = r->err; return -1;
    }
    if (r->err == EINTR) { count(F_write_eintr); rec(K_WRITE, f.path, -1, EINTR, 0, true); errno = EINTR; return -1; }
    if (n > 1) { size_t m = 1 + r->arg % (n - 1); n = m; count(F_write_short); logf("  disk: short write of %zu bytes (injected)", n); }
  }
  if (g_capacity >= 0 && n) {
    if (g_capacity == 0) {
      count(F_write_enospc); hard(K_WRITE, true);
      rec(K_WRITE, f.path, -1, ENOSPC, 0, true); errno = ENOSPC; return -1;
    }
    if ((int64_t)n > g_capacity) n = (size_t)g_capacity;
    g_capacity -= n;
  }
  uint64_t pos = f.append ? f.node->data.size() : at >= 0 ? (uint64_t)at : f.pos;
  if (pos + n > (1ull << 31)) { errno = EFBIG; return -1; }
  if (f.node->data.size() < pos + n) f.node->data.resize(pos + n);
  if (n) memcpy(f.node->data.data() + pos, p, n);
  if (at < 0) f.pos = pos + n;
  ++g_mut; f.dirty = true;
  rec(K_WRITE, f.path, (int64_t)n, 0, n, false);
  return (ssize_t)n;
}
static ssize_t doRead(int i, void* p, size_t n, bool cookie, int64_t at = -1) {
  Harness hs;
  advance(1000 + n / 4);
  File& f = g_files[i];
  if (!f.used || !f.r) { errno = EBADF; return -1; }
  if (f.node->dir) { errno = EISDIR; return -1; }
  if (Rule* r = hit(K_READ)) {
    if (r->err > 0 && r->err != EINTR) { count(F_read_eio); hard(K_READ, false); rec(K_READ, f.path, -1, r->err, 0, true); errno = r->err; return -1; }
    if (r->err == EINTR) { if (!cookie) { count(F_read_eintr); rec(K_READ, f.path, -1, EINTR, 0, true); errno = EINTR; return -1; } }
    else if (n > 1) { n = 1 + r->arg % (n - 1); count(F_read_short); }
  }
  uint64_t pos = at >= 0 ? (uint64_t)at : f.pos;
  size_t avail = pos < f.node->data.size() ? f.node->data.size() - pos : 0;
  if (n > avail) n = avail;
  if (n) memcpy(p, f.node->data.data() + pos, n);
  if (at < 0) f.pos = pos + n;
  rec(K_READ, f.path, (int64_t)n, 0, n, false);
  return (ssize_t)n;
}
static off_t doSeek(int i, off_t off, int wh) {
  Harness hs;
  File& f = g_files[i];
  if (!f.used) { errno = EBADF; return -1; }
  if (Rule* r = hit(K_LSEEK)) { count(F_lseek_error); hard(K_LSEEK, f.w); rec(K_LSEEK, f.path, -1, r->err, 0, true); errno = r->err; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f.pos : (int64_t)f.node->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  f.pos = base + off;
  return (off_t)f.pos;
}
static void fillStat(const Node* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = n->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = n->ino; st->st_dev = 77;
}
static int doStat(const char* p, struct stat* st) {
  Harness hs;
  if (Rule* r = hit(K_STAT)) { count(F_stat_error); rec(K_STAT, p, -1, r->err, 0, true); errno = r->err; return -1; }
  std::string path; bool tr;
  int e = resolve(p, path, &tr);
  if (e) { errno = e; return -1; }
  Node* n = find(path);
  if (!n) { errno = ENOENT; return -1; }
  if (tr && !n->dir) { errno = ENOTDIR; return -1; }
  if (st) fillStat(n, st);
  return 0;
}
static int doMkdir(const char* p, mode_t mode) {
  Harness hs;
  advance(30000);
  std::string path;
  if (dead("mkdir", p)) { errno = EIO; return -1; }
  if (Rule* r = hit(K_MKDIR)) { count(F_mkdir_error); hard(K_MKDIR, true); rec(K_MKDIR, p, -1, r->err, 0, true); errno = r->err; return -1; }
  int e = resolve(p, path);
  if (e) { rec(K_MKDIR, p, -1, e, 0, false); errno = e; return -1; }
  if (g_raceAt >= 0 && (g_raceSeen++ == g_raceAt || (g_raceOther && g_raceSeen > g_raceAt)) && !find(path) && find(parentOf(path)) && find(parentOf(path))->dir && !roAbove(path)) {
    (*g_tree)[path] = mk(true); count(F_mkdir_race);
    logf("  another process creates %s first", path.c_str());
  }
  if (find(path)) e = EEXIST;
  else {
    Node* par = find(parentOf(path));
    if (!par) e = ENOENT; else if (!par->dir) e = ENOTDIR; else if (roAbove(path)) e = EACCES;
  }
  if (e) { rec(K_MKDIR, path, -1, e, 0, false); errno = e; return -1; }
  auto made = mk(true); made->ro = !(mode & 0200); made->noSearch = !(mode & 0100);    // the tool runs as an ordinary user
  (*g_tree)[path] = made;
  ++g_mut; count(P_dirs_created);
  rec(K_MKDIR, path, 0, 0, 0, false);
  return 0;
}
static int doUnlink(const char* p, bool dir) {
  Harness hs;
  if (dead("unlink", p)) { errno = EIO; return -1; }
  std::string path;
  int e = resolve(p, path);
  Node* n = e ? nullptr : find(path);
  if (!e) {
    if (!n) e = ENOENT;
    else if (dir && !n->dir) e = ENOTDIR;
    else if (!dir && n->dir) e = EISDIR;
    else if (roAbove(path)) e = EACCES;
    else if (dir) { auto it = g_tree->upper_bound(path + "/"); if (it != g_tree->end() && it->first.compare(0, path.size() + 1, path + "/") == 0) e = ENOTEMPTY; }
  }
  rec(K_OTHER_MUT, p, e ? -1 : 0, e, 0, false);
  if (e) { errno = e; return -1; }
  g_tree->erase(path); ++g_mut;
  return 0;
}
static int doRename(const char* a, const char* b) {
  Harness hs;
  if (dead("rename", a)) { errno = EIO; return -1; }
  std::string pa, pb;
  int e = resolve(a, pa); if (!e) e = resolve(b, pb);
  if (!e) {
    if (!find(pa)) e = ENOENT;
    else if (roAbove(pa) || roAbove(pb)) e = EACCES;
    else if (!find(parentOf(pb))) e = ENOENT;
    else if (find(pb) && find(pb)->dir) e = EISDIR;
    else if (find(pa)->dir) e = EINVAL;
  }
  if (!e) if (Rule* r = hit(K_OTHER_MUT)) { count(F_rename_error); hard(K_OTHER_MUT, true); e = r->err; }
  rec(K_OTHER_MUT, pa + " -> " + pb, e ? -1 : 0, e, 0, false);
  if (e) { errno = e; return -1; }
  if (pa != pb) { (*g_tree)[pb] = (*g_tree)[pa]; g_tree->erase(pa); }
  ++g_mut;
  return 0;
}

// ---- FILE* on top -----------------------------------------------------------------------------
static ssize_t ckRead(void* c, char* b, size_t n) { return doRead((int)(intptr_t)c, b, n, true); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
  size_t done = 0;                       // what glibc does for a real file: continue partial writes
  while (done < n) {
    ssize_t k = doWrite((int)(intptr_t)c, b + done, n - done);
    if (k < 0) { if (errno == EINTR) continue; break; }
    done += k;
  }
  return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* off, int wh) { off_t r = doSeek((int)(intptr_t)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ckClose(void* c) { return doClose((int)(intptr_t)c); }
static FILE* wrapFd(int fd, const char* mode) {
  int sutWas = t_sut;
  Harness hs; (void)sutWas;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* fp = fopencookie((void*)(intptr_t)(fd - FD0), mode, io);
  if (!fp) fatal("fopencookie failed");
  (*g_fp)[fp] = fd;
  return fp;
}

// ---- control ------------------------------------------------------------------------------------
void reset() {
  Harness hs;
  g_tree->clear();
  for (int i = 0; i < MAXF; ++i) g_files[i] = File();
  (*g_tree)["/"] = mk(true); (*g_tree)["/sim"] = mk(true); (*g_tree)["/sim/cwd"] = mk(true);
  clearFaults(); clearOps();
}
void clearFaults() {
  g_killAt = -1; g_killSeen = 0;
  g_rules->clear(); g_capacity = -1; g_raceAt = -1; g_raceSeen = 0; g_hard = g_hardW = g_hardR = g_mkdirF = 0;
  memset(g_seen, 0, sizeof g_seen);
}
void addRule(OpKind k, int64_t nth, int64_t cnt, int err, uint64_t arg) { g_rules->push_back(Rule{k, nth, cnt, err, arg, false}); }
void setKill(int64_t nth, uint64_t torn) { g_killAt = nth; g_killSeen = 0; g_killTorn = torn; }
bool killed() { return g_killAt >= 0 && g_killSeen > g_killAt; }
int64_t changes() { return g_killSeen; }
void setCapacity(int64_t b) { g_capacity = b; }
void setMkdirRace(int64_t nth, bool other) { g_raceAt = nth; g_raceSeen = 0; g_raceOther = other; }
int64_t hardFaults() { return g_hard; }
int64_t hardWriteFaults() { return g_hardW; }
int64_t hardReadFaults() { return g_hardR; }
int64_t mkdirFaults() { return g_mkdirF; }
const std::vector<OpRec>& ops() { return *g_ops; }
void clearOps() { g_ops->clear(); }
static std::string norm(const std::string& p) { std::string o; if (resolve(p.c_str(), o)) return p; return o; }
bool exists(const std::string& p) { std::string o; return !resolve(p.c_str(), o) && find(o); }
bool isDir(const std::string& p) { std::string o; if (resolve(p.c_str(), o)) return false; Node* n = find(o); return n && n->dir; }
bool readFile(const std::string& p, std::vector<uint8_t>& out) {
  std::string o; if (resolve(p.c_str(), o)) return false;
  Node* n = find(o); if (!n || n->dir) return false;
  out = n->data; return true;
}
void putFile(const std::string& p, const std::vector<uint8_t>& d) { auto n = mk(false); n->data = d; (*g_tree)[norm(p)] = n; }
void makeDir(const std::string& p) {
  std::string q = norm(p);
  for (size_t i = 1; i <= q.size(); ++i) if (i == q.size() || q[i] == '/') { std::string s = q.substr(0, i); if (!find(s)) (*g_tree)[s] = mk(true); }
}
void removeAll(const std::string& p0) {
  std::string p = norm(p0);
  for (auto it = g_tree->begin(); it != g_tree->end();) if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0) it = g_tree->erase(it); else ++it;
}
void setReadOnlyDir(const std::string& p) { if (Node* n = find(norm(p))) n->ro = true; }
std::map<std::string, uint64_t> snapshot() {
  std::map<std::string, uint64_t> m;
  for (auto& kv : *g_tree) {
    uint64_t h = 1;
    if (!kv.second->dir) { h = 0x1234 + kv.second->data.size(); for (uint8_t b : kv.second->data) h = (h ^ b) * 0x100000001b3ull; h |= 2; }
    m[kv.first] = h;
  }
  return m;
}
int openFds() { int n = 0; for (int i = 0; i < MAXF; ++i) n += g_files && g_files[i].used; return n; }
uint64_t mutations() { return g_mut; }
uint64_t closesSeen() { return g_closes; }
} // namespace fs
void fsInit() {
  fs::g_tree = new std::map<std::string, std::shared_ptr<fs::Node>>;
  fs::g_files = new fs::File[fs::MAXF];
  fs::g_rules = new std::vector<fs::Rule>;
  fs::g_ops = new std::vector<fs::OpRec>;
  fs::g_fp = new std::map<FILE*, int>;
  fs::reset();
}
} // namespace sim

using namespace sim;
using namespace sim::fs;
#define ASM(name) __asm__(#name)
static long rawSys(long n, long a, long b, long c, long d = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}
static void point() { if (t_sut) schedPoint(1); }
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" {
#define OPEN_BODY \
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)) ? virtW(p) : virt(p)) { point(); return doOpen(p, fl); } \
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } \
  return (int)rawSys(SYS_openat, AT_FDCWD, (long)p, fl, m);
int s_open(const char* p, int fl, ...) ASM(open);
int s_open64(const char* p, int fl, ...) ASM(open64);
int s_openat(int d, const char* p, int fl, ...) ASM(openat);
int s_openat64(int d, const char* p, int fl, ...) ASM(openat64);
int s_creat(const char* p, mode_t m) ASM(creat);
int s_open(const char* p, int fl, ...) { OPEN_BODY }
int s_open64(const char* p, int fl, ...) { OPEN_BODY }
int s_openat(int d, const char* p, int fl, ...) {
  if (d == AT_FDCWD || (p && p[0] == '/')) { if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)) ? virtW(p) : virt(p)) { point(); return doOpen(p, fl); } }
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
  return (int)rawSys(SYS_openat, d, (long)p, fl, m);
}
int s_openat64(int d, const char* p, int fl, ...) {
  if (d == AT_FDCWD || (p && p[0] == '/')) { if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)) ? virtW(p) : virt(p)) { point(); return doOpen(p, fl); } }
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
  return (int)rawSys(SYS_openat, d, (long)p, fl, m);
}
int s_creat(const char* p, mode_t m) { if (virtW(p)) { point(); return doOpen(p, O_CREAT | O_WRONLY | O_TRUNC); } return (int)rawSys(SYS_openat, AT_FDCWD, (long)p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int s_close(int fd) ASM(close);
int s_close(int fd) { if (isV(fd)) { point(); return doClose(fd - FD0); } return (int)rawSys(SYS_close, fd, 0, 0); }
// What a call into uninstrumented code reads or writes in the buffers of the code under test.
static void touch(const void* p, ssize_t n, bool write) { if (n > 0 && t_sut && !t_fi) memRange(p, (size_t)n, write); }
ssize_t s_read(int fd, void* b, size_t n) ASM(read);
ssize_t s_read(int fd, void* b, size_t n) { if (isV(fd)) { point(); ssize_t k = doRead(fd - FD0, b, n, false); touch(b, k, true); return k; } return rawSys(SYS_read, fd, (long)b, n); }
ssize_t s_readchk(int fd, void* b, size_t n, size_t) ASM(__read_chk);
ssize_t s_readchk(int fd, void* b, size_t n, size_t) { return s_read(fd, b, n); }
ssize_t s_write(int fd, const void* b, size_t n) ASM(write);
ssize_t s_write(int fd, const void* b, size_t n) { if (isV(fd)) { point(); touch(b, (ssize_t)n, false); return doWrite(fd - FD0, b, n); } return rawSys(SYS_write, fd, (long)b, n); }
ssize_t s_pread(int fd, void* b, size_t n, off_t o) ASM(pread);
ssize_t s_pread(int fd, void* b, size_t n, off_t o) { if (isV(fd)) return doRead(fd - FD0, b, n, false, o); return rawSys(SYS_pread64, fd, (long)b, n, o); }
ssize_t s_pwrite(int fd, const void* b, size_t n, off_t o) ASM(pwrite);
ssize_t s_pwrite(int fd, const void* b, size_t n, off_t o) { if (isV(fd)) return doWrite(fd - FD0, b, n, o); return rawSys(SYS_pwrite64, fd, (long)b, n, o); }
ssize_t s_writev(int fd, const struct iovec* v, int c) ASM(writev);
ssize_t s_writev(int fd, const struct iovec* v, int c) {
  if (!isV(fd)) return rawSys(SYS_writev, fd, (long)v, c);
  point();
  for (int i = 0; i < c; ++i) touch(v[i].iov_base, (ssize_t)v[i].iov_len, false);
  Harness hs;
  std::vector<char> all;
  for (int i = 0; i < c; ++i) all.insert(all.end(), (const char*)v[i].iov_base, (const char*)v[i].iov_base + v[i].iov_len);
  return doWrite(fd - FD0, all.data(), all.size());
}
ssize_t s_readv(int fd, const struct iovec* v, int c) ASM(readv);
ssize_t s_readv(int fd, const struct iovec* v, int c) {
  if (!isV(fd)) return rawSys(SYS_readv, fd, (long)v, c);
  return c ? doRead(fd - FD0, v[0].iov_base, v[0].iov_len, false) : 0;
}
off_t s_lseek(int fd, off_t o, int w) ASM(lseek);
off_t s_lseek(int fd, off_t o, int w) { if (isV(fd)) return doSeek(fd - FD0, o, w); return rawSys(SYS_lseek, fd, o, w); }
off_t s_lseek64(int fd, off_t o, int w) ASM(lseek64);
off_t s_lseek64(int fd, off_t o, int w) { return s_lseek(fd, o, w); }
static int vfstat(int fd, struct stat* st) { File& f = g_files[fd - FD0]; if (!f.used) { errno = EBADF; return -1; } fillStat(f.node.get(), st); return 0; }
int s_fstat(int fd, struct stat* st) ASM(fstat);
int s_fstat(int fd, struct stat* st) { if (isV(fd)) return vfstat(fd, st); return (int)rawSys(SYS_fstat, fd, (long)st, 0); }
int s_fstat64(int fd, struct stat* st) ASM(fstat64);
int s_fstat64(int fd, struct stat* st) { return s_fstat(fd, st); }
int s_stat(const char* p, struct stat* st) ASM(stat);
int s_stat(const char* p, struct stat* st) { if (virt(p)) return doStat(p, st); return (int)rawSys(SYS_stat, (long)p, (long)st, 0); }
int s_stat64(const char* p, struct stat* st) ASM(stat64);
int s_stat64(const char* p, struct stat* st) { return s_stat(p, st); }
int s_lstat(const char* p, struct stat* st) ASM(lstat);
int s_lstat(const char* p, struct stat* st) { if (virt(p)) return doStat(p, st); return (int)rawSys(SYS_lstat, (long)p, (long)st, 0); }
int s_lstat64(const char* p, struct stat* st) ASM(lstat64);
int s_lstat64(const char* p, struct stat* st) { return s_lstat(p, st); }
int s_fstatat(int d, const char* p, struct stat* st, int fl) ASM(fstatat);
int s_fstatat(int d, const char* p, struct stat* st, int fl) { if (d == AT_FDCWD && virt(p)) return doStat(p, st); return (int)rawSys(SYS_newfstatat, d, (long)p, (long)st, fl); }
int s_access(const char* p, int m) ASM(access);
int s_access(const char* p, int m) {
  if (virt(p)) { std::string o; int e = doStat(p, nullptr); if (e) return e; Harness hs; if ((m & W_OK) && !resolve(p, o) && (roAbove(o) || find(o)->ro)) { errno = EACCES; return -1; } return 0; }
  return (int)rawSys(SYS_access, (long)p, m, 0);
}
int s_mkdir(const char* p, mode_t m) ASM(mkdir);
int s_mkdir(const char* p, mode_t m) { if (virtW(p)) { point(); return doMkdir(p, m); } return (int)rawSys(SYS_mkdir, (long)p, m, 0); }
int s_mkdirat(int d, const char* p, mode_t m) ASM(mkdirat);
int s_mkdirat(int d, const char* p, mode_t m) { if (virtW(p)) { point(); return doMkdir(p, m); } return (int)rawSys(SYS_mkdirat, d, (long)p, m); }
int s_rmdir(const char* p) ASM(rmdir);
int s_rmdir(const char* p) { if (virtW(p)) return doUnlink(p, true); return (int)rawSys(SYS_rmdir, (long)p, 0, 0); }
int s_unlink(const char* p) ASM(unlink);
int s_unlink(const char* p) { if (virtW(p)) return doUnlink(p, false); return (int)rawSys(SYS_unlink, (long)p, 0, 0); }
int s_remove(const char* p) ASM(remove);
int s_remove(const char* p) { if (virtW(p)) { int r = doUnlink(p, false); if (r < 0 && errno == EISDIR) r = doUnlink(p, true); return r; } static auto r = next<int (*)(const char*)>("remove"); return r(p); }
int s_rename(const char* a, const char* b) ASM(rename);
int s_rename(const char* a, const char* b) { if (virtW(a) || virtW(b)) { point(); return doRename(a, b); } return (int)rawSys(SYS_rename, (long)a, (long)b, 0); }
int s_ftruncate(int fd, off_t n) ASM(ftruncate);
int s_ftruncate(int fd, off_t n) { if (isV(fd)) { Harness hs; File& f = g_files[fd - FD0]; if (!f.used || !f.w) { errno = EBADF; return -1; } if (dead("truncate", f.path)) { errno = EIO; return -1; } f.node->data.resize(n); ++g_mut; return 0; } return (int)rawSys(SYS_ftruncate, fd, n, 0); }
int s_truncate(const char* p, off_t n) ASM(truncate);
int s_truncate(const char* p, off_t n) { if (virtW(p)) { Harness hs; std::string o; int e = resolve(p, o); Node* x = e ? nullptr : find(o); if (!x) { errno = e ? e : ENOENT; return -1; } if (dead("truncate", o)) { errno = EIO; return -1; } x->data.resize(n); ++g_mut; return 0; } return (int)rawSys(SYS_truncate, (long)p, n, 0); }
static int vfsync(int fd) {
  Harness hs;
  File& f = g_files[fd - FD0];
  if (Rule* r = hit(K_FSYNC)) { count(F_fsync_error); hard(K_FSYNC, true); rec(K_FSYNC, f.path, -1, r->err, 0, true); errno = r->err; return -1; }
  return 0;
}
int s_fsync(int fd) ASM(fsync);
int s_fsync(int fd) { if (isV(fd)) return vfsync(fd); return (int)rawSys(SYS_fsync, fd, 0, 0); }
int s_fdatasync(int fd) ASM(fdatasync);
int s_fdatasync(int fd) { if (isV(fd)) return vfsync(fd); return (int)rawSys(SYS_fdatasync, fd, 0, 0); }
int s_chmod(const char* p, mode_t m) ASM(chmod);
int s_chmod(const char* p, mode_t m) { if (virtW(p)) return doStat(p, nullptr); return (int)rawSys(SYS_chmod, (long)p, m, 0); }
// Less usual ways to the same operations, for code that may take them.
int s_renameat(int d, const char* a, int e, const char* b) ASM(renameat);
int s_renameat(int d, const char* a, int e, const char* b) { if (virtW(a) || virtW(b)) return s_rename(a, b); return (int)rawSys(SYS_renameat, d, (long)a, e, (long)b); }
int s_unlinkat(int d, const char* p, int fl) ASM(unlinkat);
int s_unlinkat(int d, const char* p, int fl) { if (virtW(p)) return doUnlink(p, (fl & AT_REMOVEDIR) != 0); return (int)rawSys(SYS_unlinkat, d, (long)p, fl); }
int s_faccessat(int d, const char* p, int m, int fl) ASM(faccessat);
int s_faccessat(int d, const char* p, int m, int fl) { if (virt(p)) return s_access(p, m); return (int)rawSys(SYS_faccessat, d, (long)p, m, fl); }
int s_link(const char* a, const char* b) ASM(link);
int s_link(const char* a, const char* b) { if (virtW(a) || virtW(b)) { errno = EPERM; return -1; } return (int)rawSys(SYS_link, (long)a, (long)b, 0); }
int s_symlink(const char* a, const char* b) ASM(symlink);
int s_symlink(const char* a, const char* b) { if (virtW(b)) { errno = EPERM; return -1; } return (int)rawSys(SYS_symlink, (long)a, (long)b, 0); }
static int tempFile(char* t, int suffix, int fl) {
  size_t n = strlen(t);
  if (n < 6 + (size_t)suffix || memcmp(t + n - suffix - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  static unsigned serial; char* x = t + n - suffix - 6;
  for (int i = 0; i < 100; ++i) {
    char num[8]; snprintf(num, sizeof num, "%06u", ++serial % 1000000); memcpy(x, num, 6);
    point();
    int fd = doOpen(t, O_RDWR | O_CREAT | O_EXCL | fl);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST; return -1;
}
#define TEMP(name, suf, flg, params, args) \
  int s_##name params ASM(name); \
  int s_##name params { if (virtW(t)) return tempFile(t, suf, flg); static auto r = next<int (*) params>(#name); return r args; }
TEMP(mkstemp, 0, 0, (char* t), (t))
TEMP(mkstemp64, 0, 0, (char* t), (t))
TEMP(mkostemp, 0, fl, (char* t, int fl), (t, fl))
TEMP(mkostemp64, 0, fl, (char* t, int fl), (t, fl))
TEMP(mkstemps, n, 0, (char* t, int n), (t, n))
TEMP(mkstemps64, n, 0, (char* t, int n), (t, n))
TEMP(mkostemps, n, fl, (char* t, int n, int fl), (t, n, fl))
TEMP(mkostemps64, n, fl, (char* t, int n, int fl), (t, n, fl))
char* s_realpath(const char* p, char* out) ASM(realpath);
char* s_realpath(const char* p, char* out) {
  if (!virt(p)) { static auto r = next<char* (*)(const char*, char*)>("realpath"); return r(p, out); }
  if (doStat(p, nullptr)) return nullptr;
  std::string o; { Harness hs; resolve(p, o); }
  if (!out) return strdup(o.c_str());
  strcpy(out, o.c_str());
  return out;
}
int s_posix_fallocate(int fd, off_t o, off_t n) ASM(posix_fallocate);
int s_posix_fallocate(int fd, off_t o, off_t n) { if (isV(fd)) return EOPNOTSUPP; static auto r = next<int (*)(int, off_t, off_t)>("posix_fallocate"); return r(fd, o, n); }
int s_posix_fallocate64(int fd, off_t o, off_t n) ASM(posix_fallocate64);
int s_posix_fallocate64(int fd, off_t o, off_t n) { return s_posix_fallocate(fd, o, n); }
int s_ioctl(int fd, unsigned long rq, ...) ASM(ioctl);
int s_ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
  if (isV(fd)) {
    if (rq == FIONREAD) { File& f = g_files[fd - FD0]; size_t s = f.node ? f.node->data.size() : 0; *(int*)a = f.pos < s ? (int)(s - f.pos) : 0; return 0; }
    errno = ENOTTY; return -1;
  }
  return (int)rawSys(SYS_ioctl, fd, rq, (long)a);
}
int s_poll(struct pollfd* p, nfds_t n, int t) ASM(poll);
int s_poll(struct pollfd* p, nfds_t n, int t) {
  if (n && isV(p[0].fd)) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events & (POLLIN | POLLOUT); return (int)n; }
  return (int)rawSys(SYS_poll, (long)p, n, t);
}
FILE* s_fopen(const char* p, const char* mode) ASM(fopen);
FILE* s_fopen(const char* p, const char* mode) {
  if (!(strpbrk(mode, "wa+") ? virtW(p) : virt(p))) { static auto r = next<FILE* (*)(const char*, const char*)>("fopen"); return r(p, mode); }
  point();
  int fl; bool plus = strchr(mode, '+');
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = doOpen(p, fl);
  if (fd < 0) return nullptr;
  return wrapFd(fd, mode);
}
FILE* s_fopen64(const char* p, const char* mode) ASM(fopen64);
FILE* s_fopen64(const char* p, const char* mode) { return s_fopen(p, mode); }
FILE* s_fdopen(int fd, const char* mode) ASM(fdopen);
FILE* s_fdopen(int fd, const char* mode) { if (isV(fd)) return wrapFd(fd, mode); static auto r = next<FILE* (*)(int, const char*)>("fdopen"); return r(fd, mode); }
int s_fileno(FILE* f) ASM(fileno);
int s_fileno(FILE* f) {
  if (g_armed && g_fp) { auto it = g_fp->find(f); if (it != g_fp->end()) return it->second; }
  static auto r = next<int (*)(FILE*)>("fileno"); return r(f);
}
int s_fclose(FILE* f) ASM(fclose);
int s_fclose(FILE* f) {
  static auto r = next<int (*)(FILE*)>("fclose");
  if (g_armed && g_fp) {
    auto it = g_fp->find(f);
    if (it != g_fp->end()) { point(); Harness hs; g_fp->erase(it); return r(f); }
  }
  return r(f);
}
char* s_getcwd(char* b, size_t n) ASM(getcwd);
char* s_getcwd(char* b, size_t n) {
  if (g_armed && t_sut) { if (!b) return strdup("/sim/cwd"); if (n < 9) { errno = ERANGE; return nullptr; } return strcpy(b, "/sim/cwd"); }
  long k = rawSys(SYS_getcwd, (long)b, n, 0); return k < 0 ? nullptr : b;
}
} // extern "C"

extern "C" {
std::istream* __real__ZNSi4readEPcl(std::istream* s, char* p, std::streamsize n);
std::ostream* __real__ZNSo5writeEPKcl(std::ostream* s, const char* p, std::streamsize n);
std::istream* __wrap__ZNSi4readEPcl(std::istream* s, char* p, std::streamsize n) {
  std::istream* r = __real__ZNSi4readEPcl(s, p, n);
  if (sim::t_sut && s->gcount() > 0) sim::memRange(p, (size_t)s->gcount(), true);
  return r;
}
std::ostream* __wrap__ZNSo5writeEPKcl(std::ostream* s, const char* p, std::streamsize n) {
  if (sim::t_sut && n > 0) sim::memRange(p, (size_t)n, false);
  return __real__ZNSo5writeEPKcl(s, p, n);
}
}
