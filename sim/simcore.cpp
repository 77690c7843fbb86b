// Deterministic simulator: runs every CGMF process of a scenario as a fiber in
// this one process.  All file I/O, message passing, memory allocation, clocks,
// environment, exits and randomness of a node pass through the sim_* functions
// below; one plan (text) is one exactly repeatable execution.
#include "simapi.h"
#include <ucontext.h>
#include <dlfcn.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include <getopt.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <algorithm>
#include <fstream>
#include <sstream>
using std::string; using std::vector; using std::map;
typedef unsigned long long u64;

static u64 splitmix(u64& s) { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
struct Rng { u64 s; u64 next() { return splitmix(s); } double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); } u64 below(u64 n) { return n ? next() % n : 0; } };

// ---------------------------------------------------------------- state -----
struct Inode { string data; bool ro = false; };
typedef std::shared_ptr<Inode> InodeP;
static map<string, InodeP> vfs;
static map<string, string> lazy;       // vpath -> real path
static std::set<string> vdirs;
static long diskcap = -1; static long diskused = 0;

struct Fault { int node; string seam, path; long nth, count; string act; long arg; int err; long seen = 0; long fired = 0; int phase = 0; int site = 0; string where; };
static vector<Fault> faults;

struct VFile { InodeP ino; string path; off_t off = 0; int flags = 0; bool std_ = false; };

enum St { READY, BLOCKED, DONE };
struct Node {
  int id = 0, phase = 0; string so; vector<string> argv; bool isMain = false; vector<string> ops; map<string, string> env;
  St st = READY; string status; int code = 0; string why;
  ucontext_t ctx; void* stack = 0; size_t stacksz = 0; void* dl = 0;
  string out, err, emitbuf;
  FILE* stdf[3] = {0, 0, 0};
  map<int, VFile> fds; int nextfd = 1000; map<FILE*, int> files;
  unsigned long steps = 0, maxsteps = 0; u64 totalsteps = 0; u64 draws = 0; u64 drawhash = 1469598103934665603ULL;
  map<string, long> cnt; u64 seams = 0; u64 opseams = 0; int curop = -1;
  char* arena = 0; size_t arenaSz = 0, arenaTop = 0; vector<vector<char*>> freel; u64 nalloc = 0; size_t liveBytes = 0; u64 liveBlocks = 0; string memerr; std::unordered_map<void*, int> sites;
  char* garena = 0; size_t gTop = 0; struct GBlk { size_t size, len; char* page; u64 state; }; std::unordered_map<void*, GBlk> guarded; u64 gLive = 0, gTotal = 0;
  long stall = 0; unsigned libcrand = 1; int errno_ = 0;
  int optind_ = 0; char* optarg_ = 0;
  // MPI
  bool inited = false, finalized = false, inMpi = false; int rank = 0; int cseq = 0;
  int waitSlot = -1; bool waitAll = false; int waitSrc = 0, waitTag = 0; bool waitMsg = false;
  unsigned char* cov = 0; void (*fini)(void) = 0;
  std::set<string> opened, touched;   // files read; files opened for writing, removed, renamed or created (also when refused)
};
static vector<Node*> nodes; static Node* cur = 0; static ucontext_t schedCtx;
static Rng schedR{1}, faultR{1}, clockR{1}, heapR{1};
static string schedMode = "fifo"; static double schedP = 0.3;
static map<u64, int> schedList; static vector<std::pair<u64, int>> switchLog; static u64 decision = 0;
static int heapMode = 0; static u64 heapSeed = 1;
static double vclock = 1.7e9; static u64 thash = 1469598103934665603ULL; static u64 nseams = 0;
static unsigned long stepLimit = 3000000000UL; static string resultPath; static int curPhase = 0; static int jobKill = -1; static string jobKillWhy;
struct FaultLog { map<string, long> m; void push_back(const string& k) { m[k]++; } }; static FaultLog faultLog; static u64 seamLimit = 20000000ULL;
static bool wantCov = false; static double mpiEager = 0.5; static u64 traceKeep = 0; static vector<string> traceLog;
static string result; static long arenaMB = 3000; static string mpiMisuse;
static map<string, string> phaseSnap;

static void th(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { thash ^= c[i]; thash *= 1099511628211ULL; } }
static void th(const string& s) { th(s.data(), s.size()); th("\0", 1); }
static u64 fnv(const void* p, size_t n) { u64 h = 1469598103934665603ULL; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

static int errByName(const string& s) {
  if (s == "ENOENT") return ENOENT; if (s == "EACCES") return EACCES; if (s == "EIO") return EIO; if (s == "ENOSPC") return ENOSPC;
  if (s == "EINTR") return EINTR; if (s == "EMFILE") return EMFILE; if (s == "ENFILE") return ENFILE; if (s == "EDQUOT") return EDQUOT; if (s == "EROFS") return EROFS; if (s == "ENOMEM") return ENOMEM; if (s == "EISDIR") return EISDIR; if (s == "EFBIG") return EFBIG;
  return EIO;
}

// ------------------------------------------------------------ scheduling ----
static void toSched() {
  Node* n = cur; n->errno_ = errno; n->optind_ = optind; n->optarg_ = optarg;
  cur = 0; swapcontext(&n->ctx, &schedCtx);
  errno = cur->errno_; optind = cur->optind_; optarg = cur->optarg_;
}
static void finish(const string& status, int code, const string& why) __attribute__((noreturn));
static string heapSweep(Node* n);
static void finish(const string& status0, int code, const string& why0) {
  Node* n = cur; string status = status0, why = why0;
  if (status == "exit" && n->memerr.empty()) { string w = heapSweep(n); if (!w.empty()) { n->memerr = w; status = "memerr"; why = w; } }
   n->st = DONE; n->status = status; n->code = code; n->why = why;
  string s = status + ":" + std::to_string(code); th(&n->id, sizeof n->id); th(s);
  cur = 0; setcontext(&schedCtx); _exit(99);
}
static bool boundaryMatch(const string& f, const string& p) { return f == "-" || (f[0] == '^' ? p.compare(0, f.size() - 1, f, 1, string::npos) == 0 : p.find(f) != string::npos); }

// Returns fault to apply to this operation, or null.
static Fault* seam(const string& kind, const string& path, const string& detail) {
  Node* n = cur; if (!n) return 0;
  nseams++; n->seams++; n->cnt[kind]++; n->totalsteps += n->steps; if (n->steps > n->maxsteps) n->maxsteps = n->steps; n->steps = 0;
  vclock += 1e-6 * (1 + (clockR.next() & 1023));
  th(&n->id, sizeof n->id); th(kind); th(path); th(detail);
  if (traceKeep) { traceLog.push_back(std::to_string(nseams) + " n" + std::to_string(n->id) + " " + kind + " " + path + " " + detail); if (traceLog.size() > 2 * traceKeep) traceLog.erase(traceLog.begin(), traceLog.begin() + traceKeep); }
  Fault* hit = 0;
  for (auto& f : faults) {
    if (f.phase != curPhase || (f.node >= 0 && f.node != n->id)) continue;
    if (f.seam != "any" && f.seam != kind) continue;
    if (!boundaryMatch(f.path, path)) continue;
    f.seen++;
    if (f.seen < f.nth || (f.count >= 0 && f.seen >= f.nth + f.count)) continue;
    if (f.act == "stall") { n->stall = f.arg; f.fired++; faultLog.push_back("stall"); continue; }
    if (f.act == "clockjump") { vclock += (double)f.arg; f.fired++; faultLog.push_back("clockjump"); continue; }
    if (!hit) { hit = &f; f.fired++; faultLog.push_back(kind + ":" + f.act + (f.err ? ":" + std::to_string(f.err) : "")); }
  }
  if (n->seams > seamLimit) finish("hang", 0, "seam limit: endless " + kind + " " + path);
  if (hit && hit->act == "crash") finish("crash", 0, kind + " " + path);
  // scheduling decision
  bool others = false; for (auto* m : nodes) if (m != n && m->st != DONE) { others = true; break; }
  if (others || n->stall > 0) { bool sw = n->stall > 0; u64 d = decision++; (void)d;
    if (schedMode == "random") sw = sw || schedR.u() < schedP;
    else if (schedMode == "list") sw = sw || schedList.count(decision - 1);
    if (sw) toSched();
  }
  return hit;
}

// ---------------------------------------------------------------- memory ----
struct Hdr { u64 magic; u64 size; u64 serial; u64 cls; };
static const u64 LIVE = 0xA110C8ED5EEDF00DULL, FREED = 0xF4EEDF4EEDF4EED1ULL;
static size_t clsOf(size_t n, unsigned& ix) {
  n += sizeof(Hdr) + 8; if (n <= 1024) { size_t r = (n + 31) & ~31UL; ix = (unsigned)(r / 32); return r; }
  unsigned lg = 63 - __builtin_clzl(n - 1); size_t p = 1UL << lg, st = p / 4, q = (n - p + st - 1) / st; ix = 33 + (lg - 10) * 4 + (unsigned)q; return p + q * st;
}
static void patfill(char* p, size_t n, u64 pat) { size_t i = 0; for (; i + 8 <= n; i += 8) memcpy(p + i, &pat, 8); for (; i < n; i++) p[i] = (char)pat; }
static const u64 FREEPAT = 0xFFF4DEADDEADDEADULL;
static bool patok(const char* p, size_t n, u64 pat) { size_t i = 0; for (; i + 8 <= n; i += 8) if (memcmp(p + i, &pat, 8)) return false; return true; }
static size_t clsSize(u64 ix) { if (ix <= 32) return ix * 32; u64 k = ix - 34; u64 lg = 10 + k / 4, q = k % 4 + 1; return (1UL << lg) + q * ((1UL << lg) / 4); }
// every block of the arena: overflow canaries of live blocks, untouched contents of freed ones
static string guardSlack(char* p, const Node::GBlk& g);
static string heapSweep(Node* n) {
  for (auto& g : n->guarded) if (g.second.state == LIVE) { string w = guardSlack((char*)g.first, g.second); if (!w.empty()) return w; }
  if (!n->arena) return "";
  size_t off = 0;
  while (off + sizeof(Hdr) <= n->arenaTop) {
    Hdr* h = (Hdr*)(n->arena + off); char* p = (char*)h + sizeof(Hdr);
    if (h->magic != LIVE && h->magic != FREED) return "heap header overwritten";
    u64 can; memcpy(&can, p + h->size, 8);
    if (can != (LIVE ^ h->size)) return string("heap overflow past ") + (h->magic == LIVE ? "live" : "freed") + " block of " + std::to_string(h->size) + " bytes";
    if (h->magic == FREED && heapMode >= 2 && !patok(p, h->size < 4096 ? h->size : 4096, FREEPAT)) return "write into freed block of " + std::to_string(h->size) + " bytes";
    size_t c = clsSize(h->cls); if (c < 32) return "heap header overwritten"; off += c;
  }
  return "";
}
static void memError(const string& w) { if (cur && cur->memerr.empty()) cur->memerr = w; }
// Heap mode 4: a seeded sample of the blocks (a larger share of those of 1 KiB and more) get pages of their own next to an
// inaccessible page (after the block, sometimes before it), and become inaccessible when released: an out-of-bounds
// or late access, reads included, is a fault at once.
static const size_t GARENA = 64UL << 30; static const u64 GMAX = 12000;
static bool inGuard(Node* n, void* p) { return n && n->garena && (char*)p >= n->garena && (char*)p < n->garena + GARENA; }
static void* guardAlloc(Node* nd, size_t n) {
  u64 s = heapSeed ^ (nd->nalloc * 0x51EDULL), r = splitmix(s);
  if (!n || nd->gLive >= GMAX || r % (n < 1024 ? 96 : n < 65536 ? 4 : 3)) return 0;
  if (!nd->garena) { nd->garena = (char*)mmap(0, GARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (nd->garena == MAP_FAILED) { nd->garena = 0; return 0; } }
  size_t len = (n + 4095) & ~4095UL; if (nd->gTop + len + 8192 > GARENA) return 0;
  char* pg = nd->garena + nd->gTop + 4096; if (mprotect(pg, len, PROT_READ | PROT_WRITE)) return 0;
  nd->gTop += len + 4096; bool low = (r >> 32) % 5 == 0; char* p = low ? pg : pg + len - ((n + 15) & ~15UL);
  memset(pg, 0xA7, len); u64 s2 = heapSeed ^ (nd->nalloc * 0x9E37ULL); patfill(p, n, splitmix(s2));
  nd->guarded[p] = Node::GBlk{n, len, pg, LIVE}; nd->gLive++; nd->gTotal++; nd->liveBytes += n; nd->liveBlocks++;
  return p;
}
static string guardSlack(char* p, const Node::GBlk& g) {
  for (char* c = g.page; c < p; c++) if (*c != (char)0xA7) return "write before block of " + std::to_string(g.size) + " bytes";
  for (char* c = p + g.size; c < g.page + g.len; c++) if (*c != (char)0xA7) return "heap overflow past block of " + std::to_string(g.size) + " bytes";
  return "";
}
static void guardFree(Node* nd, void* p) {
  auto it = nd->guarded.find(p);
  if (it == nd->guarded.end()) { memError("invalid free"); finish("memerr", 0, "invalid free"); }
  if (it->second.state == FREED) { memError("double free"); finish("memerr", 0, "double free"); }
  string w = guardSlack((char*)p, it->second); if (!w.empty()) { memError(w); finish("memerr", 0, w); }
  it->second.state = FREED; nd->liveBytes -= it->second.size; nd->liveBlocks--; nd->gLive--;
  madvise(it->second.page, it->second.len, MADV_DONTNEED); mprotect(it->second.page, it->second.len, PROT_NONE);
}
static bool inArena(void* p) { if (!cur || !cur->arena) return false; char* c = (char*)p; return c >= cur->arena && c < cur->arena + cur->arenaSz; }
// Call sites are numbered in the order in which a node first allocates from them, so that "site:K" in a fault names the same place in every run.
extern "C" void* sim_malloc_at(size_t n, void* site) {
  if (!cur) return malloc(n);
  Node* nd = cur; nd->nalloc++;
  int sn = 0; if (site) { auto it = nd->sites.find(site); if (it == nd->sites.end()) it = nd->sites.emplace(site, (int)nd->sites.size() + 1).first; sn = it->second; }
  for (auto& f : faults) if (f.seam == "alloc" && f.phase == curPhase && (f.node < 0 || f.node == nd->id) && (f.arg <= 0 || (long)n >= f.arg) && (f.site == 0 || f.site == sn)) {
    f.seen++; if (f.seen >= f.nth && (f.count < 0 || f.seen < f.nth + f.count)) { f.fired++; faultLog.push_back("alloc:fail"); th("allocfail"); if (f.where.empty()) { Dl_info di; void* bt[12]; int k = backtrace(bt, 12); for (int i = 1; i < k; i++) if (dladdr(bt[i], &di) && di.dli_fname) { char b[64]; snprintf(b, sizeof b, "+0x%lx ", (unsigned long)((char*)bt[i] - (char*)di.dli_fbase)); const char* sl = strrchr(di.dli_fname, '/'); f.where += string(sl ? sl + 1 : di.dli_fname) + b; } } errno = ENOMEM; return 0; }
  }
  if (heapMode == 4) if (void* g = guardAlloc(nd, n)) return g;
  unsigned ix; size_t c = clsOf(n, ix); char* b; if (nd->freel.empty()) nd->freel.resize(256); if (ix >= 256) { errno = ENOMEM; return 0; } auto& fl = nd->freel[ix]; bool fresh = false;
  if (!fl.empty()) {
    b = fl.back(); fl.pop_back(); Hdr* o = (Hdr*)b;
    if (heapMode >= 2 && !patok(b + sizeof(Hdr), o->size < 4096 ? o->size : 4096, FREEPAT)) { memError("write into freed block of " + std::to_string(o->size) + " bytes"); finish("memerr", 0, nd->memerr); }
  }
  else { if (nd->arenaTop + c + 64 > nd->arenaSz) { memError("arena exhausted"); errno = ENOMEM; return 0; } b = nd->arena + nd->arenaTop; nd->arenaTop += c; fresh = true; }
  Hdr* h = (Hdr*)b; h->magic = LIVE; h->size = n; h->serial = nd->nalloc; h->cls = ix;
  char* p = b + sizeof(Hdr);
  if (heapMode == 1) { if (!fresh) memset(p, 0, n); }
  else if (heapMode == 2 || heapMode == 4) { u64 s = heapSeed ^ (nd->nalloc * 0x9E37ULL); patfill(p, n, splitmix(s)); }
  else if (heapMode == 3) { u64 s = heapSeed ^ (nd->nalloc * 0x9E37ULL); double d = (double)(splitmix(s) % 4000) / 16.0 - 20.0; u64 pat; memcpy(&pat, &d, 8); patfill(p, n, pat); }
  u64 can = LIVE ^ n; memcpy(p + n, &can, 8);
  nd->liveBytes += n; nd->liveBlocks++;
  return p;
}
extern "C" void sim_free(void* p) {
  if (!p) return;
  if (!cur) { free(p); return; }
  if (inGuard(cur, p)) { guardFree(cur, p); return; }
  if (!inArena(p)) { for (auto* m : nodes) if (inGuard(m, p) || m->arena && (char*)p >= m->arena && (char*)p < m->arena + m->arenaSz) return; free(p); return; }
  Node* nd = cur; Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
  if (h->magic == FREED) { memError("double free"); finish("memerr", 0, "double free"); }
  if (h->magic != LIVE) { memError("invalid free"); finish("memerr", 0, "invalid free"); }
  u64 can; memcpy(&can, (char*)p + h->size, 8);
  if (can != (LIVE ^ h->size)) { memError("heap overflow past block of " + std::to_string(h->size) + " bytes"); finish("memerr", 0, nd->memerr); }
  h->magic = FREED; nd->liveBytes -= h->size; nd->liveBlocks--;
  if (heapMode >= 2) patfill((char*)p, h->size < 4096 ? h->size : 4096, FREEPAT);
  nd->freel[h->cls].push_back((char*)h);
}
extern "C" void* sim_malloc(size_t n) { return sim_malloc_at(n, __builtin_return_address(0)); }
extern "C" void* sim_calloc(size_t a, size_t b) { void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void* sim_realloc(void* p, size_t n) {
  if (p && inGuard(cur, p)) { auto it = cur->guarded.find(p); if (it == cur->guarded.end() || it->second.state == FREED) { memError("invalid realloc"); finish("memerr", 0, "invalid realloc"); } size_t o = it->second.size; void* q = sim_malloc(n); if (!q) return 0; memcpy(q, p, o < n ? o : n); guardFree(cur, p); return q; }
  if (!cur || (p && !inArena(p))) return realloc(p, n);
  void* q = sim_malloc(n); if (!q) return 0; if (p) { Hdr* h = (Hdr*)((char*)p - sizeof(Hdr)); memcpy(q, p, h->size < n ? h->size : n); sim_free(p); } return q;
}
extern "C" void* sim_memalign(size_t, size_t n) { return sim_malloc(n); }

// ------------------------------------------------------------------ VFS -----
static string absPath(const char* p) {
  string s = p ? p : ""; if (s.empty()) return ""; if (s[0] != '/') s = "/work/" + s;
  vector<string> parts; std::istringstream is(s); string t; while (getline(is, t, '/')) { if (t.empty() || t == ".") continue; if (t == "..") { if (!parts.empty()) parts.pop_back(); } else parts.push_back(t); }
  string r; for (auto& x : parts) r += "/" + x; return r.empty() ? "/" : r;
}
static bool slurp(const string& real, string& out) { std::ifstream f(real.c_str(), std::ios::binary); if (!f) return false; std::ostringstream o; o << f.rdbuf(); out = o.str(); return true; }
static InodeP lookup(const string& p) {
  auto it = vfs.find(p); if (it != vfs.end()) return it->second;
  auto l = lazy.find(p); if (l == lazy.end()) return InodeP();
  InodeP i(new Inode); if (!slurp(l->second, i->data)) return InodeP(); i->ro = true; vfs[p] = i; return i;
}
static bool isDir(const string& p) { return p == "/" || vdirs.count(p); }
static string dirOf(const string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
extern "C" int sim_open(const char* path, int flags, int) {
  string p = absPath(path); Fault* f = seam("open", p, std::to_string(flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND)));
  Node* n = cur; if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) n->touched.insert(p);
  if (f && f->err) { errno = f->err; return -1; }
  if (p.empty()) { errno = ENOENT; return -1; }
  if (isDir(p)) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } errno = EISDIR; return -1; }
  InodeP i = lookup(p);
  if (!i) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!isDir(dirOf(p))) { errno = ENOENT; return -1; }
    if (p.compare(0, 6, "/data/") == 0) { errno = EACCES; return -1; }
    i.reset(new Inode); vfs[p] = i;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_ACCMODE) != O_RDONLY && i->ro) { errno = EACCES; return -1; }
  if (flags & O_TRUNC) { diskused -= (long)i->data.size(); i->data.clear(); }
  if ((flags & O_ACCMODE) == O_RDONLY) n->opened.insert(p);
  VFile v; v.ino = i; v.path = p; v.flags = flags; int fd = n->nextfd++; n->fds[fd] = v; return fd;
}
static VFile* getfd(int fd) { if (!cur) return 0; auto it = cur->fds.find(fd); return it == cur->fds.end() ? 0 : &it->second; }
extern "C" ssize_t sim_read(int fd, void* b, size_t n) {
  VFile* v = getfd(fd); if (!v) { if (fd == 0) return 0; errno = EBADF; return -1; }
  Fault* f = seam("read", v->path, std::to_string(v->off) + "+" + std::to_string(n));
  if (f) { if (f->err) { errno = f->err; return -1; } if (f->act == "eof") return 0; if (f->act == "short" && (long)n > f->arg && f->arg > 0) n = f->arg; }
  size_t sz = v->ino->data.size(); if ((size_t)v->off >= sz) return 0;
  if (n > sz - v->off) n = sz - v->off;
  memcpy(b, v->ino->data.data() + v->off, n);
  if (f && f->act == "garble" && n > 0) { size_t k = (size_t)f->arg % n; ((char*)b)[k] ^= 0x15; }
  v->off += n; return n;
}
extern "C" ssize_t sim_write(int fd, const void* b, size_t n) {
  Node* nd = cur; VFile* v = getfd(fd);
  if (!v) { if (nd && (fd == 1 || fd == 2)) { (fd == 1 ? nd->out : nd->err).append((const char*)b, n); return n; } errno = EBADF; return -1; }
  if (v->std_) {
    int k = v->path == "<stdout>" ? 1 : 2; Fault* f = seam("stdout", v->path, std::to_string(fnv(b, n)));
    if (f && f->err) { errno = f->err; return -1; }
    (k == 1 ? nd->out : nd->err).append((const char*)b, n); return n;
  }
  Fault* f = seam("write", v->path, std::to_string(v->off) + "+" + std::to_string(n) + ":" + std::to_string(fnv(b, n)));
  if (f) { if (f->act == "torn") { size_t m = n ? (size_t)f->arg % n : 0; v->ino->data.resize(std::max(v->ino->data.size(), (size_t)v->off)); v->ino->data.replace(v->off, std::min(m, v->ino->data.size() - v->off), (const char*)b, m); finish("crash", 0, "torn write " + v->path); }
    if (f->err) { errno = f->err; return -1; } if (f->act == "short" && (long)n > f->arg && f->arg > 0) n = f->arg; }
  if (v->flags & O_APPEND) v->off = v->ino->data.size();
  size_t end = v->off + n; long grow = end > v->ino->data.size() ? (long)(end - v->ino->data.size()) : 0;
  if (diskcap >= 0 && diskused + grow > diskcap) { long room = diskcap - diskused; long m = (long)n - (grow - std::max(0L, room)); if (room <= 0 || m <= 0) { faultLog.push_back("diskfull"); errno = ENOSPC; return -1; } n = m; end = v->off + n; grow = (long)(end - v->ino->data.size()); faultLog.push_back("diskfull-partial"); }
  if (v->ino->data.size() < end) v->ino->data.resize(end);
  memcpy(&v->ino->data[v->off], b, n); v->off = end; diskused += grow; return n;
}
extern "C" ssize_t sim_writev(int fd, const struct iovec* iv, int k) {
  string s; for (int i = 0; i < k; i++) s.append((const char*)iv[i].iov_base, iv[i].iov_len); return sim_write(fd, s.data(), s.size());
}
extern "C" off_t sim_lseek(int fd, off_t o, int w) {
  VFile* v = getfd(fd); if (!v || v->std_) { errno = ESPIPE; return -1; }
  off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? v->off : (off_t)v->ino->data.size(); if (b + o < 0) { errno = EINVAL; return -1; } v->off = b + o; return v->off;
}
extern "C" int sim_close(int fd) {
  VFile* v = getfd(fd); if (!v) { errno = EBADF; return -1; }
  if (v->std_) return 0;
  Fault* f = seam("close", v->path, ""); cur->fds.erase(fd);
  if (f && f->err) { errno = f->err; return -1; } return 0;
}
static void fillStat(const InodeP& i, bool dir, struct stat* st) { memset(st, 0, sizeof *st); st->st_mode = dir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = dir ? 4096 : (off_t)i->data.size(); st->st_blksize = 4096; st->st_nlink = 1; st->st_ino = 1; }
extern "C" int sim_fstat(int fd, struct stat* st) { VFile* v = getfd(fd); if (!v) { errno = EBADF; return -1; } if (v->std_) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO; return 0; } fillStat(v->ino, false, st); return 0; }
extern "C" int sim_stat(const char* path, struct stat* st) {
  string p = absPath(path); Fault* f = seam("stat", p, ""); if (f && f->err) { errno = f->err; return -1; }
  if (isDir(p)) { fillStat(InodeP(), true, st); return 0; } InodeP i = lookup(p); if (!i) { errno = ENOENT; return -1; } fillStat(i, false, st); return 0;
}
extern "C" int sim_access(const char* path, int mode) {
  string p = absPath(path); Fault* f = seam("stat", p, ""); if (f && f->err) { errno = f->err; return -1; }
  if (isDir(p)) return 0; InodeP i = lookup(p); if (!i) { errno = ENOENT; return -1; } if ((mode & W_OK) && i->ro) { errno = EACCES; return -1; } return 0;
}
extern "C" int sim_unlink(const char* path) { string p = absPath(path); Fault* f = seam("unlink", p, ""); cur->touched.insert(p); if (f && f->err) { errno = f->err; return -1; } InodeP i = lookup(p); if (!i) { errno = ENOENT; return -1; } if (i->ro) { errno = EACCES; return -1; } vfs.erase(p); return 0; }
extern "C" int sim_rename(const char* a, const char* b) { string p = absPath(a), q = absPath(b); Fault* f = seam("rename", p, q); cur->touched.insert(p); cur->touched.insert(q); if (f && f->err) { errno = f->err; return -1; } InodeP i = lookup(p); if (!i) { errno = ENOENT; return -1; } if (i->ro || !isDir(dirOf(q))) { errno = EACCES; return -1; } vfs[q] = i; vfs.erase(p); return 0; }
extern "C" int sim_mkdir(const char* path, int) { string p = absPath(path); seam("mkdir", p, ""); cur->touched.insert(p); if (isDir(p)) { errno = EEXIST; return -1; } vdirs.insert(p); return 0; }
extern "C" int sim_ftruncate(int fd, off_t n) { VFile* v = getfd(fd); if (!v) { errno = EBADF; return -1; } seam("write", v->path, "trunc"); v->ino->data.resize(n); return 0; }
extern "C" int sim_fsync(int fd) { VFile* v = getfd(fd); if (!v) { errno = EBADF; return -1; } Fault* f = seam("fsync", v->path, ""); if (f && f->err) { errno = f->err; return -1; } return 0; }

// stdio streams on top of virtual descriptors
struct Ck { Node* n; int fd; };
static ssize_t ckRead(void* c, char* b, size_t n) { return sim_read(((Ck*)c)->fd, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {   // like libc: loop on short writes, stop on error
  size_t done = 0; while (done < n) { ssize_t r = sim_write(((Ck*)c)->fd, b + done, n - done); if (r <= 0) return done; done += r; } return done;
}
static int ckSeek(void* c, off64_t* o, int w) { off_t r = sim_lseek(((Ck*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { int r = sim_close(((Ck*)c)->fd); delete (Ck*)c; return r; }
static FILE* mkFile(int fd, const char* mode) {
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose}; Ck* c = new Ck{cur, fd}; VFile* v = getfd(fd); if (v->std_) io.seek = 0;
  FILE* f = fopencookie(c, mode, io); setvbuf(f, 0, _IOFBF, 4096); return f;
}
static bool parseMode(const char* m, int& fl) {
  bool plus = strchr(m, '+'); switch (m[0]) { case 'r': fl = plus ? O_RDWR : O_RDONLY; break; case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; default: errno = EINVAL; return false; }
  if (strchr(m, 'x')) fl |= O_EXCL; return true;
}
extern "C" FILE* sim_fopen(const char* p, const char* m) {
  int fl; if (!parseMode(m, fl)) return 0; int fd = sim_open(p, fl, 0666); if (fd < 0) return 0;
  FILE* f = mkFile(fd, m); cur->files[f] = fd; return f;
}
extern "C" FILE* sim_fdopen(int fd, const char* m) { if (!getfd(fd)) { errno = EBADF; return 0; } FILE* f = mkFile(fd, m); cur->files[f] = fd; return f; }
extern "C" int sim_fclose(FILE* f) { if (!f) { raise(SIGSEGV); } if (cur) cur->files.erase(f); return fclose(f); }
extern "C" int sim_fileno(FILE* f) { if (!f) raise(SIGSEGV); if (cur) { auto it = cur->files.find(f); if (it != cur->files.end()) return it->second; for (int k = 0; k < 3; k++) if (cur->stdf[k] == f) return k; } errno = EBADF; return -1; }
extern "C" FILE* sim_stdstream(int k) {
  Node* n = cur; if (n->stdf[k]) return n->stdf[k];
  VFile v; v.ino.reset(new Inode); v.std_ = true; v.path = k == 1 ? "<stdout>" : k == 2 ? "<stderr>" : "<stdin>"; int fd = n->nextfd++; n->fds[fd] = v;
  cookie_io_functions_t io = {ckRead, ckWrite, 0, ckClose}; FILE* f = fopencookie(new Ck{n, fd}, k == 0 ? "r" : "w", io); if (k == 2) setvbuf(f, 0, _IONBF, 0); else setvbuf(f, 0, _IOFBF, 4096); n->stdf[k] = f; return f;
}

// ---------------------------------------------------------- process ends ----
static void flushAll() {
  Node* n = cur; vector<FILE*> v; for (auto& x : n->files) v.push_back(x.first); // order of opening is not observable
  std::sort(v.begin(), v.end(), [&](FILE* a, FILE* b) { return n->files[a] < n->files[b]; });
  for (auto* f : v) fflush(f); if (n->stdf[1]) fflush(n->stdf[1]); if (n->stdf[2]) fflush(n->stdf[2]);
}
extern "C" void sim_exit(int c) { Node* n = cur; if (n->fini) { auto f = n->fini; n->fini = 0; f(); } flushAll(); seam("exit", "", std::to_string(c & 255)); finish("exit", c & 255, ""); }
extern "C" void sim__exit(int c) { seam("exit", "", std::to_string(c & 255)); finish("exit", c & 255, ""); }
extern "C" void sim_abort(void) { finish("signal", SIGABRT, "abort"); }
extern "C" void sim_hang(void) { finish("hang", 0, "no seam crossed within the step limit, or draw limit exceeded"); }
extern "C" char* sim_getenv(const char* k) { if (!cur) return 0; auto it = cur->env.find(k); return it == cur->env.end() ? 0 : (char*)it->second.c_str(); }
extern "C" double sim_now(void) { seam("clock", "", ""); vclock += 1e-4 * (double)(clockR.next() & 4095); return vclock; }
extern "C" void sim_note(const char* k) { faultLog.push_back(k); }
extern "C" unsigned sim_rand_u32(void) { return (unsigned)clockR.next(); }
extern "C" int sim_libc_rand(void) { Node* n = cur; n->libcrand = n->libcrand * 1103515245u + 12345u; return (int)((n->libcrand >> 1) & 0x7fffffff); }
extern "C" void sim_libc_srand(unsigned s) { cur->libcrand = s; }
extern "C" int sim_getpid(void) { return 1000 + (int)(clockR.s & 0xffff) + cur->id; }
extern "C" void sim_emit(const char* p, size_t n) { cur->emitbuf.append(p, n); th(p, n); }
extern "C" void sim_draw(double v) { Node* n = cur; n->draws++; n->drawhash ^= fnv(&v, 8); n->drawhash *= 1099511628211ULL; }
extern "C" int sim_nops(void) { return (int)cur->ops.size(); }
extern "C" const char* sim_op(int k) { return cur->ops[k].c_str(); }
extern "C" void sim_opmark(int k) { cur->curop = k; seam("op", "", cur->ops[k]); }
extern "C" unsigned long* sim_stepcounter(void) { return &cur->steps; }

// ---------------------------------------------------------------- MPI -------
struct Slot { int kind, count, dtype, op, root, comm; map<int, string> contrib; std::set<int> done; string combined; bool ready = false; };
static vector<Slot> slots; struct Msg { int src, dst, tag; string data; }; static vector<Msg> msgs;
static int mpiSize() { int k = 0; for (auto* n : nodes) if (n->inMpi) k++; return k; }
static size_t dsz(int d) { switch (d) { case 1: case 9: case 10: return 1; case 2: case 6: case 4: return 4; default: return 8; } }
static int misuse(const string& w) { if (mpiMisuse.empty()) mpiMisuse = w; finish("mpierr", 1, w); }
static void needMpi(const char* w) { if (!cur->inited) misuse(string(w) + " before MPI_Init"); if (cur->finalized) misuse(string(w) + " after MPI_Finalize"); }
extern "C" int sim_mpi_init(void) { if (cur->inited) misuse("MPI_Init twice"); cur->inited = true; seam("mpi_init", "", ""); return 0; }
extern "C" int sim_mpi_initialized(int* f) { *f = cur->inited; return 0; }
extern "C" int sim_mpi_finalized(int* f) { *f = cur->finalized; return 0; }
extern "C" int sim_mpi_rank(int c, int* r) { needMpi("MPI_Comm_rank"); *r = c == 2 ? 0 : cur->rank; return 0; }
extern "C" int sim_mpi_size(int c, int* s) { needMpi("MPI_Comm_size"); *s = c == 2 ? 1 : mpiSize(); return 0; }
template <class T> static void comb(char* a, const char* b, int n, int op) { T* x = (T*)a; const T* y = (const T*)b; for (int i = 0; i < n; i++) switch (op) { case 1: x[i] += y[i]; break; case 2: x[i] = std::max(x[i], y[i]); break; case 3: x[i] = std::min(x[i], y[i]); break; case 4: x[i] *= y[i]; break; case 5: x[i] = x[i] && y[i]; break; case 6: x[i] = x[i] || y[i]; break; } }
static void combine(string& a, const string& b, int n, int d, int op) { char* p = &a[0]; const char* q = b.data(); switch (d) { case 2: comb<int>(p, q, n, op); break; case 3: comb<double>(p, q, n, op); break; case 4: comb<float>(p, q, n, op); break; case 5: case 8: comb<long>(p, q, n, op); break; case 6: comb<unsigned>(p, q, n, op); break; case 7: comb<unsigned long>(p, q, n, op); break; default: comb<char>(p, q, n, op); } }
extern "C" int sim_mpi_coll(int kind, const void* sb, void* rb, int count, int rcount, int dtype, int op, int root, int comm) {
  needMpi("collective");
  Node* n = cur; size_t bytes = dsz(dtype) * (size_t)count;
  if (comm == 2) { if (sb != (void*)-1 && rb && sb && rb != sb) memcpy(rb, sb, bytes); return 0; }
  int P = mpiSize();
  if (root < 0 || root >= P) misuse("bad root");
  bool amRoot = kind == COLL_ALLREDUCE || kind == COLL_ALLGATHER || n->rank == root;
  if ((kind == COLL_REDUCE || kind == COLL_ALLREDUCE) && amRoot && sb == rb && count > 0) misuse("aliased send and receive buffers in reduction");
  string mine; if (kind == COLL_BCAST) { if (n->rank == root) mine.assign((const char*)sb, bytes); }
  else if (kind == COLL_SCATTER) { if (n->rank == root) mine.assign((const char*)sb, bytes * P); }
  else if (bytes) { const void* s = sb == (void*)-1 ? rb : sb; mine.assign((const char*)s, bytes); }
  int id = n->cseq++; if ((int)slots.size() <= id) { slots.resize(id + 1); Slot& s = slots[id]; s.kind = kind; s.count = count; s.dtype = dtype; s.op = op; s.root = root; s.comm = comm; }
  { Slot& s = slots[id]; if (s.contrib.empty()) { s.kind = kind; s.count = count; s.dtype = dtype; s.op = op; s.root = root; }
    if (s.kind != kind || s.dtype != dtype || s.op != op || s.root != root || s.count != count) misuse("collective mismatch between ranks"); }
  seam("mpi", std::to_string(kind), std::to_string(id));
  slots[id].contrib[n->rank] = mine;
  bool mustWait = amRoot || kind == COLL_BCAST || kind == COLL_BARRIER || kind == COLL_SCATTER;
  if (kind == COLL_BCAST && n->rank == root) mustWait = false;
  if (!mustWait && schedR.u() < (1 - mpiEager)) mustWait = true;
  auto satisfied = [&]() { Slot& s = slots[id]; if (kind == COLL_BCAST || kind == COLL_SCATTER) { if (n->rank != root) return s.contrib.count(root) > 0; } return (int)s.contrib.size() == P; };
  while (mustWait && !satisfied()) { n->st = BLOCKED; n->waitSlot = id; toSched(); }
  n->st = READY; n->waitSlot = -1;
  Slot& s = slots[id];
  if (kind == COLL_REDUCE || kind == COLL_ALLREDUCE) { if (amRoot) {
      if (!s.ready) { vector<int> o; for (auto& c : s.contrib) o.push_back(c.first); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[schedR.below(i)]);
        s.combined = s.contrib[o[0]]; for (size_t i = 1; i < o.size(); i++) combine(s.combined, s.contrib[o[i]], count, dtype, op); s.ready = true; }
      memcpy(rb, s.combined.data(), bytes); } }
  else if (kind == COLL_BCAST) { if (n->rank != root) memcpy(rb, s.contrib[root].data(), bytes); }
  else if (kind == COLL_SCATTER) { memcpy(rb, s.contrib[root].data() + bytes * n->rank, bytes); }
  else if (kind == COLL_GATHER || kind == COLL_ALLGATHER) { if (amRoot) for (auto& c : s.contrib) memcpy((char*)rb + dsz(dtype) * rcount * c.first, c.second.data(), c.second.size()); }
  return 0;
}
extern "C" int sim_mpi_send(const void* b, int n, int d, int dst, int tag, int) { needMpi("MPI_Send"); seam("mpi", "send", std::to_string(dst)); Msg m{cur->rank, dst, tag, string((const char*)b, dsz(d) * n)}; msgs.push_back(m); return 0; }
static int findMsg(int dst, int src, int tag) { for (size_t i = 0; i < msgs.size(); i++) if (msgs[i].dst == dst && (src < 0 || msgs[i].src == src) && (tag < 0 || msgs[i].tag == tag)) return (int)i; return -1; }
extern "C" int sim_mpi_recv(void* b, int n, int d, int src, int tag, int, void* st) {
  needMpi("MPI_Recv"); seam("mpi", "recv", std::to_string(src)); Node* nd = cur; int k;
  while ((k = findMsg(nd->rank, src, tag)) < 0) { nd->st = BLOCKED; nd->waitMsg = true; nd->waitSrc = src; nd->waitTag = tag; toSched(); }
  nd->st = READY; nd->waitMsg = false;
  if (src < 0) { vector<int> c; for (size_t i = 0; i < msgs.size(); i++) if (msgs[i].dst == nd->rank && (tag < 0 || msgs[i].tag == tag)) { bool first = true; for (int j : c) if (msgs[j].src == msgs[i].src) first = false; if (first) c.push_back((int)i); } k = c[schedR.below(c.size())]; }
  size_t m = std::min(msgs[k].data.size(), dsz(d) * n); memcpy(b, msgs[k].data.data(), m); if (st) { int* s = (int*)st; s[0] = msgs[k].src; s[1] = msgs[k].tag; s[2] = 0; s[3] = (int)m; } msgs.erase(msgs.begin() + k); return 0;
}
extern "C" int sim_mpi_finalize(void) { needMpi("MPI_Finalize"); int rc = sim_mpi_coll(COLL_BARRIER, 0, 0, 0, 0, 9, 0, 0, 1); cur->finalized = true; return rc; }
extern "C" int sim_mpi_abort(int c) { finish("exit", c & 255 ? c & 255 : 1, "MPI_Abort"); }

// ------------------------------------------------------------ fibers --------
static void onSignal(int sig, siginfo_t*, void*) {
  if (!cur) { fprintf(stderr, "simulator fault: signal %d outside a node\n", sig); _exit(70); }
  finish("signal", sig, "");
}
// Endless loop in code without step counting: no seam crossed during 25 s of CPU time.
static void onTick(int) { static u64 lastSeams = 0; static int same = 0; if (nseams != lastSeams || !cur) { lastSeams = nseams; same = 0; return; } if (++same >= 25) { same = 0; finish("hang", 0, "no seam crossed within the CPU limit"); } }
static string soBytes(const string& p) { static map<string, string> c; auto it = c.find(p); if (it != c.end()) return it->second; string s; if (!slurp(p, s)) { fprintf(stderr, "cannot read %s\n", p.c_str()); exit(71); } c[p] = s; return s; }
static map<string, string> soPath;
static void fiberMain() {
  Node* n = cur;
  string bytes = soBytes(soPath[n->so]);
  int fd = memfd_create("node", 0); if (fd < 0) { perror("memfd"); _exit(72); }
  size_t o = 0; while (o < bytes.size()) { ssize_t w = write(fd, bytes.data() + o, bytes.size() - o); if (w <= 0) _exit(72); o += w; }
  char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  n->dl = dlopen(p, RTLD_NOW | RTLD_LOCAL); if (!n->dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(73); }
  // fd stays open on purpose: glibc identifies loaded objects by path, so each node needs its own
  static std::set<void*> loaded; if (!loaded.insert(n->dl).second) { fprintf(stderr, "two nodes share one module instance\n"); _exit(76); }
  auto setl = (void (*)(unsigned long))dlsym(n->dl, "node_set_steplimit"); auto ent = (int (*)(int, char**))dlsym(n->dl, "node_entry");
  n->fini = (void (*)(void))dlsym(n->dl, "node_fini"); n->cov = (unsigned char*)dlsym(n->dl, "node_cov");
  if (!ent || !setl) _exit(74);
  setl(stepLimit); optind = 0; opterr = 0;
  vector<char*> av; for (auto& s : n->argv) av.push_back(strdup(s.c_str())); int ac = (int)av.size(); av.push_back(0);
  int rc = ent(n->isMain ? ac : 0, av.data());
  sim_exit(rc);
}
static string esc(const string& s) { string r; char b[8]; for (unsigned char c : s) { if (c <= 32 || c == '%' || c > 126) { snprintf(b, 8, "%%%02X", c); r += b; } else r += (char)c; } return r.empty() ? "%" : r; }
static string unesc(const string& s) { if (s == "%") return ""; string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i]; return r; }

static void runPhase(int ph) {
  curPhase = ph; vector<Node*> mine; vector<Node*> all = nodes; vector<Node*> act;
  for (auto* n : all) if (n->phase == ph) act.push_back(n);
  nodes = act; slots.clear(); msgs.clear(); jobKill = -1; jobKillWhy = "";
  int r = 0; for (auto* n : act) {
    if (n->inMpi) n->rank = r++;
    n->stacksz = 64UL << 20; n->stack = mmap(0, n->stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(n->stack, 4096, PROT_NONE);
    if (heapMode >= 2) { u64 s = heapSeed; patfill((char*)n->stack + n->stacksz - (512 << 10), 512 << 10, splitmix(s)); }
    n->arenaSz = (size_t)arenaMB << 20; n->arena = (char*)mmap(0, n->arenaSz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (n->stack == MAP_FAILED || n->arena == MAP_FAILED) { perror("mmap"); _exit(75); }
    getcontext(&n->ctx); n->ctx.uc_stack.ss_sp = n->stack; n->ctx.uc_stack.ss_size = n->stacksz; n->ctx.uc_link = 0; makecontext(&n->ctx, fiberMain, 0);
  }
  Node* last = 0;
  for (;;) {
    bool alive = false; vector<Node*> run;
    for (auto* n : act) { if (n->st == DONE) continue; alive = true;
      if (n->st == BLOCKED) { bool ok = false; if (n->waitSlot >= 0) { Slot& s = slots[n->waitSlot]; int P = mpiSize(); ok = (int)s.contrib.size() == P || ((s.kind == COLL_BCAST || s.kind == COLL_SCATTER) && n->rank != s.root && s.contrib.count(s.root)); } else if (n->waitMsg) ok = findMsg(n->rank, n->waitSrc, n->waitTag) >= 0; if (!ok) continue; }
      run.push_back(n); }
    if (!alive) break;
    if (jobKill == 0) { for (auto* n : act) if (n->st != DONE && n->inMpi) { n->st = DONE; n->status = "killed"; n->why = jobKillWhy; } jobKill = -2; continue; }
    if (run.empty()) { if (jobKill > 0) { jobKill = 0; continue; } for (auto* n : act) if (n->st != DONE) { n->st = DONE; n->status = "deadlock"; n->why = "blocked with no peer able to make progress"; } break; }
    if (jobKill > 0) jobKill--;
    vector<Node*> el; for (auto* n : run) { if (n->stall > 0) n->stall--; else el.push_back(n); } if (el.empty()) { vclock += 1e-3; continue; }
    Node* pick = 0;
    if (schedMode == "random") pick = el[schedR.below(el.size())];
    else if (schedMode == "list") { auto it = schedList.find(decision ? decision - 1 : 0); if (it != schedList.end()) for (auto* n : el) if (n->id == it->second) pick = n; if (!pick) { for (auto* n : el) if (n == last) pick = n; } if (!pick) pick = el[0]; }
    else { for (auto* n : el) if (n == last) pick = n; if (!pick) pick = el[0]; }
    if (pick != last) { switchLog.push_back(std::make_pair(decision ? decision - 1 : 0, pick->id)); th(&pick->id, sizeof pick->id); }
    last = pick; cur = pick; 
    static ucontext_t* back = &schedCtx; volatile bool first = true;
    getcontext(back);
    if (first) { first = false; setcontext(&pick->ctx); }
    cur = 0;
    if (pick->st == DONE && pick->inMpi && pick->inited && !pick->finalized && jobKill == -1) { jobKill = (int)schedR.below(40) + 1; jobKillWhy = "job aborted after rank " + std::to_string(pick->rank) + " ended: " + pick->status; }
  }
  nodes = all;
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: simrun PLAN RESULT\n"); return 64; }
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  resultPath = argv[2];
  std::ifstream pf(argv[1]); if (!pf) { fprintf(stderr, "no plan\n"); return 65; }
  string line; int ph = 0; Node* last = 0; string outdirs; bool snapAll = true; vdirs.insert("/work"); vdirs.insert("/data");
  while (getline(pf, line)) {
    std::istringstream is(line); string w; if (!(is >> w) || w[0] == '#') continue; vector<string> t; string x; while (is >> x) t.push_back(x);
    if (w == "so") soPath[t[0]] = t[1];
    else if (w == "datafile") lazy[t[0]] = t[1];
    else if (w == "file") { InodeP i(new Inode); i->data = unesc(t[1]); vfs[t[0]] = i; }
    else if (w == "dir") vdirs.insert(t[0]);
    else if (w == "nodir") vdirs.erase(t[0]);
    else if (w == "hide") { lazy.erase(t[0]); vfs.erase(t[0]); }
    else if (w == "sched") { schedMode = t[0]; if (t[0] == "random") { schedR.s = strtoull(t[1].c_str(), 0, 10); schedP = atof(t[2].c_str()); } if (t[0] == "list") { schedR.s = strtoull(t[1].c_str(), 0, 10); for (size_t i = 2; i < t.size(); i++) { size_t c = t[i].find(':'); schedList[strtoull(t[i].c_str(), 0, 10)] = atoi(t[i].c_str() + c + 1); } } }
    else if (w == "heap") { heapMode = atoi(t[0].c_str()); heapSeed = strtoull(t[1].c_str(), 0, 10); }
    else if (w == "clock") { clockR.s = strtoull(t[0].c_str(), 0, 10); vclock = 1.6e9 + (double)(clockR.next() % 100000000ULL); }
    else if (w == "diskcap") diskcap = atol(t[0].c_str());
    else if (w == "steplimit") stepLimit = strtoul(t[0].c_str(), 0, 10);
    else if (w == "eager") mpiEager = atof(t[0].c_str());
    else if (w == "arena") arenaMB = atol(t[0].c_str());
    else if (w == "cov") wantCov = true;
    else if (w == "trace") traceKeep = strtoull(t[0].c_str(), 0, 10);
    else if (w == "phase") ph++;
    else if (w == "node") { Node* n = new Node; n->id = atoi(t[0].c_str()); n->phase = ph; n->so = t[1]; n->isMain = t[2] != "script"; n->inMpi = t[2] == "mpi"; for (size_t i = 3; i < t.size(); i++) n->argv.push_back(unesc(t[i])); nodes.push_back(n); last = n; }
    else if (w == "op") { string s; size_t k = line.find("op"); s = line.substr(k + 3); last->ops.push_back(s); }
    else if (w == "env") last->env[t[0]] = unesc(t[1]);
    else if (w == "fault") { Fault f; f.phase = ph; f.node = t[0] == "*" ? -1 : atoi(t[0].c_str()); f.seam = t[1]; f.path = t[2]; if (f.path.compare(0, 5, "site:") == 0) f.site = atoi(f.path.c_str() + 5); f.nth = atol(t[3].c_str()); f.count = atol(t[4].c_str()); f.act = t[5]; f.arg = t.size() > 6 ? atol(t[6].c_str()) : 0; f.err = 0; if (f.act == "err") { f.err = errByName(t[6]); f.arg = 0; } faults.push_back(f); }
    else { fprintf(stderr, "bad plan line: %s\n", line.c_str()); return 66; }
  }
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
  { struct sigaction st; memset(&st, 0, sizeof st); st.sa_handler = onTick; st.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &st, 0); struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &tv, 0); }
  double v0 = vclock; std::ostringstream R;
  auto snap = [&](int p) { for (auto& x : vfs) if (!x.second->ro) R << "file " << p << " " << x.first << " " << esc(x.second->data) << "\n"; };
  for (int p = 1; p <= ph; p++) { runPhase(p); snap(p); (void)snapAll; }
  for (auto* n : nodes) {
    n->totalsteps += n->steps; R << "node " << n->phase << " " << n->id << " " << n->status << " " << n->code << " " << esc(n->why) << "\n";
    R << "stat " << n->phase << " " << n->id << " seams=" << n->seams << " steps=" << n->totalsteps << " maxsteps=" << std::max(n->maxsteps, n->steps) << " draws=" << n->draws << " allocs=" << n->nalloc << " sites=" << n->sites.size() << " live=" << n->liveBlocks << " livebytes=" << n->liveBytes << " op=" << n->curop;
    for (auto& c : n->cnt) R << " n_" << c.first << "=" << c.second; R << "\n";
    if (!n->memerr.empty()) R << "memerr " << n->phase << " " << n->id << " " << esc(n->memerr) << "\n";
    R << "out " << n->phase << " " << n->id << " " << esc(n->out) << "\n"; R << "err " << n->phase << " " << n->id << " " << esc(n->err) << "\n"; R << "emit " << n->phase << " " << n->id << " " << esc(n->emitbuf) << "\n";
    R << "opened " << n->phase << " " << n->id; for (auto& x : n->opened) R << " " << esc(x); R << "\n"; R << "touched " << n->phase << " " << n->id; for (auto& x : n->touched) R << " " << esc(x); R << "\n";
    if (wantCov && n->cov) { u64 c = 0; string bm; unsigned char acc = 0; for (int i = 0; i < (1 << 17); i++) { if (n->cov[i]) { c++; acc |= 1 << (i & 7); } if ((i & 7) == 7) { bm += (char)acc; acc = 0; } } static const char* hx = "0123456789abcdef"; string h; for (unsigned char b : bm) { h += hx[b >> 4]; h += hx[b & 15]; } R << "cov " << n->phase << " " << n->id << " " << c << " " << h << "\n"; }
  }
  for (size_t i = 0; i < faults.size(); i++) R << "fault " << i << " seen=" << faults[i].seen << " fired=" << faults[i].fired << "\n"; for (auto& f : faults) if (!f.where.empty()) R << "allocfail " << f.where << "\n";
  for (auto& f : faultLog.m) R << "injected " << f.first << " " << f.second << "\n";
  if (!mpiMisuse.empty()) R << "mpimisuse " << esc(mpiMisuse) << "\n";
  if (traceKeep) for (auto& l : traceLog) R << "trace " << esc(l) << "\n";
  R << "switches"; for (auto& s : switchLog) R << " " << s.first << ":" << s.second; R << "\n";
  R << "vtime " << (vclock - v0) << "\nseams " << nseams << "\nhash " << std::hex << thash << std::dec << "\nend\n";
  std::ofstream o(resultPath.c_str(), std::ios::binary); o << R.str(); o.close(); fflush(0); _exit(0);
}
