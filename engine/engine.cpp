// ksym: symbolic executor for LLVM IR.
//
//   ksym prep IN.bc OUT.bc          make every internal symbol externally visible
//   ksym run  X.bc X.so OUTDIR ...  execute ksym_main of X symbolically
//
// The IR is executed in the process that has also loaded the same module as
// native code (X.so): static initialisation and ksym_setup run natively, then
// ksym_main is interpreted on that memory image. Concrete values are computed
// directly; symbolic bytes live in a shadow memory of bit-vector expressions.
// Every branch on a symbolic condition is decided by z3; if both sides are
// feasible the process forks, so each path has its own memory image.
#include "solver.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>

using namespace ksym;
namespace L = llvm;
using u64 = uint64_t;

// ---------------------------------------------------------------- allocation
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static bool g_track; // record allocations of the program under test
static void recAlloc(void* p, size_t n);
static bool recFree(void* p);

extern "C" {
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (g_track) recAlloc(p, n);
  return p;
}
void free(void* p) {
  if (g_track && p) recFree(p);
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (g_track) recAlloc(p, a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  if (g_track && p) recFree(p);
  void* q = __libc_realloc(p, n);
  if (g_track) recAlloc(q, n);
  return q;
}
void* memalign(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (g_track) recAlloc(p, n);
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : 12;
}
}

// ------------------------------------------------------------ shared counters
struct Shared {
  volatile long tokens;
  volatile long paths, done, assumedOut, forks, queries, sat, unsat, unknown;
  volatile long confirmed; // decisions of that kind also put to the solver
  volatile long domain; // decisions about a single byte
  volatile long insts, asserts, assertQueries, violations, unsupported, crashed;
  volatile long solverUs, maxDepth, pathRecords, memChecks, stop, live;
  uint8_t funcHit[1 << 16];
  uint8_t labelHit[4096];
};
static Shared* sh;
static int outFd = -1;
static double startTime, maxSeconds = 600;
static long maxInsts = 30000000, maxViolations = 20, maxPaths = 2000000;
static long recordEvery = 64, maxRecords = 200;
static bool trace;
static pid_t rootPid;

template <typename T> static long inc(volatile T& x, long n = 1) {
  return __sync_add_and_fetch(&x, n);
}

// ------------------------------------------------------------------- memory
struct Val {
  u64 v;
  Expr* e;
};

struct SPage {
  Expr* e[256];
  uint8_t k[256];
  int n;
};

struct Obj {
  uintptr_t hi;
  bool native;
};

struct PathEnd {};

static Ctx ctx;
static Solver* solver;
static std::vector<u64> model;
static uint32_t evalStamp = 1;
static std::map<uintptr_t, Obj> objs;
static uint32_t objGen = 1;
struct OCache { uintptr_t lo, hi; uint32_t gen; };
static OCache ocache[4096];
static std::vector<std::pair<uintptr_t, uintptr_t>> allocas;
static uintptr_t stackLo, stackHi, stackPtr;
static std::vector<std::pair<uintptr_t, uintptr_t>> regions; // library data
static std::unordered_map<u64, SPage*> shadow;
static u64 lastPageKey = ~0ull;
static SPage* lastPage;

static SPage* page(u64 addr) {
  const u64 key = addr >> 8;
  if (key == lastPageKey) return lastPage;
  auto i = shadow.find(key);
  lastPageKey = key;
  return lastPage = i == shadow.end() ? nullptr : i->second;
}
static SPage* makePage(u64 addr) {
  if (SPage* p = page(addr)) return p;
  auto* p = static_cast<SPage*>(__libc_calloc(1, sizeof(SPage)));
  shadow[addr >> 8] = p;
  lastPageKey = addr >> 8;
  return lastPage = p;
}
static bool hasShadow(u64 addr, u64 n) {
  if (shadow.empty()) return false;
  for (u64 a = addr; a < addr + n;) {
    SPage* p = page(a);
    const u64 end = std::min(addr + n, (a | 255) + 1);
    if (p && p->n)
      for (u64 b = a; b < end; ++b)
        if (p->e[b & 255]) return true;
    a = end;
  }
  return false;
}
static void clearShadow(u64 addr, u64 n) {
  if (shadow.empty()) return;
  for (u64 a = addr; a < addr + n;) {
    SPage* p = page(a);
    const u64 end = std::min(addr + n, (a | 255) + 1);
    if (p && p->n)
      for (u64 b = a; b < end; ++b)
        if (p->e[b & 255]) { p->e[b & 255] = nullptr; --p->n; }
    a = end;
  }
}
static void setShadow(u64 a, Expr* e, unsigned k) {
  if (Ctx::isC(e)) {
    *reinterpret_cast<uint8_t*>(a) = static_cast<uint8_t>(e->c >> (8 * k));
    clearShadow(a, 1);
    return;
  }
  SPage* p = makePage(a);
  if (!p->e[a & 255]) ++p->n;
  p->e[a & 255] = e;
  p->k[a & 255] = static_cast<uint8_t>(k);
}
static Expr* byteAt(u64 a) {
  SPage* p = page(a);
  if (p && p->e[a & 255])
    return ctx.extract(p->e[a & 255], 8u * p->k[a & 255], 8);
  return ctx.cst(*reinterpret_cast<uint8_t*>(a), 8);
}

static void recAlloc(void* p, size_t n) {
  if (!p) return;
  g_track = false;
  const auto a = reinterpret_cast<uintptr_t>(p);
  objs[a] = {a + n, true};
  clearShadow(a, n);
  ++objGen;
  g_track = true;
}
static bool recFree(void* p) {
  g_track = false;
  const auto a = reinterpret_cast<uintptr_t>(p);
  auto i = objs.find(a);
  const bool ok = i != objs.end();
  if (ok) {
    clearShadow(a, i->second.hi - a);
    objs.erase(i);
    ++objGen;
  }
  g_track = true;
  return ok;
}

// bounds of the object containing a (0,0 if none)
static std::pair<uintptr_t, uintptr_t> findObj(uintptr_t a) {
  if (a >= stackLo && a < stackHi) {
    size_t lo = 0, hi = allocas.size();
    while (lo < hi) {
      const size_t m = (lo + hi) / 2;
      if (allocas[m].first <= a) lo = m + 1; else hi = m;
    }
    if (lo && a <= allocas[lo - 1].second) return allocas[lo - 1];
    return {0, 0};
  }
  OCache& c = ocache[(a >> 4) & 4095];
  if (c.gen == objGen && a >= c.lo && a < c.hi) return {c.lo, c.hi};
  auto i = objs.upper_bound(a);
  if (i != objs.begin()) {
    --i;
    if (a < i->second.hi || (a == i->first && a == i->second.hi)) {
      c = {i->first, i->second.hi, objGen};
      return {i->first, i->second.hi};
    }
  }
  for (auto& r : regions)
    if (a >= r.first && a < r.second) return r;
  return {0, 0};
}

// -------------------------------------------------------------- decoded code
enum K : uint8_t {
  kBin, kFBin, kICmp, kFCmp, kCast, kLoad, kStore, kAlloca, kGep, kPhi, kSelect,
  kBr, kCondBr, kSwitch, kRet, kCall, kInvoke, kResume, kLandingPad, kExtractV,
  kInsertV, kUnreachable, kFreeze, kFNeg, kAtomicRMW, kCmpXchg, kNop, kExtractE,
  kInsertE, kShuffle, kIntToFp, kFpToInt, kFpCast, kMove
};
struct Leaf { uint32_t off; uint8_t bytes, w; bool fp, ptr; };
struct Edge { int pc; std::vector<std::pair<int, int>> mv; };
struct DFunc;
struct Callee;
struct GepIdx { int op; u64 scale; uint8_t w; };
struct Clause { int kind; u64 ti; }; // 0 catch, 1 filter
struct Extra {
  std::vector<int> ops;
  std::vector<Leaf> leaves;
  std::vector<std::pair<u64, int>> cases; // value, edge
  std::vector<Edge> edges;
  std::vector<GepIdx> gep;
  std::vector<Clause> clauses;
  std::vector<std::pair<int, u64>> byval; // arg slot, size
  Callee* callee = nullptr;
  bool cleanup = false;
  std::vector<int> shuf;
};
struct DI {
  K k;
  uint8_t op, w, w2;
  uint16_t n;
  int dst, a, b, c;
  u64 imm;
  Extra* x;
  const L::Instruction* I;
};
struct DFunc {
  const L::Function* F;
  std::vector<DI> code;
  int nregs = 0;
  int index = 0;
};
using Handler = void (*)(struct Call&);
struct Callee {
  const L::Function* F = nullptr; // has a body to interpret
  DFunc* d = nullptr;
  Handler h = nullptr;
  void* native = nullptr;
  std::string name;
  bool nocheck = false;
  int retKind = 0; // 0 int, 1 double, 2 float, 3 void
  L::FunctionType* ft = nullptr;
};
struct Frame {
  DFunc* f;
  int pc;
  Val* R;
  uintptr_t sp;
  size_t nall;
};
struct Call {
  DI& I;
  std::vector<Val>& a;
  Val ret{0, nullptr};
  Val ret2{0, nullptr};
  Callee* cl;
};

static std::vector<Val> CP; // constants
static std::vector<Frame> frames;
static Val* regBase;
static Val* regTop;
static L::Module* M;
static const L::DataLayout* DL;
static void* soHandle;
static std::map<const L::Function*, Callee*> calleeOf;
static std::map<u64, Callee*> calleeAt;
static std::map<const L::Function*, int> funcIndex;
static std::vector<const L::Function*> funcList;
static std::map<std::string, Handler> handlers;
static std::map<std::string, std::string> overrides;
static long instCount;
static std::unordered_set<Expr*> facts;
static int depth;

struct Input {
  std::string name;
  bool choose;
  u64 value;
  std::vector<Expr*> bytes;
};
static std::vector<Input> inputs;
struct Obs { std::string name; std::vector<Expr*> bytes; bool num; Val v; };
static std::vector<Obs> observations;
static std::map<std::string, int> labelIds;
struct VByte { uint8_t b; Expr* e; };
static std::map<std::string, std::vector<VByte>> vfiles;

[[noreturn]] static void endPath();
static bool decide(Expr* c);
[[noreturn]] static void unsupported(const std::string& what);

static u64 evalM(Expr* e) { return ctx.eval(e, model, ++evalStamp); }
static Expr* E(const Val& v, unsigned w) { return v.e ? v.e : ctx.cst(v.v, w); }
static Val mk(Expr* e) {
  return Ctx::isC(e) ? Val{e->c, nullptr} : Val{0, e};
}

// ------------------------------------------------------------------- output
static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
static void outLine(const std::string& s) {
  const std::string t = s + "\n";
  if (write(outFd, t.data(), t.size()) < 0) {}
}
static std::string hexOf(const std::vector<Expr*>& v) {
  std::string r;
  for (auto* e : v) { char b[4]; snprintf(b, 4, "%02x", static_cast<unsigned>(evalM(e) & 255)); r += b; }
  return r;
}
static std::string inputsJson() {
  std::string r = "[";
  for (auto& i : inputs) {
    if (r.size() > 1) r += ',';
    r += "[\"" + esc(i.name) + "\",";
    if (i.choose) r += std::to_string(i.value);
    else r += "\"" + hexOf(i.bytes) + "\"";
    r += "]";
  }
  return r + "]";
}
static std::string shortName(const L::Function* F) {
  return L::demangle(F->getName().str());
}
static std::string backtrace() {
  std::string r = "[";
  int n = 0;
  for (auto i = frames.rbegin(); i != frames.rend() && n < 12; ++i, ++n) {
    if (n) r += ',';
    r += "\"" + esc(shortName(i->f->F).substr(0, 160)) + "\"";
  }
  return r + "]";
}
static void violation(const std::string& kind, const std::string& label) {
  const long n = inc(sh->violations);
  outLine("{\"t\":\"viol\",\"kind\":\"" + kind + "\",\"label\":\"" + esc(label) +
          "\",\"inputs\":" + inputsJson() + ",\"stack\":" + backtrace() + "}");
  if (n >= maxViolations) sh->stop = 1;
}
[[noreturn]] static void fatal(const std::string& kind, const std::string& label) {
  violation(kind, label);
  endPath();
}
struct NotDecoded {};
static bool decodingAhead; // before the first path: nothing is reported yet
[[noreturn]] static void unsupported(const std::string& what) {
  if (decodingAhead) throw NotDecoded();
  inc(sh->unsupported);
  outLine("{\"t\":\"unsup\",\"what\":\"" + esc(what) + "\",\"inputs\":" +
          inputsJson() + ",\"stack\":" + backtrace() + "}");
  endPath();
}
static void pathRecord() {
  const long n = inc(sh->paths);
  if (n > maxPaths) sh->stop = 3;
  bool rec = n <= recordEvery;
  if (!rec) {
    u64 h = static_cast<u64>(n) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    rec = h % static_cast<u64>(std::max(1L, n / recordEvery)) == 0;
  }
  if (!rec || inc(sh->pathRecords) > maxRecords) return;
  std::string r = "{\"t\":\"path\",\"inputs\":" + inputsJson() + ",\"obs\":[";
  bool first = true;
  for (auto& o : observations) {
    if (!first) r += ',';
    first = false;
    r += "[\"" + esc(o.name) + "\",";
    if (o.num) r += "\"" + std::to_string(o.v.e ? evalM(o.v.e) : o.v.v) + "\"";
    else r += "\"" + hexOf(o.bytes) + "\"";
    r += "]";
  }
  outLine(r + "]}");
}

// ------------------------------------------------------------ paths, forking
static std::vector<pid_t> kids;
static bool haveToken; // this process runs in parallel with its parent

static void reap() {
  for (size_t i = 0; i < kids.size();) {
    int st = 0;
    const pid_t p = waitpid(kids[i], &st, WNOHANG);
    if (p == kids[i]) {
      if (!WIFEXITED(st) || WEXITSTATUS(st)) inc(sh->crashed);
      kids.erase(kids.begin() + static_cast<long>(i));
    } else if (p < 0)
      kids.erase(kids.begin() + static_cast<long>(i));
    else
      ++i;
  }
}

// Processes still running in parallel are taken over by the root process.
[[noreturn]] static void finish() {
  inc(sh->insts, instCount);
  reap();
  if (haveToken) inc(sh->tokens);
  inc(sh->live, -1);
  _exit(0);
}

[[noreturn]] static void endPath() { finish(); }

// returns true in the child
static bool forkPath() {
  if (sh->stop) { finish(); }
  if (now() - startTime > maxSeconds) { sh->stop = 2; finish(); }
  reap();
  bool parallel = false;
  for (long t = sh->tokens; t > 0; t = sh->tokens)
    if (__sync_bool_compare_and_swap(&sh->tokens, t, t - 1)) { parallel = true; break; }
  inc(sh->forks);
  inc(sh->live);
  const pid_t p = fork();
  if (p < 0) { inc(sh->live, -1); unsupported("fork failed"); }
  if (p == 0) {
    kids.clear();
    instCount = 0;
    haveToken = parallel;
    ++depth;
    if (depth > sh->maxDepth) sh->maxDepth = depth;
    return true;
  }
  kids.push_back(p);
  if (!parallel) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) inc(sh->crashed);
    kids.pop_back();
    if (sh->stop) finish();
  }
  return false;
}

static std::vector<Expr*> solverQueue; // facts the solver has not been told yet
static int query(Expr* e, std::vector<u64>& m) {
  inc(sh->queries);
  const double t = now();
  for (Expr* x : solverQueue) solver->add(x);
  solverQueue.clear();
  const int r = solver->check(e, m, evalStamp);
  inc(sh->solverUs, static_cast<long>((now() - t) * 1e6));
  if (r == 1) inc(sh->sat); else if (r == 0) inc(sh->unsat); else inc(sh->unknown);
  if (r < 0) unsupported("solver returned unknown");
  return r;
}

// Exact reasoning about conditions over a single input byte: the set of values
// each byte can still take, given the conditions on that byte alone. A byte is
// tied once it occurs in a condition with others; then only emptiness is exact.
struct Dom {
  u64 b[4];
  bool has(unsigned v) const { return b[v >> 6] >> (v & 63) & 1; }
  int first() const {
    for (int i = 0; i < 4; ++i) if (b[i]) return i * 64 + __builtin_ctzll(b[i]);
    return -1;
  }
  int count() const { int n = 0; for (u64 x : b) n += __builtin_popcountll(x); return n; }
};
static std::vector<Dom> dom;
static std::vector<char> tied;
static std::unordered_map<Expr*, Dom> truths;
static void growDom() {
  while (dom.size() < ctx.vars.size()) {
    dom.push_back({{~0ull, ~0ull, ~0ull, ~0ull}});
    tied.push_back(ctx.vars[tied.size()]->w != 8);
  }
}
static bool oneByte(Expr* c) { return c->dep >= 0 && ctx.vars[static_cast<size_t>(c->dep)]->w == 8; }
static const Dom& truth(Expr* c) {
  auto i = truths.find(c);
  if (i != truths.end()) return i->second;
  static std::vector<u64> m;
  m.resize(ctx.vars.size());
  Dom d{};
  for (unsigned v = 0; v < 256; ++v) {
    m[static_cast<size_t>(c->dep)] = v;
    if (ctx.eval(c, m, ++evalStamp)) d.b[v >> 6] |= 1ull << (v & 63);
  }
  return truths.emplace(c, d).first->second;
}
static Dom meet(const Dom& x, const Dom& y) {
  return {{x.b[0] & y.b[0], x.b[1] & y.b[1], x.b[2] & y.b[2], x.b[3] & y.b[3]}};
}
static void tie(Expr* c) {
  static std::unordered_set<Expr*> done; // whatever is in here has been tied already
  std::vector<Expr*> st{c};
  while (!st.empty()) {
    Expr* x = st.back();
    st.pop_back();
    if (x->dep == -1 || !done.insert(x).second) continue;
    if (x->op == Op::Var) tied[x->c] = 1;
    for (Expr* y : {x->a, x->b, x->k}) if (y) st.push_back(y);
  }
}
// Range and known bits of a value, given the values each byte can still take.
// Only ever used to show that a branch cannot be taken.
struct Abs { u64 lo, hi, zero, one; }; // zero, one: bits known to be so
static Abs norm(Abs r, unsigned w) {
  const u64 m = mask(w);
  r.one &= m;
  r.zero |= ~m;
  if (r.lo < r.one) r.lo = r.one;
  if (r.hi > (~r.zero & m)) r.hi = ~r.zero & m;
  if (r.lo > r.hi) return {r.lo, r.lo, ~r.lo, r.lo}; // contradiction: any value will do
  // the leading bits that both ends share
  const u64 x = r.lo ^ r.hi, same = x ? ~(~0ull >> __builtin_clzll(x)) : ~0ull;
  r.one |= r.lo & same;
  r.zero |= ~r.lo & same;
  return r;
}
static std::unordered_map<Expr*, Abs> absMemo;
static Abs absOf(Expr* e) {
  if (e->op == Op::Const) return {e->c, e->c, ~e->c, e->c};
  const unsigned w = e->w;
  const u64 m = mask(w);
  if (e->op == Op::Var) {
    if (e->c >= dom.size() || w != 8) return norm({0, m, ~m, 0}, w);
    const Dom& d = dom[e->c];
    Abs r{~0ull, 0, ~0ull, ~0ull};
    for (unsigned v = 0; v < 256; ++v)
      if (d.has(v)) {
        if (r.hi == 0 && r.lo == ~0ull) r.lo = v;
        r.hi = v;
        r.one &= v;
        r.zero &= ~static_cast<u64>(v);
      }
    return r;
  }
  const auto i = absMemo.find(e);
  if (i != absMemo.end()) return i->second;
  Abs r{e->lo, e->hi, ~m, 0};
  const Abs a = absOf(e->a);
  const auto boolean = [&r](bool can0, bool can1) { r = {can0 ? 0ull : 1ull, can1 ? 1ull : 0ull, ~1ull | (can1 ? 0 : 1), can0 ? 0ull : 1ull}; };
  if (e->op == Op::Ite) {
    if (a.lo == 1) r = absOf(e->b);
    else if (a.hi == 0) r = absOf(e->k);
    else {
      const Abs x = absOf(e->b), y = absOf(e->k);
      r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.zero & y.zero, x.one & y.one};
    }
  } else if (w == 1 && oneByte(e)) {
    const Dom &t = truth(e), &d = dom[static_cast<size_t>(e->dep)];
    bool c0 = false, c1 = false;
    for (int k = 0; k < 4; ++k) c1 |= (d.b[k] & t.b[k]) != 0, c0 |= (d.b[k] & ~t.b[k]) != 0;
    boolean(c0, c1);
  } else {
    const Abs b = e->b ? absOf(e->b) : Abs{};
    const bool k = b.lo == b.hi && e->b;
    const unsigned aw = e->a->w;
    const auto cmp = [&](u64 alo, u64 ahi, u64 blo, u64 bhi, bool orEq) {
      const bool can1 = orEq ? alo <= bhi : alo < bhi, can0 = orEq ? ahi > blo : ahi >= blo;
      boolean(can0, can1);
    };
    switch (e->op) {
    case Op::And: r.one = a.one & b.one; r.zero |= a.zero | b.zero; break;
    case Op::Or: r.one = a.one | b.one; r.zero |= a.zero & b.zero; break;
    case Op::Xor: r.one = (a.one & b.zero) | (a.zero & b.one); r.one &= m; r.zero |= (a.zero & b.zero) | (a.one & b.one); break;
    case Op::Add: {
      const __uint128_t l = static_cast<__uint128_t>(a.lo) + b.lo, h = static_cast<__uint128_t>(a.hi) + b.hi;
      if (h <= m || l > m) r.lo = std::max(r.lo, static_cast<u64>(l) & m), r.hi = std::min(r.hi, static_cast<u64>(h) & m);
      break;
    }
    case Op::Sub: if (a.lo >= b.hi) r.lo = std::max(r.lo, a.lo - b.hi), r.hi = std::min(r.hi, a.hi - b.lo);
      else if (a.hi < b.lo) r.lo = std::max(r.lo, (a.lo - b.hi) & m), r.hi = std::min(r.hi, (a.hi - b.lo) & m);
      break;
    case Op::Shl: if (k && b.lo < w) { r.zero |= (a.zero << b.lo) | ((1ull << b.lo) - 1); r.one |= a.one << b.lo & m; } break;
    case Op::LShr: if (k && b.lo < w) { r.zero |= ~(m >> b.lo) | (a.zero & m) >> b.lo; r.one |= a.one >> b.lo; r.hi = std::min(r.hi, a.hi >> b.lo); } break;
    case Op::ZExt: r = {a.lo, a.hi, a.zero, a.one}; break;
    case Op::SExt: if (a.zero >> (aw - 1) & 1) r = {a.lo, a.hi, a.zero, a.one};
      else if (a.one >> (aw - 1) & 1) {
        const u64 up = m & ~mask(aw);
        r = {a.lo | up, a.hi | up, (a.zero & mask(aw)) | ~m, a.one | up};
      }
      break;
    case Op::Extract: r.one |= (a.one >> e->c) & m; r.zero |= (a.zero >> e->c) & m; break;
    case Op::Concat: {
      const unsigned s = e->b->w;
      r.one |= (a.one << s) | b.one;
      r.zero |= (a.zero << s & m & ~mask(s)) | (b.zero & mask(s));
      r.lo = std::max(r.lo, a.lo << s | b.lo);
      r.hi = std::min(r.hi, a.hi << s | b.hi);
      break;
    }
    case Op::Eq: {
      const bool differ = a.hi < b.lo || b.hi < a.lo || (a.one & b.zero & mask(aw)) || (a.zero & b.one & mask(aw));
      boolean(!(a.lo == a.hi && k && a.lo == b.lo), !differ);
      break;
    }
    case Op::Ult: cmp(a.lo, a.hi, b.lo, b.hi, false); break;
    case Op::Ule: cmp(a.lo, a.hi, b.lo, b.hi, true); break;
    case Op::Slt: case Op::Sle: {
      const u64 top = 1ull << (aw - 1);
      const bool ka = (a.zero | a.one) & top, kb = (b.zero | b.one) & top;
      if (ka && kb) cmp(a.lo ^ top, a.hi ^ top, b.lo ^ top, b.hi ^ top, e->op == Op::Sle);
      break;
    }
    default: break;
    }
  }
  r = norm(r, w);
  absMemo.emplace(e, r);
  return r;
}
static bool impossible(Expr* c) {
  absMemo.clear();
  return absOf(c).hi == 0;
}
// 1 feasible (m filled), 0 not, -1 the solver has to decide
static int quick(Expr* c, std::vector<u64>& m) {
  growDom();
  if (!oneByte(c)) {
    if (!impossible(c)) return -1;
    inc(sh->domain);
    return 0;
  }
  const size_t v = static_cast<size_t>(c->dep);
  const Dom d = meet(truth(c), dom[v]);
  const int x = d.first();
  if (x < 0) { inc(sh->domain); return 0; }
  if (tied[v]) return -1;
  inc(sh->domain);
  m = model;
  m[v] = static_cast<u64>(x);
  return 1;
}
static int feasible(Expr* e, std::vector<u64>& m) {
  const int r = quick(e, m);
  if (r < 0) return query(e, m);
  if (sh->domain % 61 == 0) { // have a sample of these answers confirmed
    std::vector<u64> m2;
    inc(sh->confirmed);
    if (query(e, m2) != r) unsupported("solver and byte domains disagree");
  }
  return r;
}
static void noteFact(Expr* c) {
  growDom();
  if (oneByte(c)) {
    dom[static_cast<size_t>(c->dep)] = meet(truth(c), dom[static_cast<size_t>(c->dep)]);
    return;
  }
  if (c->op == Op::And && c->w == 1) { facts.insert(c->a); facts.insert(c->b); noteFact(c->a); noteFact(c->b); return; }
  if (c->op == Op::Xor && c->w == 1 && Ctx::isC(c->b, 1) && c->a->op == Op::Or) {
    Expr *x = ctx.notE(c->a->a), *y = ctx.notE(c->a->b);
    facts.insert(x), facts.insert(y);
    noteFact(x), noteFact(y);
    return;
  }
  tie(c);
}
static void addFact(Expr* c, bool toSolver) {
  if (Ctx::isC(c)) return;
  if (!facts.insert(c).second) return;
  if (toSolver) {
    if (c->op == Op::And && c->w == 1) { facts.insert(c->a); facts.insert(c->b); }
    noteFact(c);
    solverQueue.push_back(c);
  } else if (oneByte(c)) noteFact(c); // follows from the others
}
// the value of a byte that can only have one
static Expr* fixedByte(Expr* e) {
  if (e->op != Op::Var || e->c >= dom.size()) return e;
  const Dom& d = dom[e->c];
  return d.count() == 1 ? ctx.cst(static_cast<u64>(d.first()), 8) : e;
}

// the same condition without the parts that the single-byte facts settle
static Expr* reduceRec(Expr* e, int& budget) {
  if (--budget < 0 || e->op == Op::Const) return e;
  if (oneByte(e)) {
    const Dom &t = truth(e), &d = dom[static_cast<size_t>(e->dep)];
    bool c0 = false, c1 = false;
    for (int k = 0; k < 4; ++k) c1 |= (d.b[k] & t.b[k]) != 0, c0 |= (d.b[k] & ~t.b[k]) != 0;
    return c0 && c1 ? e : ctx.cst(c1, 1);
  }
  if (e->w != 1) return e;
  if (e->op == Op::And || e->op == Op::Or) {
    Expr *x = reduceRec(e->a, budget), *y = reduceRec(e->b, budget);
    return x == e->a && y == e->b ? e : ctx.bin(e->op, x, y);
  }
  if (e->op == Op::Xor && Ctx::isC(e->b, 1)) {
    Expr* x = reduceRec(e->a, budget);
    return x == e->a ? e : ctx.notE(x);
  }
  return e;
}
static Expr* reduce(Expr* e) {
  if (Ctx::isC(e) || e->w != 1) return e;
  growDom();
  int budget = 200;
  return reduceRec(e, budget);
}

// the parts of a conjunction (or disjunction) of single-byte facts about
// bytes that no other fact connects
static bool simpleParts(Expr* e, Op op, std::vector<Expr*>& out) {
  if (oneByte(e)) {
    if (tied[static_cast<size_t>(e->dep)] || out.size() == 3) return false;
    out.push_back(e);
    return true;
  }
  return e->op == op && e->w == 1 && simpleParts(e->a, op, out) && simpleParts(e->b, op, out);
}
static bool decide(Expr* c);
static int decideParts(Expr* c) {
  Expr* e = c;
  bool neg = false;
  if (e->op == Op::Xor && Ctx::isC(e->b, 1)) e = e->a, neg = true;
  if ((e->op != Op::And && e->op != Op::Or) || oneByte(e)) return -1;
  std::vector<Expr*> parts;
  if (!simpleParts(e, e->op, parts)) return -1;
  const bool isAnd = e->op == Op::And;
  for (Expr* p : parts)
    if (decide(p) != isAnd) return neg == isAnd;
  return neg != isAnd;
}

// concrete truth value of c in this process (forks if both are possible)
// Which side of a decision has more values left (so that the other is explored
// by the forked process and chains of processes stay short)?
static bool mostlyTrue(Expr* c) {
  if (oneByte(c)) {
    growDom();
    const Dom& d = dom[static_cast<size_t>(c->dep)];
    return 2 * meet(d, truth(c)).count() > d.count();
  }
  if (c->op == Op::Xor && Ctx::isC(c->b)) return !mostlyTrue(c->a);
  return c->op != Op::Eq && c->op != Op::And;
}
static bool decide(Expr* c) {
  c = reduce(c);
  if (Ctx::isC(c)) return c->c;
  Expr* nc = ctx.notE(c);
  if (facts.count(c)) return true;
  if (facts.count(nc)) return false;
  const int parts = decideParts(c);
  if (parts >= 0) return parts;
  const bool mv = evalM(c);
  Expr* other = mv ? nc : c;
  std::vector<u64> m2;
  if (feasible(other, m2) == 0) {
    addFact(mv ? c : nc, false);
    return mv;
  }
  const bool childTrue = !mostlyTrue(c);
  const bool r = forkPath() ? childTrue : !childTrue;
  if (r != mv) model = m2;
  addFact(r ? c : nc, true);
  return r;
}

static int mode; // see ksym_mode

// split into one process per feasible value
static u64 concretize(Val v, unsigned w) {
  if (!v.e) return v.v;
  for (;;) {
    const u64 x = evalM(v.e);
    if (decide(ctx.bin(Op::Eq, v.e, ctx.cst(x, w)))) return x;
  }
}

static void assume(Expr* c) {
  c = reduce(c);
  if (Ctx::isC(c)) {
    if (!c->c) { inc(sh->assumedOut); endPath(); }
    return;
  }
  if (facts.count(c)) return;
  if (!evalM(c)) {
    std::vector<u64> m2;
    if (feasible(c, m2) == 0) { inc(sh->assumedOut); endPath(); }
    model = m2;
  }
  addFact(c, true);
}

// check that c holds on this path; reports a violation otherwise
static void check(Expr* c, const std::string& kind, const std::string& label) {
  c = reduce(c);
  if (Ctx::isC(c) && c->c) return;
  if (facts.count(c)) return;
  Expr* nc = ctx.notE(c);
  if (!evalM(c))
    violation(kind, label);
  else {
    std::vector<u64> m2;
    inc(sh->assertQueries);
    if (query(nc, m2) == 0) { addFact(c, false); return; }
    std::swap(model, m2);
    violation(kind, label);
    std::swap(model, m2);
  }
  assume(c);
}

// ------------------------------------------------------------------- access
static void memError(uintptr_t a, u64 n, bool write) {
  char b[200];
  auto o = findObj(a);
  if (o.first)
    snprintf(b, 200, "%s of %lu bytes at offset %ld of an object of %ld bytes",
        write ? "write" : "read", static_cast<unsigned long>(n),
        static_cast<long>(a - o.first), static_cast<long>(o.second - o.first));
  else
    snprintf(b, 200, "%s of %lu bytes outside every live object (near %s)",
        write ? "write" : "read", static_cast<unsigned long>(n),
        a < 4096 ? "null" : "nothing");
  fatal("memory", b);
}
static inline void checkAccess(uintptr_t a, u64 n, bool write) {
  const auto o = findObj(a);
  if (!o.first || a + n > o.second) memError(a, n, write);
}

static Val loadAt(u64 a, unsigned bytes, unsigned w) {
  if (!hasShadow(a, bytes)) {
    u64 v = 0;
    memcpy(&v, reinterpret_cast<void*>(a), bytes);
    return {v & mask(w), nullptr};
  }
  // whole expression stored here?
  SPage* p = page(a);
  Expr* e = p ? p->e[a & 255] : nullptr;
  if (e && p->k[a & 255] == 0 && e->w == bytes * 8) {
    bool same = true;
    for (unsigned i = 1; i < bytes && same; ++i) {
      SPage* q = page(a + i);
      same = q && q->e[(a + i) & 255] == e && q->k[(a + i) & 255] == i;
    }
    if (same) return mk(ctx.extract(e, 0, w));
  }
  Expr* r = fixedByte(byteAt(a));
  for (unsigned i = 1; i < bytes; ++i) r = ctx.concat(fixedByte(byteAt(a + i)), r);
  return mk(ctx.extract(r, 0, w));
}
static void storeAt(u64 a, unsigned bytes, unsigned w, const Val& v) {
  if (!v.e) {
    memcpy(reinterpret_cast<void*>(a), &v.v, bytes);
    if (!shadow.empty()) clearShadow(a, bytes);
    return;
  }
  Expr* e = w == bytes * 8 ? v.e : ctx.zext(v.e, bytes * 8);
  const u64 mv = evalM(e);
  memcpy(reinterpret_cast<void*>(a), &mv, bytes);
  for (unsigned i = 0; i < bytes; ++i) {
    // keep single-byte structure when it is visible (e.g. a concat of bytes)
    setShadow(a + i, e, i);
  }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  if (!hasShadow(s, n)) {
    memmove(reinterpret_cast<void*>(d), reinterpret_cast<void*>(s), n);
    clearShadow(d, n);
    return;
  }
  std::vector<std::pair<Expr*, uint8_t>> t(n);
  for (u64 i = 0; i < n; ++i) {
    SPage* p = page(s + i);
    if (p && p->e[(s + i) & 255]) t[i] = {p->e[(s + i) & 255], p->k[(s + i) & 255]};
  }
  memmove(reinterpret_cast<void*>(d), reinterpret_cast<void*>(s), n);
  clearShadow(d, n);
  for (u64 i = 0; i < n; ++i)
    if (t[i].first) setShadow(d + i, t[i].first, t[i].second);
}

// symbolic address: make it concrete (writes) or build a table lookup (reads)
static bool inObject(Expr* ae, uintptr_t& lo, uintptr_t& hi, u64 n) {
  const u64 a = evalM(ae);
  const auto o = findObj(a);
  if (!o.first || a + n > o.second) {
    // the current model is outside: that is a violation of memory safety
    memError(a, n, false);
  }
  lo = o.first; hi = o.second;
  Expr* in = ctx.bin(Op::And, ctx.bin(Op::Ule, ctx.cst(lo, 64), ae),
      ctx.bin(Op::Ule, ae, ctx.cst(hi - n, 64)));
  return decide(in); // other side explored in another process
}
static Val loadSym(Expr* ae, unsigned bytes, unsigned w) {
  uintptr_t lo, hi;
  while (!inObject(ae, lo, hi, bytes)) {}
  if (hi - lo <= 8192) {
    // table lookup if accesses are aligned to the element size
    Expr* rel = ctx.bin(Op::Sub, ae, ctx.cst(lo, 64));
    const u64 r0 = evalM(rel) % bytes;
    Expr* al = ctx.bin(Op::Eq, ctx.bin(Op::URem, rel, ctx.cst(bytes, 64)), ctx.cst(r0, 64));
    std::vector<u64> m2;
    const bool ok = Ctx::isC(al) ? al->c : feasible(ctx.notE(al), m2) == 0;
    if (ok) {
      std::map<std::pair<u64, Expr*>, std::vector<u64>> groups;
      for (u64 a = lo + r0; a + bytes <= hi; a += bytes) {
        const Val v = loadAt(a, bytes, w);
        groups[{v.v, v.e}].push_back(a);
      }
      Expr* res = nullptr;
      size_t best = 0;
      for (auto& g : groups) if (g.second.size() > best) { best = g.second.size(); res = E({g.first.first, g.first.second}, w); }
      Expr* def = res;
      for (auto& g : groups) {
        Expr* v = E({g.first.first, g.first.second}, w);
        if (v == def) continue;
        Expr* c = ctx.f();
        for (u64 a : g.second) c = ctx.bin(Op::Or, c, ctx.bin(Op::Eq, ae, ctx.cst(a, 64)));
        res = ctx.ite(c, v, res);
      }
      return mk(res);
    }
  }
  return loadAt(concretize({0, ae}, 64), bytes, w);
}

// ----------------------------------------------------------------- decoding
static unsigned intW(L::Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static bool leavesOf(L::Type* t, uint32_t off, std::vector<Leaf>& out) {
  if (const unsigned w = intW(t)) {
    if (w > 64) return false;
    out.push_back({off, static_cast<uint8_t>(DL->getTypeStoreSize(t).getFixedValue()),
        static_cast<uint8_t>(w), t->isFloatingPointTy(), t->isPointerTy()});
    return true;
  }
  if (auto* s = L::dyn_cast<L::StructType>(t)) {
    const auto* sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i)
      if (!leavesOf(s->getElementType(i), off + static_cast<uint32_t>(sl->getElementOffset(i)), out)) return false;
    return true;
  }
  if (auto* a = L::dyn_cast<L::ArrayType>(t)) {
    const auto sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); ++i)
      if (!leavesOf(a->getElementType(), off + static_cast<uint32_t>(i * sz), out)) return false;
    return true;
  }
  if (auto* v = L::dyn_cast<L::FixedVectorType>(t)) {
    if (v->getElementType()->isIntegerTy(1)) { // bit-packed in memory
      for (unsigned i = 0; i < v->getNumElements(); ++i)
        out.push_back({off + i, 1, 1, false, false});
      return true;
    }
    const auto sz = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); ++i)
      if (!leavesOf(v->getElementType(), off + static_cast<uint32_t>(i * sz), out)) return false;
    return true;
  }
  return false;
}
static std::map<L::Type*, std::vector<Leaf>*> leafCache;
static const std::vector<Leaf>& leaves(L::Type* t) {
  auto& p = leafCache[t];
  if (!p) {
    p = new std::vector<Leaf>;
    if (!t->isVoidTy() && !leavesOf(t, 0, *p)) {
      std::string s; L::raw_string_ostream os(s); t->print(os);
      unsupported("type " + os.str());
    }
  }
  return *p;
}
static int slots(L::Type* t) { return static_cast<int>(leaves(t).size()); }
static int slotOffset(L::Type* t, unsigned idx) { // first slot of element idx
  int r = 0;
  if (auto* s = L::dyn_cast<L::StructType>(t)) {
    for (unsigned i = 0; i < idx; ++i) r += slots(s->getElementType(i));
    return r;
  }
  if (auto* a = L::dyn_cast<L::ArrayType>(t)) return static_cast<int>(idx) * slots(a->getElementType());
  if (auto* v = L::dyn_cast<L::VectorType>(t)) return static_cast<int>(idx) * slots(v->getElementType());
  return 0;
}
static L::Type* elemType(L::Type* t, unsigned idx) {
  if (auto* s = L::dyn_cast<L::StructType>(t)) return s->getElementType(idx);
  if (auto* a = L::dyn_cast<L::ArrayType>(t)) return a->getElementType();
  return L::cast<L::VectorType>(t)->getElementType();
}

static Callee* calleeFor(const L::Function* F);

static void* symAddr(const std::string& n) {
  void* p = dlsym(soHandle, n.c_str());
  return p ? p : dlsym(RTLD_DEFAULT, n.c_str());
}

static std::map<const L::GlobalValue*, u64> gvAddr;
static u64 addrOfGlobal(const L::GlobalValue* g) {
  auto i = gvAddr.find(g);
  if (i != gvAddr.end()) return i->second;
  if (auto* a = L::dyn_cast<L::GlobalAlias>(g)) {
    if (auto* t = L::dyn_cast<L::GlobalValue>(a->getAliasee())) return gvAddr[g] = addrOfGlobal(t);
  }
  u64 r = reinterpret_cast<u64>(symAddr(g->getName().str()));
  if (!r && L::isa<L::Function>(g)) {
    // only called directly (e.g. an intrinsic-like function): give it a unique fake address
    static u64 fake = 0x10000;
    r = fake += 16;
  }
  if (!r && !g->hasExternalWeakLinkage()) {
    fprintf(stderr, "no address for global %s\n", g->getName().str().c_str());
  }
  if (auto* f = L::dyn_cast<L::Function>(g)) {
    gvAddr[g] = r;
    Callee* c = calleeFor(f);
    calleeAt.emplace(r, c);
  }
  return gvAddr[g] = r;
}

static bool constVals(const L::Constant* c, std::vector<Val>& out) {
  L::Type* t = c->getType();
  if (auto* ci = L::dyn_cast<L::ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return false;
    out.push_back({ci->getZExtValue(), nullptr});
    return true;
  }
  if (auto* cf = L::dyn_cast<L::ConstantFP>(c)) {
    out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr});
    return true;
  }
  if (L::isa<L::ConstantPointerNull>(c)) { out.push_back({0, nullptr}); return true; }
  if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c)) {
    for (int i = slots(t); i; --i) out.push_back({0, nullptr});
    return true;
  }
  if (auto* g = L::dyn_cast<L::GlobalValue>(c)) {
    out.push_back({addrOfGlobal(g), nullptr});
    return true;
  }
  if (auto* a = L::dyn_cast<L::ConstantAggregate>(c)) {
    for (unsigned i = 0; i < a->getNumOperands(); ++i)
      if (!constVals(a->getOperand(i), out)) return false;
    return true;
  }
  if (auto* d = L::dyn_cast<L::ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < d->getNumElements(); ++i)
      if (!constVals(d->getElementAsConstant(i), out)) return false;
    return true;
  }
  if (auto* e = L::dyn_cast<L::ConstantExpr>(c)) {
    std::vector<Val> o;
    const auto op0 = [&](unsigned i) {
      std::vector<Val> v;
      if (!constVals(e->getOperand(i), v) || v.size() != 1) return u64{0};
      return v[0].v;
    };
    const unsigned w = intW(t);
    switch (e->getOpcode()) {
    case L::Instruction::GetElementPtr: {
      L::APInt off(64, 0);
      if (!L::cast<L::GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return false;
      out.push_back({op0(0) + off.getZExtValue(), nullptr});
      return true;
    }
    case L::Instruction::BitCast: case L::Instruction::IntToPtr:
    case L::Instruction::PtrToInt: case L::Instruction::Trunc:
    case L::Instruction::ZExt: case L::Instruction::AddrSpaceCast:
      out.push_back({op0(0) & mask(w), nullptr});
      return true;
    case L::Instruction::Add: out.push_back({(op0(0) + op0(1)) & mask(w), nullptr}); return true;
    case L::Instruction::Sub: out.push_back({(op0(0) - op0(1)) & mask(w), nullptr}); return true;
    case L::Instruction::ICmp: {
      const u64 x = op0(0), y = op0(1);
      bool r;
      switch (e->getPredicate()) {
      case L::CmpInst::ICMP_EQ: r = x == y; break;
      case L::CmpInst::ICMP_NE: r = x != y; break;
      case L::CmpInst::ICMP_ULT: r = x < y; break;
      case L::CmpInst::ICMP_UGT: r = x > y; break;
      default: return false;
      }
      out.push_back({r, nullptr});
      return true;
    }
    default: return false;
    }
  }
  return false;
}

struct Decoder {
  DFunc* d;
  std::map<const L::Value*, int> reg;
  std::map<const L::Constant*, int> cmap;
  std::map<const L::BasicBlock*, int> bpc;
  std::vector<std::pair<Edge*, const L::BasicBlock*>> fix;

  int opnd(const L::Value* v) {
    auto i = reg.find(v);
    if (i != reg.end()) return i->second;
    if (auto* c = L::dyn_cast<L::Constant>(v)) {
      auto j = cmap.find(c);
      if (j != cmap.end()) return j->second;
      const int at = static_cast<int>(CP.size());
      std::vector<Val> o;
      if (!constVals(c, o)) {
        std::string s; L::raw_string_ostream os(s); c->print(os);
        unsupported("constant " + os.str());
      }
      for (auto& x : o) CP.push_back(x);
      return cmap[c] = ~at;
    }
    if (L::isa<L::MetadataAsValue>(v) || L::isa<L::InlineAsm>(v)) return ~0;
    std::string s; L::raw_string_ostream os(s); v->print(os);
    unsupported("operand " + os.str());
  }
  static int plus(int op, int n) { return op >= 0 ? op + n : ~(~op + n); }

  Edge edge(const L::BasicBlock* from, const L::BasicBlock* to) {
    Edge e;
    e.pc = -1;
    for (auto& phi : to->phis()) {
      const int src = opnd(phi.getIncomingValueForBlock(from)), dst = reg[&phi];
      for (int i = 0; i < slots(phi.getType()); ++i)
        e.mv.push_back({dst + i, plus(src, i)});
    }
    return e;
  }

  void run(const L::Function* F) {
    int n = 0;
    for (auto& a : F->args()) { reg[&a] = n; n += slots(a.getType()); }
    for (auto& b : *F)
      for (auto& i : b)
        if (!i.getType()->isVoidTy()) { reg[&i] = n; n += slots(i.getType()); }
    d->nregs = n;
    std::vector<std::vector<std::pair<DI, std::vector<const L::BasicBlock*>>>> all;
    for (auto& b : *F) {
      bpc[&b] = static_cast<int>(d->code.size());
      for (auto& i : b) {
        if (L::isa<L::PHINode>(i)) continue;
        DI x{};
        x.I = &i;
        x.dst = i.getType()->isVoidTy() ? -1 : reg[&i];
        std::vector<const L::BasicBlock*> tg;
        decode(i, x, tg);
        if (x.k == kNop) continue;
        d->code.push_back(x);
        pend.push_back({static_cast<int>(d->code.size()) - 1, tg});
      }
    }
    for (auto& p : pend) {
      DI& x = d->code[static_cast<size_t>(p.first)];
      for (size_t i = 0; i < p.second.size(); ++i)
        x.x->edges[i].pc = bpc[p.second[i]];
    }
  }
  std::vector<std::pair<int, std::vector<const L::BasicBlock*>>> pend;

  void addEdge(DI& x, const L::Instruction& i, const L::BasicBlock* to,
      std::vector<const L::BasicBlock*>& tg) {
    x.x->edges.push_back(edge(i.getParent(), to));
    tg.push_back(to);
  }

  void decode(const L::Instruction& i, DI& x, std::vector<const L::BasicBlock*>& tg) {
    using I = L::Instruction;
    L::Type* t = i.getType();
    const unsigned opc = i.getOpcode();
    const auto vecN = [](L::Type* ty) { return static_cast<uint16_t>(slots(ty)); };
    const auto elw = [](L::Type* ty) {
      if (auto* v = L::dyn_cast<L::VectorType>(ty)) ty = v->getElementType();
      return static_cast<uint8_t>(intW(ty));
    };
    if (L::isa<L::BinaryOperator>(i)) {
      x.n = vecN(t);
      x.w = elw(t);
      x.a = opnd(i.getOperand(0));
      x.b = opnd(i.getOperand(1));
      switch (opc) {
      case I::Add: x.op = (uint8_t)Op::Add; break;
      case I::Sub: x.op = (uint8_t)Op::Sub; break;
      case I::Mul: x.op = (uint8_t)Op::Mul; break;
      case I::UDiv: x.op = (uint8_t)Op::UDiv; break;
      case I::SDiv: x.op = (uint8_t)Op::SDiv; break;
      case I::URem: x.op = (uint8_t)Op::URem; break;
      case I::SRem: x.op = (uint8_t)Op::SRem; break;
      case I::And: x.op = (uint8_t)Op::And; break;
      case I::Or: x.op = (uint8_t)Op::Or; break;
      case I::Xor: x.op = (uint8_t)Op::Xor; break;
      case I::Shl: x.op = (uint8_t)Op::Shl; break;
      case I::LShr: x.op = (uint8_t)Op::LShr; break;
      case I::AShr: x.op = (uint8_t)Op::AShr; break;
      default: x.k = kFBin; x.op = (uint8_t)opc; x.c = 0; x.imm = opc; return;
      }
      x.k = kBin;
      return;
    }
    switch (opc) {
    case I::FNeg: x.k = kFNeg; x.w = elw(t); x.a = opnd(i.getOperand(0)); x.n = vecN(t); return;
    case I::ICmp:
      x.k = kICmp;
      x.n = vecN(i.getOperand(0)->getType());
      x.w = elw(i.getOperand(0)->getType());
      x.op = static_cast<uint8_t>(L::cast<L::CmpInst>(i).getPredicate());
      x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1));
      return;
    case I::FCmp:
      x.k = kFCmp; x.n = vecN(i.getOperand(0)->getType());
      x.w = elw(i.getOperand(0)->getType());
      x.op = static_cast<uint8_t>(L::cast<L::CmpInst>(i).getPredicate());
      x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1));
      return;
    case I::Trunc: case I::ZExt: case I::SExt: case I::PtrToInt:
    case I::IntToPtr: case I::BitCast: case I::AddrSpaceCast: {
      L::Type* s = i.getOperand(0)->getType();
      x.k = kCast;
      x.a = opnd(i.getOperand(0));
      if (opc == I::BitCast && slots(s) != slots(t)) { x.k = kCast; x.op = 99; }
      x.n = vecN(t);
      x.w = elw(s); x.w2 = elw(t);
      if (x.op != 99)
        x.op = opc == I::SExt ? 2 : opc == I::Trunc ? 1 : opc == I::ZExt ? 0
             : x.w2 < x.w ? 1 : 0;
      x.imm = slots(s);
      return;
    }
    case I::UIToFP: case I::SIToFP:
      x.k = kIntToFp; x.op = opc == I::SIToFP; x.n = vecN(t);
      x.w = elw(i.getOperand(0)->getType()); x.w2 = elw(t); x.a = opnd(i.getOperand(0));
      return;
    case I::FPToUI: case I::FPToSI:
      x.k = kFpToInt; x.op = opc == I::FPToSI; x.n = vecN(t);
      x.w = elw(i.getOperand(0)->getType()); x.w2 = elw(t); x.a = opnd(i.getOperand(0));
      return;
    case I::FPTrunc: case I::FPExt:
      x.k = kFpCast; x.n = vecN(t);
      x.w = elw(i.getOperand(0)->getType()); x.w2 = elw(t); x.a = opnd(i.getOperand(0));
      return;
    case I::Load:
      x.k = kLoad; x.a = opnd(i.getOperand(0));
      x.x = new Extra; x.x->leaves = leaves(t); x.n = vecN(t);
      return;
    case I::Store:
      x.k = kStore; x.a = opnd(i.getOperand(1)); x.b = opnd(i.getOperand(0));
      x.x = new Extra; x.x->leaves = leaves(i.getOperand(0)->getType());
      x.n = vecN(i.getOperand(0)->getType());
      return;
    case I::Alloca: {
      auto& al = L::cast<L::AllocaInst>(i);
      x.k = kAlloca;
      x.imm = DL->getTypeAllocSize(al.getAllocatedType());
      x.a = opnd(al.getArraySize());
      x.b = static_cast<int>(al.getAlign().value());
      return;
    }
    case I::GetElementPtr: {
      x.k = kGep;
      if (t->isVectorTy()) { unsupported("vector gep"); }
      x.a = opnd(i.getOperand(0));
      x.x = new Extra;
      u64 off = 0;
      for (auto g = L::gep_type_begin(i), e = L::gep_type_end(i); g != e; ++g) {
        const L::Value* idx = g.getOperand();
        if (auto* st = g.getStructTypeOrNull()) {
          off += DL->getStructLayout(st)->getElementOffset(
              L::cast<L::ConstantInt>(idx)->getZExtValue());
        } else {
          const u64 sz = DL->getTypeAllocSize(g.getIndexedType());
          if (auto* ci = L::dyn_cast<L::ConstantInt>(idx))
            off += static_cast<u64>(ci->getSExtValue()) * sz;
          else
            x.x->gep.push_back({opnd(idx), sz, static_cast<uint8_t>(intW(idx->getType()))});
        }
      }
      x.imm = off;
      return;
    }
    case I::Select:
      x.k = kSelect; x.n = vecN(t); x.x = new Extra; x.x->leaves = leaves(t);
      x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2));
      x.imm = i.getOperand(0)->getType()->isVectorTy();
      return;
    case I::Freeze:
      x.k = kMove; x.a = opnd(i.getOperand(0)); x.n = vecN(t); return;
    case I::Br: {
      auto& b = L::cast<L::BranchInst>(i);
      x.x = new Extra;
      if (b.isConditional()) { x.k = kCondBr; x.a = opnd(b.getCondition()); }
      else x.k = kBr;
      for (unsigned s = 0; s < b.getNumSuccessors(); ++s) addEdge(x, i, b.getSuccessor(s), tg);
      return;
    }
    case I::Switch: {
      auto& s = L::cast<L::SwitchInst>(i);
      x.k = kSwitch; x.x = new Extra; x.a = opnd(s.getCondition());
      x.w = static_cast<uint8_t>(intW(s.getCondition()->getType()));
      addEdge(x, i, s.getDefaultDest(), tg);
      std::map<const L::BasicBlock*, int> seen;
      for (auto& c : s.cases()) {
        auto j = seen.find(c.getCaseSuccessor());
        int e;
        if (j != seen.end()) e = j->second;
        else {
          e = static_cast<int>(x.x->edges.size());
          seen[c.getCaseSuccessor()] = e;
          addEdge(x, i, c.getCaseSuccessor(), tg);
        }
        x.x->cases.push_back({c.getCaseValue()->getZExtValue(), e});
      }
      return;
    }
    case I::Ret:
      x.k = kRet;
      if (i.getNumOperands()) { x.a = opnd(i.getOperand(0)); x.n = vecN(i.getOperand(0)->getType()); }
      return;
    case I::Unreachable: x.k = kUnreachable; return;
    case I::Resume: x.k = kResume; x.a = opnd(i.getOperand(0)); return;
    case I::LandingPad: {
      auto& lp = L::cast<L::LandingPadInst>(i);
      x.k = kLandingPad; x.x = new Extra; x.x->cleanup = lp.isCleanup();
      for (unsigned c = 0; c < lp.getNumClauses(); ++c)
        if (lp.isCatch(c)) {
          std::vector<Val> o;
          constVals(lp.getClause(c), o);
          x.x->clauses.push_back({0, o.empty() ? 0 : o[0].v});
        } else
          x.x->clauses.push_back({1, 0});
      return;
    }
    case I::ExtractValue: {
      auto& e = L::cast<L::ExtractValueInst>(i);
      L::Type* ty = e.getAggregateOperand()->getType();
      int off = 0;
      for (unsigned idx : e.indices()) { off += slotOffset(ty, idx); ty = elemType(ty, idx); }
      x.k = kMove; x.a = plus(opnd(e.getAggregateOperand()), off); x.n = vecN(t);
      return;
    }
    case I::InsertValue: {
      auto& e = L::cast<L::InsertValueInst>(i);
      L::Type* ty = t;
      int off = 0;
      for (unsigned idx : e.indices()) { off += slotOffset(ty, idx); ty = elemType(ty, idx); }
      x.k = kInsertV; x.a = opnd(e.getAggregateOperand()); x.b = opnd(e.getInsertedValueOperand());
      x.n = vecN(t); x.c = off; x.imm = static_cast<u64>(slots(e.getInsertedValueOperand()->getType()));
      return;
    }
    case I::ExtractElement:
      x.k = kExtractE; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1));
      x.n = vecN(i.getOperand(0)->getType());
      return;
    case I::InsertElement:
      x.k = kInsertE; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2));
      x.n = vecN(t);
      return;
    case I::ShuffleVector: {
      auto& s = L::cast<L::ShuffleVectorInst>(i);
      x.k = kShuffle; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1));
      x.x = new Extra; x.n = vecN(i.getOperand(0)->getType());
      for (int m : s.getShuffleMask()) x.x->shuf.push_back(m);
      return;
    }
    case I::Fence: x.k = kNop; return;
    case I::AtomicRMW: {
      auto& r = L::cast<L::AtomicRMWInst>(i);
      x.k = kAtomicRMW; x.op = static_cast<uint8_t>(r.getOperation());
      x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getValOperand());
      x.w = static_cast<uint8_t>(intW(t)); x.x = new Extra; x.x->leaves = leaves(t);
      return;
    }
    case I::AtomicCmpXchg: {
      auto& r = L::cast<L::AtomicCmpXchgInst>(i);
      x.k = kCmpXchg; x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getCompareOperand());
      x.c = opnd(r.getNewValOperand()); x.x = new Extra;
      x.x->leaves = leaves(r.getNewValOperand()->getType());
      x.w = x.x->leaves[0].w;
      return;
    }
    case I::Call: case I::Invoke: {
      auto& c = L::cast<L::CallBase>(i);
      if (auto* f = c.getCalledFunction()) {
        if (L::isa<L::DbgInfoIntrinsic>(i)) { x.k = kNop; return; }
        switch (f->getIntrinsicID()) {
        case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end:
        case L::Intrinsic::assume: case L::Intrinsic::donothing:
        case L::Intrinsic::experimental_noalias_scope_decl:
        case L::Intrinsic::invariant_start: case L::Intrinsic::invariant_end:
        case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value:
        case L::Intrinsic::stackrestore: case L::Intrinsic::prefetch:
          x.k = kNop;
          return;
        default: break;
        }
      }
      x.k = opc == I::Call ? kCall : kInvoke;
      x.x = new Extra;
      x.n = t->isVoidTy() ? 0 : vecN(t);
      int slot = 0;
      for (unsigned a = 0; a < c.arg_size(); ++a) {
        L::Value* v = c.getArgOperand(a);
        if (L::isa<L::MetadataAsValue>(v)) continue;
        const int o = opnd(v);
        const int n = slots(v->getType());
        if (c.isByValArgument(a))
          x.x->byval.push_back({slot, DL->getTypeAllocSize(c.getParamByValType(a))});
        for (int s = 0; s < n; ++s) x.x->ops.push_back(plus(o, s));
        slot += n;
      }
      const L::Value* cv = c.getCalledOperand()->stripPointerCasts();
      if (auto* al = L::dyn_cast<L::GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
      if (auto* f = L::dyn_cast<L::Function>(cv))
        x.x->callee = calleeFor(f);
      else if (L::isa<L::InlineAsm>(cv)) {
        x.a = -1;
        if (t->isVoidTy()) { x.k = kNop; return; } // compiler barriers
        unsupported("inline asm");
      } else
        x.a = opnd(cv);
      if (opc == I::Invoke) {
        auto& iv = L::cast<L::InvokeInst>(i);
        addEdge(x, i, iv.getNormalDest(), tg);
        addEdge(x, i, iv.getUnwindDest(), tg);
      }
      return;
    }
    default: {
      std::string s; L::raw_string_ostream os(s); i.print(os);
      unsupported("instruction " + os.str());
    }
    }
  }
};

static DFunc* decodeFunc(const L::Function* F) {
  auto* d = new DFunc;
  d->F = F;
  d->index = funcIndex[F];
  Decoder dec;
  dec.d = d;
  dec.run(F);
  return d;
}

// functions of the standard library that only follow concrete links and never
// look at element values
static bool nocheckName(const std::string& n) {
  static const char* pre[]{"_ZSt29_Rb_tree_insert_and_rebalance",
      "_ZSt28_Rb_tree_rebalance_for_erase", "_ZSt18_Rb_tree_increment",
      "_ZSt18_Rb_tree_decrement", "_ZNKSt8__detail20_Prime_rehash_policy",
      "_ZNSt6locale", "_ZNSt8ios_base", "_ZNKSt6locale", "__errno_location",
      "__cxa_guard", "_ZNSt8__detail15_List_node_base", "__cxa_demangle",
      "_ZSt9terminatev", "_ZNSt15_List_node_base", "_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleter", nullptr};
  for (auto p = pre; *p; ++p)
    if (n.rfind(*p, 0) == 0) return true;
  if (n.rfind("_ZNSt", 0) == 0 && (n.find("errorD") != std::string::npos ||
      n.find("errorC1ERKS_") != std::string::npos || n.find("errorC2ERKS_") != std::string::npos ||
      n.find("12out_of_rangeD") != std::string::npos || n.find("invalid_argumentD") != std::string::npos))
    return true;
  if (n.rfind("_ZNKSt", 0) == 0 && n.find("4whatEv") != std::string::npos) return true;
  return false;
}

static Handler findHandler(const std::string& n);

static Callee* calleeFor(const L::Function* F) {
  auto& c = calleeOf[F];
  if (c) return c;
  c = new Callee;
  c->name = F->getName().str();
  c->ft = F->getFunctionType();
  c->h = findHandler(c->name);
  L::Type* r = F->getReturnType();
  c->retKind = r->isVoidTy() ? 3 : r->isDoubleTy() ? 1 : r->isFloatTy() ? 2 : 0;
  auto ov = overrides.find(c->name);
  if (ov != overrides.end()) {
    if (auto* g = M->getFunction(ov->second); g && !g->isDeclaration()) {
      c->F = g;
      return c;
    }
  }
  if (!F->isDeclaration()) c->F = F;
  else if (!F->isIntrinsic()) {
    c->native = symAddr(c->name);
    c->nocheck = nocheckName(c->name);
  }
  return c;
}

// ------------------------------------------------------------------- frames
static inline const Val& V(const Frame& f, int op) {
  return op >= 0 ? f.R[op] : CP[static_cast<size_t>(~op)];
}

static void pushFrame(DFunc* d, const std::vector<Val>& args) {
  if (frames.size() > 4000) fatal("stack", "call depth exceeds 4000");
  Frame f;
  f.f = d;
  f.pc = 0;
  f.R = regTop;
  f.sp = stackPtr;
  f.nall = allocas.size();
  regTop += d->nregs;
  for (size_t i = 0; i < args.size(); ++i) f.R[i] = args[i];
  frames.push_back(f);
  if (d->index >= 0) sh->funcHit[d->index] = 1;
}
static void popFrame() {
  Frame& f = frames.back();
  regTop = f.R;
  if (f.nall != allocas.size()) {
    clearShadow(f.sp, stackPtr - f.sp);
    allocas.resize(f.nall);
  }
  stackPtr = f.sp;
  frames.pop_back();
}
static u64 stackAlloc(u64 size, u64 align) {
  if (align < 16) align = 16;
  u64 p = (stackPtr + 32 + align - 1) & ~(align - 1);
  stackPtr = p + size;
  if (stackPtr > stackHi - 4096) fatal("stack", "stack overflow");
  allocas.push_back({p, p + size});
  // no stale pointers in what has not been set
  memset(reinterpret_cast<void*>(p), 0xaa, std::min<u64>(size, 8192));
  return p;
}
static void takeEdge(Frame& f, const Edge& e) {
  const size_t n = e.mv.size();
  if (n == 1)
    f.R[e.mv[0].first] = V(f, e.mv[0].second);
  else if (n) {
    static std::vector<Val> tmp;
    tmp.resize(n);
    for (size_t i = 0; i < n; ++i) tmp[i] = V(f, e.mv[i].second);
    for (size_t i = 0; i < n; ++i) f.R[e.mv[i].first] = tmp[i];
  }
  f.pc = e.pc;
}

// --------------------------------------------------------------- exceptions
struct ExcRec { void* obj; const std::type_info* ti; void* adj; };
static std::vector<ExcRec*> caught;
static std::map<u64, int> typeIds;
static int typeId(u64 ti) {
  auto i = typeIds.find(ti);
  if (i != typeIds.end()) return i->second;
  const int n = static_cast<int>(typeIds.size()) + 1;
  return typeIds[ti] = n;
}
static void unwind(ExcRec* r) {
  while (!frames.empty()) {
    Frame& f = frames.back();
    DI& ci = f.f->code[static_cast<size_t>(f.pc - 1)];
    if (ci.k == kInvoke) {
      const Edge& e = ci.x->edges[1];
      DI& lp = f.f->code[static_cast<size_t>(e.pc)];
      if (lp.k != kLandingPad) unsupported("no landing pad");
      int sel = -1;
      for (auto& c : lp.x->clauses) {
        if (c.kind) fatal("terminate", "exception violates an exception specification");
        if (!c.ti) { r->adj = r->obj; sel = typeId(0); break; }
        void* p = r->obj;
        if (reinterpret_cast<const std::type_info*>(c.ti)->__do_catch(r->ti, &p, 1)) {
          r->adj = p;
          sel = typeId(c.ti);
          break;
        }
      }
      if (sel < 0 && lp.x->cleanup) sel = 0;
      if (sel >= 0) {
        takeEdge(f, e);
        ++f.pc;
        f.R[lp.dst] = {reinterpret_cast<u64>(r), nullptr};
        f.R[lp.dst + 1] = {static_cast<u64>(sel), nullptr};
        return;
      }
    }
    popFrame();
  }
  int st;
  char* dm = abi::__cxa_demangle(r->ti->name(), nullptr, nullptr, &st);
  fatal("uncaught", std::string("uncaught exception ") + (dm ? dm : r->ti->name()));
}
static void throwObj(void* obj, const std::type_info* ti) {
  static const bool show = getenv("KSYM_SHOWTHROW");
  if (show) {
    void* p = obj;
    std::string st;
    for (size_t i = frames.size(); i-- > 0 && i + 6 > frames.size();) st += " < " + frames[i].f->F->getName().str();
    fprintf(stderr, "THROW %s '%s'%s\n", ti->name(),
        typeid(std::exception).__do_catch(ti, &p, 1) ? static_cast<std::exception*>(p)->what() : "", st.c_str());
  }
  unwind(new ExcRec{obj, ti, obj});
}

struct Thrown {}; // a handler has raised: control is already transferred

// -------------------------------------------------------------- native calls
struct U2 { u64 a, b; };
using NF = U2 (*)(u64, u64, u64, u64, u64, u64, double, double, double, double,
    double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64);
using ND = double (*)(u64, u64, u64, u64, u64, u64, double, double, double, double,
    double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64);

static bool reachesSymbolic(u64 p, int lvl) {
  if (shadow.empty() || p < 4096) return false;
  auto o = findObj(p);
  if (!o.first) return false;
  for (auto& r : regions) if (r.first == o.first) return false;
  const u64 n = std::min<u64>(o.second - o.first, 65536);
  if (hasShadow(o.first, n)) return true;
  if (lvl > 0)
    for (u64 a = (o.first + 7) & ~7ull; a + 8 <= o.first + std::min<u64>(n, 2048); a += 8) {
      const u64 q = *reinterpret_cast<u64*>(a);
      if (q > 4096 && q != p && reachesSymbolic(q, lvl - 1)) return true;
    }
  return false;
}

static void nativeCall(Callee* c, std::vector<Val>& a, L::FunctionType* ft, Val* out, int nout) {
  u64 ints[14]{};
  double dbl[8]{};
  int ni = 0, nd = 0;
  std::vector<bool> fp;
  for (unsigned i = 0; i < ft->getNumParams(); ++i)
    for (auto& l : leaves(ft->getParamType(i))) fp.push_back(l.fp);
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].e) {
      // small values (flags, characters) split the path, others are not supported
      const unsigned w = a[i].e->w;
      if (w > 8) unsupported("symbolic argument to native function " + c->name);
      a[i] = {concretize(a[i], w), nullptr};
    }
    if (i < fp.size() && fp[i]) memcpy(&dbl[nd++ & 7], &a[i].v, 8);
    else {
      if (ni >= 14) unsupported("too many arguments");
      ints[ni++] = a[i].v;
    }
    // blocks of path components have stale pointers (components are concrete)
    static const std::string list{"_ZNSt10filesystem7__cxx114path5_ListC"};
    if (!c->nocheck && reachesSymbolic(a[i].v, c->name.compare(0, list.size(), list) ? 1 : 0))
      unsupported("symbolic data passed to native function " + c->name);
  }
  if (trace) fprintf(stderr, "  native %s\n", c->name.c_str());
  void* obj = nullptr;
  const std::type_info* ti = nullptr;
  U2 r{};
  double d = 0;
  g_track = true;
  try {
    const auto f = reinterpret_cast<NF>(c->native);
    if (c->retKind == 1 || c->retKind == 2)
      d = reinterpret_cast<ND>(c->native)(ints[0], ints[1], ints[2], ints[3], ints[4], ints[5],
          dbl[0], dbl[1], dbl[2], dbl[3], dbl[4], dbl[5], dbl[6], dbl[7],
          ints[6], ints[7], ints[8], ints[9], ints[10], ints[11], ints[12], ints[13]);
    else
      r = f(ints[0], ints[1], ints[2], ints[3], ints[4], ints[5],
          dbl[0], dbl[1], dbl[2], dbl[3], dbl[4], dbl[5], dbl[6], dbl[7],
          ints[6], ints[7], ints[8], ints[9], ints[10], ints[11], ints[12], ints[13]);
  } catch (...) {
    g_track = false;
    auto* ep = new std::exception_ptr(std::current_exception());
    ti = abi::__cxa_current_exception_type();
    obj = *reinterpret_cast<void**>(ep);
    // the exception object was allocated natively: make it accessible
    auto o = findObj(reinterpret_cast<uintptr_t>(obj));
    if (!o.first) objs[reinterpret_cast<uintptr_t>(obj)] = {reinterpret_cast<uintptr_t>(obj) + 64, true};
  }
  g_track = false;
  if (obj) { throwObj(obj, ti); throw Thrown{}; }
  if (c->retKind == 1 || c->retKind == 2) { memcpy(&r.a, &d, 8); if (c->retKind == 2) r.a &= 0xffffffff; }
  if (nout > 0) out[0] = {r.a, nullptr};
  if (nout > 1) out[1] = {r.b, nullptr};
  if (nout == 1 && !ft->getReturnType()->isVoidTy()) {
    const auto& l = leaves(ft->getReturnType());
    if (l.size() == 1) out[0].v &= mask(l[0].w);
    else if (l.size() == 2) {}
  }
  if (nout > 2) unsupported("large return from native function");
}

#include "handlers.inc"

// native side of the harness interface: reached only while ksym_setup runs
extern "C" {
static void onlyIr(const char* f) { fprintf(stderr, "%s called natively\n", f); _exit(98); }
void ksym_symbolic(void*, size_t, const char*) { onlyIr("ksym_symbolic"); }
unsigned ksym_choose(unsigned, const char*) { onlyIr("ksym_choose"); return 0; }
void ksym_assume(bool c) { if (!c) onlyIr("ksym_assume"); }
void ksym_assert(bool c, const char* l) { if (!c) onlyIr(l); }
void ksym_reach(const char*) {}
void ksym_observe(const char*, u64) {}
void ksym_observe_bytes(const char*, const void*, size_t) {}
u64 ksym_concretize(u64 v) { return v; }
void ksym_write_file(const char* path, const void* p, size_t n) {
  const int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (write(fd, p, n) < 0) {}
  close(fd);
}
const char* ksym_dir() { return scratchDir; }
int ksym_is_symbolic() { return 1; }
void ksym_mode(int bits) { mode = bits; }
}

// -------------------------------------------------------------- interpreter
static void setRet(Frame& f, DI& I, const Val* v, int n) {
  for (int i = 0; i < n && i < I.n; ++i) f.R[I.dst + i] = v[i];
}

static double toD(const Val& v, unsigned w) {
  if (w == 32) { float x; const uint32_t b = static_cast<uint32_t>(v.v); memcpy(&x, &b, 4); return x; }
  double x; memcpy(&x, &v.v, 8); return x;
}
static Val fromD(double d, unsigned w) {
  if (w == 32) { const float x = static_cast<float>(d); uint32_t b; memcpy(&b, &x, 4); return {b, nullptr}; }
  u64 b; memcpy(&b, &d, 8); return {b, nullptr};
}
static u64 intOf(const Val& v) { return concretize(v, 64); }

static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  using P = L::CmpInst;
  if (!a.e && !b.e) {
    const u64 x = a.v & mask(w), y = b.v & mask(w);
    const int64_t sx = sext(x, w), sy = sext(y, w);
    bool r = false;
    switch (p) {
    case P::ICMP_EQ: r = x == y; break;
    case P::ICMP_NE: r = x != y; break;
    case P::ICMP_UGT: r = x > y; break;
    case P::ICMP_UGE: r = x >= y; break;
    case P::ICMP_ULT: r = x < y; break;
    case P::ICMP_ULE: r = x <= y; break;
    case P::ICMP_SGT: r = sx > sy; break;
    case P::ICMP_SGE: r = sx >= sy; break;
    case P::ICMP_SLT: r = sx < sy; break;
    case P::ICMP_SLE: r = sx <= sy; break;
    default: break;
    }
    return {r, nullptr};
  }
  Expr *x = E(a, w), *y = E(b, w);
  switch (p) {
  case P::ICMP_EQ: return mk(ctx.bin(Op::Eq, x, y));
  case P::ICMP_NE: return mk(ctx.notE(ctx.bin(Op::Eq, x, y)));
  case P::ICMP_UGT: return mk(ctx.bin(Op::Ult, y, x));
  case P::ICMP_UGE: return mk(ctx.bin(Op::Ule, y, x));
  case P::ICMP_ULT: return mk(ctx.bin(Op::Ult, x, y));
  case P::ICMP_ULE: return mk(ctx.bin(Op::Ule, x, y));
  case P::ICMP_SGT: return mk(ctx.bin(Op::Slt, y, x));
  case P::ICMP_SGE: return mk(ctx.bin(Op::Sle, y, x));
  case P::ICMP_SLT: return mk(ctx.bin(Op::Slt, x, y));
  default: return mk(ctx.bin(Op::Sle, x, y));
  }
}

static void doCall(DI& I) {
  Frame& f = frames.back();
  static std::vector<Val> args;
  args.clear();
  for (int o : I.x->ops) args.push_back(V(f, o));
  Callee* c = I.x->callee;
  if (!c) {
    const u64 a = concretize(V(f, I.a), 64);
    auto i = calleeAt.find(a);
    if (i == calleeAt.end()) {
      Dl_info di;
      if (a < 4096 || !dladdr(reinterpret_cast<void*>(a), &di))
        fatal("memory", "call through an invalid function pointer");
      auto* n = new Callee;
      n->name = di.dli_sname ? di.dli_sname : "?";
      n->native = reinterpret_cast<void*>(a);
      n->nocheck = nocheckName(n->name);
      n->ft = L::cast<L::CallBase>(I.I)->getFunctionType();
      n->h = findHandler(n->name);
      L::Type* r = n->ft->getReturnType();
      n->retKind = r->isVoidTy() ? 3 : r->isDoubleTy() ? 1 : r->isFloatTy() ? 2 : 0;
      auto ov = overrides.find(n->name);
      if (ov != overrides.end())
        if (auto* g = M->getFunction(ov->second); g && !g->isDeclaration()) n->F = g;
      i = calleeAt.emplace(a, n).first;
    }
    c = i->second;
  }
  if (trace) {
    fprintf(stderr, "%*scall %s(", static_cast<int>(frames.size()), "", L::demangle(c->name).substr(0, 100).c_str());
    for (auto& v : args) fprintf(stderr, v.e ? "SYM " : "%lx ", v.v);
    fprintf(stderr, ")\n");
  }
  if (c->h) {
    Call call{I, args, {0, nullptr}, {0, nullptr}, c};
    try {
      c->h(call);
    } catch (Thrown&) { return; }
    Frame& g = frames.back();
    if (I.n > 0) g.R[I.dst] = call.ret;
    if (I.n > 1) g.R[I.dst + 1] = call.ret2;
    if (I.k == kInvoke) takeEdge(g, I.x->edges[0]);
    return;
  }
  if (c->F) {
    if (!c->d) c->d = decodeFunc(c->F);
    if (!I.x->byval.empty()) {
      // copies belong to the callee: allocate them before its frame is counted
      std::vector<Val> copy = args;
      const uintptr_t sp = stackPtr;
      const size_t na = allocas.size();
      for (auto& b : I.x->byval) {
        const u64 p = stackAlloc(b.second, 16);
        copyMem(p, copy[static_cast<size_t>(b.first)].v, b.second);
        copy[static_cast<size_t>(b.first)] = {p, nullptr};
      }
      pushFrame(c->d, copy);
      frames.back().sp = sp;
      frames.back().nall = na;
      return;
    }
    pushFrame(c->d, args);
    return;
  }
  if (!c->native) unsupported("call of undefined function " + c->name);
  if (!I.x->byval.empty()) unsupported("byval argument to native function " + c->name);
  Val out[2]{};
  try {
    nativeCall(c, args, L::cast<L::CallBase>(I.I)->getFunctionType(), out, I.n);
  } catch (Thrown&) { return; }
  Frame& g = frames.back();
  setRet(g, I, out, 2);
  if (I.k == kInvoke) takeEdge(g, I.x->edges[0]);
}

static void run() {
  while (!frames.empty()) {
    Frame& f = frames.back();
    DI& I = f.f->code[static_cast<size_t>(f.pc++)];
    if (++instCount % 65536 == 0) {
      if (sh->stop) finish();
      if (now() - startTime > maxSeconds) { sh->stop = 2; finish(); }
    }
    if (instCount > maxInsts) fatal("steps", "instruction limit reached (possible non-termination)");
    Val* R = f.R;
    switch (I.k) {
    case kBin:
      for (int s = 0; s < I.n; ++s) {
        const Val &a = V(f, Decoder::plus(I.a, s)), &b = V(f, Decoder::plus(I.b, s));
        const Op op = static_cast<Op>(I.op);
        if (!a.e && !b.e) {
          u64 r;
          if (!Ctx::fold(op, a.v & mask(I.w), b.v & mask(I.w), I.w, r))
            fatal("arith", "division by zero");
          R[I.dst + s] = {r, nullptr};
        } else {
          Expr *x = E(a, I.w), *y = E(b, I.w);
          if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && !Ctx::isC(y))
            check(ctx.notE(ctx.bin(Op::Eq, y, ctx.cst(0, I.w))), "arith", "division by zero");
          Val r = mk(ctx.bin(op, x, y));
          if ((mode & 1) && r.e && Ctx::isC(y)) { // one path per quotient
            if (op == Op::UDiv || op == Op::SDiv) r = {concretize(r, I.w), nullptr};
            if (op == Op::URem || op == Op::SRem) {
              const u64 q = concretize(mk(ctx.bin(op == Op::URem ? Op::UDiv : Op::SDiv, x, y)), I.w);
              r = mk(ctx.bin(Op::Sub, x, ctx.cst(q * y->c, I.w)));
            }
          }
          R[I.dst + s] = r;
        }
      }
      break;
    case kFBin:
      for (int s = 0; s < I.n; ++s) {
        const Val &a = V(f, Decoder::plus(I.a, s)), &b = V(f, Decoder::plus(I.b, s));
        if (a.e || b.e) unsupported("symbolic floating point");
        const double x = toD(a, I.w), y = toD(b, I.w);
        double r = 0;
        switch (I.imm) {
        case L::Instruction::FAdd: r = x + y; break;
        case L::Instruction::FSub: r = x - y; break;
        case L::Instruction::FMul: r = x * y; break;
        case L::Instruction::FDiv: r = x / y; break;
        default: r = __builtin_fmod(x, y);
        }
        R[I.dst + s] = fromD(r, I.w);
      }
      break;
    case kFNeg: for (int s = 0; s < I.n; ++s) R[I.dst + s] = fromD(-toD(V(f, Decoder::plus(I.a, s)), I.w), I.w); break;
    case kICmp:
      for (int s = 0; s < I.n; ++s)
        R[I.dst + s] = icmp(I.op, V(f, Decoder::plus(I.a, s)), V(f, Decoder::plus(I.b, s)), I.w);
      break;
    case kFCmp:
      for (int s = 0; s < I.n; ++s) {
        const Val &a = V(f, Decoder::plus(I.a, s)), &b = V(f, Decoder::plus(I.b, s));
        if (a.e || b.e) unsupported("symbolic floating point");
        const double x = toD(a, I.w), y = toD(b, I.w);
        const bool un = x != x || y != y;
        const unsigned p = I.op;
        const bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y) || ((p & 8) && un);
        R[I.dst + s] = {r, nullptr};
      }
      break;
    case kCast:
      if (I.op == 99) { // bitcast between differently sliced vectors
        std::vector<uint8_t> buf;
        bool sym = false;
        for (u64 s = 0; s < I.imm; ++s) {
          const Val& v = V(f, Decoder::plus(I.a, static_cast<int>(s)));
          if (v.e) sym = true;
        }
        const int nd = I.n;
        const int ns = static_cast<int>(I.imm);
        if (!sym) {
          for (int s = 0; s < ns; ++s) for (int k = 0; k < I.w / 8; ++k) buf.push_back(static_cast<uint8_t>(V(f, Decoder::plus(I.a, s)).v >> (8 * k)));
          for (int s = 0; s < nd; ++s) { u64 r = 0; memcpy(&r, buf.data() + s * (I.w2 / 8), I.w2 / 8); R[I.dst + s] = {r, nullptr}; }
        } else {
          std::vector<Expr*> by;
          for (int s = 0; s < ns; ++s) for (int k = 0; k < I.w / 8; ++k) by.push_back(ctx.extract(E(V(f, Decoder::plus(I.a, s)), I.w), 8u * static_cast<unsigned>(k), 8));
          for (int s = 0; s < nd; ++s) {
            Expr* r = by[static_cast<size_t>(s * (I.w2 / 8))];
            for (int k = 1; k < I.w2 / 8; ++k) r = ctx.concat(by[static_cast<size_t>(s * (I.w2 / 8) + k)], r);
            R[I.dst + s] = mk(r);
          }
        }
        break;
      }
      for (int s = 0; s < I.n; ++s) {
        const Val& a = V(f, Decoder::plus(I.a, s));
        if (!a.e) {
          u64 v = a.v & mask(I.w);
          if (I.op == 2) v = static_cast<u64>(sext(v, I.w));
          R[I.dst + s] = {v & mask(I.w2), nullptr};
        } else if (I.op == 1 || I.w2 < I.w)
          R[I.dst + s] = mk(ctx.extract(a.e, 0, I.w2));
        else if (I.op == 2)
          R[I.dst + s] = mk(ctx.sextE(a.e, I.w2));
        else
          R[I.dst + s] = mk(ctx.zext(a.e, I.w2));
      }
      break;
    case kIntToFp:
      for (int s = 0; s < I.n; ++s) {
        const u64 v = concretize(V(f, Decoder::plus(I.a, s)), I.w);
        R[I.dst + s] = fromD(I.op ? static_cast<double>(sext(v, I.w)) : static_cast<double>(v & mask(I.w)), I.w2);
      }
      break;
    case kFpToInt:
      for (int s = 0; s < I.n; ++s) {
        const double d = toD(V(f, Decoder::plus(I.a, s)), I.w);
        R[I.dst + s] = {(I.op ? static_cast<u64>(static_cast<int64_t>(d)) : static_cast<u64>(d)) & mask(I.w2), nullptr};
      }
      break;
    case kFpCast:
      for (int s = 0; s < I.n; ++s) R[I.dst + s] = fromD(toD(V(f, Decoder::plus(I.a, s)), I.w), I.w2);
      break;
    case kLoad: {
      const Val& p = V(f, I.a);
      if (p.e) {
        if (I.n == 1) {
          const Leaf l = I.x->leaves[0];
          R[I.dst] = loadSym(p.e, l.bytes, l.w);
          if (l.ptr && R[I.dst].e && !(mode & 2)) R[I.dst] = {concretize(R[I.dst], 64), nullptr};
          break;
        }
        R[I.a] = {concretize(p, 64), nullptr};
      }
      const u64 a = V(f, I.a).v;
      if (I.n == 1) {
        const Leaf l = I.x->leaves[0];
        checkAccess(a, l.bytes, false);
        R[I.dst] = loadAt(a, l.bytes, l.w);
      } else
        for (int s = 0; s < I.n; ++s) {
          const Leaf l = I.x->leaves[static_cast<size_t>(s)];
          checkAccess(a + l.off, l.bytes, false);
          R[I.dst + s] = loadAt(a + l.off, l.bytes, l.w);
        }
      break;
    }
    case kStore: {
      Val p = V(f, I.a);
      if (p.e) p = {concretize(p, 64), nullptr};
      for (int s = 0; s < I.n; ++s) {
        const Leaf l = I.x->leaves[static_cast<size_t>(s)];
        checkAccess(p.v + l.off, l.bytes, true);
        storeAt(p.v + l.off, l.bytes, l.w, V(f, Decoder::plus(I.b, s)));
      }
      break;
    }
    case kAlloca: {
      const u64 n = concretize(V(f, I.a), 64);
      R[I.dst] = {stackAlloc(I.imm * n, static_cast<u64>(I.b)), nullptr};
      break;
    }
    case kGep: {
      const Val& b = V(f, I.a);
      bool sym = b.e;
      for (auto& g : I.x->gep) sym |= V(f, g.op).e != nullptr;
      if (!sym) {
        u64 r = b.v + I.imm;
        for (auto& g : I.x->gep) r += static_cast<u64>(sext(V(f, g.op).v, g.w)) * g.scale;
        R[I.dst] = {r, nullptr};
      } else {
        Expr* r = ctx.bin(Op::Add, E(b, 64), ctx.cst(I.imm, 64));
        for (auto& g : I.x->gep)
          r = ctx.bin(Op::Add, r, ctx.bin(Op::Mul, ctx.sextE(E(V(f, g.op), g.w), 64), ctx.cst(g.scale, 64)));
        R[I.dst] = mk(r);
      }
      break;
    }
    case kMove:
      if (I.n == 1) R[I.dst] = V(f, I.a);
      else for (int s = 0; s < I.n; ++s) R[I.dst + s] = V(f, Decoder::plus(I.a, s));
      break;
    case kSelect: {
      for (int s = 0; s < I.n; ++s) {
        const Val& c = V(f, I.imm ? Decoder::plus(I.a, s) : I.a);
        const Val &a = V(f, Decoder::plus(I.b, s)), &b = V(f, Decoder::plus(I.c, s));
        if (!c.e) { R[I.dst + s] = c.v & 1 ? a : b; continue; }
        const Leaf l = I.x->leaves[static_cast<size_t>(s)];
        if (l.fp || l.ptr) {
          const bool r = decide(c.e);
          R[I.dst + s] = r ? a : b;
        } else
          R[I.dst + s] = mk(ctx.ite(c.e, E(a, l.w), E(b, l.w)));
      }
      break;
    }
    case kBr: takeEdge(f, I.x->edges[0]); break;
    case kCondBr: {
      const Val& c = V(f, I.a);
      const bool r = c.e ? decide(c.e) : c.v & 1;
      takeEdge(f, I.x->edges[r ? 0 : 1]);
      break;
    }
    case kSwitch: {
      const Val& c = V(f, I.a);
      int e = 0;
      if (!c.e) {
        for (auto& k : I.x->cases)
          if (k.first == (c.v & mask(I.w))) { e = k.second; break; }
      } else {
        const size_t ne = I.x->edges.size();
        for (size_t j = 1; j < ne && !e; ++j) {
          Expr* o = ctx.f();
          for (auto& k : I.x->cases)
            if (k.second == static_cast<int>(j))
              o = ctx.bin(Op::Or, o, ctx.bin(Op::Eq, c.e, ctx.cst(k.first, I.w)));
          if (decide(o)) e = static_cast<int>(j);
        }
      }
      takeEdge(f, I.x->edges[static_cast<size_t>(e)]);
      break;
    }
    case kRet: {
      static std::vector<Val> rv;
      rv.clear();
      for (int s = 0; s < I.n; ++s) rv.push_back(V(f, Decoder::plus(I.a, s)));
      popFrame();
      if (frames.empty()) return;
      Frame& g = frames.back();
      DI& ci = g.f->code[static_cast<size_t>(g.pc - 1)];
      if (ci.n) setRet(g, ci, rv.data(), static_cast<int>(rv.size()));
      if (ci.k == kInvoke) takeEdge(g, ci.x->edges[0]);
      break;
    }
    case kCall: case kInvoke: doCall(I); break;
    case kResume: {
      auto* r = reinterpret_cast<ExcRec*>(V(f, I.a).v);
      popFrame();
      unwind(r);
      break;
    }
    case kInsertV:
      for (int s = 0; s < I.n; ++s) {
        const bool in = s >= I.c && s < I.c + static_cast<int>(I.imm);
        R[I.dst + s] = in ? V(f, Decoder::plus(I.b, s - I.c)) : V(f, Decoder::plus(I.a, s));
      }
      break;
    case kExtractE: {
      const u64 k = concretize(V(f, I.b), 64);
      if (k < I.n) R[I.dst] = V(f, Decoder::plus(I.a, static_cast<int>(k)));
      break;
    }
    case kInsertE: {
      const u64 k = concretize(V(f, I.c), 64);
      for (int s = 0; s < I.n; ++s)
        R[I.dst + s] = static_cast<u64>(s) == k ? V(f, I.b) : V(f, Decoder::plus(I.a, s));
      break;
    }
    case kShuffle: {
      std::vector<Val> t;
      for (int m : I.x->shuf)
        t.push_back(m < 0 ? Val{0, nullptr} : m < I.n ? V(f, Decoder::plus(I.a, m)) : V(f, Decoder::plus(I.b, m - I.n)));
      for (size_t s = 0; s < t.size(); ++s) R[I.dst + static_cast<int>(s)] = t[s];
      break;
    }
    case kAtomicRMW: {
      const u64 a = concretize(V(f, I.a), 64);
      const Leaf l = I.x->leaves[0];
      checkAccess(a, l.bytes, true);
      const Val o = loadAt(a, l.bytes, l.w), b = V(f, I.b);
      Val n{0, nullptr};
      switch (I.op) {
      case L::AtomicRMWInst::Xchg: n = b; break;
      case L::AtomicRMWInst::Add: n = mk(ctx.bin(Op::Add, E(o, l.w), E(b, l.w))); break;
      case L::AtomicRMWInst::Sub: n = mk(ctx.bin(Op::Sub, E(o, l.w), E(b, l.w))); break;
      case L::AtomicRMWInst::Or: n = mk(ctx.bin(Op::Or, E(o, l.w), E(b, l.w))); break;
      case L::AtomicRMWInst::And: n = mk(ctx.bin(Op::And, E(o, l.w), E(b, l.w))); break;
      default: unsupported("atomicrmw");
      }
      storeAt(a, l.bytes, l.w, n);
      R[I.dst] = o;
      break;
    }
    case kCmpXchg: {
      const u64 a = concretize(V(f, I.a), 64);
      const Leaf l = I.x->leaves[0];
      checkAccess(a, l.bytes, true);
      const Val o = loadAt(a, l.bytes, l.w);
      const Val eq = icmp(L::CmpInst::ICMP_EQ, o, V(f, I.b), l.w);
      const bool r = eq.e ? decide(eq.e) : eq.v;
      if (r) storeAt(a, l.bytes, l.w, V(f, I.c));
      R[I.dst] = o;
      R[I.dst + 1] = {r, nullptr};
      break;
    }
    case kUnreachable: fatal("unreachable", "code assumed unreachable is reached");
    default: unsupported("opcode " + std::to_string(I.k));
    }
  }
}

// --------------------------------------------------------------------- main
static int prep(const char* in, const char* out) {
  L::LLVMContext c;
  auto mb = L::MemoryBuffer::getFile(in);
  if (!mb) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  auto m = L::parseBitcodeFile((*mb)->getMemBufferRef(), c);
  if (!m) { fprintf(stderr, "bad bitcode %s\n", in); return 2; }
  unsigned n = 0;
  const auto fix = [&n](L::GlobalValue& g) {
    if (g.isDeclaration() || g.getName().starts_with("llvm.")) return;
    g.setDSOLocal(false);
    if (g.hasLocalLinkage()) {
      g.setName("ksx." + std::to_string(n++) + "." + g.getName().str());
      g.setLinkage(L::GlobalValue::ExternalLinkage);
    }
    if (!g.hasAvailableExternallyLinkage()) g.setVisibility(L::GlobalValue::DefaultVisibility);
    if (g.hasLinkOnceODRLinkage()) g.setLinkage(L::GlobalValue::WeakODRLinkage);
    if (g.hasLinkOnceAnyLinkage()) g.setLinkage(L::GlobalValue::WeakAnyLinkage);
  };
  for (auto& g : (*m)->globals()) fix(g);
  for (auto& f : **m) fix(f);
  for (auto& a : (*m)->aliases()) fix(a);
  std::error_code ec;
  L::raw_fd_ostream os(out, ec);
  L::WriteBitcodeToFile(**m, os);
  return 0;
}

static void loadRegions() {
  FILE* f = fopen("/proc/self/maps", "r");
  char line[1024];
  uintptr_t prevHi = 0;
  bool prevLib = false;
  while (fgets(line, sizeof line, f)) {
    uintptr_t lo, hi;
    char perm[8], path[512] = "";
    unsigned long off, ino;
    char dev[16];
    if (sscanf(line, "%lx-%lx %7s %lx %15s %lu %511s", &lo, &hi, perm, &off, dev, &ino, path) < 6) continue;
    bool lib = path[0] == '/';
    if (!lib && !path[0] && prevLib && lo == prevHi) lib = true; // .bss
    if (lib && perm[0] == 'r') {
      if (!regions.empty() && regions.back().second == lo) regions.back().second = hi;
      else regions.push_back({lo, hi});
    }
    prevHi = hi;
    prevLib = lib;
  }
  fclose(f);
}

static void crash(int sig) {
  char b[100];
  const int n = snprintf(b, 100, "engine: signal %d\n", sig);
  if (write(2, b, static_cast<size_t>(n)) < 0) {}
  if (!frames.empty()) {
    const std::string s = backtrace() + inputsJson() + "\n";
    if (write(2, s.data(), s.size()) < 0) {}
  }
  _exit(99);
}

// few large pages make forking a path much cheaper than many small ones
static void collapsePages() {
  FILE* f = fopen("/proc/self/maps", "r");
  if (!f) return;
  std::vector<std::pair<u64, u64>> v;
  char l[4096], perm[8];
  u64 lo, hi, off, ino;
  int n = 0;
  while (fgets(l, sizeof l, f))
    if (sscanf(l, "%lx-%lx %7s %lx %*s %lu %n", &lo, &hi, perm, &off, &ino, &n) >= 5 && !ino && perm[1] == 'w' && perm[3] == 'p' && hi - lo < (200ul << 20))
      v.emplace_back(lo, hi);
  fclose(f);
  constexpr u64 Huge = 2 << 20;
  for (auto& r : v) {
    const u64 a = (r.first + Huge - 1) & ~(Huge - 1), b = r.second & ~(Huge - 1);
    if (a < b) { const int rc = madvise(reinterpret_cast<void*>(a), b - a, 25 /* MADV_COLLAPSE */); if (getenv("KSYM_DBG")) fprintf(stderr, "collapse %lx-%lx %d %d\n", a, b, rc, errno); }
  }
}

// called from code that runs natively (ksym_setup): there is nothing to stop
__attribute__((used, visibility("default"))) void ksym_unsupported() { fprintf(stderr, "unsupported\n"); _exit(3); }
int main(int argc, char** argv) {
  if (argc >= 4 && !strcmp(argv[1], "prep")) return prep(argv[2], argv[3]);
  if (argc < 5) { fprintf(stderr, "usage: ksym run X.bc X.so OUT.jsonl [opt=value...]\n"); return 2; }
  long jobs = sysconf(_SC_NPROCESSORS_ONLN);
  std::string entry = "ksym_main", scratch = "/tmp";
  for (int i = 5; i < argc; ++i) {
    std::string o = argv[i];
    const auto p = o.find('=');
    const std::string k = o.substr(0, p), v = p == std::string::npos ? "" : o.substr(p + 1);
    if (k == "seconds") maxSeconds = atof(v.c_str());
    else if (k == "insts") maxInsts = atol(v.c_str());
    else if (k == "jobs") jobs = atol(v.c_str());
    else if (k == "entry") entry = v;
    else if (k == "records") maxRecords = atol(v.c_str());
    else if (k == "viol") maxViolations = atol(v.c_str());
    else if (k == "scratch") scratch = v;
    else if (k == "trace") trace = true;
  }
  scratchDir = strdup(scratch.c_str());
  recordEvery = std::max(1L, maxRecords / 3);
  startTime = now();
  rootPid = getpid();
  rlimit rl{1ull << 30, RLIM_INFINITY};
  getrlimit(RLIMIT_STACK, &rl);
  L::LLVMContext c;
  auto mb = L::MemoryBuffer::getFile(argv[2]);
  if (!mb) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
  auto mod = L::parseBitcodeFile((*mb)->getMemBufferRef(), c);
  if (!mod) { fprintf(stderr, "bad bitcode\n"); return 2; }
  M = mod->get();
  DL = &M->getDataLayout();
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sh->tokens = jobs - 1;
  outFd = open(argv[4], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (outFd < 0) { perror(argv[4]); return 2; }

  g_track = true; // allocations of static initialisation belong to the program
  soHandle = dlopen(argv[3], RTLD_NOW | RTLD_GLOBAL);
  g_track = false;
  if (!soHandle) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
  loadRegions();
  initHandlers();
  for (auto& g : M->globals()) {
    if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
    if (g.isThreadLocal()) continue;
    if (void* p = symAddr(g.getName().str())) {
      const auto a = reinterpret_cast<uintptr_t>(p);
      const u64 n = DL->getTypeAllocSize(g.getValueType());
      auto& o = objs[a];
      o.hi = std::max(o.hi, a + n);
    }
  }
  int idx = 0;
  for (auto& F : *M) {
    funcIndex[&F] = F.isDeclaration() || idx >= (1 << 16) - 1 ? -1 : idx;
    funcList.push_back(&F);
    if (!F.isDeclaration()) ++idx; else funcList.pop_back();
  }
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    const std::string n = F.getName().str();
    for (void* p : {dlsym(soHandle, n.c_str()), dlsym(RTLD_DEFAULT, n.c_str())})
      if (p) calleeAt.emplace(reinterpret_cast<u64>(p), calleeFor(&F));
  }
  collectLabels(entry);
  if (void* s = dlsym(soHandle, "ksym_setup")) {
    g_track = true;
    reinterpret_cast<void (*)()>(s)();
    g_track = false;
  }
  auto* st = static_cast<char*>(mmap(nullptr, 256 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  stackLo = reinterpret_cast<uintptr_t>(st);
  stackHi = stackLo + (256 << 20);
  stackPtr = stackLo + 4096;
  regBase = regTop = static_cast<Val*>(mmap(nullptr, 512 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  objs[reinterpret_cast<uintptr_t>(__errno_location())] = {reinterpret_cast<uintptr_t>(__errno_location()) + sizeof(int), true};
  ++objGen;
  solver = new Solver(ctx);
  signal(SIGSEGV, crash);
  signal(SIGABRT, crash);
  signal(SIGBUS, crash);
  signal(SIGFPE, crash);
  signal(SIGILL, crash);
  auto* F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no %s\n", entry.c_str()); return 2; }
  // decode what can be reached here, once, instead of in every path's process
  decodingAhead = true;
  std::vector<const L::Function*> todo{F};
  std::unordered_set<const L::Function*> seen{F};
  const auto want = [&](const L::Function* g) {
    if (g && !g->isIntrinsic())
      if (Callee* cl = calleeFor(g); cl->F && !cl->h && seen.insert(cl->F).second) todo.push_back(cl->F);
  };
  for (auto& c : std::map<u64, Callee*>(calleeAt)) want(c.second->F);
  while (!todo.empty()) {
    const L::Function* G = todo.back();
    todo.pop_back();
    Callee* cl = calleeFor(G);
    try {
      if (!cl->d && cl->F == G) cl->d = decodeFunc(G);
    } catch (NotDecoded&) {}
    for (auto& B : *G)
      for (auto& J : B)
        if (auto* cb = L::dyn_cast<L::CallBase>(&J)) {
          if (auto* cf = cb->getCalledFunction()) want(cf);
        }
  }
  decodingAhead = false;
  collapsePages();
  const double setupS = now() - startTime;

  inc(sh->live);
  fflush(nullptr);
  prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
  const pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0); // workers form a group that can be ended as a whole
    const rlim_t most = static_cast<rlim_t>(maxSeconds) + 60;
    const rlimit cpu{most, most};
    setrlimit(RLIMIT_CPU, &cpu); // also if the root process is killed
    Callee* cl = calleeFor(F);
    cl->d = decodeFunc(F);
    pushFrame(cl->d, {});
    run();
    pathRecord();
    inc(sh->done);
    finish();
  }
  bool killed = false;
  for (;;) {
    int ws = 0;
    const pid_t w = waitpid(-1, &ws, WNOHANG);
    if (w > 0) {
      if (!killed && (!WIFEXITED(ws) || WEXITSTATUS(ws))) inc(sh->crashed);
      continue;
    }
    if (w < 0 && errno != EINTR) break;
    if (!killed && now() - startTime > maxSeconds + 15) { // a query that does not return
      sh->stop = 2;
      kill(-p, SIGKILL);
      killed = true;
    }
    usleep(w == 0 ? 1000 : 0);
  }
  std::string fn = "[";
  long nf = 0;
  for (size_t i = 0; i < funcList.size(); ++i)
    if (i < (1 << 16) && sh->funcHit[i]) {
      ++nf;
      const std::string d = shortName(funcList[i]);
      if (d.find("kanji_tools::") != std::string::npos && d.rfind("std::", 0) != 0 && d.find(" std::") == std::string::npos && d.find("__gnu") == std::string::npos) {
        if (fn.size() > 1) fn += ',';
        fn += "\"" + esc(d.substr(0, 200)) + "\"";
      }
    }
  std::string lab = "{";
  for (auto& l : labelIds) {
    if (lab.size() > 1) lab += ',';
    lab += "\"" + esc(l.first) + "\":" + (sh->labelHit[l.second] ? "1" : "0");
  }
  std::ostringstream os;
  os << "{\"t\":\"sum\",\"paths\":" << sh->paths << ",\"assumed_out\":" << sh->assumedOut
     << ",\"forks\":" << sh->forks << ",\"queries\":" << sh->queries << ",\"sat\":" << sh->sat
     << ",\"unsat\":" << sh->unsat << ",\"unknown\":" << sh->unknown << ",\"insts\":" << sh->insts
     << ",\"asserts\":" << sh->asserts << ",\"domain\":" << sh->domain << ",\"domain_confirmed\":" << sh->confirmed << ",\"assert_queries\":" << sh->assertQueries
     << ",\"violations\":" << sh->violations << ",\"unsupported\":" << sh->unsupported
     << ",\"crashed\":" << sh->crashed << ",\"stop\":" << sh->stop << ",\"max_depth\":" << sh->maxDepth
     << ",\"solver_s\":" << sh->solverUs / 1e6 << ",\"setup_s\":" << setupS << ",\"wall_s\":" << now() - startTime
     << ",\"functions\":" << nf << ",\"repo_functions\":" << fn << "],\"labels\":" << lab << "}}";
  outLine(os.str());
  return 0;
}
