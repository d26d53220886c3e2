// Models of the functions that are not executed from IR: the harness API,
// compiler intrinsics, allocation, exceptions, raw memory and file contents.
static const char* scratchDir = "/tmp";

static u64 C(Call& c, size_t i, unsigned w = 64) { return concretize(c.a[i], w); }
static unsigned retW(Call& c) { return intW(c.I.I->getType()); }

static std::string cstr(u64 p) {
  std::string r;
  for (;; ++p) {
    checkAccess(p, 1, false);
    const Val v = loadAt(p, 1, 8);
    const char ch = static_cast<char>(concretize(v, 8));
    if (!ch) return r;
    r += ch;
  }
}
static void range(u64 p, u64 n, bool write) { if (n) checkAccess(p, n, write); }

// ------------------------------------------------------------- harness API
static void hSymbolic(Call& c) {
  const u64 p = C(c, 0), n = C(c, 1);
  const std::string name = cstr(C(c, 2));
  range(p, n, true);
  Input in{name, false, 0, {}};
  for (u64 i = 0; i < n; ++i) {
    Expr* e = ctx.var(8, name);
    model.resize(ctx.vars.size());
    *reinterpret_cast<uint8_t*>(p + i) = 0;
    setShadow(p + i, e, 0);
    in.bytes.push_back(e);
  }
  inputs.push_back(in);
}
static void hChoose(Call& c) {
  const u64 n = C(c, 0, 32);
  const std::string name = cstr(C(c, 1));
  const size_t at = inputs.size();
  inputs.push_back({name, true, 0, {}});
  u64 v = 0;
  // try the values in order: the child explores v, the parent goes on
  while (v + 1 < n) {
    if (forkPath()) break;
    ++v;
  }
  inputs[at].value = v;
  c.ret = {v, nullptr};
}
static void hAssume(Call& c) { assume(E(c.a[0], 1)); }
static void hit(const std::string& l) {
  auto i = labelIds.find(l);
  if (i != labelIds.end()) sh->labelHit[i->second] = 1;
}
static void hAssert(Call& c) {
  const std::string l = cstr(C(c, 1));
  inc(sh->asserts);
  hit(l);
  check(E(c.a[0], 1), "assert", l);
}
static void hReach(Call& c) { hit(cstr(C(c, 0))); }
static void hObserve(Call& c) {
  observations.push_back({cstr(C(c, 0)), {}, true, c.a[1]});
}
static void hObserveBytes(Call& c) {
  const u64 p = C(c, 1), n = C(c, 2);
  range(p, n, false);
  Obs o{cstr(C(c, 0)), {}, false, {}};
  for (u64 i = 0; i < n; ++i) o.bytes.push_back(byteAt(p + i));
  observations.push_back(o);
}
static void hConcretize(Call& c) { c.ret = {C(c, 0), nullptr}; }
static void hWriteFile(Call& c) {
  const std::string path = cstr(C(c, 0));
  const u64 p = C(c, 1), n = C(c, 2);
  range(p, n, false);
  std::vector<VByte> v;
  for (u64 i = 0; i < n; ++i) {
    Expr* e = byteAt(p + i);
    if (Ctx::isC(e)) v.push_back({static_cast<uint8_t>(e->c), nullptr});
    else v.push_back({0, e});
  }
  vfiles[path] = v;
  const int fd = open(path.c_str(), O_WRONLY | O_CREAT, 0644); // so that it exists
  if (fd >= 0) close(fd);
}
static void hDir(Call& c) {
  if (!findObj(reinterpret_cast<uintptr_t>(scratchDir)).first)
    recAlloc(const_cast<char*>(scratchDir), strlen(scratchDir) + 1);
  c.ret = {reinterpret_cast<u64>(scratchDir), nullptr};
}
static void hIsSym(Call& c) { c.ret = {1, nullptr}; }
static void hSplitDiv(Call& c) { mode = static_cast<int>(C(c, 0)); }

// --------------------------------------------------------------- allocation
static void hNew(Call& c) {
  const u64 n = C(c, 0);
  if (n > (1ull << 28)) fatal("memory", "allocation of " + std::to_string(n) + " bytes");
  void* p = __libc_malloc(n ? n : 1);
  recAlloc(p, n ? n : 1);
  g_track = false;
  c.ret = {reinterpret_cast<u64>(p), nullptr};
}
static void hCalloc(Call& c) {
  const u64 n = C(c, 0) * C(c, 1);
  void* p = __libc_calloc(1, n ? n : 1);
  recAlloc(p, n ? n : 1);
  g_track = false;
  c.ret = {reinterpret_cast<u64>(p), nullptr};
}
static void hDelete(Call& c) {
  const u64 p = C(c, 0);
  if (!p) return;
  const bool ok = recFree(reinterpret_cast<void*>(p));
  g_track = false;
  if (!ok) fatal("memory", "free of memory that is not allocated");
  __libc_free(reinterpret_cast<void*>(p));
}

// --------------------------------------------------------------- exceptions
static void hExcAlloc(Call& c) {
  const u64 n = C(c, 0);
  char* p = static_cast<char*>(__libc_calloc(1, n + 256)) + 128;
  objs[reinterpret_cast<uintptr_t>(p)] = {reinterpret_cast<uintptr_t>(p) + n, true};
  clearShadow(reinterpret_cast<u64>(p), n);
  ++objGen;
  c.ret = {reinterpret_cast<u64>(p), nullptr};
}
static void hExcFree(Call&) {}
static void hThrow(Call& c) {
  throwObj(reinterpret_cast<void*>(C(c, 0)), reinterpret_cast<const std::type_info*>(C(c, 1)));
  throw Thrown{};
}
static void hBeginCatch(Call& c) {
  auto* r = reinterpret_cast<ExcRec*>(C(c, 0));
  caught.push_back(r);
  c.ret = {reinterpret_cast<u64>(r->adj), nullptr};
}
static void hEndCatch(Call&) { if (!caught.empty()) caught.pop_back(); }
static void hRethrow(Call&) {
  if (caught.empty()) fatal("terminate", "rethrow without an exception");
  unwind(caught.back());
  throw Thrown{};
}
static void hTerminate(Call&) { fatal("terminate", "std::terminate is called"); }
static void hAbort(Call&) { fatal("terminate", "abort is called"); }
static void hNop(Call& c) { c.ret = {0, nullptr}; }
static void hGuardAcquire(Call& c) {
  const u64 p = C(c, 0);
  c.ret = {*reinterpret_cast<uint8_t*>(p) ? 0u : 1u, nullptr};
}
static void hGuardRelease(Call& c) { *reinterpret_cast<uint8_t*>(C(c, 0)) = 1; }

template <typename T> static void makeExc(u64 self, const char* d) {
  new (reinterpret_cast<void*>(self)) T(d);
}
// construct natively from a text of the same length, then copy the real bytes
static void excFrom(Call& c, u64 data, u64 n) {
  const u64 self = C(c, 0);
  range(data, n, false);
  const std::string dummy(n, 'x');
  const std::string& f = c.cl->name;
  g_track = true;
  if (f.find("12domain_error") != std::string::npos) makeExc<std::domain_error>(self, dummy.c_str());
  else if (f.find("12out_of_range") != std::string::npos) makeExc<std::out_of_range>(self, dummy.c_str());
  else if (f.find("16invalid_argument") != std::string::npos) makeExc<std::invalid_argument>(self, dummy.c_str());
  else if (f.find("11range_error") != std::string::npos) makeExc<std::range_error>(self, dummy.c_str());
  else if (f.find("14overflow_error") != std::string::npos) makeExc<std::overflow_error>(self, dummy.c_str());
  else if (f.find("12length_error") != std::string::npos) makeExc<std::length_error>(self, dummy.c_str());
  else if (f.find("13runtime_error") != std::string::npos) makeExc<std::runtime_error>(self, dummy.c_str());
  else makeExc<std::logic_error>(self, dummy.c_str());
  g_track = false;
  clearShadow(self, 16);
  copyMem(*reinterpret_cast<u64*>(self + 8), data, n);
}
static u64 strLen(u64 p) {
  u64 n = 0;
  for (;; ++n) {
    checkAccess(p + n, 1, false);
    const Val v = loadAt(p + n, 1, 8);
    if (v.e ? decide(ctx.bin(Op::Eq, v.e, ctx.cst(0, 8))) : !v.v) return n;
  }
}
static void hExcStr(Call& c) {
  const u64 s = C(c, 1);
  checkAccess(s, 16, false);
  const u64 data = concretize(loadAt(s, 8, 64), 64), n = concretize(loadAt(s + 8, 8, 64), 64);
  excFrom(c, data, n);
}
static void hExcCStr(Call& c) { const u64 s = C(c, 1); excFrom(c, s, strLen(s)); }

// ------------------------------------------------------------------- memory
static void hMemcpy(Call& c) {
  const u64 d = C(c, 0), s = C(c, 1), n = C(c, 2, c.a[2].e ? c.a[2].e->w : 64);
  range(d, n, true);
  range(s, n, false);
  copyMem(d, s, n);
  c.ret = {d, nullptr};
}
static void hMemset(Call& c) {
  const u64 d = C(c, 0), n = C(c, 2, c.a[2].e ? c.a[2].e->w : 64);
  range(d, n, true);
  if (c.a[1].e) {
    Expr* e = ctx.extract(c.a[1].e, 0, 8);
    for (u64 i = 0; i < n; ++i) storeAt(d + i, 1, 8, mk(e));
  } else {
    memset(reinterpret_cast<void*>(d), static_cast<int>(c.a[1].v), n);
    clearShadow(d, n);
  }
  c.ret = {d, nullptr};
}
static void hMemcmp(Call& c) {
  const u64 p = C(c, 0), q = C(c, 1), n = C(c, 2);
  range(p, n, false);
  range(q, n, false);
  if (!hasShadow(p, n) && !hasShadow(q, n)) {
    const int r = memcmp(reinterpret_cast<void*>(p), reinterpret_cast<void*>(q), n);
    c.ret = {static_cast<uint32_t>(r < 0 ? -1 : r > 0), nullptr};
    return;
  }
  // bytes compared with a constant split the path, so that what is learnt is
  // about single bytes
  u64 at = 0;
  for (; at < n; ++at) {
    Expr *x = fixedByte(byteAt(p + at)), *y = fixedByte(byteAt(q + at));
    if (x == y) continue;
    if (!Ctx::isC(x) && !Ctx::isC(y)) break;
    if (decide(ctx.bin(Op::Eq, x, y))) continue;
    c.ret = {decide(ctx.bin(Op::Ult, x, y)) ? 0xffffffffu : 1u, nullptr};
    return;
  }
  Expr *eq = ctx.t(), *r = ctx.cst(0, 32);
  for (u64 i = n; i-- > at;) {
    Expr *x = byteAt(p + i), *y = byteAt(q + i);
    Expr* e = ctx.bin(Op::Eq, x, y);
    if (Ctx::isC(e, 1)) continue;
    r = ctx.ite(e, r, ctx.ite(ctx.bin(Op::Ult, x, y), ctx.cst(0xffffffff, 32), ctx.cst(1, 32)));
    eq = ctx.bin(Op::And, eq, e);
  }
  (void)eq;
  c.ret = mk(r);
}
static void hBcmp(Call& c) {
  const u64 p = C(c, 0), q = C(c, 1), n = C(c, 2);
  range(p, n, false);
  range(q, n, false);
  Expr* eq = ctx.t();
  for (u64 i = 0; i < n; ++i) eq = ctx.bin(Op::And, eq, ctx.bin(Op::Eq, byteAt(p + i), byteAt(q + i)));
  c.ret = mk(ctx.ite(eq, ctx.cst(0, 32), ctx.cst(1, 32)));
}
static void hMemchr(Call& c) {
  const u64 p = C(c, 0), n = C(c, 2);
  Expr* x = ctx.extract(E(c.a[1], 32), 0, 8);
  for (u64 i = 0; i < n; ++i) {
    checkAccess(p + i, 1, false);
    if (decide(ctx.bin(Op::Eq, byteAt(p + i), x))) { c.ret = {p + i, nullptr}; return; }
  }
  c.ret = {0, nullptr};
}
static void hStrlen(Call& c) { c.ret = {strLen(C(c, 0)), nullptr}; }
static void hStrcmp(Call& c) {
  const u64 p = C(c, 0), q = C(c, 1);
  for (u64 i = 0;; ++i) {
    checkAccess(p + i, 1, false);
    checkAccess(q + i, 1, false);
    Expr *x = byteAt(p + i), *y = byteAt(q + i);
    if (!decide(ctx.bin(Op::Eq, x, y))) {
      c.ret = {decide(ctx.bin(Op::Ult, x, y)) ? 0xffffffffu : 1u, nullptr};
      return;
    }
    if (decide(ctx.bin(Op::Eq, x, ctx.cst(0, 8)))) { c.ret = {0, nullptr}; return; }
  }
}
static Val wcAt(u64 p) { checkAccess(p, 4, false); return loadAt(p, 4, 32); }
static void hWcslen(Call& c) {
  const u64 p = C(c, 0);
  u64 n = 0;
  for (;; ++n) {
    const Val v = wcAt(p + 4 * n);
    if (v.e ? decide(ctx.bin(Op::Eq, v.e, ctx.cst(0, 32))) : !v.v) break;
  }
  c.ret = {n, nullptr};
}
static void hWmemcmp(Call& c) {
  const u64 p = C(c, 0), q = C(c, 1), n = C(c, 2);
  Expr* r = ctx.cst(0, 32);
  for (u64 i = n; i-- > 0;) {
    Expr *x = E(wcAt(p + 4 * i), 32), *y = E(wcAt(q + 4 * i), 32);
    r = ctx.ite(ctx.bin(Op::Eq, x, y), r,
        ctx.ite(ctx.bin(Op::Slt, x, y), ctx.cst(0xffffffff, 32), ctx.cst(1, 32)));
  }
  c.ret = mk(r);
}
static void hWmemchr(Call& c) {
  const u64 p = C(c, 0), n = C(c, 2);
  Expr* x = E(c.a[1], 32);
  for (u64 i = 0; i < n; ++i)
    if (decide(ctx.bin(Op::Eq, E(wcAt(p + 4 * i), 32), x))) { c.ret = {p + 4 * i, nullptr}; return; }
  c.ret = {0, nullptr};
}
static void hWmemcpy(Call& c) {
  const u64 d = C(c, 0), s = C(c, 1), n = C(c, 2) * 4;
  range(d, n, true);
  range(s, n, false);
  copyMem(d, s, n);
  c.ret = {d, nullptr};
}
static void hWmemset(Call& c) {
  const u64 d = C(c, 0), n = C(c, 2);
  range(d, n * 4, true);
  for (u64 i = 0; i < n; ++i) storeAt(d + 4 * i, 4, 32, c.a[1]);
  c.ret = {d, nullptr};
}

// ------------------------------------------------------------------- files
struct VOpen { std::vector<VByte> data; size_t pos; bool fallback; };
// keyed by a token in the first field (the FILE pointer), which moves with the object
static std::map<u64, VOpen> openFiles;
static u64 fileKey(u64 self) { return *reinterpret_cast<u64*>(self); }
static bool readFile(const std::string& p, std::vector<VByte>& v) {
  auto i = vfiles.find(p);
  if (i != vfiles.end()) { v = i->second; return true; }
  struct stat st;
  if (stat(p.c_str(), &st) || S_ISDIR(st.st_mode)) return false;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  for (int ch; (ch = fgetc(f)) != EOF;) v.push_back({static_cast<uint8_t>(ch), nullptr});
  fclose(f);
  return true;
}
static void hFileOpen(Call& c) { // open(const char*, openmode, int)
  const u64 self = C(c, 0);
  const std::string p = cstr(C(c, 1));
  VOpen o{{}, 0, false};
  if (fileKey(self) || !readFile(p, o.data)) { c.ret = {0, nullptr}; return; }
  static u64 token = 0x4b00000000000001ull;
  *reinterpret_cast<u64*>(self) = ++token;
  openFiles[token] = o;
  c.ret = {self, nullptr};
}
static void hFileClose(Call& c) {
  const u64 self = C(c, 0);
  c.ret = {openFiles.erase(fileKey(self)) ? self : 0, nullptr};
  *reinterpret_cast<u64*>(self) = 0;
}
static void hFileIsOpen(Call& c) { c.ret = {openFiles.count(fileKey(C(c, 0))), nullptr}; }
static void hFileRead(Call& c) {
  const u64 self = C(c, 0), p = C(c, 1), n = C(c, 2);
  auto i = openFiles.find(fileKey(self));
  if (i == openFiles.end()) { c.ret = {~0ull, nullptr}; return; }
  VOpen& o = i->second;
  const u64 k = std::min<u64>(n, o.data.size() - o.pos);
  range(p, k, true);
  for (u64 j = 0; j < k; ++j, ++o.pos) {
    if (o.data[o.pos].e) storeAt(p + j, 1, 8, mk(o.data[o.pos].e));
    else storeAt(p + j, 1, 8, {o.data[o.pos].b, nullptr});
  }
  c.ret = {k, nullptr};
}
static void hFileSeek(Call& c) { // seekoff(off, way)
  auto i = openFiles.find(fileKey(C(c, 0)));
  if (i == openFiles.end()) { c.ret = {~0ull, nullptr}; return; }
  VOpen& o = i->second;
  const auto off = static_cast<int64_t>(C(c, 1));
  const u64 way = C(c, 2, 32);
  const int64_t base = way == 0 ? 0 : way == 1 ? static_cast<int64_t>(o.pos) : static_cast<int64_t>(o.data.size());
  const int64_t np = base + off;
  if (np < 0 || np > static_cast<int64_t>(o.data.size())) { c.ret = {~0ull, nullptr}; return; }
  o.pos = static_cast<size_t>(np);
  c.ret = {o.pos, nullptr};
}
static void hFileShow(Call& c) {
  auto i = openFiles.find(fileKey(C(c, 0)));
  c.ret = {i == openFiles.end() ? 0 : i->second.data.size() - i->second.pos, nullptr};
}
static void hFileWrite(Call&) { unsupported("writing a file"); }
static void hFileFd(Call& c) { c.ret = {0xffffffff, nullptr}; }

// --------------------------------------------------------------- intrinsics
static void hOverflow(Call& c) {
  const std::string& n = c.cl->name;
  const unsigned w = intW(L::cast<L::CallBase>(c.I.I)->getArgOperand(0)->getType());
  Expr *x = E(c.a[0], w), *y = E(c.a[1], w);
  const bool sg = n[5] == 's';
  const char k = n[6] == 'a' ? '+' : n[6] == 's' ? '-' : '*';
  const Op op = k == '+' ? Op::Add : k == '-' ? Op::Sub : Op::Mul;
  Expr* r = ctx.bin(op, x, y);
  Expr* o;
  if (w <= 32) {
    Expr* X = sg ? ctx.sextE(x, 2 * w) : ctx.zext(x, 2 * w);
    Expr* Y = sg ? ctx.sextE(y, 2 * w) : ctx.zext(y, 2 * w);
    Expr* R = sg ? ctx.sextE(r, 2 * w) : ctx.zext(r, 2 * w);
    o = ctx.notE(ctx.bin(Op::Eq, ctx.bin(op, X, Y), R));
  } else if (k == '*') {
    if (Ctx::isC(x)) std::swap(x, y);
    if (!Ctx::isC(y)) { // rare: one factor made concrete
      y = ctx.cst(concretize(mk(y), w), w);
      r = ctx.bin(op, x, y);
    }
    if (sg) {
      const int64_t m = static_cast<int64_t>(y->c);
      if (m == 0 || m == 1) o = ctx.f();
      else {
        const int64_t hi = m > 0 ? INT64_MAX / m : INT64_MIN / (m == -1 ? 1 : m), lo = m > 0 ? INT64_MIN / m : INT64_MAX / m;
        o = m == -1 ? ctx.bin(Op::Eq, x, ctx.cst(static_cast<u64>(INT64_MIN), 64))
                    : ctx.bin(Op::Or, ctx.bin(Op::Slt, ctx.cst(static_cast<u64>(hi), w), x),
                          ctx.bin(Op::Slt, x, ctx.cst(static_cast<u64>(lo), w)));
      }
    } else
      o = y->c ? ctx.bin(Op::Ult, ctx.cst(mask(w) / y->c, w), x) : ctx.f();
  } else if (!sg) {
    o = k == '+' ? ctx.bin(Op::Ult, r, x) : ctx.bin(Op::Ult, x, y);
  } else {
    Expr* z = ctx.cst(0, w);
    Expr *sx = ctx.bin(Op::Slt, x, z), *sy = ctx.bin(Op::Slt, y, z), *sr = ctx.bin(Op::Slt, r, z);
    Expr* diff = ctx.bin(Op::Xor, sx, sr);
    Expr* same = k == '+' ? ctx.notE(ctx.bin(Op::Xor, sx, sy)) : ctx.bin(Op::Xor, sx, sy);
    o = ctx.bin(Op::And, same, diff);
  }
  c.ret = mk(r);
  c.ret2 = mk(o);
}
// element-wise intrinsics on scalars (vectors are handled by looping callers)
static void hMinMax(Call& c) {
  const std::string& n = c.cl->name;
  const unsigned w = retW(c);
  if (!w) unsupported(n);
  Expr *x = E(c.a[0], w), *y = E(c.a[1], w);
  const bool sg = n[5] == 's', mx = n[7] == 'a';
  Expr* lt = ctx.bin(sg ? Op::Slt : Op::Ult, x, y);
  c.ret = mk(mx ? ctx.ite(lt, y, x) : ctx.ite(lt, x, y));
}
static void hSat(Call& c) {
  const std::string& n = c.cl->name;
  const unsigned w = retW(c);
  if (!w || n[5] == 's') unsupported(n);
  Expr *x = E(c.a[0], w), *y = E(c.a[1], w);
  if (n[6] == 'a') {
    Expr* r = ctx.bin(Op::Add, x, y);
    c.ret = mk(ctx.ite(ctx.bin(Op::Ult, r, x), ctx.cst(~0ull, w), r));
  } else
    c.ret = mk(ctx.ite(ctx.bin(Op::Ult, x, y), ctx.cst(0, w), ctx.bin(Op::Sub, x, y)));
}
static void hAbs(Call& c) {
  const unsigned w = retW(c);
  if (!w) unsupported(c.cl->name);
  Expr *x = E(c.a[0], w), *z = ctx.cst(0, w);
  c.ret = mk(ctx.ite(ctx.bin(Op::Slt, x, z), ctx.bin(Op::Sub, z, x), x));
}
static void hBits(Call& c) { // ctlz, cttz, ctpop
  const std::string& n = c.cl->name;
  const unsigned w = retW(c);
  if (!w) unsupported(n);
  Expr* x = E(c.a[0], w);
  const bool lz = n.find("ctlz") != std::string::npos, tz = n.find("cttz") != std::string::npos;
  if (lz || tz) {
    Expr* r = ctx.cst(w, w);
    for (unsigned i = 0; i < w; ++i) {
      const unsigned b = lz ? i : w - 1 - i;
      r = ctx.ite(ctx.bin(Op::Eq, ctx.extract(x, b, 1), ctx.cst(1, 1)), ctx.cst(lz ? w - 1 - b : b, w), r);
    }
    c.ret = mk(r);
  } else {
    Expr* r = ctx.cst(0, w);
    for (unsigned i = 0; i < w; ++i) r = ctx.bin(Op::Add, r, ctx.zext(ctx.extract(x, i, 1), w));
    c.ret = mk(r);
  }
}
static void hBswap(Call& c) {
  const unsigned w = retW(c);
  Expr* x = E(c.a[0], w);
  Expr* r = ctx.extract(x, 0, 8);
  for (unsigned i = 8; i < w; i += 8) r = ctx.concat(r, ctx.extract(x, i, 8));
  c.ret = mk(r);
}
static void hFsh(Call& c) {
  const unsigned w = retW(c);
  if (!w) unsupported(c.cl->name);
  Expr *x = E(c.a[0], w), *y = E(c.a[1], w);
  Expr* s = ctx.bin(Op::URem, E(c.a[2], w), ctx.cst(w, w));
  const bool l = c.cl->name.find("fshl") != std::string::npos;
  Expr* z = ctx.bin(Op::Eq, s, ctx.cst(0, w));
  Expr* o = ctx.bin(Op::Sub, ctx.cst(w, w), s);
  Expr* r = l ? ctx.bin(Op::Or, ctx.bin(Op::Shl, x, s), ctx.bin(Op::LShr, y, o))
              : ctx.bin(Op::Or, ctx.bin(Op::Shl, x, o), ctx.bin(Op::LShr, y, s));
  c.ret = mk(ctx.ite(z, l ? x : y, r));
}
static void hFirstArg(Call& c) { c.ret = c.a[0]; }
static void hObjSize(Call& c) { c.ret = {c.a[1].v ? 0 : mask(retW(c)), nullptr}; }
static void hTypeid(Call& c) { c.ret = {static_cast<u64>(typeId(C(c, 0))), nullptr}; }
static void hTrap(Call&) { fatal("trap", "trap"); }
static void hLoadRel(Call& c) {
  const u64 p = C(c, 0), o = C(c, 1, c.a[1].e ? c.a[1].e->w : 64);
  checkAccess(p + o, 4, false);
  c.ret = {p + static_cast<u64>(static_cast<int64_t>(*reinterpret_cast<int32_t*>(p + o))), nullptr};
}
static void hFp(Call& c) {
  const std::string& n = c.cl->name;
  for (auto& v : c.a) if (v.e) unsupported("symbolic floating point");
  const unsigned w = retW(c);
  const auto d = [&](size_t i) {
    if (w == 32) { float x; const uint32_t b = static_cast<uint32_t>(c.a[i].v); memcpy(&x, &b, 4); return static_cast<double>(x); }
    double x; memcpy(&x, &c.a[i].v, 8); return x;
  };
  double r;
  if (n.find("fabs") != std::string::npos) r = __builtin_fabs(d(0));
  else if (n.find("ceil") != std::string::npos) r = __builtin_ceil(d(0));
  else if (n.find("floor") != std::string::npos) r = __builtin_floor(d(0));
  else if (n.find("fmuladd") != std::string::npos) r = d(0) * d(1) + d(2);
  else if (n.find("log2") != std::string::npos) r = __builtin_log2(d(0));
  else if (n.find("sqrt") != std::string::npos) r = __builtin_sqrt(d(0));
  else unsupported(n);
  if (w == 32) { const float x = static_cast<float>(r); uint32_t b; memcpy(&b, &x, 4); c.ret = {b, nullptr}; }
  else { u64 b; memcpy(&b, &r, 8); c.ret = {b, nullptr}; }
}
static void hReduce(Call& c) {
  const std::string& n = c.cl->name;
  const unsigned w = retW(c);
  Expr* r = E(c.a[0], w);
  for (size_t i = 1; i < c.a.size(); ++i) {
    Expr* y = E(c.a[i], w);
    if (n.find(".add.") != std::string::npos) r = ctx.bin(Op::Add, r, y);
    else if (n.find(".or.") != std::string::npos) r = ctx.bin(Op::Or, r, y);
    else if (n.find(".and.") != std::string::npos) r = ctx.bin(Op::And, r, y);
    else if (n.find(".xor.") != std::string::npos) r = ctx.bin(Op::Xor, r, y);
    else if (n.find(".umax.") != std::string::npos) r = ctx.ite(ctx.bin(Op::Ult, r, y), y, r);
    else if (n.find(".umin.") != std::string::npos) r = ctx.ite(ctx.bin(Op::Ult, y, r), y, r);
    else if (n.find(".smax.") != std::string::npos) r = ctx.ite(ctx.bin(Op::Slt, r, y), y, r);
    else if (n.find(".smin.") != std::string::npos) r = ctx.ite(ctx.bin(Op::Slt, y, r), y, r);
    else unsupported(n);
  }
  c.ret = mk(r);
}
static void hUnsup(Call& c) { unsupported("call of " + c.cl->name); }
static void hStrerror(Call& c) { c.ret = {reinterpret_cast<u64>("error"), nullptr}; }

static void initHandlers() {
  auto& h = handlers;
  h["ksym_symbolic"] = hSymbolic;
  h["ksym_choose"] = hChoose;
  h["ksym_assume"] = hAssume;
  h["ksym_assert"] = hAssert;
  h["ksym_reach"] = hReach;
  h["ksym_observe"] = hObserve;
  h["ksym_observe_bytes"] = hObserveBytes;
  h["ksym_concretize"] = hConcretize;
  h["ksym_write_file"] = hWriteFile;
  h["ksym_dir"] = hDir;
  h["ksym_is_symbolic"] = hIsSym;
  h["ksym_mode"] = hSplitDiv;
  for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc",
           "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) h[n] = hNew;
  h["calloc"] = hCalloc;
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t",
           "_ZdlPvmSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) h[n] = hDelete;
  h["realloc"] = hUnsup;
  h["__cxa_allocate_exception"] = hExcAlloc;
  h["__cxa_free_exception"] = hExcFree;
  h["__cxa_throw"] = hThrow;
  h["__cxa_begin_catch"] = hBeginCatch;
  h["__cxa_end_catch"] = hEndCatch;
  h["__cxa_rethrow"] = hRethrow;
  h["__cxa_atexit"] = hNop;
  h["__cxa_guard_acquire"] = hGuardAcquire;
  h["__cxa_guard_release"] = hGuardRelease;
  h["__cxa_guard_abort"] = hNop;
  h["_ZSt9terminatev"] = hTerminate;
  h["__cxa_pure_virtual"] = hTerminate;
  h["abort"] = hAbort;
  h["__assert_fail"] = hAbort;
  for (auto e : {"12domain_error", "12out_of_range", "16invalid_argument", "11range_error",
           "14overflow_error", "12length_error", "13runtime_error", "11logic_error"})
    for (auto k : {"C1", "C2"}) {
      h[std::string("_ZNSt") + e + k + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = hExcStr;
      h[std::string("_ZNSt") + e + k + "EPKc"] = hExcCStr;
    }
  h["memcpy"] = h["memmove"] = hMemcpy;
  h["memset"] = hMemset;
  h["memcmp"] = hMemcmp;
  h["bcmp"] = hBcmp;
  h["memchr"] = hMemchr;
  h["strlen"] = hStrlen;
  h["strcmp"] = hStrcmp;
  h["wcslen"] = hWcslen;
  h["wmemcmp"] = hWmemcmp;
  h["wmemchr"] = hWmemchr;
  h["wmemcpy"] = h["wmemmove"] = hWmemcpy;
  h["wmemset"] = hWmemset;
  const std::string bf = "_ZNSt12__basic_fileIcE", bfc = "_ZNKSt12__basic_fileIcE";
  h[bf + "4openEPKcSt13_Ios_Openmodei"] = hFileOpen;
  h[bf + "5closeEv"] = hFileClose;
  h[bf + "D1Ev"] = h[bf + "D2Ev"] = hFileClose;
  h[bfc + "7is_openEv"] = hFileIsOpen;
  h[bf + "6xsgetnEPcl"] = hFileRead;
  h[bf + "7seekoffElSt12_Ios_Seekdir"] = hFileSeek;
  h[bf + "9showmanycEv"] = hFileShow;
  h[bf + "6xsputnEPKcl"] = hFileWrite;
  h[bf + "8xsputn_2EPKclS2_l"] = hFileWrite;
  h[bf + "4syncEv"] = hNop;
  h[bf + "2fdEv"] = hFileFd;
  h["_Z16ksym_unsupportedv"] = hUnsup;
  // IR replacements (runtime.cpp) for library functions without IR
  for (auto n : {"toupper", "tolower", "isdigit", "isxdigit", "isspace", "isalpha", "isupper",
           "islower", "isalnum", "isprint", "ispunct", "strtol", "strtoul", "strtoll", "strtoull"})
    overrides[n] = std::string("kr_") + n;
  overrides["__isoc23_strtoul"] = "kr_strtoul";
  overrides["__isoc23_strtol"] = "kr_strtol";
  overrides["_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"] = "kr_getline";
  overrides["_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = "kr_extract_string";
  overrides["_ZNSt13random_device9_M_getvalEv"] = "kr_random32";
  overrides["_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"] = "kr_ostream_insert";
  overrides["_ZNSi10_M_extractItEERSiRT_"] = "kr_istream_ushort";
  overrides["_ZNSi10_M_extractIjEERSiRT_"] = "kr_istream_uint";
  overrides["_ZNSi10_M_extractImEERSiRT_"] = "kr_istream_ulong";
  overrides["_ZNSo9_M_insertImEERSoT_"] = "kr_ostream_ulong";
  overrides["_ZNSo9_M_insertIdEERSoT_"] = "kr_ostream_double";
  overrides["_ZNSo9_M_insertIlEERSoT_"] = "kr_ostream_long";
}

static Handler findHandler(const std::string& n) {
  auto i = handlers.find(n);
  if (i != handlers.end()) return i->second;
  if (n.rfind("llvm.", 0)) return nullptr;
  const std::string s = n.substr(5);
  const auto is = [&s](const char* p) { return s.rfind(p, 0) == 0; };
  if (is("memcpy") || is("memmove")) return hMemcpy;
  if (is("memset")) return hMemset;
  if (s.find(".with.overflow") != std::string::npos) return hOverflow;
  if (is("smax.") || is("smin.") || is("umax.") || is("umin.")) return hMinMax;
  if (is("uadd.sat") || is("usub.sat") || is("sadd.sat") || is("ssub.sat")) return hSat;
  if (is("abs.")) return hAbs;
  if (is("ctlz.") || is("cttz.") || is("ctpop.")) return hBits;
  if (is("bswap.")) return hBswap;
  if (is("fshl.") || is("fshr.")) return hFsh;
  if (is("expect")) return hFirstArg;
  if (is("threadlocal.address")) return hFirstArg;
  if (is("launder") || is("strip.invariant")) return hFirstArg;
  if (is("objectsize")) return hObjSize;
  if (is("is.constant")) return hNop;
  if (is("eh.typeid.for")) return hTypeid;
  if (is("stacksave")) return hNop;
  if (is("trap") || is("ubsantrap") || is("debugtrap")) return hTrap;
  if (is("load.relative")) return hLoadRel;
  if (is("vector.reduce")) return hReduce;
  if (is("fabs") || is("ceil") || is("floor") || is("fmuladd") || is("log2") || is("sqrt")) return hFp;
  return hUnsup;
}

// labels of all assertions and reach points that the entry function can get to
static void labelStrings(const L::Value* v, std::set<std::string>& out, int lvl) {
  v = v->stripPointerCasts();
  if (auto* g = L::dyn_cast<L::GlobalVariable>(v)) {
    if (g->hasInitializer())
      if (auto* d = L::dyn_cast<L::ConstantDataArray>(g->getInitializer()))
        if (d->isString()) out.insert(std::string(d->getAsString().data(), strlen(d->getAsCString().data())));
  } else if (lvl > 0) {
    if (auto* s = L::dyn_cast<L::SelectInst>(v)) {
      labelStrings(s->getTrueValue(), out, lvl - 1);
      labelStrings(s->getFalseValue(), out, lvl - 1);
    } else if (auto* p = L::dyn_cast<L::PHINode>(v))
      for (auto& x : p->incoming_values()) labelStrings(x, out, lvl - 1);
  }
}
static void collectLabels(const std::string& entry) {
  std::set<const L::Function*> seen;
  std::vector<const L::Function*> todo;
  std::set<const L::Constant*> cseen;
  const std::function<void(const L::Value*)> visit = [&](const L::Value* v) {
    if (auto* f = L::dyn_cast<L::Function>(v)) {
      if (!f->isDeclaration() && seen.insert(f).second) todo.push_back(f);
    } else if (auto* c = L::dyn_cast<L::Constant>(v)) {
      if (L::isa<L::ConstantData>(c) || !cseen.insert(c).second) return;
      for (auto& o : c->operands()) visit(o);
    }
  };
  if (auto* f = M->getFunction(entry)) visit(f);
  std::set<std::string> out;
  while (!todo.empty()) {
    auto* f = todo.back();
    todo.pop_back();
    for (auto& i : L::instructions(*f)) {
      for (auto& o : i.operands()) visit(o);
      if (auto* c = L::dyn_cast<L::CallBase>(&i))
        if (auto* g = c->getCalledFunction()) {
          if (g->getName() == "ksym_assert") labelStrings(c->getArgOperand(1), out, 3);
          else if (g->getName() == "ksym_reach") labelStrings(c->getArgOperand(0), out, 3);
        }
    }
  }
  int n = 0;
  for (auto& l : out) if (n < 4096) labelIds[l] = n++;
}
