// included by sx.cpp: instruction execution, builtins, main loop

static inline const Val &opv(Frame &f, int i) {
  return i >= 0 ? f.regs[i] : f.kf->consts[-i - 1];
}

typedef Val (*Builtin)(State &, std::vector<Val> &, const KInst &);
static std::unordered_map<std::string, Builtin> builtins;

static void pushFrame(State &st, Function *F, const std::vector<Val> &args, const KInst *call) {
  KFunction *k = getKF(F);
  if (k->inRepo && executedSet.insert(F).second) executedFns.insert(F->getName().str());
  if (st.st.size() > 400) fail(st, "memory", "stack overflow (recursion deeper than 400 frames)");
  st.st.emplace_back();
  Frame &f = st.st.back();
  f.kf = k;
  f.regs.resize(k->nregs);
  unsigned n = F->arg_size();
  for (unsigned i = 0; i < n && i < args.size(); i++) {
    f.regs[i] = args[i];
    if (F->getArg(i)->hasByValAttr()) {
      uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i));
      uint64_t p = newObj(st, sz, Obj::STACK, 0);
      copyMem(st, p, args[i].c, sz);
      f.regs[i] = C(p, 64);
      f.allocas.push_back(p);
    }
  }
  if (F->isVarArg()) {
    uint64_t p = newObj(st, 8 * (args.size() > n ? args.size() - n : 0), Obj::STACK, 0);
    for (unsigned i = n; i < args.size(); i++) storeVal(st, p + 8 * (i - n), args[i], 8);
    f.va = p;
    f.allocas.push_back(p);
  }
  f.bb = &F->getEntryBlock();
  f.pc = 0;
  f.call = call;
}
static void enterBB(Frame &f, const BasicBlock *to) {
  const BasicBlock *from = f.bb;
  unsigned pc = f.kf->bbStart[to];
  f.prev = from; f.bb = to;
  // parallel phi evaluation
  std::vector<std::pair<int, Val>> tmp;
  while (auto *ph = dyn_cast<PHINode>(f.kf->insts[pc].I)) {
    KInst &ki = f.kf->insts[pc];
    int i = ph->getBasicBlockIndex(from);
    tmp.push_back({ki.dest, opv(f, ki.ops[i])});
    pc++;
  }
  for (auto &t : tmp) f.regs[t.first] = t.second;
  f.pc = pc;
}

static uint64_t addrOp(State &st, const Val &v) { return concretize(st, v); }

static Val freshSym(State &st, unsigned w, const std::string &name) {
  std::string n = name + "!" + std::to_string(st.nsym++);
  E e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), bvSort(w)));
  st.inputs.push_back({name, w, e});
  Val v; v.w = w; v.e = e;
  return v;
}

static uint64_t doMalloc(State &st, uint64_t n, uint8_t fill) {
  if (n > (1ull << 24)) return 0;
  st.liveHeap++;
  return newObj(st, n, Obj::HEAP, fill);
}
static void doFree(State &st, uint64_t p) {
  if (!p) return;
  ObjP *o = findObj(st, p);
  if (!o || (*o)->kind != Obj::HEAP || (*o)->base != p) fail(st, "memory", "free of a pointer not from malloc");
  if ((*o)->freed) fail(st, "memory", "double free");
  auto n = std::make_shared<Obj>();
  n->base = p; n->size = (*o)->size; n->kind = Obj::HEAP; n->freed = true;
  *o = n;
  st.liveHeap--;
}
static std::string mustStr(State &st, uint64_t a) {
  std::string s;
  if (!concStr(st, a, s)) { errs() << "sx: symbolic label\n"; abort(); }
  return s;
}
static Val VOID() { Val v; return v; }
static void doAssume(State &st, const Val &v) {
  if (v.conc()) { if (!v.c) endPath(1); return; }
  Val b = icmp(CmpInst::ICMP_NE, v, C(0, v.w));
  if (b.conc()) { if (!b.c) endPath(1); return; }
  bool mv;
  if (st.model && evalBool(st.model, b.e, mv) && mv) { addPC(st, b.e); return; }
  ModelP m;
  Sat r = check(st, &b.e, &m);
  if (r == UNSAT) endPath(1);
  addPC(st, b.e);
  st.model = r == SAT ? m : nullptr;
}
static void doAssert(State &st, const Val &v, const std::string &msg) {
  nAsserts++;
  if (v.conc()) { if (!v.c) { report(st, "assert", msg); endPath(2); } return; }
  Val b = icmp(CmpInst::ICMP_NE, v, C(0, v.w));
  if (b.conc()) { if (!b.c) { report(st, "assert", msg); endPath(2); } return; }
  nAssertQueries++;
  ModelP mt, mf;
  int d = decide(st, b.e, mt, mf);
  if (d == 0) endPath(1);
  if (d & 2) {
    if (!mf) { markIncomplete("assertion not decided: " + msg); }
    else {
      State tmp = st; addPC(tmp, bnot(b.e));
      tmp.model = mf;
      report(tmp, "assert", msg, mf);
    }
    if (!(d & 1)) endPath(2);
  }
  addPC(st, b.e);
  if (mt) st.model = mt; else st.model = nullptr;
}

static void initBuiltins() {
#define B(name) builtins[name] = [](State & st, std::vector<Val> & a, const KInst &ki) -> Val
  B("sx_u64") { return freshSym(st, 64, mustStr(st, a[0].c)); };
  B("sx_u32") { return freshSym(st, 32, mustStr(st, a[0].c)); };
  B("sx_u16") { return freshSym(st, 16, mustStr(st, a[0].c)); };
  B("sx_u8") { return freshSym(st, 8, mustStr(st, a[0].c)); };
  B("sx_f64") { return freshSym(st, 64, mustStr(st, a[0].c)); };
  B("sx_pick") {
    // an unconstrained choice: every alternative is feasible, no query needed
    uint64_t n = concretize(st, C(a[0].c, a[0].w)), k = 0;
    if (st.pick) { k = st.pick - 1; st.pick = 0; }
    else {
      if (n == 0 || n > 255) { endPath(1); }
      for (uint64_t i = n; i-- > 1;) { StateP o = forkState(st); o->pick = i + 1; work.push_back(std::move(o)); }
    }
    st.inputs.push_back({mustStr(st, a[1].c), 8, num(k, 8)});
    return C(k, 32);
  };
  B("sx_assume") { doAssume(st, a[0]); return VOID(); };
  B("sx_assert_") { doAssert(st, a[0], mustStr(st, a[1].c)); return VOID(); };
  B("sx_reach") { reach[mustStr(st, a[0].c)]++; return VOID(); };
  B("sx_observe") { st.obs.push_back({mustStr(st, a[0].c), a[1], "", false}); return VOID(); };
  B("sx_observe_str") {
    std::string s;
    if (!a[1].c) s = "(null)";
    else if (!concStr(st, a[1].c, s)) s = "?";
    if (s != "?") st.obs.push_back({mustStr(st, a[0].c), VOID(), s, true});
    else st.obs.push_back({mustStr(st, a[0].c), C(0, 64), "?", true});
    return VOID();
  };
  B("sx_concretize") { return C(concretize(st, a[0]), 64); };
  B("sx_live_heap") { return C(st.liveHeap, 64); };
  B("sx_native") { return C(0, 32); };
  B("sx_is_symbolic") { return C(!a[0].conc(), 32); };
  B("sx_valid") {
    uint64_t p = concretize(st, a[0]), n = concretize(st, a[1]);
    if (p < 4096) return C(0, 32);
    ObjP *o = findObj(st, p);
    return C(o && !(*o)->freed && p - (*o)->base + n <= (*o)->size, 32);
  };
  B("malloc") { return C(doMalloc(st, concretize(st, a[0]), 0xbe), 64); };
  B("calloc") {
    uint64_t n = concretize(st, a[0]), m = concretize(st, a[1]);
    return C(doMalloc(st, n * m, 0), 64);
  };
  B("realloc") {
    uint64_t p = concretize(st, a[0]), n = concretize(st, a[1]);
    if (!p) return C(doMalloc(st, n, 0xbe), 64);
    if (!n) { doFree(st, p); return C(0, 64); }
    ObjP *o = findObj(st, p);
    if (!o || (*o)->kind != Obj::HEAP || (*o)->base != p || (*o)->freed) fail(st, "memory", "realloc of an invalid pointer");
    uint64_t old = (*o)->size;
    uint64_t q = doMalloc(st, n, 0xbe);
    if (!q) return C(0, 64);
    copyMem(st, q, p, std::min(old, n));
    doFree(st, p);
    return C(q, 64);
  };
  B("free") { doFree(st, concretize(st, a[0])); return VOID(); };
  B("abort") { fail(st, "abort", "abort() called"); };
  B("exit") { fail(st, "abort", "exit() called"); };
  B("__assert_fail") { fail(st, "abort", "assert() failed"); };
  B("memcpy") {
    uint64_t d = concretize(st, a[0]), s = concretize(st, a[1]), n = concretize(st, a[2]);
    if (n && d != s && d < s + n && s < d + n) fail(st, "memory", "memcpy on overlapping ranges");
    copyMem(st, d, s, n); return C(d, 64);
  };
  B("memmove") {
    uint64_t d = concretize(st, a[0]), s = concretize(st, a[1]), n = concretize(st, a[2]);
    copyMem(st, d, s, n); return C(d, 64);
  };
  B("memset") {
    uint64_t d = concretize(st, a[0]), n = concretize(st, a[2]);
    Val v = castop(st, Instruction::Trunc, a[1], 8);
    if (!n) return C(d, 64);
    ObjP *p = access(st, d, n, true, "write (memset)");
    Obj &o = **p;
    for (uint64_t i = 0; i < n; i++) {
      if (v.conc()) { o.b[d - o.base + i] = v.c; if (!o.s.empty()) o.s[d - o.base + i].e = E(); }
      else writeByteSym(o, d - o.base + i, v.e, 0);
    }
    return C(d, 64);
  };
  B("strlen") {
    uint64_t p = concretize(st, a[0]);
    std::string s;
    if (concStr(st, p, s)) return C(s.size(), 64);
    // symbolic: decide each byte in turn
    for (uint64_t i = 0;; i++) {
      Val v = loadVal(st, p + i, 1, 8);
      if (v.conc()) { if (!v.c) return C(i, 64); continue; }
      E z = simp(E(Z3_mk_eq(Z, v.e.a, num(0, 8).a)));
      if (forceBool(st, z)) return C(i, 64);
    }
  };
  B("sx_fmt_double") {
    uint64_t out = concretize(st, a[0]), size = concretize(st, a[1]);
    // the rendering of a symbolic double is abstracted to that of 0
    uint64_t d = a[3].conc() ? a[3].c : 0;
    double dv; memcpy(&dv, &d, 8);
    std::string fmt = mustStr(st, a[2].c);
    char buf[512];
    int n = snprintf(buf, sizeof buf, fmt.c_str(), dv);
    for (uint64_t i = 0; i < size && i <= (uint64_t)n; i++)
      storeVal(st, out + i, C(i + 1 == size ? 0 : (uint8_t)buf[i], 8), 1);
    return C(n, 32);
  };
  B("strtod") {
    uint64_t p = concretize(st, a[0]), endp = concretize(st, a[1]);
    std::string s;
    for (uint64_t i = 0;; i++) { // concretise byte by byte (each fork re-executes)
      uint64_t ch = concretize(st, loadVal(st, p + i, 1, 8));
      if (!ch) break;
      s.push_back(ch);
    }
    char *e; double d = strtod(s.c_str(), &e);
    if (endp) storeVal(st, endp, C(p + (e - s.c_str()), 64), 8);
    return fromD(d, 64);
  };
#undef B
}

static Val aggExtract(const Val &v, ArrayRef<unsigned> idx) {
  const Val *p = &v;
  for (unsigned i : idx) p = &(*p->agg)[i];
  return *p;
}
static Val aggInsert(const Val &v, ArrayRef<unsigned> idx, const Val &x) {
  if (idx.empty()) return x;
  Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg);
  (*r.agg)[idx[0]] = aggInsert((*v.agg)[idx[0]], idx.slice(1), x);
  return r;
}
static Val loadTyped(State &st, uint64_t a, Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    const StructLayout *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(loadTyped(st, a + sl->getElementOffset(i), s->getElementType(i)));
    return r;
  }
  if (auto *s = dyn_cast<ArrayType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(loadTyped(st, a + i * DL->getTypeAllocSize(s->getElementType()), s->getElementType()));
    return r;
  }
  unsigned w = widthOf(t);
  if (!w) { errs() << "sx: load of unsupported type " << *t << "\n"; abort(); }
  if (w == 1) return loadBool(st, a);
  return loadVal(st, a, DL->getTypeStoreSize(t), w);
}
static void storeTyped(State &st, uint64_t a, const Val &v, Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) storeTyped(st, a + sl->getElementOffset(i), (*v.agg)[i], s->getElementType(i));
    return;
  }
  if (auto *s = dyn_cast<ArrayType>(t)) {
    for (unsigned i = 0; i < s->getNumElements(); i++) storeTyped(st, a + i * DL->getTypeAllocSize(s->getElementType()), (*v.agg)[i], s->getElementType());
    return;
  }
  if (!widthOf(t)) { errs() << "sx: store of unsupported type " << *t << "\n"; abort(); }
  storeVal(st, a, v, DL->getTypeStoreSize(t));
}

static uint64_t rngState = 0x9e3779b97f4a7c15ull;
static uint64_t rnd() { rngState = rngState * 6364136223846793005ull + 1442695040888963407ull; return rngState >> 33; }
static void recordPath(State &st) {
  nPaths++;
  Sample s;
  if (samples.size() < optSamples) {
    if (solveInputs(st, s.inputs, s.obs)) samples.push_back(s);
  } else if (optSamples) { // reservoir of explored paths, replayed natively afterwards
    uint64_t k = rnd() % nPaths;
    if (k < optSamples && solveInputs(st, s.inputs, s.obs)) samples[k] = s;
  }
}

static Val doIntrinsic(State &st, Frame &f, const KInst &ki, const CallBase *cb, Function *F, std::vector<Val> &args, bool &handled) {
  handled = true;
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
  case Intrinsic::stackrestore: case Intrinsic::vaend:
    return F->getReturnType()->isVoidTy() ? VOID() : C(0, ki.w);
  case Intrinsic::stacksave: return C(0, 64);
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    { uint64_t d = concretize(st, args[0]), s = concretize(st, args[1]), n = concretize(st, args[2]);
      if (F->getIntrinsicID() == Intrinsic::memcpy && n && d != s && d < s + n && s < d + n) fail(st, "memory", "memcpy on overlapping ranges");
      copyMem(st, d, s, n); return VOID(); }
  case Intrinsic::memset: { std::vector<Val> a = {args[0], castop(st, Instruction::ZExt, args[1], 32), args[2]}; builtins["memset"](st, a, ki); return VOID(); }
  case Intrinsic::expect: return args[0];
  case Intrinsic::is_constant: return C(0, 1);
  case Intrinsic::objectsize: return C(~0ull, ki.w);
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(st, "abort", "trap");
  case Intrinsic::vastart: {
    uint64_t p = concretize(st, args[0]);
    storeVal(st, p, C(48, 32), 4); storeVal(st, p + 4, C(176, 32), 4);
    storeVal(st, p + 8, C(f.va, 64), 8); storeVal(st, p + 16, C(0, 64), 8);
    return VOID();
  }
  case Intrinsic::vacopy: copyMem(st, concretize(st, args[0]), concretize(st, args[1]), 24); return VOID();
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
    CmpInst::Predicate p = F->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : F->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT
      : F->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
    Val c = icmp(p, args[0], args[1]);
    if (c.conc()) return c.c ? args[0] : args[1];
    return mkv(Z3_mk_ite(Z, c.e.a, toE(args[0]).a, toE(args[1]).a), ki.w);
  }
  case Intrinsic::abs: {
    Val c = icmp(CmpInst::ICMP_SLT, args[0], C(0, ki.w));
    Val n = binop(st, Instruction::Sub, C(0, ki.w), args[0]);
    if (c.conc()) return c.c ? n : args[0];
    return mkv(Z3_mk_ite(Z, c.e.a, toE(n).a, toE(args[0]).a), ki.w);
  }
  case Intrinsic::fabs: {
    return binop(st, Instruction::And, args[0], C(maskw(ki.w - 1), ki.w));
  }
  case Intrinsic::is_fpclass: {
    unsigned w = args[0].w, mant = w == 64 ? 52 : 23, mask = args[1].c;
    if (w != 64 && w != 32) break;
    uint64_t inf = ((maskw(w - 1)) >> mant) << mant;
    Val mag = binop(st, Instruction::And, args[0], C(maskw(w - 1), w)), neg = icmp(CmpInst::ICMP_SLT, args[0], C(0, w));
    Val pos = binop(st, Instruction::Xor, neg, C(1, 1)), r = C(0, 1);
    auto either = [&](Val a) { r = binop(st, Instruction::Or, r, a); };
    auto both = [&](Val a, Val b) { return binop(st, Instruction::And, a, b); };
    auto le = [&](uint64_t lo, uint64_t hi) { return both(icmp(CmpInst::ICMP_UGE, mag, C(lo, w)), icmp(CmpInst::ICMP_ULE, mag, C(hi, w))); };
    uint64_t quiet = 1ull << (mant - 1), tiny = 1ull << mant;
    if (mask & 1) either(le(inf + 1, inf + quiet - 1));
    if (mask & 2) either(le(inf + quiet, maskw(w - 1)));
    struct { int n, p; uint64_t lo, hi; } cl[] = {{2, 9, inf, inf}, {3, 8, tiny, inf - 1}, {4, 7, 1, tiny - 1}, {5, 6, 0, 0}};
    for (auto &k : cl) {
      if (mask & (1 << k.n) && mask & (1 << k.p)) either(le(k.lo, k.hi));
      else if (mask & (1 << k.n)) either(both(neg, le(k.lo, k.hi)));
      else if (mask & (1 << k.p)) either(both(pos, le(k.lo, k.hi)));
    }
    return r;
  }
  case Intrinsic::fmuladd: return fbin(st, Instruction::FAdd, fbin(st, Instruction::FMul, args[0], args[1]), args[2]);
  case Intrinsic::usub_sat: {
    Val c = icmp(CmpInst::ICMP_ULT, args[0], args[1]);
    Val d = binop(st, Instruction::Sub, args[0], args[1]);
    if (c.conc()) return c.c ? C(0, ki.w) : d;
    return mkv(Z3_mk_ite(Z, c.e.a, num(0, ki.w).a, toE(d).a), ki.w);
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (!args[2].conc()) break;
    unsigned w = ki.w, s = args[2].c % w;
    if (F->getIntrinsicID() == Intrinsic::fshr) s = (w - s) % w;
    if (!s) return F->getIntrinsicID() == Intrinsic::fshr ? args[1] : args[0];
    return binop(st, Instruction::Or, binop(st, Instruction::Shl, args[0], C(s, w)), binop(st, Instruction::LShr, args[1], C(w - s, w)));
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
  case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned w = args[0].w;
    if (w > 64) break;
    Intrinsic::ID id = F->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned opc = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul
      : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    Val lo = binop(st, opc, args[0], args[1]);
    r.agg->push_back(lo);
    unsigned w2 = 2 * w;
    auto ext = [&](const Val &v) { E e = toE(v); return E(sg ? Z3_mk_sign_ext(Z, w, e.a) : Z3_mk_zero_ext(Z, w, e.a)); };
    E x = ext(args[0]), y = ext(args[1]);
    E wide(opc == Instruction::Mul ? Z3_mk_bvmul(Z, x.a, y.a) : opc == Instruction::Add ? Z3_mk_bvadd(Z, x.a, y.a) : Z3_mk_bvsub(Z, x.a, y.a));
    E nar = ext(lo); (void)w2;
    r.agg->push_back(mkv(Z3_mk_not(Z, E(Z3_mk_eq(Z, wide.a, nar.a)).a), 1));
    return r;
  }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
    if (!args[0].conc()) break;
    uint64_t x = args[0].c; unsigned w = ki.w, n = 0;
    if (F->getIntrinsicID() == Intrinsic::ctpop) n = __builtin_popcountll(x);
    else if (F->getIntrinsicID() == Intrinsic::cttz) { while (n < w && !((x >> n) & 1)) n++; }
    else { while (n < w && !((x >> (w - 1 - n)) & 1)) n++; }
    return C(n, w);
  }
  case Intrinsic::bswap: if (args[0].conc()) return C(__builtin_bswap64(args[0].c) >> (64 - ki.w), ki.w); break;
  default: break;
  }
  handled = false;
  return VOID();
}

static void step(State &st) {
  Frame &f = st.st.back();
  const KInst &ki = f.kf->insts[f.pc];
  const Instruction *I = ki.I;
  unsigned opc = I->getOpcode();
  nInst++;
  if (++st.steps > optMaxSteps) fail(st, "hang", "path exceeded the step budget (possible non-termination)");
  switch (opc) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    uint64_t n = concretize(st, opv(f, ki.ops[0]));
    uint64_t sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
    uint64_t p = newObj(st, sz, Obj::STACK, 0xaa);
    f.allocas.push_back(p);
    f.regs[ki.dest] = C(p, 64);
    f.pc++; return;
  }
  case Instruction::Load: {
    uint64_t a = addrOp(st, opv(f, ki.ops[0]));
    f.regs[ki.dest] = loadTyped(st, a, I->getType());
    f.pc++; return;
  }
  case Instruction::Store: {
    uint64_t a = addrOp(st, opv(f, ki.ops[1]));
    storeTyped(st, a, opv(f, ki.ops[0]), I->getOperand(0)->getType());
    f.pc++; return;
  }
  case Instruction::GetElementPtr: {
    Val p = opv(f, ki.ops[0]);
    if (ki.imm) p = binop(st, Instruction::Add, p, C(ki.imm, 64));
    for (auto &ix : ki.idx) {
      Val i = opv(f, ix.first);
      if (i.w < 64) i = castop(st, Instruction::SExt, i, 64);
      p = binop(st, Instruction::Add, p, binop(st, Instruction::Mul, i, C(ix.second, 64)));
    }
    f.regs[ki.dest] = p;
    f.pc++; return;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    f.regs[ki.dest] = binop(st, opc, opv(f, ki.ops[0]), opv(f, ki.ops[1]));
    f.pc++; return;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    f.regs[ki.dest] = fbin(st, opc, opv(f, ki.ops[0]), opv(f, ki.ops[1]));
    f.pc++; return;
  case Instruction::FNeg: {
    const Val &v = opv(f, ki.ops[0]);
    f.regs[ki.dest] = binop(st, Instruction::Xor, v, C(1ull << (v.w - 1), v.w));
    f.pc++; return;
  }
  case Instruction::ICmp:
    f.regs[ki.dest] = icmp(cast<ICmpInst>(I)->getPredicate(), opv(f, ki.ops[0]), opv(f, ki.ops[1]));
    f.pc++; return;
  case Instruction::FCmp:
    f.regs[ki.dest] = fcmp(st, cast<FCmpInst>(I)->getPredicate(), opv(f, ki.ops[0]), opv(f, ki.ops[1]));
    f.pc++; return;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
  case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
  case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast:
    f.regs[ki.dest] = castop(st, opc, opv(f, ki.ops[0]), ki.w);
    f.pc++; return;
  case Instruction::Freeze:
    f.regs[ki.dest] = opv(f, ki.ops[0]); f.pc++; return;
  case Instruction::Select: {
    const Val &c = opv(f, ki.ops[0]);
    if (c.conc()) f.regs[ki.dest] = opv(f, ki.ops[c.c ? 1 : 2]);
    else if (I->getType()->isPointerTy() || !ki.w) f.regs[ki.dest] = opv(f, ki.ops[forceBool(st, c.e) ? 1 : 2]);
    else f.regs[ki.dest] = mkv(Z3_mk_ite(Z, c.e.a, toE(opv(f, ki.ops[1])).a, toE(opv(f, ki.ops[2])).a), ki.w);
    f.pc++; return;
  }
  case Instruction::Br: {
    auto *br = cast<BranchInst>(I);
    if (br->isUnconditional()) { enterBB(f, br->getSuccessor(0)); return; }
    const Val &c = opv(f, ki.ops[0]);
    bool t = c.conc() ? c.c : forceBool(st, c.e);
    enterBB(f, br->getSuccessor(t ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    const Val &c = opv(f, ki.ops[0]);
    if (!c.conc()) {
      for (auto &cs : sw->cases()) {
        E eq = simp(E(Z3_mk_eq(Z, c.e.a, num(cs.getCaseValue()->getZExtValue(), c.w).a)));
        if (forceBool(st, eq)) { enterBB(f, cs.getCaseSuccessor()); return; }
      }
      enterBB(f, sw->getDefaultDest());
      return;
    }
    for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { enterBB(f, cs.getCaseSuccessor()); return; }
    enterBB(f, sw->getDefaultDest());
    return;
  }
  case Instruction::ExtractValue:
    f.regs[ki.dest] = aggExtract(opv(f, ki.ops[0]), cast<ExtractValueInst>(I)->getIndices());
    f.pc++; return;
  case Instruction::InsertValue:
    f.regs[ki.dest] = aggInsert(opv(f, ki.ops[0]), cast<InsertValueInst>(I)->getIndices(), opv(f, ki.ops[1]));
    f.pc++; return;
  case Instruction::Ret: {
    Val r;
    bool has = I->getNumOperands() > 0;
    if (has) r = opv(f, ki.ops[0]);
    for (uint64_t a : f.allocas) st.mem.erase(a);
    st.st.pop_back();
    if (st.st.empty()) { endPath(0); }
    Frame &c = st.st.back();
    const KInst &call = c.kf->insts[c.pc];
    if (call.dest >= 0 && has) c.regs[call.dest] = r;
    if (auto *iv = dyn_cast<InvokeInst>(call.I)) enterBB(c, iv->getNormalDest());
    else c.pc++;
    return;
  }
  case Instruction::Unreachable: fail(st, "abort", "unreachable code reached");
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(I);
    if (cb->isInlineAsm()) { f.pc++; return; }
    Function *F = cb->getCalledFunction();
    std::vector<Val> args;
    unsigned na = cb->arg_size();
    for (unsigned i = 0; i < na; i++) {
      int o = ki.ops[i];
      args.push_back(o == INT32_MIN ? VOID() : opv(f, o));
    }
    if (!F) {
      Value *cv = cb->getCalledOperand()->stripPointerCasts();
      if (auto *ff = dyn_cast<Function>(cv)) F = ff;
      else if (auto *al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject());
    }
    if (!F) {
      uint64_t a = concretize(st, opv(f, ki.ops.back()));
      auto it = fnByAddr.find(a);
      if (it == fnByAddr.end()) fail(st, "memory", a < 4096 ? "call through a NULL function pointer" : "call through an invalid function pointer");
      F = it->second;
    }
    if (F->isIntrinsic()) {
      bool h;
      Val r = doIntrinsic(st, f, ki, cb, F, args, h);
      if (!h) { errs() << "sx: unsupported intrinsic " << F->getName() << "\n"; markIncomplete("unsupported intrinsic " + F->getName().str()); endPath(1); }
      if (ki.dest >= 0) f.regs[ki.dest] = r;
      f.pc++; return;
    }
    auto b = builtins.find(F->getName().str());
    if (b != builtins.end()) {
      Val r = b->second(st, args, ki);
      if (ki.dest >= 0) f.regs[ki.dest] = r;
      if (auto *iv = dyn_cast<InvokeInst>(I)) enterBB(f, iv->getNormalDest()); else f.pc++;
      return;
    }
    if (F->isDeclaration()) {
      externCalled.insert(F->getName().str());
      fail(st, "external", "call to external function " + F->getName().str() + " that is outside the encoding");
    }
    pushFrame(st, F, args, &ki);
    return;
  }
  case Instruction::PHI: { errs() << "sx: phi\n"; abort(); }
  default:
    errs() << "sx: unsupported instruction " << *I << "\n";
    markIncomplete("unsupported instruction");
    endPath(1);
  }
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void outInputs(FILE *o, const std::vector<std::pair<std::string, uint64_t>> &v) {
  fprintf(o, "[");
  for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[%s,\"%llu\"]", i ? "," : "", js(v[i].first).c_str(), (unsigned long long)v[i].second);
  fprintf(o, "]");
}
static void outStrs(FILE *o, const std::vector<std::string> &v) {
  fprintf(o, "[");
  for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s%s", i ? "," : "", js(v[i]).c_str());
  fprintf(o, "]");
}

int main(int argc, char **argv) {
  std::string in, out, entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx();
    else if (a == "--max-time") optMaxTime = atof(nx().c_str());
    else if (a == "--max-paths") optMaxPaths = atoll(nx().c_str());
    else if (a == "--max-steps") optMaxSteps = atoll(nx().c_str());
    else if (a == "--query-ms") optQueryMs = atoi(nx().c_str());
    else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--max-errors") optMaxErrors = atoi(nx().c_str());
    else if (a == "--src") optSrcPrefix = nx();
    else if (a == "--entry") entry = nx();
    else if (a == "-v") optVerbose = true;
    else in = a;
  }
  tStart = now();
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(in, err, ctx);
  if (!mod) { err.print("sx", errs()); return 2; }
  M = mod.get();
  /* constructors of global objects (C++) run before the harness */
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        if (Function *H0 = M->getFunction(entry)) {
          auto *w = Function::Create(FunctionType::get(Type::getVoidTy(ctx), false), GlobalValue::ExternalLinkage, "sx_entry", *M);
          auto *bb = BasicBlock::Create(ctx, "", w);
          std::vector<std::pair<uint64_t, Function *>> fs;
          for (auto &u : arr->operands())
            if (auto *cs = dyn_cast<ConstantStruct>(u))
              if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
          std::stable_sort(fs.begin(), fs.end(), [](auto &x, auto &y) { return x.first < y.first; });
          for (auto &f : fs) CallInst::Create(f.second->getFunctionType(), f.second, "", bb);
          CallInst::Create(H0->getFunctionType(), H0, "", bb);
          ReturnInst::Create(ctx, bb);
          entry = "sx_entry";
        }
  DL = &M->getDataLayout();

  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, z3err);
  f64Sort = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, (Z3_ast)f64Sort);
  f32Sort = Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, (Z3_ast)f32Sort);
  rneE = E(Z3_mk_fpa_rne(Z)); rtzE = E(Z3_mk_fpa_rtz(Z));
  S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, getenv("SX_LOGIC") ? getenv("SX_LOGIC") : "QF_FPBV"));
  Z3_solver_inc_ref(Z, S);
  {
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), getenv("SX_FAST_MS") ? atoi(getenv("SX_FAST_MS")) : 300);
    Z3_solver_set_params(Z, S, p); Z3_params_dec_ref(Z, p);
  }
  if (getenv("SX_SLOW")) slowAt = atof(getenv("SX_SLOW"));
  if (getenv("SX_NOT")) useT = false;
  initBuiltins();
  uint64_t fa = 0x10000;
  for (auto &F : *M) { addrOfFn[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
  uint64_t ga = 0x1000000;
  for (auto &g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
    ga = (ga + 15) & ~15ull;
    addrOfGV[&g] = ga;
    ga += sz + 48;
  }
  auto st = std::make_unique<State>();
  for (auto &g : M->globals()) {
    auto o = std::make_shared<Obj>();
    o->base = addrOfGV[&g];
    o->size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    o->kind = Obj::GLOBAL;
    o->ro = g.isConstant();
    o->b.assign(o->size, 0);
    if (g.hasInitializer()) initMem(o->b.data(), g.getInitializer());
    if (o->ro) globalsRO[o->base] = o; else st->mem[o->base] = o;
  }
  Function *H = M->getFunction(entry);
  if (!H || H->isDeclaration()) { errs() << "sx: no function " << entry << "\n"; return 2; }
  pushFrame(*st, H, {}, nullptr);
  work.push_back(std::move(st));
  uint64_t dropped = 0;
  while (!work.empty()) {
    StateP s = std::move(work.back());
    work.pop_back();
    if (errors.size() >= optMaxErrors) { dropped += 1 + work.size(); markIncomplete("stopped after the first violations"); break; }
    if (now() - tStart > optMaxTime) { dropped += 1 + work.size(); markIncomplete("time budget"); break; }
    if (nPaths + nErrPaths > optMaxPaths) { dropped += 1 + work.size(); markIncomplete("path budget"); break; }
    try {
      unsigned n = 0;
      for (;;) {
        step(*s);
        if ((++n & 0x3f) == 0 && now() - tStart > optMaxTime) {
          dropped += 1 + work.size(); markIncomplete("time budget"); work.clear(); break;
        }
      }
    } catch (PathEnd &p) {
      if (p.kind == 0) recordPath(*s);
      else if (p.kind == 1) nKilled++;
    }
  }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"complete\":%s,\"why\":%s,\"paths\":%llu,\"killed\":%llu,\"error_paths\":%llu,\"dropped\":%llu,\"forks\":%llu,\"instructions\":%llu,",
    incomplete ? "false" : "true", js(incompleteWhy).c_str(), (unsigned long long)nPaths, (unsigned long long)nKilled, (unsigned long long)nErrPaths,
    (unsigned long long)dropped, (unsigned long long)nForks, (unsigned long long)nInst);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,",
    (unsigned long long)nQueries, (unsigned long long)nQuerySat, (unsigned long long)nQueryUnsat, (unsigned long long)nQueryUnknown, solverTime, now() - tStart,
    (unsigned long long)nAsserts, (unsigned long long)nAssertQueries);
  fprintf(o, "\"cache_hits\":%llu,\"hard\":%llu,\"hard_s\":%.3f,", (unsigned long long)nCacheHits, (unsigned long long)nHard, hardTime);
  if (optVerbose) fprintf(stderr, "sx: sat %llu unsat %llu cached %llu hard %llu (%.1fs) solver %.1fs\n", (unsigned long long)nQuerySat, (unsigned long long)nQueryUnsat, (unsigned long long)nCacheHits, (unsigned long long)nHard, hardTime, solverTime);
  fprintf(o, "\"reach\":{");
  bool first = true;
  for (auto &r : reach) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\"functions\":");
  outStrs(o, std::vector<std::string>(executedFns.begin(), executedFns.end()));
  fprintf(o, ",\"errors\":[");
  for (size_t i = 0; i < errors.size(); i++) {
    auto &e = errors[i];
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"inputs\":", i ? "," : "", js(e.kind).c_str(), js(e.msg).c_str(), js(e.where).c_str(), js(e.stack).c_str());
    outInputs(o, e.inputs);
    fprintf(o, ",\"obs\":"); outStrs(o, e.obs);
    fprintf(o, "}");
  }
  fprintf(o, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) {
    fprintf(o, "%s{\"inputs\":", i ? "," : "");
    outInputs(o, samples[i].inputs);
    fprintf(o, ",\"obs\":"); outStrs(o, samples[i].obs);
    fprintf(o, "}");
  }
  fprintf(o, "]}\n");
  if (!out.empty()) fclose(o);
  fflush(nullptr);
  _Exit(0);
}
