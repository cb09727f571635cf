static AV pendingExc;
static std::map<u64, std::string> excType; // exception object -> type info name
static u64 excTypeObj(u64 h);
static std::map<u64, u64> excTI;
static std::map<std::string, u64> externCalls;
static std::vector<u64> heapMarks;
static std::map<u64, u64> streamWrites; // object handle -> writes
static uint32_t heapSerial = 0;
static int freshExt = 0;

static RR okRet(State &&s, AV v = AV()) {
  RR r;
  r.ret.has = true;
  r.ret.guard = TS.tTrue;
  r.ret.s = std::move(s);
  r.ret.val = v;
  return r;
}
static std::string cstr(State &s, const AV &p) {
  std::string r;
  if (p.k != PTR) return "?";
  AV q = p;
  for (int i = 0; i < 4096; i++) {
    Obj *o = getObj(s, q.obj);
    if (!o || o->opaque || q.off < 0 || (u64)q.off >= o->size) break;
    AV v = loadRaw(o, q.off, 1);
    if (v.k != INT || (v.i & 255) == 0) break;
    r += (char)(v.i & 255);
    q.off++;
  }
  return r;
}
static AV fcmpOp(CmpInst::Predicate p, T a, T b) {
  if (!a || !b) return mkTop();
  auto nan = [](T x) { return x->k == NUM && std::isnan(x->num); };
  bool isn = nan(a) || nan(b);
  bool unordered = CmpInst::isUnordered(p);
  if (p == CmpInst::FCMP_TRUE) return mkInt(1, 1);
  if (p == CmpInst::FCMP_FALSE) return mkInt(0, 1);
  if (p == CmpInst::FCMP_ORD) return mkInt(!isn, 1);
  if (p == CmpInst::FCMP_UNO) return mkInt(isn, 1);
  if (isn) return mkInt(unordered, 1);
  auto inf = [](T x) { return x->k == NUM && std::isinf(x->num); };
  if (inf(a) || inf(b)) { // finite symbol against an infinity
    double x = inf(a) ? a->num : (a->k == NUM ? a->num : 0), y = inf(b) ? b->num : (b->k == NUM ? b->num : 0);
    bool r = false;
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
    default: r = x >= y;
    }
    return mkInt(r, 1);
  }
  T d = TS.sub(a, b);
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkBool(TS.eq0(d));
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkBool(TS.bnot(TS.eq0(d)));
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkBool(TS.lt0(d));
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkBool(TS.le0(d));
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkBool(TS.lt0(TS.neg(d)));
  default: return mkBool(TS.le0(TS.neg(d)));
  }
}
static AV icmpOp(CmpInst::Predicate p, const AV &a, const AV &b, unsigned bits) {
  if (a.k == INT && b.k == INT) {
    u64 x = a.i, y = b.i;
    unsigned w = bits ? bits : 64;
    int64_t sxv = sx(x, w), syv = sx(y, w);
    bool r;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break;
    case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break;
    case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break;
    case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = sxv > syv; break;
    case CmpInst::ICMP_SGE: r = sxv >= syv; break;
    case CmpInst::ICMP_SLT: r = sxv < syv; break;
    default: r = sxv <= syv;
    }
    return mkInt(r, 1);
  }
  if (a.k == UNINIT || b.k == UNINIT) return AV();
  if (a.k == GATE || b.k == GATE) {
    Gate g = gates[a.k == GATE ? a.idx : b.idx];
    T nc = TS.bnot(g.c);
    AV r1 = a.k == GATE ? icmpOp(p, g.a, where(b, g.c, nc, true), bits) : icmpOp(p, a, g.a, bits);
    AV r2 = a.k == GATE ? icmpOp(p, g.b, where(b, g.c, nc, false), bits) : icmpOp(p, a, g.b, bits);
    if ((r1.k == INT || r1.k == BOOLT) && (r2.k == INT || r2.k == BOOLT)) return mkBool(TS.bite(g.c, boolOf(r1), boolOf(r2)));
    return mkTop();
  }
  if (a.k == PTR || b.k == PTR) {
    AV x = a, y = b;
    if (x.k == INT) x = mkPtr(NULLOBJ, (int64_t)x.i);
    if (y.k == INT) y = mkPtr(NULLOBJ, (int64_t)y.i);
    if (x.k != PTR || y.k != PTR) return mkTop();
    if (x.obj == OPAQUE || y.obj == OPAQUE) {
      // opaque library pointers are taken to be valid, hence non-null
      if ((x.obj == NULLOBJ && !x.off) || (y.obj == NULLOBJ && !y.off)) {
        if (p == CmpInst::ICMP_EQ) return mkInt(0, 1);
        if (p == CmpInst::ICMP_NE) return mkInt(1, 1);
      }
      return mkTop();
    }
    if (p == CmpInst::ICMP_EQ) return mkInt(x.obj == y.obj && x.off == y.off, 1);
    if (p == CmpInst::ICMP_NE) return mkInt(!(x.obj == y.obj && x.off == y.off), 1);
    int64_t u = x.obj == y.obj ? x.off : (int64_t)oid(x.obj), v = x.obj == y.obj ? y.off : (int64_t)oid(y.obj);
    switch (p) {
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkInt(u > v, 1);
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return mkInt(u >= v, 1);
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkInt(u < v, 1);
    default: return mkInt(u <= v, 1);
    }
  }
  if (a.k == BOOLT || b.k == BOOLT) {
    if (bits == 1) {
      T x = boolOf(a), y = boolOf(b);
      if (x && y) {
        T eq = TS.bite(x, y, TS.bnot(y));
        if (p == CmpInst::ICMP_EQ) return mkBool(eq);
        if (p == CmpInst::ICMP_NE) return mkBool(TS.bnot(eq));
      }
    }
  }
  // unknown integers: unbounded-integer semantics
  bool uns = CmpInst::isUnsigned(p);
  T x = asITerm(a, !uns || a.bits == 0), y = asITerm(b, true);
  if (a.k == NUMT && a.bits == 0) return mkTop();
  if (!x || !y) return mkTop();
  T d = TS.sub(x, y);
  switch (p) {
  case CmpInst::ICMP_EQ: return mkBool(condTree(d, 0));
  case CmpInst::ICMP_NE: return mkBool(TS.bnot(condTree(d, 0)));
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return mkBool(condTree(d, -1));
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return mkBool(condTree(d, 1));
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return mkBool(condTree(TS.neg(d), -1));
  default: return mkBool(condTree(TS.neg(d), 1));
  }
}
static AV intOp(unsigned op, AV a, AV b, unsigned bits, uint32_t site) {
  if (a.k == UNINIT || b.k == UNINIT) return AV();
  if (a.k == INT && b.k == INT) {
    u64 x = a.i, y = b.i;
    int64_t p = sx(x, bits), q = sx(y, bits);
    switch (op) {
    case Instruction::Add: return mkInt(x + y, bits);
    case Instruction::Sub: return mkInt(x - y, bits);
    case Instruction::Mul: return mkInt(x * y, bits);
    case Instruction::UDiv: if (!y) break; return mkInt(x / y, bits);
    case Instruction::SDiv: if (!q) break; return mkInt((u64)(q == -1 ? -p : p / q), bits);
    case Instruction::URem: if (!y) break; return mkInt(x % y, bits);
    case Instruction::SRem: if (!q) break; return mkInt((u64)(q == -1 ? 0 : p % q), bits);
    case Instruction::Shl: return mkInt(y >= 64 ? 0 : x << y, bits);
    case Instruction::LShr: return mkInt(y >= 64 ? 0 : x >> y, bits);
    case Instruction::AShr: return mkInt((u64)(p >> std::min<u64>(y, 63)), bits);
    case Instruction::And: return mkInt(x & y, bits);
    case Instruction::Or: return mkInt(x | y, bits);
    case Instruction::Xor: return mkInt(x ^ y, bits);
    }
    memError("div0", "integer division by zero", site);
    deadPath = true;
    return mkTop();
  }
  if (a.k == GATE || b.k == GATE) {
    Gate g = gates[a.k == GATE ? a.idx : b.idx];
    T nc = TS.bnot(g.c);
    AV r1 = a.k == GATE ? intOp(op, g.a, where(b, g.c, nc, true), bits, site) : intOp(op, a, g.a, bits, site);
    AV r2 = a.k == GATE ? intOp(op, g.b, where(b, g.c, nc, false), bits, site) : intOp(op, a, g.b, bits, site);
    return gate(g.c, r1, r2);
  }
  if (a.k == PTR || b.k == PTR) {
    if (a.k == PTR && a.obj == NULLOBJ) return intOp(op, mkInt((u64)a.off, bits), b, bits, site);
    if (b.k == PTR && b.obj == NULLOBJ) return intOp(op, a, mkInt((u64)b.off, bits), bits, site);
    if (op == Instruction::Sub && a.k == PTR && b.k == PTR) {
      if (a.obj == b.obj) return mkInt((u64)(a.off - b.off), bits);
      return mkTop();
    }
    if (op == Instruction::Add && a.k == PTR && b.k == INT) { a.off += sx(b.i, bits); return a; }
    if (op == Instruction::Add && b.k == PTR && a.k == INT) { b.off += sx(a.i, bits); return b; }
    if (op == Instruction::Sub && a.k == PTR && b.k == INT) { a.off -= sx(b.i, bits); return a; }
    if (op == Instruction::And && a.k == PTR && b.k == INT) {
      if (b.i < 64) return mkInt((u64)a.off & b.i, bits); // objects are 64-byte aligned
      if ((~b.i & (bits >= 64 ? ~0ULL : ((1ULL << bits) - 1))) < 64) { a.off = (int64_t)((u64)a.off & b.i); return a; }
    }
    if ((op == Instruction::URem || op == Instruction::SRem) && a.k == PTR && b.k == INT && b.i && b.i <= 64) return mkInt((u64)a.off % b.i, bits);
    if (op == Instruction::UDiv && a.k == PTR) return mkTop();
    return mkTop();
  }
  if (a.k == TOP || b.k == TOP) {
    if (op == Instruction::And && ((a.k == INT && a.i == 0) || (b.k == INT && b.i == 0))) return mkInt(0, bits);
    if (op == Instruction::Mul && ((a.k == INT && a.i == 0) || (b.k == INT && b.i == 0))) return mkInt(0, bits);
    return mkTop();
  }
  if (bits == 1 || ((a.k == BOOLT || a.k == INT) && (b.k == BOOLT || b.k == INT) && a.bits <= 1 && b.bits <= 1)) {
    T x = boolOf(a), y = boolOf(b);
    if (x && y) switch (op) {
      case Instruction::And: case Instruction::Mul: return mkBool(TS.band(x, y));
      case Instruction::Or: return mkBool(TS.bor(x, y));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBool(TS.bite(x, TS.bnot(y), y));
      default: return mkTop();
      }
  }
  if ((a.k == NUMT && a.bits == 0) || (b.k == NUMT && b.bits == 0)) {
    // bit manipulation of a floating-point value
    if (a.k == NUMT && b.k == INT && op == Instruction::And && b.i == 0x7fffffffffffffffULL) return mkNum(TS.app("abs", {a.t}));
    if (a.k == NUMT && b.k == INT && op == Instruction::Xor && b.i == 0x8000000000000000ULL) return mkNum(TS.neg(a.t));
    return mkTop();
  }
  T x = asITerm(a), y = asITerm(b);
  if (!x || !y) return mkTop();
  auto app = [&](const char *n) { return mkITerm(TS.app(n, {x, y}), bits); };
  // operations distribute over integers that are one of a few constants
  if (op != Instruction::Add && op != Instruction::Sub && op != Instruction::Mul) {
    T c;
    AV p, q;
    bool cx = a.k == NUMT && constTree(x), cy = b.k == NUMT && constTree(y);
    if (cx && cy) {
      int budget = 128;
      if (!leaves(x, budget) || !leaves(y, budget)) cx = cy = false;
    }
    if (cx && (cy || b.k == INT) && choice(a, c, p, q)) {
      T y1 = y, y2 = y, cc, u, v;
      if (cy && splitTerm(y, cc, u, v) && cc == c) y1 = u, y2 = v;
      return gate(c, intOp(op, p, cy ? mkITerm(y1, bits) : b, bits, site), intOp(op, q, cy ? mkITerm(y2, bits) : b, bits, site));
    }
    if (cy && a.k == INT && choice(b, c, p, q)) return gate(c, intOp(op, a, p, bits, site), intOp(op, a, q, bits, site));
  }
  switch (op) {
  case Instruction::Add: return mkITerm(TS.add(x, y), bits);
  case Instruction::Sub: return mkITerm(TS.sub(x, y), bits);
  case Instruction::Mul: return mkITerm(TS.mul(x, y), bits);
  case Instruction::Shl:
    if (b.k == INT && b.i < 31) return mkITerm(TS.scale(x, (double)(1LL << b.i)), bits);
    return app("shl");
  case Instruction::SDiv: case Instruction::UDiv: return app("idiv");
  case Instruction::SRem: case Instruction::URem: return app("irem");
  case Instruction::And: return app("iand");
  case Instruction::Or: return app("ior");
  case Instruction::Xor: return app("ixor");
  case Instruction::LShr: case Instruction::AShr: return app("ishr");
  }
  return mkTop();
}
static AV numRes(T t, const AV &a, const AV &b, uint32_t site) {
  AV r = mkNum(t);
  r.site = site;
  (void)a;
  (void)b;
  return r;
}
static AV gepOff(AV b, int64_t o) {
  if (b.k == PTR) {
    if (b.obj != OPAQUE) b.off += o;
    return b;
  }
  if (b.k == GATE) {
    Gate g = gates[b.idx];
    return mkGate(g.c, gepOff(g.a, o), gepOff(g.b, o));
  }
  if (b.k == INT) return mkPtr(NULLOBJ, (int64_t)b.i + o);
  return b;
}
static void execOp(Frame &f, DI &d, State &s, uint32_t site) {
  AV &R = f.env[d.dst];
  switch (d.op) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(d.I);
    AV n = val(f, d.ops[0]);
    if (n.k != INT) {
      giveUp("alloca of unknown size");
      n = mkInt(1, 64);
    }
    u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n.i;
    u64 h = newObj(s, sz, OSTACK, site, ai->getName().str());
    f.allocas.push_back(h);
    R = mkPtr(h, 0);
    return;
  }
  case Instruction::Load: nLoad++; R = doLoad(s, val(f, d.ops[0]), d.ty, site); return;
  case Instruction::Store: nStore++; doStore(s, val(f, d.ops[1]), val(f, d.ops[0]), cast<StoreInst>(d.I)->getValueOperand()->getType(), site); return;
  case Instruction::GetElementPtr: {
    auto *gep = cast<GetElementPtrInst>(d.I);
    AV b = val(f, d.ops[0]);
    unsigned k = 1;
    bool top = false;
    int64_t off = 0;
    for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it, ++k) {
      const AV &ix = val(f, d.ops[k]);
      if (StructType *st = it.getStructTypeOrNull()) {
        off += DL->getStructLayout(st)->getElementOffset(ix.i);
      } else {
        int64_t es = DL->getTypeAllocSize(it.getIndexedType());
        if (ix.k == INT)
          off += es * sx(ix.i, ix.bits);
        else if ((ix.k == NUMT && ix.bits && constTree(ix.t)) || ix.k == GATE) {
          std::function<AV(const AV &, const AV &)> go = [&](const AV &b, const AV &ix) -> AV {
            T c;
            AV p, q;
            if (ix.k == INT) return gepOff(b, es * sx(ix.i, ix.bits));
            if (!choice(ix, c, p, q)) return mkTop();
            return gate(c, go(b, p), go(b, q));
          };
          b = go(b, ix);
        } else if (ix.k == NUMT && ix.bits && b.k == PTR && b.obj > OPAQUE && es) {
          // an index known to lie within the object: one of its elements
          Obj *o = getObj(s, b.obj);
          std::vector<std::pair<int64_t, T>> in;
          int64_t lo = b.off + off, n = o && !o->opaque && lo >= 0 ? ((int64_t)o->size - lo) / es : 0;
          for (int64_t k = 0; k < n && n <= 64; k++) {
            T e = settle(s, TS.eq0(TS.sub(ix.t, TS.num((double)k))));
            if (e != TS.tFalse) in.push_back({k, e});
          }
          if (!in.empty() && settle(s, TS.le0(TS.sub(ix.t, TS.num((double)in[0].first - 1)))) == TS.tFalse && settle(s, TS.le0(TS.sub(TS.num((double)in.back().first + 1), ix.t))) == TS.tFalse) {
            AV r = gepOff(b, es * in.back().first);
            for (int k = (int)in.size() - 2; k >= 0; k--) r = gate(in[k].second, gepOff(b, es * in[k].first), r);
            b = r;
          } else
            top = true;
        } else if (ix.k == UNINIT) {
          memError("uninit", "address computed from an uninitialised index", site);
          top = true;
        } else
          top = true;
      }
    }
    if (top) {
      R = b.k == PTR && b.obj == OPAQUE ? b : mkTop();
      if (b.k == PTR) {
        Obj *o = getObj(s, b.obj);
        if (o && o->opaque) R = mkPtr(OPAQUE, 0);
      }
      return;
    }
    R = gepOff(b, off);
    return;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
  case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    R = intOp(d.op, val(f, d.ops[0]), val(f, d.ops[1]), d.bits ? d.bits : 64, site);
    return;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    const AV &a = val(f, d.ops[0]), &b = val(f, d.ops[1]);
    if (a.k == UNINIT || b.k == UNINIT) {
      R = AV();
      return;
    }
    unsigned by = d.ty->isFloatTy() ? 4 : 8;
    T x = asReal(a, by), y = asReal(b, by);
    if (!x || !y) {
      R = mkTop();
      return;
    }
    T t;
    switch (d.op) {
    case Instruction::FAdd: t = TS.add(x, y); break;
    case Instruction::FSub: t = TS.sub(x, y); break;
    case Instruction::FMul: t = TS.mul(x, y); break;
    case Instruction::FDiv: t = TS.div(x, y); break;
    default: t = TS.app("fmod", {x, y});
    }
    R = numRes(t, a, b, site);
    return;
  }
  case Instruction::FNeg: {
    const AV &a = val(f, d.ops[0]);
    T x = asReal(a, d.ty->isFloatTy() ? 4 : 8);
    R = a.k == UNINIT ? AV() : x ? numRes(TS.neg(x), a, a, site) : mkTop();
    return;
  }
  case Instruction::ICmp: {
    Type *t = d.I->getOperand(0)->getType();
    R = icmpOp(cast<ICmpInst>(d.I)->getPredicate(), val(f, d.ops[0]), val(f, d.ops[1]), t->isIntegerTy() ? t->getIntegerBitWidth() : 0);
    return;
  }
  case Instruction::FCmp: {
    const AV &a = val(f, d.ops[0]), &b = val(f, d.ops[1]);
    if (a.k == UNINIT || b.k == UNINIT) {
      R = AV();
      return;
    }
    unsigned by = d.I->getOperand(0)->getType()->isFloatTy() ? 4 : 8;
    R = fcmpOp(cast<FCmpInst>(d.I)->getPredicate(), asReal(a, by), asReal(b, by));
    return;
  }
  case Instruction::ZExt: case Instruction::SExt: {
    const AV &a = val(f, d.ops[0]);
    unsigned sb = d.I->getOperand(0)->getType()->getIntegerBitWidth();
    if (a.k == INT)
      R = mkInt(d.op == Instruction::SExt ? (u64)sx(a.i, sb) : a.i, d.bits);
    else if (a.k == BOOLT)
      R = mkITerm(TS.ite(a.t, d.op == Instruction::SExt && sb == 1 ? TS.num(-1) : TS.onet, TS.zero), d.bits);
    else if (a.k == NUMT && a.bits) {
      R = a;
      R.bits = d.bits;
    } else
      R = a;
    return;
  }
  case Instruction::Trunc: {
    const AV &a = val(f, d.ops[0]);
    if (a.k == INT)
      R = mkInt(a.i, d.bits);
    else if (d.bits == 1 && a.k == NUMT && a.bits)
      R = mkBool(TS.bnot(TS.eq0(a.t)));
    else if (a.k == NUMT && a.bits && d.bits < 32 && constTree(a.t)) {
      std::function<AV(const AV &)> go = [&](const AV &v) -> AV {
        T c;
        AV p, q;
        if (v.k == INT) return mkInt(v.i, d.bits);
        if (!choice(v, c, p, q)) return mkTop();
        return gate(c, go(p), go(q));
      };
      R = go(a);
    } else if (a.k == NUMT && a.bits) { // unknown integers fit in 32 bits
      R = a;
      R.bits = d.bits;
      if (d.bits < 32) R.t = TS.app("low" + std::to_string(d.bits), {a.t});
    } else if (a.k == PTR && a.obj == NULLOBJ)
      R = mkInt((u64)a.off, d.bits);
    else if (a.k == UNINIT || a.k == BOOLT)
      R = a;
    else
      R = mkTop();
    return;
  }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    const AV &a = val(f, d.ops[0]);
    unsigned sb = d.I->getOperand(0)->getType()->getIntegerBitWidth();
    if (a.k == INT)
      R = mkNum(TS.num(d.op == Instruction::SIToFP ? (double)sx(a.i, sb) : (double)a.i));
    else if (a.k == BOOLT)
      R = mkNum(TS.ite(a.t, TS.onet, TS.zero));
    else if (a.k == NUMT && a.bits)
      R = mkNum(a.t);
    else if (a.k == UNINIT)
      R = a;
    else
      R = mkTop();
    if (R.k == NUMT) R.site = site;
    return;
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    const AV &a = val(f, d.ops[0]);
    T x = asReal(a, 8);
    if (a.k == UNINIT)
      R = a;
    else if (x && x->k == NUM)
      R = mkInt((u64)(int64_t)x->num, d.bits);
    else if (x)
      R = mkITerm(TS.app("toint", {x}), d.bits);
    else
      R = mkTop();
    return;
  }
  case Instruction::FPTrunc: case Instruction::FPExt: {
    const AV &a = val(f, d.ops[0]);
    T x = asReal(a, d.I->getOperand(0)->getType()->isFloatTy() ? 4 : 8);
    if (a.k == UNINIT)
      R = a;
    else if (!x)
      R = mkTop();
    else {
      if (d.op == Instruction::FPTrunc && d.ty->isFloatTy()) x = TS.app("flt", {x});
      R = mkNum(x);
      R.site = a.site ? a.site : site;
    }
    return;
  }
  case Instruction::PtrToInt: {
    R = val(f, d.ops[0]);
    if (R.k == PTR && R.obj == NULLOBJ) R = mkInt((u64)R.off, d.bits);
    return;
  }
  case Instruction::IntToPtr: {
    R = val(f, d.ops[0]);
    if (R.k == INT) R = mkPtr(NULLOBJ, (int64_t)R.i);
    return;
  }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
    R = val(f, d.ops[0]);
    if (d.op == Instruction::BitCast && d.ty->isFloatingPointTy() && R.k == INT) R = mkNum(asReal(R, d.ty->isFloatTy() ? 4 : 8));
    if (d.op == Instruction::BitCast && d.ty->isIntegerTy() && R.k == NUMT && R.bits == 0 && R.t->k == NUM) {
      u64 q;
      subInt(R, 0, 8, q);
      R = mkInt(q, 64);
    }
    return;
  }
  case Instruction::Select: {
    AV c = val(f, d.ops[0]);
    if (c.k == INT) {
      R = val(f, d.ops[(c.i & 1) ? 1 : 2]);
      return;
    }
    if (c.k == UNINIT) memError("uninit", "selection decided by an uninitialised value", site);
    c = resolve(s, c);
    T ct = c.k == TOP || c.k == UNINIT || c.k == PTR ? nullptr : boolOf(c);
    ct = ct ? settle(s, ct) : TS.bsym("top#" + std::to_string(++TS.fresh));
    R = gate(ct, val(f, d.ops[1]), val(f, d.ops[2]));
    return;
  }
  case Instruction::ExtractValue: {
    auto *ev = cast<ExtractValueInst>(d.I);
    AV a = val(f, d.ops[0]);
    for (unsigned ix : ev->indices()) {
      if (a.k != AGG) {
        if (a.k != UNINIT) a = mkTop();
        break;
      }
      AV b = aggs[a.idx][ix];
      a = b;
    }
    R = a;
    return;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(d.I);
    AV a = val(f, d.ops[0]);
    std::vector<AV> v;
    if (a.k == AGG)
      v = aggs[a.idx];
    else
      v.resize(cast<StructType>(d.ty)->getNumElements());
    if (iv->getNumIndices() == 1) v[iv->getIndices()[0]] = val(f, d.ops[1]);
    R = mkAgg(v);
    return;
  }
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(d.I);
    AV p = val(f, d.ops[0]), v = val(f, d.ops[1]);
    AV old = doLoad(s, p, d.ty, site), nv = mkTop();
    unsigned b = d.bits ? d.bits : 64;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Add: nv = intOp(Instruction::Add, old, v, b, site); break;
    case AtomicRMWInst::Sub: nv = intOp(Instruction::Sub, old, v, b, site); break;
    case AtomicRMWInst::Xchg: nv = v; break;
    default: break;
    }
    doStore(s, p, nv, d.ty, site);
    R = old;
    return;
  }
  case Instruction::AtomicCmpXchg: {
    AV p = val(f, d.ops[0]), e = val(f, d.ops[1]), n = val(f, d.ops[2]);
    Type *ty = cast<AtomicCmpXchgInst>(d.I)->getCompareOperand()->getType();
    AV old = doLoad(s, p, ty, site);
    AV eq = icmpOp(CmpInst::ICMP_EQ, old, e, ty->isIntegerTy() ? ty->getIntegerBitWidth() : 0);
    if (eq.k == INT) {
      if (eq.i) doStore(s, p, n, ty, site);
    } else
      giveUp("cmpxchg");
    R = mkAgg({old, eq});
    return;
  }
  case Instruction::Fence: return;
  case Instruction::LandingPad: {
    auto *lp = cast<LandingPadInst>(d.I);
    // selector: index of the first matching clause
    AV exc = pendingExc;
    u64 ti = 0;
    auto it = excTI.find(exc.obj);
    if (it != excTI.end()) ti = it->second;
    int sel = 0;
    AV selv = mkInt(0, 32);
    for (unsigned k = 0; k < lp->getNumClauses(); k++) {
      if (!lp->isCatch(k)) continue;
      const Constant *c = lp->getClause(k);
      if (isa<ConstantPointerNull>(c)) {
        sel = 1;
        break;
      }
      AV cv = constAV(c);
      extern bool tiDerives(State &, u64, u64);
      if (ti && tiDerives(s, ti, cv.obj)) {
        sel = 1 + (int)oid(cv.obj);
        break;
      }
    }
    selv = mkInt(sel, 32);
    R = mkAgg({exc, selv});
    return;
  }
  default:
    giveUp(std::string("instruction ") + d.I->getOpcodeName());
    R = mkTop();
  }
}

// ---- type information hierarchy (exceptions, dynamic_cast)
static const std::map<std::string, std::string> stdBase = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
static std::string objNameOf(State &s, u64 h) {
  Obj *o = getObj(s, h);
  return o ? o->name : "";
}
static u64 handleByName(const std::string &n) {
  auto *g = M->getNamedValue(n);
  return g ? globalObj(*baseState, g) : 0;
}
// list of (base typeinfo name/handle, offset)
static void tiBases(State &s, u64 ti, std::vector<std::pair<std::string, int64_t>> &out) {
  std::string n = objNameOf(s, ti);
  auto it = stdBase.find(n);
  Obj *o = getObj(s, ti);
  if (it != stdBase.end()) {
    out.push_back({it->second, 0});
    return;
  }
  if (!o || o->opaque) return;
  AV vt = loadRaw(o, 0, 8);
  std::string vn = vt.k == PTR ? objNameOf(s, vt.obj) : "";
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") {
    AV b = loadRaw(o, 16, 8);
    if (b.k == PTR) out.push_back({objNameOf(s, b.obj), 0});
  } else if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    AV c = loadRaw(o, 20, 4);
    for (u64 i = 0; c.k == INT && i < c.i; i++) {
      AV b = loadRaw(o, 24 + 16 * i, 8), fl = loadRaw(o, 32 + 16 * i, 8);
      if (b.k == PTR && fl.k == INT) out.push_back({objNameOf(s, b.obj), sx(fl.i, 64) >> 8});
    }
  }
}
static bool tiFind(State &s, const std::string &from, const std::string &to, int64_t &off) {
  if (from == to) return true;
  auto it = stdBase.find(from);
  std::vector<std::pair<std::string, int64_t>> b;
  u64 h = handleByName(from);
  if (h)
    tiBases(s, h, b);
  else if (it != stdBase.end())
    b.push_back({it->second, 0});
  for (auto &p : b) {
    int64_t o = off + p.second;
    if (tiFind(s, p.first, to, o)) {
      off = o;
      return true;
    }
  }
  return false;
}
bool tiDerives(State &s, u64 ti, u64 target) {
  int64_t off = 0;
  return tiFind(s, objNameOf(s, ti), objNameOf(s, target), off);
}

// ---- calls
static const std::vector<std::string> quietPrefixes = {
    "_ZNSo", "_ZNKRSt7__cxx1118basic_stringstream", "_ZNKRSt7__cxx1119basic_ostringstream", "_ZNOSt7__cxx1118basic_stringstream", "_ZNOSt7__cxx1119basic_ostringstream", "_ZNSi", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZStls", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream",
    "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt16invalid_argument", "_ZNSt12out_of_range", "_ZNSt9bad_alloc", "_ZNSt9exception",
    "_ZSt4endl", "_ZSt5flush", "_ZNKSt5ctype", "_ZSt16__ostream_insert", "_ZNSt12length_error", "_ZNKSt9exception", "_ZNKSt13runtime_error", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1119basic_istringstream", "_ZNKSt7__cxx1119basic_istringstream", "_ZNSt10bad_typeid", "_ZNSt8bad_cast", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt15basic_streambuf", "_ZNSt12domain_error", "_ZNKSt11logic_error"};
static bool startsWith(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
static void writeEmptyString(State &s, const AV &p, uint32_t site) {
  if (p.k != PTR || p.obj == OPAQUE) return;
  Obj *o = wObj(s, p.obj);
  if (!o || o->opaque || p.off < 0 || (u64)p.off + 17 > o->size) return;
  storeRaw(o, p.off, 8, mkPtr(p.obj, p.off + 16), site);
  storeRaw(o, p.off + 8, 8, mkInt(0, 64), site);
  storeRaw(o, p.off + 16, 1, mkInt(0, 8), site);
}
static AV freshFor(Type *ty, const std::string &n) {
  if (ty->isVoidTy()) return AV();
  if (ty->isFloatingPointTy()) return mkNum(TS.freshSym("ext:" + n));
  if (ty->isIntegerTy()) {
    if (ty->getIntegerBitWidth() == 1) return mkBool(TS.bsym("ext:" + n + "#" + std::to_string(++TS.fresh)));
    return mkITerm(TS.freshSym("ext:" + n), ty->getIntegerBitWidth());
  }
  if (ty->isPointerTy()) return mkPtr(OPAQUE, 0);
  return mkTop();
}
static bool doFree(State &s, const AV &p, int kind, uint32_t site) {
  AV q = p.k == GATE ? resolve(s, p) : p;
  if (q.k == GATE) {
    Gate g = gates[q.idx];
    split(s, g.c, [&](State &t) { doFree(t, g.a, kind, site); }, [&](State &t) { doFree(t, g.b, kind, site); });
    return true;
  }
  if (q.k == INT) q = mkPtr(NULLOBJ, (int64_t)q.i);
  if (q.k == UNINIT) {
    memError("free-uninit", "release of an uninitialised pointer", site);
    return false;
  }
  if (q.k != PTR) {
    giveUp("free of unknown pointer at " + siteStr(site));
    return false;
  }
  if (q.obj == NULLOBJ && q.off == 0) return true;
  if (q.obj == OPAQUE) return true;
  Obj *o = getObj(s, q.obj);
  if (!o || o->live == DEAD) {
    memError("double-free", "release of memory already released" + std::string(o ? " (allocated at " + siteStr(o->site) + ", released at " + siteStr(o->freeSite) + ")" : ""), site);
    return false;
  }
  if (o->live == MAYBE && o->deadIf) {
    T dd = settle(s, o->deadIf);
    if (dd == TS.tTrue || (dd != TS.tFalse && o->freeSite && !lostCond(dd) && happens(s, dd))) {
      memError("double-free", "release of memory already released" + std::string(dd == TS.tTrue ? "" : " on some path") + " (allocated at " + siteStr(o->site) + ", released at " + siteStr(o->freeSite) + ")", site);
      return false;
    }
  }
  if (o->kind != OHEAP || q.off != 0) {
    memError("bad-free", "release of something that is not a heap allocation: " + objDesc(o), site);
    return false;
  }
  if (kind && o->heapKind && kind != o->heapKind) memError("mismatched-free", "allocation and release functions do not match: " + objDesc(o), site);
  Obj *w = wObj(s, q.obj);
  w->live = DEAD;
  w->freeSite = site;
  w->slots.clear();
  if (forkDepth == 0) {
    s.objs[oid(q.obj)].reset();
    freeIds.push_back(oid(q.obj));
  }
  return true;
}
static u64 largest(const AV &v) { // of the sizes it may be
  T c;
  AV a, b;
  if (v.k == INT) return v.i;
  if (choice(v, c, a, b)) return std::max(largest(a), largest(b));
  return 0;
}
static AV doAlloc(State &s, const AV &n0, int kind, bool zero, uint32_t site) {
  u64 sz;
  AV n = n0, n1, n2;
  T nc;
  if (n.k != INT && choice(n, nc, n1, n2) && largest(n)) n = mkInt(largest(n), 64);
  if (n.k == INT)
    sz = n.i;
  else {
    giveUp("allocation of unknown size at " + siteStr(site));
    sz = 64;
  }
  if (sz > (1ULL << 32)) {
    memError("alloc", "allocation of " + std::to_string(sz) + " bytes", site);
    deadPath = true;
    return mkTop();
  }
  u64 h = newObj(s, sz, OHEAP, site);
  Obj *o = s.objs[oid(h)].get();
  o->heapKind = kind;
  if (zero)
    for (auto &x : o->slots) {
      x.mode = 1;
      x.v = mkInt(0, 64);
    }
  return mkPtr(h, 0);
}
static bool cellVal(State &s, const AV &p, AV &out, uint32_t &store) {
  if (p.k != PTR) return false;
  Obj *o = getObj(s, p.obj);
  if (!o || o->live == DEAD || p.off < 0 || (u64)p.off + 8 > o->size) return false;
  out = loadRaw(o, p.off, 8);
  store = o->opaque ? 0 : o->slots[p.off >> 3].store;
  return true;
}
static T approxDrop(T t, double eps) { // drop monomials with tiny coefficients
  if (t->k == NUM) return std::fabs(t->num) < eps ? TS.zero : t;
  if (t->k != POLY) return t;
  PolyV r;
  for (auto &p : t->poly)
    if (std::fabs(p.second) >= eps) r.push_back(p);
  return TS.make(r);
}
static int64_t litArg(const AV &v) { return v.k == INT ? sx(v.i, v.bits) : 0; }
static std::string idxStr(const AV &a, const AV &b) { return "[" + std::to_string(litArg(a)) + "," + std::to_string(litArg(b)) + "]"; }
#include "intrinsics.inc"

static const std::set<std::string> mathFns = {"sin", "cos", "tan", "exp", "log", "atan", "atan2", "asin", "acos", "sinh", "cosh", "tanh", "floor", "ceil", "pow", "log10", "log2", "exp2", "cbrt", "hypot", "fmod", "round", "trunc", "rint", "nearbyint",
    "fdim", "erf", "erfc", "expm1", "log1p", "lgamma", "tgamma", "logb", "nextafter", "remainder", "asinh", "acosh", "atanh", "ldexp", "scalbn", "copysign", "fma", "roundeven"};

static bool manyLen(State &s, const AV &n) {
  T c;
  AV a, b;
  return choice(n, c, a, b);
}
static void copyN(State &s, const AV &d, const AV &src, const AV &n, uint32_t site) {
  T c;
  AV a, b;
  if (n.k == INT)
    doMemcpy(s, d, src, n.i, site);
  else if (choice(n, c, a, b))
    split(s, c, [&](State &t) { copyN(t, d, src, a, site); }, [&](State &t) { copyN(t, d, src, b, site); });
  else
    giveUp("memcpy of unknown length at " + siteStr(site));
}
static void setN(State &s, const AV &d, u64 v, const AV &n, uint32_t site) {
  T c;
  AV a, b;
  if (n.k == INT)
    doMemset(s, d, v, n.i, site);
  else if (choice(n, c, a, b))
    split(s, c, [&](State &t) { setN(t, d, v, a, site); }, [&](State &t) { setN(t, d, v, b, site); });
  else
    giveUp("memset of unknown length at " + siteStr(site));
}
static AV lengthOf(State &s, const AV &p0) {
  AV p = resolve(s, p0);
  if (p.k == GATE) {
    Gate g = gates[p.idx];
    return gate(g.c, lengthOf(s, g.a), lengthOf(s, g.b));
  }
  if (p.k == PTR && p.obj != OPAQUE) return mkInt(cstr(s, p).size(), 64);
  return mkInt(4, 64);
}
static RR external(Frame &f, DI &d, CallBase *cb, Function *F, std::vector<AV> &a, State &s, uint32_t site) {
  std::string n = F->getName().str();
  Type *rt = d.ty;
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      if (a[2].k == INT || manyLen(s, a[2]))
        copyN(s, a[0], a[1], a[2], site);
      else if (!(a[0].k == PTR && a[0].obj == OPAQUE))
        giveUp("memcpy of unknown length at " + siteStr(site));
      if (deadPath) { deadPath = false; return RR(); }
      return okRet(std::move(s));
    case Intrinsic::memset:
      if ((a[2].k == INT || manyLen(s, a[2])) && a[1].k == INT)
        setN(s, a[0], a[1].i, a[2], site);
      else
        giveUp("memset of unknown length at " + siteStr(site));
      if (deadPath) { deadPath = false; return RR(); }
      return okRet(std::move(s));
    case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum: case Intrinsic::pow: case Intrinsic::powi:
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::copysign: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::trunc: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::ldexp: case Intrinsic::roundeven: {
      std::vector<T> t;
      for (auto &x : a) {
        T r = (x.k == INT && (F->getIntrinsicID() == Intrinsic::powi || F->getIntrinsicID() == Intrinsic::ldexp) && t.size() == 1) ? TS.num((double)sx(x.i, 32)) : asReal(x, 8);
        if (!r) return okRet(std::move(s), x.k == UNINIT ? AV() : mkTop());
        t.push_back(r);
      }
      std::string nm;
      switch (F->getIntrinsicID()) {
      case Intrinsic::fabs: nm = "abs"; break;
      case Intrinsic::sqrt: nm = "sqrt"; break;
      case Intrinsic::maxnum: case Intrinsic::maximum: nm = "max"; break;
      case Intrinsic::minnum: case Intrinsic::minimum: nm = "min"; break;
      case Intrinsic::pow: case Intrinsic::powi: nm = "pow"; break;
      default: nm = Intrinsic::getBaseName(F->getIntrinsicID()).str();
      }
      AV r = mkNum(TS.app(nm, t));
      r.site = site;
      return okRet(std::move(s), r);
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: {
      T x = asReal(a[0], 8), y = asReal(a[1], 8), z = asReal(a[2], 8);
      AV r = x && y && z ? mkNum(TS.add(TS.mul(x, y), z)) : mkTop();
      r.site = site;
      return okRet(std::move(s), r);
    }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
      bool mx = F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::umax;
      bool sg = F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::smin;
      AV c = icmpOp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a[0], a[1], d.bits);
      if (c.k == INT) return okRet(std::move(s), (c.i != 0) == mx ? a[1] : a[0]);
      if (c.k == BOOLT) return okRet(std::move(s), mx ? gate(c.t, a[1], a[0]) : gate(c.t, a[0], a[1]));
      return okRet(std::move(s), mkTop());
    }
    case Intrinsic::abs: {
      if (a[0].k == INT) return okRet(std::move(s), mkInt((u64)std::llabs(sx(a[0].i, d.bits)), d.bits));
      T x = asITerm(a[0]);
      return okRet(std::move(s), x ? mkITerm(TS.app("abs", {x}), d.bits) : mkTop());
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned b = cast<StructType>(rt)->getElementType(0)->getIntegerBitWidth();
      Intrinsic::ID id = F->getIntrinsicID();
      unsigned op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
      AV r = intOp(op, a[0], a[1], b, site);
      bool ov = false;
      if (a[0].k == INT && a[1].k == INT && op == Instruction::Mul) ov = (unsigned __int128)a[0].i * a[1].i >> b;
      return okRet(std::move(s), mkAgg({r, mkInt(ov, 1)}));
    }
    case Intrinsic::is_fpclass: {
      T x = asReal(a[0], cb->getArgOperand(0)->getType()->isFloatTy() ? 4 : 8);
      u64 m = a[1].k == INT ? a[1].i : 0;
      if (!x) return okRet(std::move(s), a[0].k == UNINIT ? AV() : mkTop());
      if (x->k == NUM) {
        double v = x->num;
        u64 c = std::isnan(v) ? 3 : std::isinf(v) ? (v < 0 ? 4 : 512) : v == 0 ? 64 : std::fpclassify(v) == FP_SUBNORMAL ? (v < 0 ? 16 : 128) : (v < 0 ? 8 : 256);
        return okRet(std::move(s), mkInt((m & c) != 0, 1));
      }
      // unknown values are finite
      m &= 504;
      if (m == 504) return okRet(std::move(s), mkInt(1, 1));
      if (m == 0) return okRet(std::move(s), mkInt(0, 1));
      T r = TS.tFalse;
      if ((m & 24) == 24) r = TS.bor(r, TS.lt0(x));
      if (m & 96) r = TS.bor(r, TS.eq0(x));
      if ((m & 384) == 384) r = TS.bor(r, TS.lt0(TS.neg(x)));
      if ((m & 24) == 8 || (m & 24) == 16 || (m & 384) == 128 || (m & 384) == 256) {
        if ((m & 272) == 0 && (m & 136) == 0) return okRet(std::move(s), mkTop());
        if (m & 8) r = TS.bor(r, TS.lt0(x)); // normal numbers; unknown values are not subnormal
        if (m & 256) r = TS.bor(r, TS.lt0(TS.neg(x)));
      }
      return okRet(std::move(s), mkBool(r));
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::bitreverse: {
      Intrinsic::ID id = F->getIntrinsicID();
      std::function<AV(const AV &)> go = [&](const AV &v) -> AV {
        T c;
        AV p, q;
        if (v.k == INT) {
          unsigned w = d.bits;
          u64 r = 0, x = w >= 64 ? v.i : v.i & ((1ULL << w) - 1);
          if (id == Intrinsic::ctlz) r = x ? __builtin_clzll(x) - (64 - w) : w;
          else if (id == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w;
          else if (id == Intrinsic::ctpop) r = __builtin_popcountll(x);
          else if (id == Intrinsic::bswap) r = __builtin_bswap64(x) >> (64 - w);
          else
            for (unsigned k = 0; k < w; k++) r |= ((x >> k) & 1) << (w - 1 - k);
          return mkInt(r, w);
        }
        if (choice(v, c, p, q)) return gate(c, go(p), go(q));
        if (v.k == UNINIT) return AV();
        T x = asITerm(v);
        return x ? mkITerm(TS.app(Intrinsic::getBaseName(id).str(), {x}), d.bits) : mkTop();
      };
      return okRet(std::move(s), go(a[0]));
    }
    case Intrinsic::fshl: case Intrinsic::fshr:
      if (a[0].k == INT && a[1].k == INT && a[2].k == INT) {
        unsigned w = d.bits, k = a[2].i % w;
        bool l = F->getIntrinsicID() == Intrinsic::fshl;
        u64 r = k == 0 ? (l ? a[0].i : a[1].i) : l ? (a[0].i << k) | (a[1].i >> (w - k)) : (a[0].i << (w - k)) | (a[1].i >> k);
        return okRet(std::move(s), mkInt(r, w));
      }
      return okRet(std::move(s), mkTop());
    case Intrinsic::threadlocal_address: return okRet(std::move(s), a[0]);
    case Intrinsic::eh_typeid_for: return okRet(std::move(s), mkInt(1 + oid(a[0].obj), 32));
    case Intrinsic::is_constant: return okRet(std::move(s), mkInt(0, 1));
    case Intrinsic::objectsize: return okRet(std::move(s), mkInt(~0ULL, d.bits));
    case Intrinsic::expect: return okRet(std::move(s), a[0]);
    case Intrinsic::stacksave: return okRet(std::move(s), mkPtr(OPAQUE, 0));
    case Intrinsic::trap: case Intrinsic::ubsantrap:
      report("abort", "abort", "trap reached", siteStr(site));
      return RR();
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::donothing: case Intrinsic::vastart: case Intrinsic::vaend:
      return okRet(std::move(s));
    default:
      giveUp("intrinsic " + n);
      return okRet(std::move(s), mkTop());
    }
  }
  if (startsWith(n, "sa_")) return intrinsic(f, d, n, a, s, site);
  // allocation
  auto fin = [&](AV v) {
    if (deadPath) {
      deadPath = false;
      return RR();
    }
    return okRet(std::move(s), v);
  };
  if (n == "malloc") return fin(doAlloc(s, a[0], 1, false, site));
  if (n == "calloc") return fin(doAlloc(s, intOp(Instruction::Mul, a[0], a[1], 64, site), 1, true, site));
  if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") return fin(doAlloc(s, a[0], 2, false, site));
  if (n == "_Znam" || n == "_ZnamSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") return fin(doAlloc(s, a[0], 3, false, site));
  if (n == "aligned_alloc") return fin(doAlloc(s, a[1], 1, false, site));
  if (n == "posix_memalign") {
    AV p = doAlloc(s, a[2], 1, false, site);
    doStore(s, a[0], p, PointerType::get(M->getContext(), 0), site);
    return fin(mkInt(0, 32));
  }
  if (n == "realloc") {
    if (a[0].k == PTR && a[0].obj == NULLOBJ) return fin(doAlloc(s, a[1], 1, false, site));
    Obj *o = a[0].k == PTR ? getObj(s, a[0].obj) : nullptr;
    if (!o || o->live == DEAD) {
      memError("released", "realloc of released memory", site);
      return fin(doAlloc(s, a[1], 1, false, site));
    }
    u64 os = o->size;
    AV p = doAlloc(s, a[1], 1, false, site);
    if (p.k == PTR) doMemcpy(s, p, a[0], std::min(os, getObj(s, p.obj)->size), site);
    doFree(s, a[0], 1, site);
    return fin(p);
  }
  if (n == "free") { doFree(s, a[0], 1, site); return fin(AV()); }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { doFree(s, a[0], 2, site); return fin(AV()); }
  if (n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdaPvSt11align_val_t" || n == "_ZdaPvmSt11align_val_t") { doFree(s, a[0], 3, site); return fin(AV()); }
  if (n == "memcpy" || n == "memmove") {
    if (a[2].k == INT || manyLen(s, a[2])) copyN(s, a[0], a[1], a[2], site); else giveUp("memcpy of unknown length");
    return fin(a[0]);
  }
  if (n == "memset") {
    if ((a[2].k == INT || manyLen(s, a[2])) && a[1].k == INT) setN(s, a[0], a[1].i, a[2], site); else giveUp("memset of unknown length");
    return fin(a[0]);
  }
  if (n == "strlen") {
    return fin(lengthOf(s, a[0]));
  }
  if (n == "memcmp" || n == "strcmp" || n == "strncmp" || n == "bcmp") {
    if (n == "strcmp") {
      std::string x = cstr(s, a[0]), y = cstr(s, a[1]);
      return fin(mkInt((u64)(int64_t)x.compare(y), 32));
    }
    if (a[2].k == INT && a[0].k == PTR && a[1].k == PTR) {
      Obj *x = getObj(s, a[0].obj), *y = getObj(s, a[1].obj);
      int r = 0;
      bool known = true;
      for (u64 i = 0; i < a[2].i && !r; i++) {
        if (!x || !y || a[0].off + i >= x->size || a[1].off + i >= y->size) { known = false; break; }
        AV p = loadRaw(x, a[0].off + i, 1), q = loadRaw(y, a[1].off + i, 1);
        if (p.k != INT || q.k != INT) { known = false; break; }
        r = (int)(p.i & 255) - (int)(q.i & 255);
      }
      if (known) return fin(mkInt((u64)(int64_t)r, 32));
    }
    return fin(freshFor(rt, n));
  }
  // maths
  std::string mn = n;
  if (mn.size() > 3 && (mn.back() == 'f' || mn.back() == 'l') && (mathFns.count(mn.substr(0, mn.size() - 1)) || mn == "fabsf" || mn == "fabsl" || mn == "fmaxf" || mn == "fminf" || mn == "sqrtl" || mn == "fmaxl" || mn == "fminl") && !mathFns.count(mn)) mn.pop_back();
  if (n == "sqrt" || n == "sqrtf" || mn == "sqrt" || mn == "fabs" || mn == "fmax" || mn == "fmin" || mathFns.count(mn)) {
    std::vector<T> t;
    for (auto &x : a) {
      T r = cb->getArgOperand(t.size())->getType()->isIntegerTy() ? asITerm(x) : asReal(x, cb->getArgOperand(t.size())->getType()->isFloatTy() ? 4 : 8);
      if (!r) return fin(x.k == UNINIT ? AV() : mkTop());
      t.push_back(r);
    }
    std::string nm = mn == "fabs" ? "abs" : mn == "fmax" ? "max" : mn == "fmin" ? "min" : mn == "sqrtf" ? "sqrt" : mn;
    if (nm == "fma" && t.size() == 3) {
      AV r = mkNum(TS.add(TS.mul(t[0], t[1]), t[2]));
      r.site = site;
      return fin(r);
    }
    bool known = !t.empty();
    for (T x : t) known = known && x->k == NUM;
    if (known) { // of constants: the value
      double x = t[0]->num, y = t.size() > 1 ? t[1]->num : 0;
      static const std::map<std::string, double (*)(double)> one = {{"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"exp", std::exp}, {"log", std::log}, {"atan", std::atan}, {"asin", std::asin}, {"acos", std::acos}, {"sinh", std::sinh}, {"cosh", std::cosh}, {"tanh", std::tanh}, {"floor", std::floor}, {"ceil", std::ceil}, {"log10", std::log10}, {"log2", std::log2}, {"exp2", std::exp2}, {"cbrt", std::cbrt}, {"round", std::round}, {"trunc", std::trunc}, {"rint", std::rint}, {"nearbyint", std::nearbyint}, {"expm1", std::expm1}, {"log1p", std::log1p}, {"logb", std::logb}};
      static const std::map<std::string, double (*)(double, double)> two = {{"atan2", std::atan2}, {"hypot", std::hypot}, {"fmod", std::fmod}, {"fdim", std::fdim}, {"nextafter", std::nextafter}, {"remainder", std::remainder}, {"copysign", std::copysign}};
      auto i1 = one.find(nm);
      auto i2 = two.find(nm);
      double v = 0;
      bool have = true;
      if (t.size() == 1 && i1 != one.end()) v = i1->second(x);
      else if (t.size() == 2 && i2 != two.end()) v = i2->second(x, y);
      else if (nm == "ldexp" || nm == "scalbn") v = std::ldexp(x, (int)y);
      else have = false;
      if (have) {
        AV r = mkNum(TS.num(v));
        r.site = site;
        return fin(r);
      }
    }
    AV r = mkNum(TS.app(nm, t));
    r.site = site;
    return fin(r);
  }
  if (n == "abs") {
    if (a[0].k == INT) return fin(mkInt((u64)std::llabs(sx(a[0].i, 32)), 32));
    T x = asITerm(a[0]);
    return fin(x ? mkITerm(TS.app("abs", {x}), 32) : mkTop());
  }
  if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint" || n == "lroundf" || n == "lrintf") {
    T x = asReal(a[0], cb->getArgOperand(0)->getType()->isFloatTy() ? 4 : 8);
    if (!x) return fin(a[0].k == UNINIT ? AV() : mkTop());
    bool half = n.find("round") != std::string::npos;
    if (x->k == NUM) return fin(mkInt((u64)(half ? std::llround(x->num) : std::llrint(x->num)), d.bits));
    return fin(mkITerm(TS.app("toint", {TS.app(half ? "round" : "rint", {x})}), d.bits));
  }
  if (n == "frexp" || n == "modf") {
    T x = asReal(a[0], 8);
    if (x && x->k == NUM) {
      if (n == "frexp") {
        int e = 0;
        double m = std::frexp(x->num, &e);
        doStore(s, a[1], mkInt((u64)(int64_t)e, 32), Type::getInt32Ty(M->getContext()), site);
        return fin(mkNum(TS.num(m)));
      }
      double ip = 0, m = std::modf(x->num, &ip);
      doStore(s, a[1], mkNum(TS.num(ip)), Type::getDoubleTy(M->getContext()), site);
      return fin(mkNum(TS.num(m)));
    }
    if (!x) return fin(a[0].k == UNINIT ? AV() : mkTop());
    if (n == "frexp") {
      doStore(s, a[1], mkITerm(TS.app("exponent", {x}), 32), Type::getInt32Ty(M->getContext()), site);
      return fin(mkNum(TS.app("mantissa", {x})));
    }
    T ip = TS.app("trunc", {x});
    doStore(s, a[1], mkNum(ip), Type::getDoubleTy(M->getContext()), site);
    return fin(mkNum(TS.sub(x, ip)));
  }
  // text
  if (n == "toupper" || n == "tolower" || n == "isdigit" || n == "isalpha" || n == "isspace" || n == "isupper" || n == "islower" || n == "isalnum" || n == "ispunct" || n == "isprint") {
    if (a[0].k == INT) {
      int ch = (int)sx(a[0].i, 32);
      if (ch < -1 || ch > 255) ch = 0;
      int r = n == "toupper" ? toupper(ch) : n == "tolower" ? tolower(ch) : n == "isdigit" ? !!isdigit(ch) : n == "isalpha" ? !!isalpha(ch) : n == "isspace" ? !!isspace(ch) : n == "isupper" ? !!isupper(ch) : n == "islower" ? !!islower(ch) : n == "isalnum" ? !!isalnum(ch) : n == "ispunct" ? !!ispunct(ch) : !!isprint(ch);
      return fin(mkInt((u64)r, 32));
    }
    return fin(freshFor(rt, n));
  }
  if (n == "memchr") {
    AV p = resolve(s, a[0]);
    if (p.k == PTR && a[1].k == INT && a[2].k == INT) {
      Obj *o = getObj(s, p.obj);
      for (u64 i = 0; i < a[2].i; i++) {
        AV v = o && !o->opaque && p.off + (int64_t)i >= 0 && p.off + i < o->size ? loadRaw(o, p.off + i, 1) : mkTop();
        if (v.k != INT) return fin(mkTop());
        if ((v.i & 255) == (a[1].i & 255)) return fin(mkPtr(p.obj, p.off + i));
      }
      return fin(mkPtr(NULLOBJ, 0));
    }
    return fin(mkTop());
  }
  if (n == "strtol" || n == "strtoul" || n == "strtoll" || n == "strtoull" || n == "strtod" || n == "strtof" || n == "atoi" || n == "atof" || startsWith(n, "__isoc23_strto")) {
    AV p = resolve(s, a[0]);
    bool fp = n == "strtod" || n == "strtof" || n == "atof";
    std::string t = p.k == PTR && p.obj > OPAQUE ? cstr(s, p) : "";
    char *e = nullptr;
    long long l = 0;
    double v = 0;
    if (fp) v = strtod(t.c_str(), &e);
    else l = strtoll(t.c_str(), &e, a.size() > 2 && a[2].k == INT ? (int)a[2].i : 10);
    if (a.size() > 1 && a[1].k == PTR && a[1].obj > OPAQUE && p.k == PTR) doStore(s, a[1], mkPtr(p.obj, p.off + (e - t.c_str())), PointerType::get(M->getContext(), 0), site);
    return fin(fp ? mkNum(TS.num(v)) : mkInt((u64)l, d.bits));
  }
  if (n == "snprintf" || n == "sprintf" || n == "vsnprintf" || n == "vsprintf") { // text of some value: stands for itself
    bool sized = n.find("snprintf") != std::string::npos;
    AV fm = resolve(s, a[sized ? 2 : 1]);
    std::string f = fm.k == PTR ? cstr(s, fm) : "", out;
    size_t k = sized ? 3 : 2;
    bool v = n[0] == 'v';
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { out += f[i]; continue; }
      if (i + 1 < f.size() && f[i + 1] == '%') { out += '%'; i++; continue; }
      size_t b = i++;
      int stars = 0;
      while (i < f.size() && !isalpha((unsigned char)f[i])) stars += f[i++] == '*';
      while (i < f.size() && strchr("hlLzjt", f[i])) i++;
      if (i >= f.size()) break;
      char cv = f[i];
      k += v ? 0 : stars;
      char buf[128];
      std::string sp = f.substr(b, i - b + 1);
      AV x = !v && k < a.size() ? resolve(s, a[k++]) : mkTop();
      T rx = strchr("fFgGeE", cv) ? asReal(x, 8) : nullptr;
      if (!stars && rx && rx->k == NUM) { snprintf(buf, sizeof buf, sp.c_str(), rx->num); out += buf; }
      else if (!stars && strchr("diuxXc", cv) && x.k == INT) { std::string q; for (char ch : sp) if (!strchr("hlLzjt", ch)) q += ch; q.insert(q.size() - 1, cv == 'c' ? "" : "ll"); if (cv == 'c') snprintf(buf, sizeof buf, q.c_str(), (int)x.i); else snprintf(buf, sizeof buf, q.c_str(), strchr("di", cv) ? (long long)sx(x.i, x.bits) : (long long)x.i); out += buf; }
      else if (cv == 's' && x.k == PTR && x.obj > OPAQUE) out += cstr(s, x);
      else out += strchr("fFgGeE", cv) ? "0.0" : "0";
    }
    u64 cap = sized ? (a[1].k == INT ? a[1].i : 0) : out.size() + 1;
    if (cap) {
      u64 m = std::min<u64>(out.size(), cap - 1);
      for (u64 i = 0; i <= m; i++) {
        AV q = gepOff(resolve(s, a[0]), i);
        doStore(s, q, mkInt(i < m ? (unsigned char)out[i] : 0, 8), Type::getInt8Ty(M->getContext()), site);
      }
    }
    return fin(mkInt(out.size(), 32));
  }
  if (n == "__errno_location") {
    static u64 h = 0;
    if (!h || !getObj(s, h)) {
      int fd = forkDepth;
      forkDepth = 1;
      h = newObj(s, 8, OGLOBAL, 0, "errno");
      forkDepth = fd;
      storeRaw(s.objs[oid(h)].get(), 0, 8, mkInt(0, 64), 0);
    }
    return fin(mkPtr(h, 0));
  }
  if (startsWith(n, "pthread_mutex_") || startsWith(n, "pthread_rwlock_") || startsWith(n, "pthread_cond_")) {
    if (n == "pthread_mutex_lock" || startsWith(n, "pthread_mutex_") || true) return fin(mkInt(0, 32));
  }
  // process end
  if (n == "__assert_fail" || n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate" || n == "__stack_chk_fail" || n == "quick_exit" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
    std::string what = n == "__assert_fail" ? "assertion fails: " + cstr(s, a[0]) : n == "exit" ? "process exit is reached" : n + " is reached";
    report("abort", "abort", what, siteStr(site));
    return RR();
  }
  // exceptions
  if (n == "__cxa_allocate_exception") {
    AV p = doAlloc(s, a[0], 1, false, site);
    Obj *o = wObj(s, p.obj);
    o->kind = OEXT;
    return fin(p);
  }
  if (n == "__cxa_free_exception" || n == "__cxa_end_catch") return fin(AV());
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") return fin(a[0]);
  if (n == "__cxa_throw") {
    excTI[a[0].obj] = a[1].k == PTR ? a[1].obj : 0;
    RR r;
    r.unw.has = true;
    r.unw.guard = TS.tTrue;
    r.unw.val = a[0];
    r.unw.s = std::move(s);
    return r;
  }
  if (n == "__cxa_rethrow" || n == "_Unwind_Resume") {
    RR r;
    r.unw.has = true;
    r.unw.guard = TS.tTrue;
    r.unw.val = pendingExc;
    r.unw.s = std::move(s);
    return r;
  }
  static const std::map<std::string, std::string> stdThrow = {{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"__cxa_bad_cast", "_ZTISt8bad_cast"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}, {"_ZSt23__throw_underflow_errorPKc", "_ZTISt15underflow_error"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt18__throw_bad_typeidv", "_ZTISt10bad_typeid"}};
  {
    auto it = stdThrow.find(n);
    if (it != stdThrow.end()) {
      u64 h = newObj(s, 64, OEXT, site, "exception");
      s.objs[oid(h)]->opaque = true;
      u64 ti = handleByName(it->second);
      if (!ti) {
        ti = newObj(s, 64, OEXT, 0, it->second);
        s.objs[oid(ti)]->opaque = true;
      }
      excTI[h] = ti;
      RR r;
      r.unw.has = true;
      r.unw.guard = TS.tTrue;
      r.unw.val = mkPtr(h, 0);
      r.unw.s = std::move(s);
      return r;
    }
  }
  if (n == "__cxa_guard_acquire") {
    AV v = doLoad(s, a[0], Type::getInt8Ty(M->getContext()), site);
    if (v.k == INT) return fin(mkInt((v.i & 255) == 0, 32));
    return fin(mkTop());
  }
  if (n == "__cxa_guard_release") {
    doStore(s, a[0], mkInt(1, 8), Type::getInt8Ty(M->getContext()), site);
    return fin(AV());
  }
  if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit") return fin(mkInt(0, 32));
  if (n == "__dynamic_cast") {
    if (a[0].k == PTR && a[0].obj != OPAQUE && a[0].obj != NULLOBJ) {
      AV vp = doLoad(s, a[0], PointerType::get(M->getContext(), 0), site);
      if (vp.k == PTR && vp.obj != OPAQUE) {
        AV tip = vp;
        tip.off -= 8;
        AV ti = doLoad(s, tip, PointerType::get(M->getContext(), 0), site);
        AV top = vp;
        top.off -= 16;
        AV ott = doLoad(s, top, Type::getInt64Ty(M->getContext()), site);
        if (ti.k == PTR && ott.k == INT) {
          int64_t off = 0;
          if (tiFind(s, objNameOf(s, ti.obj), objNameOf(s, a[2].obj), off)) {
            AV r = a[0];
            r.off += sx(ott.i, 64) + off;
            return fin(r);
          }
          return fin(mkPtr(NULLOBJ, 0));
        }
      }
    }
    giveUp("dynamic_cast of unknown object");
    return fin(mkTop());
  }
  if (n == "_ZNKSt9exception4whatEv" || n == "_ZNKSt13runtime_error4whatEv" || n == "_ZNKSt11logic_error4whatEv" || n == "_ZNKSt9bad_alloc4whatEv") {
    static u64 h = 0;
    if (!h || !getObj(s, h)) {
      int fd = forkDepth;
      forkDepth = 1;
      h = newObj(s, 8, OGLOBAL, 0, "what");
      forkDepth = fd;
      storeRaw(s.objs[oid(h)].get(), 0, 8, mkInt(0x74616877, 64), 0);
    }
    return fin(mkPtr(h, 0));
  }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fwrite" || n == "write" || n == "vprintf" || n == "perror") {
    rawOutput.insert(n + " at " + siteStr(site));
    return fin(freshFor(rt, n));
  }
  externCalls[n]++;
  // stream output is recorded against the stream object
  bool streamish = startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "_ZSt4endl") || startsWith(n, "_ZSt5flush") || startsWith(n, "_ZSt16__ostream_insert");
  if (streamish && !a.empty() && a[0].k == PTR) {
    streamEvent(s, n, a, site);
    if (rt->isPointerTy()) return fin(a[0]);
    return fin(freshFor(rt, n));
  }
  for (unsigned k = 0; k < cb->arg_size(); k++)
    if (cb->paramHasAttr(k, Attribute::StructRet)) {
      Type *t = cb->getParamStructRetType(k);
      std::string tn = t->isStructTy() && cast<StructType>(t)->hasName() ? cast<StructType>(t)->getName().str() : "";
      if (tn.find("basic_string") != std::string::npos && tn.find("stream") == std::string::npos) writeEmptyString(s, a[k], site);
    }
  bool ctor = n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos;
  bool quiet = false;
  for (auto &p : quietPrefixes)
    if (startsWith(n, p)) quiet = true;
  if (ctor && quiet && !a.empty() && a[0].k == PTR && a[0].obj != OPAQUE) {
    Obj *o = wObj(s, a[0].obj);
    if (o && (o->kind == OSTACK || o->kind == OHEAP || o->kind == OEXT)) {
      if (a[0].off == 0 && n.find("locale") == std::string::npos)
        o->opaque = true;
      else
        for (u64 q = a[0].off; q + 8 <= o->size && q < (u64)a[0].off + 8; q += 8) storeRaw(o, q, 8, mkPtr(OPAQUE, 0), site);
    }
  }
  bool scalars = !rt->isPointerTy() && !cb->getFunctionType()->isVarArg(); // numbers in, a number out
  for (auto &x : cb->args())
    if (!x->getType()->isIntegerTy() && !x->getType()->isFloatingPointTy()) scalars = false;
  if (scalars && !rt->isVoidTy()) quiet = true;
  if (n == "time" && a[0].k == PTR && a[0].obj == NULLOBJ) quiet = true;
  if (!quiet && !startsWith(n, "_ZNSt6chrono")) unmodelled.insert(n);
  if (rt->isPointerTy() && quiet && !a.empty() && a[0].k == PTR && (startsWith(n, "_ZNS"))) return fin(a[0]);
  return fin(freshFor(rt, n));
}

// one of several functions is called: each where its condition holds
static RR callThrough(Frame &f, DI &d, CallBase *cb, AV c, const std::vector<AV> &args, State &s, uint32_t site) {
  c = resolve(s, c);
  if (c.k == GATE) {
    Gate g = gates[c.idx];
    forkDepth++;
    nForks++;
    std::map<T, bool> known = s.assume;
    State t = s;
    assume(s, g.c, true);
    assume(t, g.c, false);
    RR x = callThrough(f, d, cb, g.a, args, s, site), y = callThrough(f, d, cb, g.b, args, t, site), r;
    forkDepth--;
    bool one = !(x.ret.has && y.ret.has), oneU = !(x.unw.has && y.unw.has);
    mergeOut(g.c, x.ret, y.ret, r.ret);
    mergeOut(g.c, x.unw, y.unw, r.unw);
    if (r.ret.has && !one && r.ret.guard == TS.tTrue) r.ret.s.assume = known;
    (void)oneU;
    return r;
  }
  Function *F = nullptr;
  if (c.k == PTR && c.off == 0) {
    auto it = funcObj.find(c.obj);
    if (it != funcObj.end()) F = it->second;
  }
  if (!F) {
    if (c.k == PTR && c.obj == NULLOBJ)
      memError("null", "call through a null function pointer", site);
    else if (c.k == UNINIT)
      memError("uninit", "call through an uninitialised function pointer", site);
    else {
      if (!(c.k == PTR && c.obj == OPAQUE)) giveUp("call through unknown pointer at " + siteStr(site));
      return okRet(std::move(s), freshFor(d.ty, "unknown-call"));
    }
    return RR();
  }
  std::vector<AV> a = args;
  if (F->isDeclaration() || F->hasAvailableExternallyLinkage()) return external(f, d, cb, F, a, s, site);
  return callFn(std::move(s), F, std::move(a), site, f.depth + 1);
}
static RR doCall(Frame &f, DI &d, CallBase *cb, State &s, uint32_t site) {
  if (isa<InlineAsm>(cb->getCalledOperand())) return okRet(std::move(s), mkTop());
  Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  std::vector<AV> args;
  args.reserve(cb->arg_size());
  for (unsigned k = 0; k < cb->arg_size(); k++) {
    args.push_back(val(f, d.ops[k]));
    if (cb->isByValArgument(k) && args[k].k == PTR && args[k].obj != OPAQUE) { // private copy
      u64 n = DL->getTypeAllocSize(cb->getParamByValType(k));
      u64 h = newObj(s, n, OSTACK, site, "byval");
      f.allocas.push_back(h);
      doMemcpy(s, mkPtr(h, 0), args[k], n, site);
      args[k] = mkPtr(h, 0);
    }
  }
  if (!F) {
    AV c = val(f, d.ops[cb->arg_size() + (d.op == Instruction::Invoke ? 2 : 0)]);
    if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
    c = resolve(s, c);
    if (!F && c.k == GATE) return callThrough(f, d, cb, c, args, s, site);
    if (!F) {
      if (c.k == PTR && c.obj == NULLOBJ) {
        memError("null", "call through a null function pointer", site);
        return RR();
      }
      if (c.k == UNINIT) {
        memError("uninit", "call through an uninitialised function pointer", site);
        return RR();
      }
      if (c.k == PTR) {
        auto it = funcObj.find(c.obj);
        if (it != funcObj.end() && c.off == 0) F = it->second;
      }
      if (!F) {
        if (c.k == PTR && c.obj == OPAQUE) return okRet(std::move(s), freshFor(d.ty, "opaque-call"));
        giveUp("call through unknown pointer at " + siteStr(site));
        return okRet(std::move(s), freshFor(d.ty, "unknown-call"));
      }
    }
  }
  if (F->isDeclaration() || F->hasAvailableExternallyLinkage()) return external(f, d, cb, F, args, s, site);
  static const bool noExpm = getenv("ABSINT_NO_EXPM") != nullptr;
  (void)noExpm;
  RR r = callFn(std::move(s), F, std::move(args), site, f.depth + 1);
  return r;
}
static void releaseFrame(State &s, const std::vector<u64> &al) {
  for (u64 h : al) {
    u64 id = oid(h);
    if (id < s.objs.size() && s.objs[id] && s.objs[id]->gen == ogen(h)) {
      s.objs[id].reset();
      if (forkDepth == 0) freeIds.push_back(id);
    }
  }
}
static RR callFn(State &&s, Function *F, std::vector<AV> args, uint32_t site, int depth) {
  FI *fi = decode(F);
  fi->calls++;
  if (depth > 2000) {
    giveUp("recursion too deep");
    return RR();
  }
  Frame fr;
  fr.f = fi;
  fr.env.resize(fi->nvals);
  fr.depth = depth;
  fr.inherited = site;
  unsigned k = 0;
  for (auto &a : F->args()) {
    if (k < args.size()) fr.env[fi->num[&a]] = args[k];
    k++;
  }
  callStack.push_back({site, fi});
  int fd = forkDepth;
  RR r = run(std::move(fr), 0, -1, -1, std::move(s));
  forkDepth = fd;
  callStack.pop_back();
  if (r.ret.has) releaseFrame(r.ret.s, r.ret.allocas);
  if (r.unw.has) releaseFrame(r.unw.s, r.unw.allocas);
  return r;
}
