// Abstract interpreter over LLVM IR (whole-module, interprocedural, context
// sensitive by inlining).  Domains:
//   * integers and pointers: constant propagation (object, offset) with
//     gated joins / TOP;
//   * reals and unknown integers: hash-consed polynomial value numbers;
//   * memory: per-object cells with initialisation state and provenance;
//   * control: both sides of an undecided branch are analysed up to the
//     immediate post-dominator and joined there (gated join); loops with an
//     undecided exit are widened.  No path is enumerated, nothing is solved.
#include "term.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
#include <set>
#include <sstream>
#include <functional>

using namespace llvm;
typedef uint64_t u64;
static TermStore TS;

// ------------------------------------------------------------------ values
enum AK : uint8_t { UNINIT, INT, NUMT, BOOLT, PTR, GATE, AGG, TOP };
struct AV {
  AK k = UNINIT;
  uint8_t bits = 0; // INT width; NUMT: 0 = floating point, else integer width
  uint32_t site = 0;
  union {
    u64 i;
    T t;
    u64 obj;
    u64 idx;
  };
  int64_t off = 0;
  AV() : i(0) {}
};
static AV mkInt(u64 v, unsigned bits) {
  AV a;
  a.k = INT;
  a.bits = bits;
  a.i = bits >= 64 ? v : (v & ((1ULL << bits) - 1));
  return a;
}
static AV mkTop() {
  AV a;
  a.k = TOP;
  return a;
}
static AV mkPtr(u64 obj, int64_t off) {
  AV a;
  a.k = PTR;
  a.obj = obj;
  a.off = off;
  return a;
}
static AV mkNum(T t) {
  AV a;
  a.k = NUMT;
  a.bits = 0;
  a.t = t;
  return a;
}
static AV mkITerm(T t, unsigned bits) {
  if (t->k == NUM && std::isfinite(t->num) && t->num == std::floor(t->num)) return mkInt((u64)(int64_t)t->num, bits);
  AV a;
  a.k = NUMT;
  a.bits = bits;
  a.t = t;
  return a;
}
static AV mkBool(T c) {
  if (c == TS.tTrue) return mkInt(1, 1);
  if (c == TS.tFalse) return mkInt(0, 1);
  AV a;
  a.k = BOOLT;
  a.bits = 1;
  a.t = c;
  return a;
}
static bool same(const AV &a, const AV &b) {
  if (a.k != b.k) return false;
  switch (a.k) {
  case UNINIT:
  case TOP: return true;
  case INT: return a.i == b.i;
  case NUMT:
  case BOOLT: return a.t == b.t;
  case PTR: return a.obj == b.obj && a.off == b.off;
  default: return a.idx == b.idx;
  }
}
struct Gate {
  T c;
  AV a, b;
};
static std::vector<Gate> gates;
static std::vector<std::vector<AV>> aggs;
static AV mkAgg(std::vector<AV> v) {
  AV a;
  a.k = AGG;
  a.idx = aggs.size();
  aggs.push_back(std::move(v));
  return a;
}
static int64_t sx(u64 v, unsigned bits) {
  if (bits >= 64) return (int64_t)v;
  u64 m = 1ULL << (bits - 1);
  v &= (1ULL << bits) - 1;
  return (int64_t)((v ^ m) - m);
}

// ------------------------------------------------------------------ sites
struct Site {
  std::string file;
  unsigned line;
  std::string func;
  bool repo;
};
static std::vector<Site> sites(1);
static std::map<std::tuple<std::string, unsigned, std::string>, uint32_t> siteTab;
static std::string repoPrefix = "/repo/";
static std::string siteStr(uint32_t s) {
  if (!s) return "?";
  std::string f = sites[s].file;
  if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) f = f.substr(repoPrefix.size());
  return f + ":" + std::to_string(sites[s].line) + (sites[s].func.empty() ? "" : " (" + sites[s].func + ")");
}

// ------------------------------------------------------------------ memory
struct Sub {
  uint8_t off, size;
  AV v;
};
struct Slot {
  uint8_t mode = 0; // 0 empty, 1 whole 8 bytes, 2 subs
  uint32_t store = 0;
  AV v;
  std::unique_ptr<std::vector<Sub>> subs;
  Slot() {}
  Slot(const Slot &o) : mode(o.mode), store(o.store), v(o.v) {
    if (o.subs) subs.reset(new std::vector<Sub>(*o.subs));
  }
  Slot(Slot &&) = default;
  Slot &operator=(Slot &&) = default;
  Slot &operator=(const Slot &o) {
    mode = o.mode;
    store = o.store;
    v = o.v;
    subs.reset(o.subs ? new std::vector<Sub>(*o.subs) : nullptr);
    return *this;
  }
};
enum OK : uint8_t { OSTACK, OHEAP, OGLOBAL, OFUNC, OEXT };
enum LIVE : uint8_t { DEAD, ALIVE, MAYBE };
struct Obj {
  uint64_t size = 0;
  uint32_t gen = 0;
  OK kind = OSTACK;
  uint8_t live = ALIVE;
  uint8_t heapKind = 0; // 1 malloc, 2 new, 3 new[]
  bool opaque = false;
  uint32_t site = 0;
  uint32_t freeSite = 0;
  uint32_t serial = 0;
  T deadIf = nullptr; // live == MAYBE: released (or never allocated) exactly when this holds; null: not known
  std::string name;
  std::vector<Slot> slots;
};
typedef std::shared_ptr<Obj> OP;
struct State {
  std::vector<OP> objs;
  std::map<T, bool> assume;
  std::map<u64, std::vector<std::string>> ev; // stream object -> events
};
static const u64 NULLOBJ = 0, OPAQUE = 1;

// ------------------------------------------------------------------ program
struct Opnd {
  bool isC;
  AV c;
  uint32_t idx;
};
struct DI {
  Instruction *I;
  unsigned op;
  uint32_t site, dst;
  Type *ty;
  uint8_t bits; // int width of the type
  std::vector<Opnd> ops;
  uint32_t aux = 0;
};
struct DB {
  BasicBlock *bb;
  std::vector<DI> phis, body;
  std::vector<uint32_t> preds;
};
struct FI {
  Function *F;
  std::string dem;
  std::map<const Value *, uint32_t> num;
  std::vector<DB> blocks;
  std::map<BasicBlock *, uint32_t> bidx;
  uint32_t nvals = 0;
  bool repo = false;
  uint32_t fsite = 0;
  std::unique_ptr<PostDominatorTree> pdt;
  std::vector<int> joins;
  u64 calls = 0;
};
struct Frame {
  FI *f;
  std::vector<AV> env;
  std::vector<u64> allocas;
  uint32_t inherited = 0;
  int depth = 0;
  std::map<uint32_t, int> forkCount;
  std::shared_ptr<State> snapS;
  std::vector<AV> snapE;
  std::vector<AV> varargs;
};
struct Out {
  bool has = false;
  T guard = nullptr;
  State s;
  std::vector<AV> env;
  std::vector<u64> allocas;
  AV val;
};
struct RR {
  Out fall, ret, unw;
};

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<Function *, FI *> fis;
static std::vector<u64> freeIds;
static std::vector<u64> nextGen;
static int forkDepth = 0;
static u64 nLoad = 0, nStore = 0, nBranch = 0;
static u64 steps = 0;
static volatile u64 maxSteps = 4000000000ULL;
// the time left is what an alarm counts; when it is over, whatever was found so far is the answer
static double secondsLeft = 0;
static bool timeOver = false;
static std::chrono::steady_clock::time_point started;
static void onAlarm(int) { timeOver = true; maxSteps = 0; }
static void secondsMore(double s) {
  double at = std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count() + s;
  if (secondsLeft && secondsLeft <= at) return;
  secondsLeft = at;
  alarm(s < 1 ? 1 : (unsigned)s);
}
static uint32_t serialNo = 0;
static std::map<const GlobalValue *, u64> gids;
static std::map<u64, Function *> funcObj;
static std::map<u64, std::string> objName;

// ------------------------------------------------------------------ results
struct Rep {
  std::string kind, rule, msg, at, stack, scope;
};
static std::vector<Rep> reps;
static std::set<std::string> repKeys;
static std::map<std::string, u64> okCount;
static std::vector<std::string> scopeStack;
static std::string scopeName;
static std::vector<std::pair<uint32_t, FI *>> callStack;
static std::set<std::string> unmodelled;
static u64 nForks = 0, nJoins = 0, nWiden = 0;
static std::vector<std::string> incomplete;
static bool memQuiet = false;

static std::string stackStr() {
  std::string s;
  int n = 0;
  for (int i = (int)callStack.size() - 1; i >= 0 && n < 6; i--) {
    FI *f = callStack[i].second;
    if (!f->repo) continue;
    if (n++) s += " <- ";
    s += f->dem;
  }
  return s;
}
static std::string shortFn(const std::string &d) { // strip template arguments and parameters
  std::string r;
  int depth = 0;
  for (size_t i = 0; i < d.size(); i++) {
    char c = d[i];
    if (c == '<' && !(i >= 8 && d.compare(i - 8, 8, "operator") == 0)) depth++;
    if (c == '(' && depth == 0 && r.find("::") != std::string::npos) {
      if (d.compare(i, 11, "(anonymous ") != 0) break;
    }
    if (depth == 0) r += c;
    if (c == '>' && depth > 0 && !(i && d[i - 1] == '-')) depth--;
  }
  size_t sp = r.rfind(' ');
  if (sp != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
  return r;
}
static void report(const std::string &kind, const std::string &rule, const std::string &msg, const std::string &at) {
  std::string key = kind + "|" + rule + "|" + at + (kind == "mem" ? msg : "");
  if (kind != "mem") key += "|" + msg;
  if (!repKeys.insert(key).second) return;
  reps.push_back({kind, rule, msg, at, stackStr(), scopeName});
  if (kind == "mem" || kind == "abort") secondsMore(40); // an undefined value may multiply without end
}
static void giveUp(const std::string &why) {
  if (incomplete.size() < 50) incomplete.push_back(why + " [in " + (callStack.empty() ? "?" : callStack.back().second->dem) + " | " + stackStr() + "]");
}

// ------------------------------------------------------------------ objects
static u64 newObj(State &s, uint64_t size, OK kind, uint32_t site, const std::string &name = "") {
  u64 id;
  if (!freeIds.empty() && forkDepth == 0) {
    id = freeIds.back();
    freeIds.pop_back();
  } else {
    id = nextGen.size();
    nextGen.push_back(0);
  }
  uint32_t g = ++nextGen[id];
  auto o = std::make_shared<Obj>();
  o->size = size;
  o->gen = g;
  o->kind = kind;
  o->site = site;
  o->name = name;
  o->serial = ++serialNo;
  o->slots.resize((size + 7) / 8);
  if (s.objs.size() <= id) s.objs.resize(id + 1);
  s.objs[id] = o;
  return ((u64)g << 32) | id;
}
static inline u64 oid(u64 h) { return h & 0xffffffffu; }
static inline uint32_t ogen(u64 h) { return (uint32_t)(h >> 32); }
static Obj *getObj(State &s, u64 h) {
  u64 id = oid(h);
  if (id >= s.objs.size() || !s.objs[id] || s.objs[id]->gen != ogen(h)) return nullptr;
  return s.objs[id].get();
}
static Obj *wObj(State &s, u64 h) {
  u64 id = oid(h);
  if (id >= s.objs.size() || !s.objs[id] || s.objs[id]->gen != ogen(h)) return nullptr;
  auto &p = s.objs[id];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}

static T asReal(const AV &v, unsigned bytes);
static AV gate(T c, const AV &a, const AV &b);

static bool subInt(const AV &v, unsigned off, unsigned size, u64 &out) {
  if (v.k == INT) {
    out = (v.i >> (8 * off)) & (size >= 8 ? ~0ULL : ((1ULL << (8 * size)) - 1));
    return true;
  }
  if (v.k == NUMT && v.bits == 0 && v.t->k == NUM) {
    u64 b;
    memcpy(&b, &v.t->num, 8);
    out = (b >> (8 * off)) & (size >= 8 ? ~0ULL : ((1ULL << (8 * size)) - 1));
    return true;
  }
  if (v.k == PTR && v.obj == NULLOBJ) {
    out = ((u64)v.off >> (8 * off)) & (size >= 8 ? ~0ULL : ((1ULL << (8 * size)) - 1));
    return true;
  }
  return false;
}
static AV loadRaw(Obj *o, int64_t off, unsigned size) {
  if (o->opaque) {
    if (size == 8) return mkPtr(OPAQUE, 0);
    return mkTop();
  }
  unsigned so = off & 7;
  Slot &s = o->slots[off >> 3];
  if (so + size <= 8) {
    if (s.mode == 1) {
      if (so == 0 && size == 8) return s.v;
      u64 r;
      if (s.v.k == UNINIT) return AV();
      if (subInt(s.v, so, size, r)) return mkInt(r, size * 8);
      return mkTop();
    }
    if (s.mode == 0) return AV();
    for (auto &x : *s.subs)
      if (x.off == so && x.size == size) return x.v;
    u64 r = 0;
    bool any = false, allK = true;
    for (unsigned b = 0; b < size; b++) {
      bool found = false;
      for (auto &x : *s.subs)
        if (x.off <= so + b && so + b < x.off + x.size) {
          u64 q;
          if (x.v.k == UNINIT) break;
          found = true;
          if (subInt(x.v, so + b - x.off, 1, q))
            r |= q << (8 * b);
          else
            allK = false;
          break;
        }
      if (found)
        any = true;
      else
        return AV(); // some byte uninitialised
    }
    if (any && allK) return mkInt(r, size * 8);
    return mkTop();
  }
  // crossing: assemble bytes
  u64 r = 0;
  for (unsigned b = 0; b < size && b < 8; b++) {
    AV v = loadRaw(o, off + b, 1);
    if (v.k == UNINIT) return AV();
    if (v.k != INT) return mkTop();
    r |= (v.i & 255) << (8 * b);
  }
  return mkInt(r, size * 8);
}
static void storeRaw(Obj *o, int64_t off, unsigned size, const AV &v, uint32_t site) {
  if (o->opaque) return;
  unsigned so = off & 7;
  Slot &s = o->slots[off >> 3];
  if (so == 0 && size == 8) {
    s.mode = 1;
    s.v = v;
    s.store = site;
    s.subs.reset();
    return;
  }
  if (so + size <= 8) {
    s.store = site;
    if (s.mode == 1) {
      // split the whole value
      auto old = s.v;
      s.subs.reset(new std::vector<Sub>());
      s.mode = 2;
      for (unsigned b = 0; b < 8; b++) {
        if (b >= so && b < so + size) continue;
        u64 q;
        Sub x;
        x.off = b;
        x.size = 1;
        if (old.k == UNINIT) continue;
        if (subInt(old, b, 1, q))
          x.v = mkInt(q, 8);
        else
          x.v = mkTop();
        s.subs->push_back(x);
      }
    } else {
      if (s.mode == 0) {
        s.mode = 2;
        s.subs.reset(new std::vector<Sub>());
      }
      std::vector<Sub> ns;
      for (auto &x : *s.subs) {
        if (x.off + x.size <= so || x.off >= so + size) {
          ns.push_back(x);
          continue;
        }
        for (unsigned b = x.off; b < (unsigned)x.off + x.size; b++) {
          if (b >= so && b < so + size) continue;
          u64 q;
          Sub y;
          y.off = b;
          y.size = 1;
          if (x.v.k == UNINIT) continue;
          if (subInt(x.v, b - x.off, 1, q))
            y.v = mkInt(q, 8);
          else
            y.v = mkTop();
          ns.push_back(y);
        }
      }
      *s.subs = std::move(ns);
    }
    Sub x;
    x.off = so;
    x.size = size;
    x.v = v;
    s.subs->push_back(x);
    return;
  }
  if (size > 8) { // x86_fp80 and the like: value in the first slot
    storeRaw(o, off, 8, v, site);
    return;
  }
  for (unsigned b = 0; b < size; b++) {
    u64 q;
    AV x = mkTop();
    if (v.k == UNINIT)
      x = AV();
    else if (subInt(v, b, 1, q))
      x = mkInt(q, 8);
    storeRaw(o, off + b, 1, x, site);
  }
}

// ------------------------------------------------------------------ joins
static T boolOf(const AV &v) {
  if (v.k == INT) return (v.i & 1) ? TS.tTrue : TS.tFalse;
  if (v.k == BOOLT) return v.t;
  if (v.k == NUMT) return TS.bnot(TS.eq0(v.t));
  if (v.k == GATE) {
    T x = boolOf(gates[v.idx].a), y = boolOf(gates[v.idx].b);
    return x && y ? TS.bite(gates[v.idx].c, x, y) : nullptr;
  }
  return nullptr;
}
static T asReal(const AV &v, unsigned bytes) {
  switch (v.k) {
  case NUMT: return v.t;
  case INT: {
    if (bytes == 4) {
      float f;
      uint32_t b = (uint32_t)v.i;
      memcpy(&f, &b, 4);
      return TS.num(f);
    }
    double d;
    memcpy(&d, &v.i, 8);
    return TS.num(d);
  }
  case PTR:
    if (v.obj == NULLOBJ) {
      double d;
      memcpy(&d, &v.off, 8);
      return TS.num(d);
    }
    return nullptr;
  default: return nullptr;
  }
}
static T asITerm(const AV &v, bool sgn = true) {
  if (v.k == INT) return TS.num(sgn ? (double)sx(v.i, v.bits) : (double)v.i);
  if (v.k == NUMT && v.bits) return v.t;
  if (v.k == BOOLT) return TS.ite(v.t, TS.onet, TS.zero);
  return nullptr;
}
static AV mkGate(T c, const AV &a, const AV &b) {
  AV r;
  r.k = GATE;
  r.idx = gates.size();
  r.site = a.site ? a.site : b.site;
  gates.push_back({c, a, b});
  return r;
}
// what a value is where c is known
static AV where(const AV &v, T c, T nc, bool side, int depth = 0) {
  if (v.k != GATE || depth > 6) return v;
  Gate g = gates[v.idx];
  if (g.c == c) return where(side ? g.a : g.b, c, nc, side, depth + 1);
  if (g.c == nc) return where(side ? g.b : g.a, c, nc, side, depth + 1);
  AV x = where(g.a, c, nc, side, depth + 1), y = where(g.b, c, nc, side, depth + 1);
  if (same(x, y)) return x;
  return same(x, g.a) && same(y, g.b) ? v : mkGate(g.c, x, y);
}
static AV gate(T c, const AV &a0, const AV &b0) {
  if (c == TS.tTrue) return a0;
  if (c == TS.tFalse) return b0;
  if (same(a0, b0)) return a0;
  T nc = TS.bnot(c);
  AV a = where(a0, c, nc, true), b = where(b0, c, nc, false);
  if (same(a, b)) return a;
  if (a.k == TOP || b.k == TOP) return mkTop();
  if (a.k == AGG && b.k == AGG && aggs[a.idx].size() == aggs[b.idx].size()) {
    std::vector<AV> r;
    for (size_t i = 0; i < aggs[a.idx].size(); i++) r.push_back(gate(c, aggs[a.idx][i], aggs[b.idx][i]));
    return mkAgg(r);
  }
  auto fpLike = [](const AV &v) { return v.k == NUMT && v.bits == 0; };
  AV r;
  if (fpLike(a) || fpLike(b)) {
    T x = asReal(a, 8), y = asReal(b, 8);
    if (x && y) {
      r = mkNum(TS.ite(c, x, y));
      r.site = a.site ? a.site : b.site;
      return r;
    }
  } else if ((a.k == BOOLT || a.k == INT) && (b.k == BOOLT || b.k == INT) && a.bits == 1 && b.bits == 1) {
    r = mkBool(TS.bite(c, boolOf(a), boolOf(b)));
    return r;
  } else {
    T x = asITerm(a), y = asITerm(b);
    unsigned bits = std::max(a.bits, b.bits);
    if (x && y) {
      r = mkITerm(TS.ite(c, x, y), bits);
      r.site = a.site ? a.site : b.site;
      return r;
    }
  }
  if (a.k == AGG || b.k == AGG) return mkTop();
  return mkGate(c, a, b);
}
static AV slotVal(const Slot &s) { return s.mode == 1 ? s.v : AV(); }
static void mergeObj(State &d, u64 id, T c, const OP &a, const OP &b) {
  auto dead = [](const OP &o) -> T { return o->live == DEAD ? TS.tTrue : o->live == ALIVE ? TS.tFalse : o->deadIf; };
  T da = dead(a), db = dead(b), dd = da && db ? TS.bite(c, da, db) : nullptr;
  bool oneDead = (a->live == DEAD) != (b->live == DEAD);
  auto n = std::make_shared<Obj>(a->live == DEAD ? *b : *a); // what has been released has no contents
  n->live = dd == TS.tTrue ? DEAD : dd == TS.tFalse ? ALIVE : MAYBE;
  n->deadIf = n->live == MAYBE ? dd : nullptr;
  if (!n->freeSite) n->freeSite = a->freeSite ? a->freeSite : b->freeSite;
  if (n->live == DEAD) n->slots.clear();
  if (oneDead || n->live == DEAD) {
    d.objs[id] = n;
    return;
  }
  if (a->size != b->size) {
    if (b->slots.size() > n->slots.size()) n->slots.resize(b->slots.size());
    n->size = std::max(a->size, b->size);
  }
  n->opaque = a->opaque || b->opaque;
  for (size_t i = 0; i < n->slots.size(); i++) {
    Slot z;
    const Slot &y = i < b->slots.size() ? b->slots[i] : z;
    Slot &x = n->slots[i];
    if (x.mode == 0 && y.mode == 0) continue;
    if (x.mode <= 1 && y.mode <= 1) {
      AV v = gate(c, slotVal(x), slotVal(y));
      x.mode = 1;
      if (!same(x.v, y.v)) x.store = x.store ? x.store : y.store;
      x.v = v;
      continue;
    }
    // sub-slot merge on the union of the partitions
    std::set<std::pair<unsigned, unsigned>> parts;
    auto addp = [&](const Slot &s) {
      if (s.mode == 2)
        for (auto &q : *s.subs) parts.insert({q.off, q.size});
    };
    addp(x);
    addp(y);
    OP tx = std::make_shared<Obj>(), ty = std::make_shared<Obj>();
    tx->slots.push_back(x);
    ty->slots.push_back(y);
    tx->size = ty->size = 8;
    Slot ns;
    ns.mode = 2;
    ns.store = x.store ? x.store : y.store;
    ns.subs.reset(new std::vector<Sub>());
    unsigned pos = 0;
    for (auto &pp : parts) {
      if (pp.first < pos) continue;
      AV v = gate(c, loadRaw(tx.get(), pp.first, pp.second), loadRaw(ty.get(), pp.first, pp.second));
      Sub sb;
      sb.off = pp.first;
      sb.size = pp.second;
      sb.v = v;
      ns.subs->push_back(sb);
      pos = pp.first + pp.second;
    }
    x = ns;
  }
  d.objs[id] = n;
}
static State mergeState(T c, State &a, State &b) {
  nJoins++;
  State r;
  r.objs = a.objs;
  if (b.objs.size() > r.objs.size()) r.objs.resize(b.objs.size());
  for (size_t i = 0; i < b.objs.size(); i++) {
    OP &x = r.objs[i];
    const OP &y = b.objs[i];
    if (x == y) continue;
    auto oneSided = [](OP &x, T notHere) { // allocated on one of the paths
      if (x->kind != OHEAP || x->live == DEAD || (x->live == MAYBE && !x->deadIf)) return;
      x = std::make_shared<Obj>(*x);
      x->deadIf = x->live == ALIVE ? notHere : TS.bor(notHere, x->deadIf);
      x->live = x->deadIf == TS.tTrue ? DEAD : MAYBE;
    };
    if (!x) {
      x = y;
      oneSided(x, c);
      continue;
    }
    if (!y) {
      oneSided(x, TS.bnot(c));
      continue;
    }
    if (x->gen != y->gen) {
      if (x->live == DEAD || (y->live != DEAD && y->gen > x->gen)) x = y;
      continue;
    }
    OP xa = x;
    mergeObj(r, i, c, xa, y);
  }
  for (size_t i = b.objs.size(); i < r.objs.size(); i++)
    if (OP &x = r.objs[i])
      if (x->kind == OHEAP && x->live != DEAD && !(x->live == MAYBE && !x->deadIf)) {
        x = std::make_shared<Obj>(*x);
        x->deadIf = x->live == ALIVE ? TS.bnot(c) : TS.bor(TS.bnot(c), x->deadIf);
        x->live = x->deadIf == TS.tTrue ? DEAD : MAYBE;
      }
  for (auto &p : a.assume) {
    auto it = b.assume.find(p.first);
    if (it != b.assume.end() && it->second == p.second) r.assume.insert(p);
  }
  r.ev = a.ev;
  for (auto &p : b.ev)
    if (a.ev.find(p.first) == a.ev.end() || a.ev[p.first] != p.second) r.ev[p.first] = {"<conditional>"};
  for (auto &p : a.ev)
    if (b.ev.find(p.first) == b.ev.end()) r.ev[p.first] = {"<conditional>"};
  return r;
}
static void mergeOut(T c, Out &a, Out &b, Out &r) { // guard semantics relative to the fork
  if (!a.has && !b.has) return;
  if (!b.has) {
    r = std::move(a);
    r.guard = TS.band(c, r.guard);
    return;
  }
  if (!a.has) {
    r = std::move(b);
    r.guard = TS.band(TS.bnot(c), r.guard);
    return;
  }
  r.has = true;
  r.guard = TS.bite(c, a.guard, b.guard);
  // both may be partial: choose by c where both defined
  T sel = c;
  if (a.guard != TS.tTrue || b.guard != TS.tTrue) sel = TS.band(c, a.guard);
  r.s = mergeState(sel, a.s, b.s);
  r.val = gate(sel, a.val, b.val);
  r.allocas = a.allocas;
  for (u64 x : b.allocas)
    if (std::find(r.allocas.begin(), r.allocas.end(), x) == r.allocas.end()) r.allocas.push_back(x);
  if (!a.env.empty() && !b.env.empty()) {
    r.env = std::move(a.env);
    for (size_t i = 0; i < r.env.size(); i++)
      if (!same(r.env[i], b.env[i])) {
        if (r.env[i].k == UNINIT)
          r.env[i] = b.env[i];
        else if (b.env[i].k != UNINIT)
          r.env[i] = gate(sel, r.env[i], b.env[i]);
      }
  }
}
// later outcome `b` occurs when g holds (else a)
static void combine(Out &acc, Out &later, T g) {
  if (!later.has) return;
  if (!acc.has) {
    acc = std::move(later);
    return;
  }
  Out r;
  r.has = true;
  T sel = TS.bnot(acc.guard); // acc happened under its guard
  (void)g;
  r.guard = TS.bor(acc.guard, later.guard);
  r.s = mergeState(sel, later.s, acc.s);
  r.val = gate(sel, later.val, acc.val);
  r.allocas = acc.allocas;
  for (u64 x : later.allocas)
    if (std::find(r.allocas.begin(), r.allocas.end(), x) == r.allocas.end()) r.allocas.push_back(x);
  acc = std::move(r);
}

// ------------------------------------------------------------------ constants
static u64 globalObj(State &s, const GlobalValue *g);
static State *baseState = nullptr;
static AV constAV(const Constant *c);
static void storeConst(State &s, Obj *o, int64_t off, const Constant *c) {
  Type *ty = c->getType();
  if (isa<UndefValue>(c)) {
    if (isa<PoisonValue>(c)) return;
    return;
  }
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
    u64 n = DL->getTypeAllocSize(ty);
    for (u64 i = 0; i < n;) {
      if (((off + i) & 7) == 0 && i + 8 <= n) {
        storeRaw(o, off + i, 8, mkInt(0, 64), 0);
        i += 8;
      } else {
        storeRaw(o, off + i, 1, mkInt(0, 8), 0);
        i++;
      }
    }
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(s, o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) storeConst(s, o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  storeRaw(o, off, DL->getTypeStoreSize(ty), constAV(c), 0);
}
static std::vector<const GlobalVariable *> lazyInit;
static u64 globalObj(State &s, const GlobalValue *g) {
  auto it = gids.find(g);
  if (it != gids.end()) return it->second;
  if (auto *al = dyn_cast<GlobalAlias>(g)) {
    u64 r = globalObj(s, cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
    gids[g] = r;
    return r;
  }
  if (auto *f = dyn_cast<Function>(g)) {
    u64 h = (0xffffffffULL << 32) | funcObj.size();
    (void)s;
    gids[g] = h;
    funcObj[h] = const_cast<Function *>(f);
    return h;
  }
  auto *gv = cast<GlobalVariable>(g);
  if (!gv->hasInitializer() && gv->getName().starts_with("_ZTI")) { // a type the standard library describes
    u64 h = newObj(s, 16, OGLOBAL, 0, gv->getName().str());
    gids[g] = h;
    std::string nm = gv->getName().str().substr(4);
    u64 q = newObj(s, nm.size() + 1, OGLOBAL, 0, "");
    for (size_t i = 0; i <= nm.size(); i++) storeRaw(s.objs[oid(q)].get(), i, 1, mkInt(i < nm.size() ? nm[i] : 0, 8), 0);
    storeRaw(s.objs[oid(h)].get(), 0, 8, mkPtr(OPAQUE, 0), 0);
    storeRaw(s.objs[oid(h)].get(), 8, 8, mkPtr(q, 0), 0);
    return h;
  }
  if (!gv->hasInitializer()) {
    u64 h = newObj(s, 4096, OEXT, 0, gv->getName().str());
    s.objs[oid(h)]->opaque = true;
    gids[g] = h;
    return h;
  }
  u64 h = newObj(s, DL->getTypeAllocSize(gv->getValueType()), OGLOBAL, 0, gv->getName().str());
  gids[g] = h;
  objName[h] = gv->getName().str();
  lazyInit.push_back(gv);
  return h;
}
static AV constAV(const Constant *c) {
  Type *ty = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return mkInt(ci->getValue().trunc(64).getZExtValue(), 64);
    return mkInt(ci->getZExtValue(), ci->getBitWidth());
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return mkNum(TS.num(f.convertToDouble()));
  }
  if (isa<ConstantPointerNull>(c)) return mkPtr(NULLOBJ, 0);
  if (isa<UndefValue>(c)) {
    if (auto *st = dyn_cast<StructType>(ty)) {
      std::vector<AV> v(st->getNumElements());
      return mkAgg(v);
    }
    return AV();
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) return mkPtr(globalObj(*baseState, g), 0);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      AV b = constAV(cast<Constant>(gep->getPointerOperand()));
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        b.off += off.getSExtValue();
        return b;
      }
    }
    switch (ce->getOpcode()) {
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::PtrToInt: return constAV(ce->getOperand(0));
    case Instruction::IntToPtr: {
      AV v = constAV(ce->getOperand(0));
      if (v.k == INT) return mkPtr(NULLOBJ, (int64_t)v.i);
      return v;
    }
    default: break;
    }
    return mkTop();
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c)) {
    if (auto *st = dyn_cast<StructType>(ty)) {
      std::vector<AV> v;
      for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constAV(c->getAggregateElement(i)));
      return mkAgg(v);
    }
  }
  return mkTop();
}

// ------------------------------------------------------------------ decode
static uint32_t siteOf(const DebugLoc &dl) {
  if (!dl) return 0;
  const DILocation *best = nullptr;
  for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
    std::string f = l->getFilename().str();
    if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f;
    if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) {
      best = l;
      break;
    }
  }
  bool repo = best != nullptr;
  if (!best) {
    for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
      std::string f = l->getFilename().str();
      if (f.find("witness") != std::string::npos || f.find("stubs") != std::string::npos) {
        best = l;
        break;
      }
    }
  }
  if (!best) return 0;
  std::string f = best->getFilename().str();
  if (!f.empty() && f[0] != '/') f = best->getDirectory().str() + "/" + f;
  std::string fn = best->getScope()->getSubprogram()->getName().str();
  size_t lt = fn.find('<');
  if (lt != std::string::npos && fn.find("operator") == std::string::npos) fn = fn.substr(0, lt);
  auto key = std::make_tuple(f, best->getLine(), fn);
  auto it = siteTab.find(key);
  if (it != siteTab.end()) return it->second;
  uint32_t id = sites.size();
  sites.push_back({f, best->getLine(), fn, repo});
  siteTab[key] = id;
  return id;
}
static Opnd opnd(FI *fi, Value *v) {
  Opnd o;
  if (auto *c = dyn_cast<Constant>(v)) {
    o.isC = true;
    o.c = constAV(c);
    o.idx = 0;
  } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {
    o.isC = true;
    o.c = mkTop();
    o.idx = 0;
  } else {
    o.isC = false;
    o.idx = fi->num[v];
  }
  return o;
}
static FI *decode(Function *F) {
  auto it = fis.find(F);
  if (it != fis.end()) return it->second;
  FI *fi = new FI;
  fi->F = F;
  fi->dem = shortFn(demangle(F->getName().str()));
  fis[F] = fi;
  if (auto *sp = F->getSubprogram()) {
    std::string f = sp->getFilename().str();
    if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
    fi->repo = f.compare(0, repoPrefix.size(), repoPrefix) == 0;
  }
  for (auto &a : F->args()) fi->num[&a] = fi->nvals++;
  for (auto &bb : *F)
    for (auto &i : bb) fi->num[&i] = fi->nvals++;
  uint32_t bi = 0;
  for (auto &bb : *F) fi->bidx[&bb] = bi++;
  for (auto &bb : *F) {
    fi->blocks.emplace_back();
    DB &db = fi->blocks.back();
    db.bb = &bb;
    for (auto &i : bb) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      DI d;
      d.I = &i;
      d.op = i.getOpcode();
      d.site = siteOf(i.getDebugLoc());
      d.dst = fi->num[&i];
      d.ty = i.getType();
      d.bits = d.ty->isIntegerTy() ? std::min(64u, d.ty->getIntegerBitWidth()) : 0;
      if (auto *phi = dyn_cast<PHINode>(&i)) {
        for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) d.ops.push_back(opnd(fi, phi->getIncomingValue(k)));
        db.phis.push_back(std::move(d));
        continue;
      }
      for (unsigned k = 0; k < i.getNumOperands(); k++) d.ops.push_back(opnd(fi, i.getOperand(k)));
      db.body.push_back(std::move(d));
    }
  }
  return fi;
}

// ------------------------------------------------------------------ conditions
static T decide(State &s, T c) {
  if (c == TS.tTrue || c == TS.tFalse) return c;
  auto it = s.assume.find(c);
  if (it != s.assume.end()) return it->second ? TS.tTrue : TS.tFalse;
  it = s.assume.find(TS.bnot(c));
  if (it != s.assume.end()) return it->second ? TS.tFalse : TS.tTrue;
  if (c->k == BAND) {
    T a = decide(s, c->args[0]), b = decide(s, c->args[1]);
    return a == c->args[0] && b == c->args[1] ? c : TS.band(a, b);
  }
  if (c->k == BOR) {
    T a = decide(s, c->args[0]), b = decide(s, c->args[1]);
    return a == c->args[0] && b == c->args[1] ? c : TS.bor(a, b);
  }
  return c;
}
static void assume1(State &s, T c, bool v) {
  if (c == TS.tTrue || c == TS.tFalse) return;
  s.assume[c] = v;
  if (c->k == BAND && v)
    for (T x : c->args) assume1(s, x, true);
  if (c->k == BOR && !v)
    for (T x : c->args) assume1(s, x, false);
  if (c->k == BNOT) assume1(s, c->args[0], !v);
  if (c->k == LT0 && v) s.assume[TS.le0(c->args[0])] = true; // p<0 => p<=0
}

// a fact together with what follows from it by the alternatives known
static void assume(State &s, T c, bool v) {
  assume1(s, c, v);
  for (bool again = true; again;) {
    again = false;
    std::vector<std::pair<T, bool>> more;
    for (auto &p : s.assume) {
      bool alt = (p.first->k == BOR && p.second) || (p.first->k == BAND && !p.second);
      if (!alt) continue;
      T other = p.first->k == BOR ? TS.tFalse : TS.tTrue, open = nullptr;
      int n = 0;
      for (T x : p.first->args) {
        T q = decide(s, x);
        if (q == other) continue;
        n++;
        open = x;
        if (q == TS.tTrue || q == TS.tFalse) n = 99; // holds already
      }
      if (n == 1) more.push_back({open, p.second});
    }
    for (auto &m : more) {
      assume1(s, m.first, m.second);
      again = true;
    }
  }
}
// Conditions as facts about the position of a few quantities on the real line: every
// comparison of the same expression with a constant cuts the line; a condition is settled
// when it has one value on all pieces that agree with what is known.
struct Cut {
  int group;
  double at;
  int rel; // -1: below, 0: at, 1: above
};
struct Cells {
  std::map<T, int> group;              // expression -> group
  std::vector<std::vector<double>> at; // group -> cuts (empty: a boolean)
  std::map<T, Cut> cut;                // atom -> cut
  int nodes = 0;
  bool atom(T t) {
    if (cut.count(t)) return true;
    Cut c{0, 0, 0};
    T key = t;
    if (t->k == LT0 || t->k == LE0 || t->k == EQ0) {
      PolyV v = TS.view(t->args[0]), r;
      double c0 = 0;
      for (auto &m : v)
        if (m.first == TS.one) c0 = m.second;
        else r.push_back(m);
      if (r.empty()) return false;
      double l = r[0].second;
      for (auto &m : r) m.second /= l;
      key = TS.make(r);
      c.at = -c0 / l;
      c.rel = t->k == EQ0 ? 0 : l > 0 ? -1 : 1;
    }
    auto it = group.find(key);
    if (it == group.end()) {
      it = group.insert({key, (int)at.size()}).first;
      at.push_back({});
    }
    c.group = it->second;
    if (key != t) {
      auto &a = at[c.group];
      // cuts that differ by rounding are one cut
      bool have = false;
      for (double x : a)
        if (std::fabs(x - c.at) <= 1e-12 * std::max(std::fabs(x), std::fabs(c.at))) {
          c.at = x;
          have = true;
          break;
        }
      if (!have) a.push_back(c.at);
    }
    cut[t] = c;
    return true;
  }
  bool collect(T t) {
    if (++nodes > 400) return false;
    if (t->k == BTRUE || t->k == BFALSE) return true;
    if (t->k == BAND || t->k == BOR || t->k == BNOT) {
      for (T x : t->args)
        if (!collect(x)) return false;
      return true;
    }
    return atom(t);
  }
  double cells() {
    double n = 1;
    for (auto &a : at) n *= a.empty() ? 2 : 2 * a.size() + 1;
    return n;
  }
  std::vector<int> pos; // group -> piece
  bool eval(T t) {
    switch (t->k) {
    case BTRUE: return true;
    case BFALSE: return false;
    case BNOT: return !eval(t->args[0]);
    case BAND:
      for (T x : t->args)
        if (!eval(x)) return false;
      return true;
    case BOR:
      for (T x : t->args)
        if (eval(x)) return true;
      return false;
    default: break;
    }
    const Cut &c = cut[t];
    auto &a = at[c.group];
    if (a.empty()) return pos[c.group];
    int k = std::lower_bound(a.begin(), a.end(), c.at) - a.begin(); // piece 2k+1 is the cut itself
    int p = pos[c.group];
    if (c.rel == 0) return p == 2 * k + 1;
    if (c.rel < 0) return t->k == LE0 ? p <= 2 * k + 1 : p < 2 * k + 1;
    return t->k == LE0 ? p >= 2 * k + 1 : p > 2 * k + 1;
  }
};
static T settle(State &s, T f) {
  f = decide(s, f);
  if (f == TS.tTrue || f == TS.tFalse) return f;
  Cells z;
  if (!z.collect(f) || z.cells() > 4000) return f;
  std::vector<std::pair<T, bool>> facts, rest(s.assume.begin(), s.assume.end());
  for (bool grew = true; grew;) {
    grew = false;
    std::vector<std::pair<T, bool>> later;
    for (auto &p : rest) {
      Cells q;
      if (!q.collect(p.first)) continue;
      bool touches = false;
      for (auto &g : q.group)
        if (z.group.count(g.first)) touches = true;
      if (!touches) {
        later.push_back(p);
        continue;
      }
      Cells t = z;
      t.nodes = 0;
      if (!t.collect(p.first) || t.cells() > 4000) continue;
      z = std::move(t);
      facts.push_back(p);
      grew = true;
    }
    rest = std::move(later);
  }
  bool compound = f->k == BAND || f->k == BOR || f->k == BNOT;
  if (facts.empty() && !compound) return f;
  for (auto &a : z.at) std::sort(a.begin(), a.end());
  bool canT = false, canF = false;
  z.pos.assign(z.at.size(), 0);
  for (bool go = true; go && !(canT && canF);) {
    bool ok = true;
    for (auto &p : facts)
      if (z.eval(p.first) != p.second) {
        ok = false;
        break;
      }
    if (ok) (z.eval(f) ? canT : canF) = true;
    go = false;
    for (size_t g = 0; g < z.pos.size(); g++) {
      int n = z.at[g].empty() ? 2 : 2 * z.at[g].size() + 1;
      if (++z.pos[g] < n) {
        go = true;
        break;
      }
      z.pos[g] = 0;
    }
  }
  if (canT && !canF) return TS.tTrue;
  if (canF && !canT) return TS.tFalse;
  return f;
}
// a condition about which nothing is known stands for something the domains lost
static bool lostCond(T t) {
  if (t->k == BSYM) return t->name.compare(0, 4, "top#") == 0 || t->name.compare(0, 5, "gate#") == 0 || t->name.compare(0, 7, "uninit#") == 0;
  if (t->k == BAND || t->k == BOR || t->k == BNOT)
    for (T x : t->args)
      if (lostCond(x)) return true;
  return false;
}
static AV resolve(State &s, AV p) {
  while (p.k == GATE) {
    T c = settle(s, gates[p.idx].c);
    if (c == TS.tTrue) { AV q = gates[p.idx].a; p = q; }
    else if (c == TS.tFalse) { AV q = gates[p.idx].b; p = q; }
    else break;
  }
  return p;
}
// integers that are one of a few constants
static bool leaves(T t, int &budget) {
  if (--budget < 0) return false;
  if (t->k == NUM) return std::isfinite(t->num);
  if (t->k == ITE) return leaves(t->args[1], budget) && leaves(t->args[2], budget);
  if (t->k == POLY) {
    for (auto &m : t->poly)
      for (auto &f : m.first->f)
        if (f.first->k != ITE || f.second < 0 || !leaves(f.first, budget)) return false;
    return true;
  }
  return false;
}
static bool constTree(T t) {
  int budget = 128;
  return t->k != NUM && leaves(t, budget);
}
static bool splitTerm(T t, T &c, T &a, T &b) {
  if (t->k == ITE) {
    c = t->args[0];
    a = t->args[1];
    b = t->args[2];
    return true;
  }
  if (t->k != POLY) return false;
  T it = nullptr;
  for (auto &m : t->poly)
    for (auto &f : m.first->f)
      if (f.first->k == ITE && !it) it = f.first;
  if (!it) return false;
  c = it->args[0];
  auto put = [&](bool side) {
    T r = TS.zero;
    for (auto &m : t->poly) {
      T x = TS.num(m.second);
      for (auto &f : m.first->f) {
        T y = f.first;
        if (y->k == ITE && y->args[0] == c) y = side ? y->args[1] : y->args[2];
        x = f.second >= 0 ? TS.mul(x, TS.powi(y, f.second)) : TS.div(x, TS.powi(y, -f.second));
      }
      r = TS.add(r, x);
    }
    return r;
  };
  a = put(true);
  b = put(false);
  return true;
}
static bool choice(const AV &v, T &c, AV &a, AV &b) {
  if (v.k == GATE) {
    Gate g = gates[v.idx];
    c = g.c;
    a = g.a;
    b = g.b;
    return true;
  }
  if (v.k != NUMT || !v.bits || !constTree(v.t)) return false;
  T x, y;
  if (!splitTerm(v.t, c, x, y)) return false;
  a = mkITerm(x, v.bits);
  b = mkITerm(y, v.bits);
  return true;
}
static T condTree(T d, int rel) { // rel: -1 d<0, 0 d==0, 1 d<=0
  T c, a, b;
  if (d->k != NUM && constTree(d) && splitTerm(d, c, a, b)) return TS.bite(c, condTree(a, rel), condTree(b, rel));
  return rel < 0 ? TS.lt0(d) : rel == 0 ? TS.eq0(d) : TS.le0(d);
}
static bool happens(State &s, T c); // some values of the unknowns agree with everything known and with c
static bool deadPath = false; // set when the current path cannot continue
// do one thing where c holds and another where it does not, and join
template <class F1, class F2> static void split(State &s, T c, F1 f1, F2 f2) {
  c = settle(s, c);
  if (c == TS.tTrue) return f1(s);
  if (c == TS.tFalse) return f2(s);
  forkDepth++;
  std::map<T, bool> known = s.assume;
  State t = s;
  assume(s, c, true);
  assume(t, c, false);
  f1(s);
  bool d1 = deadPath;
  deadPath = false;
  f2(t);
  bool d2 = deadPath;
  deadPath = d1 && d2;
  forkDepth--;
  if (d1 && !d2)
    s = std::move(t);
  else if (!d1 && d2) {
  } else {
    State m = mergeState(c, s, t);
    s = std::move(m);
    s.assume = known;
  }
}

// ------------------------------------------------------------------ access
static std::string objDesc(Obj *o) {
  if (!o) return "released object";
  const char *k = o->kind == OSTACK ? "stack" : o->kind == OHEAP ? "heap" : o->kind == OGLOBAL ? "global" : "external";
  return std::string(k) + " object of " + std::to_string(o->size) + " bytes" + (o->name.empty() ? "" : " '" + o->name + "'") + (o->site ? " allocated at " + siteStr(o->site) : "");
}
static void memError(const std::string &rule, const std::string &msg, uint32_t site) {
  if (memQuiet) return;
  report("mem", rule, msg, siteStr(site));
}
// returns object or nullptr after reporting
static Obj *checkAccess(State &s, const AV &p, u64 size, bool write, uint32_t site) {
  if (p.obj == NULLOBJ) {
    memError("null", std::string(write ? "store" : "load") + " through a null pointer" + (p.off ? " (offset " + std::to_string(p.off) + ")" : ""), site);
    deadPath = true;
    return nullptr;
  }
  if (ogen(p.obj) == 0xffffffffu) {
    memError("oob", "data access to a function", site);
    return nullptr;
  }
  Obj *o = getObj(s, p.obj);
  if (!o || o->live == DEAD) {
    memError("released", std::string(write ? "store to" : "load from") + " memory already released: " + objDesc(o), site);
    return nullptr;
  }
  if (o->live == MAYBE && o->deadIf) {
    T d = settle(s, o->deadIf);
    if (d != TS.tFalse && (d == TS.tTrue || (o->freeSite && !lostCond(d) && happens(s, d)))) {
      memError("released", std::string(write ? "store to" : "load from") + " memory already released" + (d == TS.tTrue ? "" : " on some path") + ": " + objDesc(o), site);
      if (d == TS.tTrue) return nullptr;
    }
  }
  if (o->opaque) return o;
  if (p.off < 0 || (u64)p.off + size > o->size) {
    memError("oob", std::string(write ? "store" : "load") + " of " + std::to_string(size) + " bytes at offset " + std::to_string(p.off) + " outside " + objDesc(o), site);
    return nullptr;
  }
  return o;
}
static bool plain(State &s, const AV &p, u64 size) { // an access no condition of which matters
  if (p.k != PTR || p.obj == NULLOBJ) return false;
  if (p.obj == OPAQUE) return true;
  Obj *o = getObj(s, p.obj);
  return o && o->live == ALIVE && (o->opaque || (p.off >= 0 && (u64)p.off + size <= o->size));
}
static AV doLoad(State &s, const AV &p, Type *ty, uint32_t site) {
  if (auto *st = dyn_cast<StructType>(ty)) {
    auto *sl = DL->getStructLayout(st);
    std::vector<AV> v;
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      AV q = p;
      q.off += sl->getElementOffset(i);
      v.push_back(doLoad(s, q, st->getElementType(i), site));
    }
    return mkAgg(v);
  }
  if (p.k == GATE) {
    AV q = resolve(s, p);
    if (q.k != GATE) return doLoad(s, q, ty, site);
    Gate g = gates[q.idx];
    u64 n = DL->getTypeStoreSize(ty);
    if (plain(s, g.a, n) && plain(s, g.b, n)) {
      AV a = doLoad(s, g.a, ty, site);
      AV b = doLoad(s, g.b, ty, site);
      return gate(g.c, a, b);
    }
    std::map<T, bool> known = s.assume;
    assume(s, g.c, true);
    AV a = doLoad(s, g.a, ty, site);
    bool d1 = deadPath;
    deadPath = false;
    s.assume = known;
    assume(s, g.c, false);
    AV b = doLoad(s, g.b, ty, site);
    bool d2 = deadPath;
    deadPath = d1 && d2;
    s.assume = known;
    return d1 ? b : d2 ? a : gate(g.c, a, b);
  }
  if (p.k == UNINIT) {
    memError("uninit", "load through an uninitialised pointer", site);
    return mkTop();
  }
  if (p.k == INT) {
    AV q = mkPtr(NULLOBJ, (int64_t)p.i);
    return doLoad(s, q, ty, site);
  }
  if (p.k != PTR) {
    giveUp("load through unknown pointer at " + siteStr(site));
    return mkTop();
  }
  unsigned size = DL->getTypeStoreSize(ty);
  if (p.obj == OPAQUE) return ty->isPointerTy() ? mkPtr(OPAQUE, 0) : mkTop();
  Obj *o = checkAccess(s, p, size, false, site);
  if (!o) return mkTop();
  AV v = loadRaw(o, p.off, size > 8 ? 8 : size);
  if (v.k == GATE) v = resolve(s, v);
  if (o->opaque && !ty->isPointerTy()) return mkTop();
  if (ty->isPointerTy()) {
    if (v.k == INT) return mkPtr(NULLOBJ, (int64_t)v.i);
  } else if (ty->isIntegerTy()) {
    if (v.k == NUMT && v.bits == 0 && v.t->k == NUM) {
      u64 b;
      double d = v.t->num;
      memcpy(&b, &d, 8);
      if (size == 4) {
        float f = (float)d;
        uint32_t q;
        memcpy(&q, &f, 4);
        b = q;
      }
      AV r = mkInt(b, ty->getIntegerBitWidth());
      r.site = v.site;
      return r;
    }
    if (v.k == INT) {
      AV r = mkInt(v.i, std::min(64u, ty->getIntegerBitWidth()));
      r.site = v.site;
      return r;
    }
  } else if (ty->isFloatingPointTy() && v.k == INT) {
    AV r = mkNum(asReal(v, size));
    r.site = v.site;
    return r;
  }
  return v;
}
static void doStore(State &s, const AV &p, const AV &v, Type *ty, uint32_t site) {
  if (v.k == AGG) {
    if (auto *st = dyn_cast<StructType>(ty)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        AV q = p;
        q.off += sl->getElementOffset(i);
        doStore(s, q, aggs[v.idx][i], st->getElementType(i), site);
      }
      return;
    }
  }
  if (p.k == GATE) {
    AV q = resolve(s, p);
    if (q.k != GATE) return doStore(s, q, v, ty, site);
    Gate g = gates[q.idx];
    u64 n = DL->getTypeStoreSize(ty);
    if (!plain(s, g.a, n) || !plain(s, g.b, n)) {
      split(s, g.c, [&](State &t) { doStore(t, g.a, v, ty, site); }, [&](State &t) { doStore(t, g.b, v, ty, site); });
      return;
    }
    AV oa = mkTop(), ob = mkTop();
    bool mq = memQuiet;
    memQuiet = true;
    oa = doLoad(s, g.a, ty, site);
    ob = doLoad(s, g.b, ty, site);
    memQuiet = mq;
    doStore(s, g.a, gate(g.c, v, oa), ty, site);
    doStore(s, g.b, gate(g.c, ob, v), ty, site);
    return;
  }
  if (p.k == UNINIT) {
    memError("uninit", "store through an uninitialised pointer", site);
    return;
  }
  if (p.k == INT) {
    doStore(s, mkPtr(NULLOBJ, (int64_t)p.i), v, ty, site);
    return;
  }
  if (p.k != PTR) {
    giveUp("store through unknown pointer at " + siteStr(site));
    return;
  }
  if (p.obj == OPAQUE) return;
  unsigned size = DL->getTypeStoreSize(ty);
  if (!checkAccess(s, p, size, true, site)) return;
  Obj *o = wObj(s, p.obj);
  AV w = v;
  if (!w.site) w.site = site;
  if (ty->isFloatingPointTy() && size == 4 && w.k == NUMT && w.bits == 0 && w.t->k == NUM) {
    float f = (float)w.t->num;
    uint32_t b;
    memcpy(&b, &f, 4);
    uint32_t st = w.site;
    w = mkInt(b, 32);
    w.site = st;
  }
  storeRaw(o, p.off, size > 8 ? 8 : size, w, site);
}
static void doMemcpy(State &s, const AV &d, const AV &src, u64 n, uint32_t site) {
  if (n == 0) return;
  if (d.k == GATE || src.k == GATE) {
    AV q = resolve(s, d.k == GATE ? d : src);
    bool ofD = d.k == GATE;
    if (q.k != GATE) return doMemcpy(s, ofD ? q : d, ofD ? src : q, n, site);
    Gate g = gates[q.idx];
    split(s, g.c, [&](State &t) { doMemcpy(t, ofD ? g.a : d, ofD ? src : g.a, n, site); }, [&](State &t) { doMemcpy(t, ofD ? g.b : d, ofD ? src : g.b, n, site); });
    return;
  }
  if (d.k != PTR || src.k != PTR) {
    if (d.k == UNINIT || src.k == UNINIT)
      memError("uninit", "memory copy through an uninitialised pointer", site);
    else
      giveUp("memcpy with unknown pointers at " + siteStr(site));
    return;
  }
  if (d.obj == OPAQUE) return;
  Obj *so = nullptr;
  if (src.obj != OPAQUE) {
    so = checkAccess(s, src, n, false, site);
    if (!so) return;
  }
  if (!checkAccess(s, d, n, true, site)) return;
  Obj *o = wObj(s, d.obj);
  if (src.obj != OPAQUE) so = getObj(s, src.obj);
  if (!so || so->opaque) {
    for (u64 i = 0; i < n; i++) storeRaw(o, d.off + i, 1, mkTop(), site);
    return;
  }
  if ((d.off & 7) == (src.off & 7)) {
    std::vector<Slot> tmp;
    int64_t b = src.off >> 3, e = (src.off + (int64_t)n + 7) >> 3;
    for (int64_t i = b; i < e; i++) tmp.push_back(so->slots[i]);
    for (u64 i = 0; i < n;) {
      int64_t so_ = src.off + i, do_ = d.off + i;
      Slot &x = tmp[(so_ >> 3) - b];
      if ((so_ & 7) == 0 && n - i >= 8) {
        Slot y = x;
        if (y.mode) y.store = site ? site : y.store;
        o->slots[do_ >> 3] = y;
        i += 8;
      } else {
        unsigned take = std::min<u64>(8 - (so_ & 7), n - i);
        // copy the sub-values contained, byte-wise otherwise
        unsigned p0 = so_ & 7, p1 = p0 + take;
        Obj t;
        t.size = 8;
        t.slots.push_back(x);
        unsigned p = p0;
        while (p < p1) {
          unsigned w = 0;
          AV v;
          if (x.mode == 2)
            for (auto &q : *x.subs)
              if (q.off == p && q.off + q.size <= p1) {
                w = q.size;
                v = q.v;
              }
          if (!w) {
            w = 1;
            v = loadRaw(&t, p, 1);
          }
          if (v.k == UNINIT) {
            if (o->slots[do_ >> 3].mode) storeRaw(o, (do_ & ~7LL) + p, w, v, site);
          } else
            storeRaw(o, (do_ & ~7LL) + p, w, v, site);
          p += w;
        }
        i += take;
      }
    }
    return;
  }
  std::vector<AV> bytes;
  // try 4-byte granularity first for shifted int copies
  unsigned w = (n % 4 == 0 && (src.off % 4 == 0) && (d.off % 4 == 0)) ? 4 : 1;
  for (u64 i = 0; i < n; i += w) bytes.push_back(loadRaw(so, src.off + i, w));
  for (u64 i = 0; i < n; i += w) storeRaw(o, d.off + i, w, bytes[i / w], site);
}
static void doMemset(State &s, const AV &d, u64 val, u64 n, uint32_t site) {
  if (n == 0) return;
  if (d.k == GATE) {
    AV q = resolve(s, d);
    if (q.k != GATE) return doMemset(s, q, val, n, site);
    Gate g = gates[q.idx];
    split(s, g.c, [&](State &t) { doMemset(t, g.a, val, n, site); }, [&](State &t) { doMemset(t, g.b, val, n, site); });
    return;
  }
  if (d.k != PTR) {
    giveUp("memset with unknown pointer");
    return;
  }
  if (d.obj == OPAQUE) return;
  if (!checkAccess(s, d, n, true, site)) return;
  Obj *o = wObj(s, d.obj);
  u64 pat = (val & 255) * 0x0101010101010101ULL;
  for (u64 i = 0; i < n;) {
    if (((d.off + i) & 7) == 0 && n - i >= 8) {
      AV v = mkInt(pat, 64);
      v.site = site;
      storeRaw(o, d.off + i, 8, v, site);
      i += 8;
    } else {
      storeRaw(o, d.off + i, 1, mkInt(val & 255, 8), site);
      i++;
    }
  }
}

// ------------------------------------------------------------------ exec
static RR callFn(State &&s, Function *F, std::vector<AV> args, uint32_t site, int depth);
static RR run(Frame &&f, uint32_t bb, int32_t prev, int32_t stop, State &&s, bool skipPhi = false);

static inline const AV &val(const Frame &f, const Opnd &o) { return o.isC ? o.c : f.env[o.idx]; }

struct Edge {
  T cond; // taken when cond (and no earlier edge); last is default
  uint32_t bb;
};
static int32_t ipdom(FI *fi, uint32_t b) {
  if (!fi->pdt) fi->pdt.reset(new PostDominatorTree(*fi->F));
  auto *n = fi->pdt->getNode(fi->blocks[b].bb);
  if (!n || !n->getIDom() || !n->getIDom()->getBlock()) return -1;
  return fi->bidx[n->getIDom()->getBlock()];
}
// the same along ordinary control flow: paths that leave by an exception or never return are not waited for
static int32_t joinOf(FI *fi, uint32_t b) {
  if (fi->joins.empty()) {
    int n = fi->blocks.size();
    std::vector<std::vector<int>> suc(n), pre(n);
    std::vector<int> w, order(n, -1), ord;
    std::vector<char> live(n, 0);
    for (int i = 0; i < n; i++) {
      auto *t = fi->blocks[i].bb->getTerminator();
      if (isa<ReturnInst>(t)) live[i] = 1, w.push_back(i);
      if (auto *iv = dyn_cast<InvokeInst>(t)) suc[i].push_back(fi->bidx[iv->getNormalDest()]);
      else
        for (auto *sb : successors(fi->blocks[i].bb)) suc[i].push_back(fi->bidx[sb]);
      for (int k : suc[i]) pre[k].push_back(i);
    }
    // post-order of the reversed graph from the exit (node n)
    std::vector<int> exits = w;
    while (!w.empty()) {
      int x = w.back();
      w.pop_back();
      for (int q : pre[x])
        if (!live[q]) live[q] = 1, w.push_back(q);
    }
    std::vector<char> seen(n, 0);
    std::vector<std::pair<int, size_t>> st;
    for (int e : exits) {
      if (seen[e]) continue;
      seen[e] = 1;
      st.push_back({e, 0});
      while (!st.empty()) {
        auto &[x, k] = st.back();
        if (k < pre[x].size()) {
          int q = pre[x][k++];
          if (!seen[q]) seen[q] = 1, st.push_back({q, 0});
        } else {
          order[x] = ord.size();
          ord.push_back(x);
          st.pop_back();
        }
      }
    }
    std::vector<int> dom(n, -2); // -1: the exit
    auto num = [&](int x) { return x < 0 ? n : order[x]; };
    auto meet = [&](int a, int c) {
      while (a != c) {
        while (num(a) < num(c)) a = dom[a];
        while (num(c) < num(a)) c = dom[c];
      }
      return a;
    };
    for (bool ch = true; ch;) {
      ch = false;
      for (int i = (int)ord.size() - 1; i >= 0; i--) {
        int x = ord[i], d = isa<ReturnInst>(fi->blocks[x].bb->getTerminator()) ? -1 : -2;
        for (int q : suc[x])
          if (live[q] && dom[q] != -2) d = d == -2 ? q : meet(d, q);
        if (d != dom[x]) dom[x] = d, ch = true;
      }
    }
    for (int &d : dom)
      if (d == -2) d = -1;
    fi->joins = dom;
  }
  return fi->joins[b];
}
static void evalPhis(Frame &f, uint32_t bb, int32_t prev) {
  DB &db = f.f->blocks[bb];
  if (db.phis.empty() || prev < 0) return;
  std::vector<AV> tmp;
  BasicBlock *pb = f.f->blocks[prev].bb;
  for (auto &d : db.phis) {
    int k = cast<PHINode>(d.I)->getBasicBlockIndex(pb);
    tmp.push_back(k < 0 ? AV() : val(f, d.ops[k]));
  }
  for (size_t i = 0; i < tmp.size(); i++) f.env[db.phis[i].dst] = tmp[i];
}
static bool reaches(FI *fi, uint32_t from, uint32_t to, int32_t avoid) {
  std::set<uint32_t> seen;
  std::vector<uint32_t> w{from};
  while (!w.empty()) {
    uint32_t b = w.back();
    w.pop_back();
    if (b == to) return true;
    if ((int32_t)b == avoid || !seen.insert(b).second) continue;
    for (auto *sb : successors(fi->blocks[b].bb)) w.push_back(fi->bidx[sb]);
  }
  return false;
}
// widen current against snapshot; returns number of changed cells
static int widen(State &cur, const State &old, std::vector<AV> &env, const std::vector<AV> &oenv) {
  int n = 0;
  for (size_t i = 0; i < cur.objs.size() && i < old.objs.size(); i++) {
    if (!cur.objs[i] || !old.objs[i] || cur.objs[i] == old.objs[i] || cur.objs[i]->gen != old.objs[i]->gen) continue;
    OP c = cur.objs[i];
    const OP &o = old.objs[i];
    OP w;
    for (size_t k = 0; k < c->slots.size() && k < o->slots.size(); k++) {
      bool diff = c->slots[k].mode != o->slots[k].mode;
      if (!diff && c->slots[k].mode == 1) diff = !same(c->slots[k].v, o->slots[k].v);
      if (!diff && c->slots[k].mode == 2) {
        auto &x = *c->slots[k].subs, &y = *o->slots[k].subs;
        diff = x.size() != y.size();
        for (size_t q = 0; !diff && q < x.size(); q++) diff = x[q].off != y[q].off || x[q].size != y[q].size || !same(x[q].v, y[q].v);
      }
      if (diff) {
        if (!w) w = std::make_shared<Obj>(*c);
        Slot z;
        z.mode = 1;
        z.v = mkTop();
        w->slots[k] = z;
        if (!(o->slots[k].mode == 1 && o->slots[k].v.k == TOP)) n++;
      }
    }
    if (w) cur.objs[i] = w;
  }
  for (size_t i = 0; i < env.size() && i < oenv.size(); i++)
    if (!same(env[i], oenv[i]) && oenv[i].k != UNINIT && env[i].k != UNINIT) {
      if (oenv[i].k != TOP) n++;
      env[i] = mkTop();
    }
  return n;
}
static RR forkN(Frame &f, uint32_t bb, std::vector<Edge> edges, int32_t outerStop, State &s) {
  nForks++;
  FI *fi = f.f;
  int32_t ip = joinOf(fi, bb);
  // loop control
  int cnt = ++f.forkCount[bb];
  static const int K = 24;
  if (cnt > K) {
    nWiden++;
    int changed = 1;
    if (f.snapS) changed = widen(s, *f.snapS, f.env, f.snapE);
    f.snapS = std::make_shared<State>(s);
    f.snapE = f.env;
    if (cnt > K + 6 || changed == 0) {
      if (cnt > K + 40) giveUp("no fixpoint");
      std::vector<Edge> keep;
      for (auto &e : edges)
        if (!reaches(fi, e.bb, bb, ip)) keep.push_back(e);
      if (keep.empty()) {
        giveUp("diverging loop");
        return RR();
      }
      edges = keep;
      edges.back().cond = TS.tTrue;
    }
  }
  (void)outerStop;
  int32_t stop = ip; // region of this branch ends at its immediate post-dominator
  forkDepth++;
  RR acc;
  bool first = true;
  T notPrev = TS.tTrue;
  std::vector<std::pair<T, RR>> outs;
  for (size_t i = 0; i < edges.size(); i++) {
    T c = edges[i].cond;
    bool last = i + 1 == edges.size();
    Frame g = f;
    State t = s;
    for (size_t k = 0; k < i; k++) assume(t, edges[k].cond, false);
    if (!last) assume(t, c, true);
    RR r;
    if ((int32_t)edges[i].bb == stop) {
      evalPhis(g, edges[i].bb, bb);
      r.fall.has = true;
      r.fall.guard = TS.tTrue;
      r.fall.s = std::move(t);
      r.fall.env = std::move(g.env);
      r.fall.allocas = std::move(g.allocas);
    } else
      r = run(std::move(g), edges[i].bb, bb, stop, std::move(t));
    outs.push_back({c, std::move(r)});
  }
  (void)first;
  (void)notPrev;
  acc = std::move(outs.back().second);
  for (int i = (int)outs.size() - 2; i >= 0; i--) {
    RR n;
    mergeOut(outs[i].first, outs[i].second.fall, acc.fall, n.fall);
    mergeOut(outs[i].first, outs[i].second.ret, acc.ret, n.ret);
    mergeOut(outs[i].first, outs[i].second.unw, acc.unw, n.unw);
    acc = std::move(n);
  }
  forkDepth--;
  // undo path facts of the region
  auto fix = [&](Out &o) {
    if (!o.has) return;
    std::map<T, bool> a;
    for (auto &p : o.s.assume) {
      auto it = s.assume.find(p.first);
      if (it != s.assume.end() && it->second == p.second) a.insert(p);
    }
    // when only one side survives its condition is known from here on
    if (o.guard != TS.tTrue) {
      std::map<T, bool> b = o.s.assume;
      o.s.assume = b;
    } else
      o.s.assume = a;
  };
  fix(acc.fall);
  fix(acc.ret);
  fix(acc.unw);
  return acc;
}

#include "ops.inc"

static RR run(Frame &&f, uint32_t bb, int32_t prev, int32_t stop, State &&s, bool skipPhi) {
  RR acc;
  T live = TS.tTrue; // guard of the path still running, relative to entry of this call
  FI *fi = f.f;
  for (;;) {
    if (!skipPhi) {
      evalPhis(f, bb, prev);
      if (stop >= 0 && (int32_t)bb == stop) {
        acc.fall.has = true;
        acc.fall.guard = live;
        acc.fall.s = std::move(s);
        acc.fall.env = std::move(f.env);
        acc.fall.allocas = std::move(f.allocas);
        return acc;
      }
    }
    skipPhi = false;
    DB &db = fi->blocks[bb];
    int32_t next = -1;
    size_t nb = db.body.size();
    for (size_t ii = 0; ii < nb; ii++) {
      DI &d = db.body[ii];
      if (++steps > maxSteps) {
        giveUp(timeOver ? "time limit" : "step limit");
        return acc;
      }
      uint32_t site = d.site ? d.site : f.inherited;
      switch (d.op) {
      case Instruction::Br: {
        if (d.ops.size() == 1) {
          next = fi->bidx[cast<BranchInst>(d.I)->getSuccessor(0)];
          break;
        }
        auto *br = cast<BranchInst>(d.I);
        nBranch++;
        AV c = val(f, d.ops[0]);
        uint32_t tb = fi->bidx[br->getSuccessor(0)], fb = fi->bidx[br->getSuccessor(1)];
        T ct;
        if (c.k == INT) {
          next = (c.i & 1) ? tb : fb;
          break;
        }
        if (c.k == UNINIT) {
          memError("uninit", "branch decided by an uninitialised value", site);
          ct = TS.bsym("uninit#" + std::to_string(++TS.fresh));
        } else if (c.k == TOP || c.k == PTR)
          ct = TS.bsym("top#" + std::to_string(++TS.fresh));
        else if (c.k == GATE) {
          c = resolve(s, c);
          ct = c.k == TOP || c.k == UNINIT || c.k == PTR ? nullptr : boolOf(c);
          if (!ct) ct = TS.bsym("gate#" + std::to_string(++TS.fresh));
        } else
          ct = boolOf(c);
        ct = settle(s, ct);
        if (ct == TS.tTrue || ct == TS.tFalse) {
          next = ct == TS.tTrue ? tb : fb;
          break;
        }
        if (getenv("ABSINT_TRACE_FORK")) fprintf(stderr, "fork %s at %s in %s\n", TS.str(ct).c_str(), siteStr(site).c_str(), fi->dem.c_str());
        RR r = forkN(f, bb, {{ct, tb}, {TS.tTrue, fb}}, stop, s);
        goto merged;
      merged:
        // contributions of the region
        if (r.ret.has) {
          r.ret.guard = TS.band(live, r.ret.guard);
          combine(acc.ret, r.ret, live);
        }
        if (r.unw.has) {
          r.unw.guard = TS.band(live, r.unw.guard);
          combine(acc.unw, r.unw, live);
        }
        if (!r.fall.has) return acc;
        live = TS.band(live, r.fall.guard);
        s = std::move(r.fall.s);
        f.env = std::move(r.fall.env);
        f.allocas = std::move(r.fall.allocas);
        {
          int32_t ip = joinOf(fi, bb);
          prev = bb;
          bb = ip;
        }
        if (stop >= 0 && (int32_t)bb == stop) {
          acc.fall.has = true;
          acc.fall.guard = live;
          acc.fall.s = std::move(s);
          acc.fall.env = std::move(f.env);
          acc.fall.allocas = std::move(f.allocas);
          return acc;
        }
        skipPhi = true;
        goto nextBlock;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(d.I);
        AV c = val(f, d.ops[0]);
        if (c.k == INT) {
          BasicBlock *t = sw->getDefaultDest();
          for (auto &cs : sw->cases())
            if (cs.getCaseValue()->getZExtValue() == c.i) t = cs.getCaseSuccessor();
          next = fi->bidx[t];
          break;
        }
        if (c.k == UNINIT) memError("uninit", "switch on an uninitialised value", site);
        T t = asITerm(c);
        std::vector<Edge> es;
        for (auto &cs : sw->cases()) {
          T q = t ? settle(s, condTree(TS.sub(t, TS.num((double)cs.getCaseValue()->getSExtValue())), 0)) : TS.bsym("top#" + std::to_string(++TS.fresh));
          if (q == TS.tFalse) continue;
          es.push_back({q, fi->bidx[cs.getCaseSuccessor()]});
          if (q == TS.tTrue) break;
        }
        if (es.empty() || es.back().cond != TS.tTrue) es.push_back({TS.tTrue, fi->bidx[sw->getDefaultDest()]});
        if (es.size() == 1) {
          next = es[0].bb;
          break;
        }
        RR r = forkN(f, bb, es, stop, s);
        if (r.ret.has) {
          r.ret.guard = TS.band(live, r.ret.guard);
          combine(acc.ret, r.ret, live);
        }
        if (r.unw.has) {
          r.unw.guard = TS.band(live, r.unw.guard);
          combine(acc.unw, r.unw, live);
        }
        if (!r.fall.has) return acc;
        live = TS.band(live, r.fall.guard);
        s = std::move(r.fall.s);
        f.env = std::move(r.fall.env);
        f.allocas = std::move(r.fall.allocas);
        {
          int32_t ip = joinOf(fi, bb);
          prev = bb;
          bb = ip;
        }
        if (stop >= 0 && (int32_t)bb == stop) {
          acc.fall.has = true;
          acc.fall.guard = live;
          acc.fall.s = std::move(s);
          acc.fall.env = std::move(f.env);
          acc.fall.allocas = std::move(f.allocas);
          return acc;
        }
        skipPhi = true;
        goto nextBlock;
      }
      case Instruction::Ret: {
        Out o;
        o.has = true;
        o.guard = live;
        if (!d.ops.empty()) o.val = val(f, d.ops[0]);
        o.s = std::move(s);
        o.allocas = std::move(f.allocas);
        combine(acc.ret, o, live);
        return acc;
      }
      case Instruction::Resume: {
        Out o;
        o.has = true;
        o.guard = live;
        AV v = val(f, d.ops[0]);
        o.val = v.k == AGG ? aggs[v.idx][0] : v;
        o.s = std::move(s);
        o.allocas = std::move(f.allocas);
        combine(acc.unw, o, live);
        return acc;
      }
      case Instruction::Unreachable: return acc;
      case Instruction::Call:
      case Instruction::Invoke: {
        auto *cb = cast<CallBase>(d.I);
        bool inv = d.op == Instruction::Invoke;
        RR r = doCall(f, d, cb, s, site);
        // r.ret: normal continuation; r.unw: exceptional
        if (!r.ret.has && !r.unw.has) return acc; // path ends
        if (!r.unw.has) {
          live = TS.band(live, r.ret.guard);
          s = std::move(r.ret.s);
          if (!d.ty->isVoidTy()) {
            f.env[d.dst] = r.ret.val;
          }
          if (inv) next = fi->bidx[cast<InvokeInst>(d.I)->getNormalDest()];
          break;
        }
        if (!inv) {
          Out o = std::move(r.unw);
          o.allocas = f.allocas;
          o.guard = TS.band(live, o.guard);
          combine(acc.unw, o, live);
          if (!r.ret.has) return acc;
          live = TS.band(live, r.ret.guard);
          s = std::move(r.ret.s);
          if (!d.ty->isVoidTy()) f.env[d.dst] = r.ret.val;
          break;
        }
        auto *iv = cast<InvokeInst>(d.I);
        uint32_t nd = fi->bidx[iv->getNormalDest()], ud = fi->bidx[iv->getUnwindDest()];
        if (!r.ret.has) {
          live = TS.band(live, r.unw.guard);
          s = std::move(r.unw.s);
          pendingExc = r.unw.val;
          next = ud;
          break;
        }
        // both: analyse each side up to the post-dominator and join
        int32_t ip = ipdom(fi, bb);
        T c = r.ret.guard;
        forkDepth++;
        nForks++;
        Frame f1 = f, f2 = f;
        if (!d.ty->isVoidTy()) f1.env[d.dst] = r.ret.val;
        State s1 = std::move(r.ret.s), s2 = std::move(r.unw.s);
        assume(s1, c, true);
        assume(s2, c, false);
        AV exc = r.unw.val;
        RR r1, r2;
        auto go = [&](Frame &fr, uint32_t b, State &st) {
          RR q;
          if ((int32_t)b == ip) {
            evalPhis(fr, b, bb);
            q.fall.has = true;
            q.fall.guard = TS.tTrue;
            q.fall.s = std::move(st);
            q.fall.env = std::move(fr.env);
            q.fall.allocas = std::move(fr.allocas);
          } else
            q = run(std::move(fr), b, bb, ip, std::move(st));
          return q;
        };
        r1 = go(f1, nd, s1);
        pendingExc = exc;
        r2 = go(f2, ud, s2);
        forkDepth--;
        RR n;
        mergeOut(c, r1.fall, r2.fall, n.fall);
        mergeOut(c, r1.ret, r2.ret, n.ret);
        mergeOut(c, r1.unw, r2.unw, n.unw);
        if (n.ret.has) {
          n.ret.guard = TS.band(live, n.ret.guard);
          combine(acc.ret, n.ret, live);
        }
        if (n.unw.has) {
          n.unw.guard = TS.band(live, n.unw.guard);
          combine(acc.unw, n.unw, live);
        }
        if (!n.fall.has) return acc;
        live = TS.band(live, n.fall.guard);
        s = std::move(n.fall.s);
        f.env = std::move(n.fall.env);
        f.allocas = std::move(n.fall.allocas);
        prev = bb;
        bb = ip;
        if (stop >= 0 && (int32_t)bb == stop) {
          acc.fall.has = true;
          acc.fall.guard = live;
          acc.fall.s = std::move(s);
          acc.fall.env = std::move(f.env);
          acc.fall.allocas = std::move(f.allocas);
          return acc;
        }
        skipPhi = true;
        goto nextBlock;
      }
      default:
        execOp(f, d, s, site);
        if (deadPath) {
          deadPath = false;
          return acc;
        }
      }
    }
    if (next < 0) {
      giveUp("fell off block");
      return acc;
    }
    prev = bb;
    bb = next;
  nextBlock:;
  }
}
#include "main.inc"
