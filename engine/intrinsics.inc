// Witness vocabulary: facts a witness asks the analysis to establish.
static std::set<std::string> rawOutput;
static std::map<std::string, u64> reached;

static void streamEvent(State &s, const std::string &n, std::vector<AV> &a, uint32_t site) {
  std::string e = n;
  if (n.find("PKc") != std::string::npos && a.size() > 1)
    e = "text:" + cstr(s, a[1]);
  else if (startsWith(n, "_ZSt16__ostream_insert") && a.size() > 2) {
    e = "text:";
    std::string t = cstr(s, a[1]);
    if (a[2].k == INT && a[2].i < t.size()) t.resize(a[2].i);
    e += t;
  } else if (startsWith(n, "_ZStlsIcSt11char_traitsIcESaIcEE") && a.size() > 1 && a[1].k == PTR) { // std::string
    Obj *o = getObj(s, a[1].obj);
    AV p = o ? loadRaw(o, a[1].off, 8) : mkTop(), z = o ? loadRaw(o, a[1].off + 8, 8) : mkTop();
    std::string t = p.k == PTR ? cstr(s, p) : "?";
    if (z.k == INT && z.i < t.size()) t.resize(z.i);
    e = "text:" + t;
  } else if (n.find("PFRSo") != std::string::npos || startsWith(n, "_ZSt4endl"))
    e = "endl";
  else if (startsWith(n, "_ZNSo5flush") || n.find("PFRSt8ios_base") != std::string::npos || n.find("PFRSt9basic_ios") != std::string::npos || n.find("St13_Setprecision") != std::string::npos || n.find("St5_Setw") != std::string::npos)
    e = "flush"; // nothing is written
  else if (startsWith(n, "_ZNSolsE") && a.size() > 1) {
    T t = a[1].k == NUMT ? a[1].t : asITerm(a[1]);
    e = "val:" + (t ? TS.str(t) : std::string("?"));
  } else if (n.find("_ES5_c") != std::string::npos && a.size() > 1 && a[1].k == INT)
    e = std::string("text:") + (char)a[1].i;
  (void)site;
  s.ev[a[0].obj].push_back(e);
}

// ---- numeric identity test of two value numbers
static double hash01(const std::string &s, uint64_t seed) {
  uint64_t h = 1469598103934665603ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
  for (char c : s) {
    h ^= (unsigned char)c;
    h *= 1099511628211ULL;
  }
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return (double)(h >> 11) / 9007199254740992.0;
}
// besides generic points: points of extreme magnitude (all or some unknowns), points where unknowns are small whole numbers and coincide, and points where all are close together
static double evScale = 1;
static double evNear = 0;
static bool evSome = false, evCoin = false;
static double evalT(T t, std::unordered_map<T, double> &memo, uint64_t seed) {
  switch (t->k) {
  case NUM: return t->num;
  case BTRUE: return 1;
  case BFALSE: return 0;
  default: break;
  }
  auto it = memo.find(t);
  if (it != memo.end()) return it->second;
  double r = 0;
  switch (t->k) {
  case SYM: {
    double u = hash01(t->name, seed);
    r = t->name[0] == '+' ? 0.3 + 1.4 * u : (4 * u - 2) * ((seed % 3) == 2 ? 10 : 1);
    if (t->name[0] == '#') r = std::floor(1 + 8 * u);
    else if (evCoin) r = t->name[0] == '+' ? std::ldexp(1, (int)(3 * u) - 1) : std::floor(4 * u) - 1;
    else if (evNear) r = (t->name[0] == '+' ? 1 : std::floor(5 * hash01("", seed)) - 1) + evNear * (2 * u - 1);
    else if (evScale != 1 && (!evSome || hash01(t->name, seed + 7919) < 0.5)) r *= evScale;
    break;
  }
  case BSYM: r = hash01(t->name, seed) < 0.5; break;
  case POLY: {
    for (auto &p : t->poly) {
      double m = p.second;
      for (auto &f : p.first->f) m *= std::pow(evalT(f.first, memo, seed), f.second);
      r += m;
    }
    break;
  }
  case ITE: r = evalT(t->args[0], memo, seed) != 0 ? evalT(t->args[1], memo, seed) : evalT(t->args[2], memo, seed); break;
  case LT0: r = evalT(t->args[0], memo, seed) < 0; break;
  case LE0: r = evalT(t->args[0], memo, seed) <= 0; break;
  case EQ0: r = evalT(t->args[0], memo, seed) == 0; break;
  case BNOT: r = evalT(t->args[0], memo, seed) == 0; break;
  case BAND:
    r = 1;
    for (T x : t->args)
      if (evalT(x, memo, seed) == 0) r = 0;
    break;
  case BOR:
    for (T x : t->args)
      if (evalT(x, memo, seed) != 0) r = 1;
    break;
  case APP: {
    std::vector<double> a;
    for (T x : t->args) a.push_back(evalT(x, memo, seed));
    const std::string &n = t->name;
    if (n == "abs") r = std::fabs(a[0]);
    else if (n == "sqrt") r = std::sqrt(a[0]);
    else if (n == "max") r = std::max(a[0], a[1]);
    else if (n == "min") r = std::min(a[0], a[1]);
    else if (n == "pow") r = std::pow(a[0], a[1]);
    else if (n == "scale") r = a[0] * a[1];
    else if (n == "div") r = a[0] / a[1];
    else if (n == "inv") r = 1 / a[0];
    else if (n == "exp") r = std::exp(a[0]);
    else if (n == "sin") r = std::sin(a[0]);
    else if (n == "cos") r = std::cos(a[0]);
    else if (n == "flt") r = (float)a[0];
    else if (n == "low8") r = (int8_t)(int64_t)a[0];
    else if (n == "low16") r = (int16_t)(int64_t)a[0];
    else if (n == "toint") r = std::trunc(a[0]);
    else if (n == "idiv") r = std::trunc(a[0] / a[1]);
    else if (n == "irem") r = std::fmod(a[0], a[1]);
    else {
      double z = 6.28 * hash01(n, 1);
      for (size_t i = 0; i < a.size(); i++) z += a[i] * (0.3 + hash01(n + std::to_string(i), 2));
      r = std::sin(z) + 0.25 * z;
    }
    break;
  }
  default: break;
  }
  memo[t] = r;
  return r;
}
// simplify the gates of a term under the path facts
static T simp(State &s, T t, std::unordered_map<T, T> &memo) {
  if (s.assume.empty()) return t;
  auto it = memo.find(t);
  if (it != memo.end()) return it->second;
  T r = t;
  if (t->k == ITE) {
    T c = decide(s, t->args[0]);
    if (c == TS.tTrue)
      r = simp(s, t->args[1], memo);
    else if (c == TS.tFalse)
      r = simp(s, t->args[2], memo);
    else
      r = TS.ite(c, simp(s, t->args[1], memo), simp(s, t->args[2], memo));
  } else if (t->k == POLY) {
    bool any = false;
    for (auto &p : t->poly)
      for (auto &f : p.first->f)
        if (f.first->k == ITE) any = true;
    if (any) {
      r = TS.zero;
      for (auto &p : t->poly) {
        T m = TS.num(p.second);
        for (auto &f : p.first->f) {
          T b = simp(s, f.first, memo);
          m = f.second >= 0 ? TS.mul(m, TS.powi(b, f.second)) : TS.div(m, TS.powi(b, -f.second));
        }
        r = TS.add(r, m);
      }
    }
  }
  memo[t] = r;
  return r;
}
enum Verdict { EQUAL, DIFFER, UNDECIDED };
static bool feasible(State &s, std::unordered_map<T, double> &memo, uint64_t seed) {
  for (auto &p : s.assume)
    if ((evalT(p.first, memo, seed) != 0) != p.second) return false;
  return true;
}
static bool happens(State &s, T c) {
  for (uint64_t seed = 1; seed <= 300; seed++) {
    std::unordered_map<T, double> memo;
    if (feasible(s, memo, seed) && evalT(c, memo, seed) != 0) return true;
  }
  return false;
}
// magnitude of what was added up to get the value of t: what rounding is relative to
static double magT(T t, std::unordered_map<T, double> &memo, std::unordered_map<T, double> &mags, uint64_t seed) {
  double v = std::fabs(evalT(t, memo, seed));
  if (t->k != POLY && t->k != ITE && t->k != APP) return v;
  auto it = mags.find(t);
  if (it != mags.end()) return it->second;
  double r = v;
  if (t->k == POLY) {
    r = 0;
    for (auto &p : t->poly) {
      double m = std::fabs(p.second);
      for (auto &f : p.first->f) {
        double b = std::fabs(evalT(f.first, memo, seed)), g = magT(f.first, memo, mags, seed);
        m *= f.second >= 0 ? std::pow(g, f.second) : std::pow(b, f.second) * (b > 0 ? g / b : 1);
      }
      r += m;
    }
  } else {
    double g = 0;
    for (T x : t->args)
      if (x->k == POLY || x->k == ITE || x->k == APP || x->k == SYM || x->k == NUM) g = std::max(g, magT(x, memo, mags, seed));
    if (t->k == APP && (t->name == "inv" || t->name == "sqrt" || t->name == "pow")) {
      double b = std::fabs(evalT(t->args[0], memo, seed));
      r = b > 0 ? std::max(v, v * (g / b)) : std::max(v, std::sqrt(g) * 1e5);
    } else if (t->k == APP && t->name == "flt") r = std::max(v, g) * 1e5;
    else r = std::max(v, g);
  }
  return mags[t] = r;
}
static std::string lastCex;
static double absFloor = 1.0; // differences below absFloor * tol are rounding
static Verdict compareT(State &s, T a, T b, double tol) {
  if (a == b) return EQUAL;
  std::unordered_map<T, T> sm;
  a = simp(s, a, sm);
  b = simp(s, b, sm);
  if (a == b) return EQUAL;
  if (a->k == NUM && b->k == NUM) {
    if (std::isnan(a->num) && std::isnan(b->num)) return EQUAL;
    if (!std::isfinite(a->num) || !std::isfinite(b->num)) return a->num == b->num ? EQUAL : DIFFER;
    return std::fabs(a->num - b->num) <= tol * std::max(absFloor, std::fabs(b->num)) ? EQUAL : DIFFER;
  }
  int used = 0, agree = 0;
  for (uint64_t seed = 1; seed <= 400 && used < 24; seed++) {
    std::unordered_map<T, double> memo;
    if (!feasible(s, memo, seed)) continue;
    double x = evalT(a, memo, seed), y = evalT(b, memo, seed);
    if (std::isnan(x) && std::isnan(y)) continue;
    used++;
    if (!std::isfinite(x) || !std::isfinite(y)) agree += x == y; // an infinity equals only itself
    else if (std::fabs(x - y) <= tol * std::max({absFloor, std::fabs(x), std::fabs(y)})) agree++;
  }
  if (!used) return UNDECIDED;
  if (agree != used) return DIFFER;
  if (tol > 1e-6) return EQUAL; // difference quotients: only at generic points
  static const double scales[] = {1e-13, 1e-6, 1e6, 1e13, 1e25, 1e32};
  auto special = [&](uint64_t from, int want) {
    int n = 0;
    for (uint64_t seed = from; seed < from + 40 && n < want; seed++) {
      std::unordered_map<T, double> memo, mags;
      if (!feasible(s, memo, seed)) continue;
      double x = evalT(a, memo, seed), y = evalT(b, memo, seed);
      if (!std::isfinite(x) || !std::isfinite(y)) continue;
      n++;
      double m = std::max(magT(a, memo, mags, seed), magT(b, memo, mags, seed));
      if (!std::isfinite(m)) continue;
      if (std::fabs(x - y) > std::max(tol * std::max(std::fabs(x), std::fabs(y)), 1e-11 * m)) return false;
    }
    return true;
  };
  bool good = true;
  for (int k = 0; good && k < 6; k++) {
    evScale = scales[k];
    for (int some = 0; good && some < 2; some++) {
      evSome = some;
      good = special(1000 + 100 * k + 50 * some, some ? 4 : 2);
    }
  }
  evScale = 1, evSome = false;
  evCoin = true;
  good = good && special(2000, 16);
  evCoin = false;
  static const double near[] = {1e-2, 1e-4, 1e-6};
  for (int k = 0; good && k < 3; k++) {
    evNear = near[k];
    good = special(3000 + 100 * k, 6);
  }
  evNear = 0;
  return good ? EQUAL : DIFFER;
}
static std::string whereOf(const AV &v, uint32_t store) {
  std::string r;
  if (v.site && sites[v.site].repo) r = siteStr(v.site);
  if (store && sites[store].repo && siteStr(store) != r) r += (r.empty() ? "" : "; stored at ") + siteStr(store);
  return r;
}
static std::string currentRepoFn() {
  for (int i = (int)callStack.size() - 1; i >= 0; i--) {
    uint32_t st = callStack[i].first;
    if (st && sites[st].repo) return siteStr(st);
    if (callStack[i].second->repo) return callStack[i].second->dem;
  }
  return "";
}
static std::vector<std::string> also;
static std::string ruleOf(State &s, const AV &v) { return cstr(s, v) + (also.empty() ? "" : also.back()); }
static void verdict(State &s, const std::string &what, const std::string &idx, const AV &gotV, T got, T want, uint32_t store, double tol, uint32_t site) {
  std::string at = whereOf(gotV, store);
  if (at.empty()) at = currentRepoFn();
  if (at.empty()) at = siteStr(site);
  if (gotV.k == UNINIT) {
    report("eq", what, idx + " is never written; expected " + TS.str(want), at);
    return;
  }
  if (!got) {
    report("undecided", what, idx + " has no trackable value (kind " + std::to_string(gotV.k) + "); expected " + TS.str(want), at);
    return;
  }
  Verdict v = compareT(s, got, want, tol);
  if (v == EQUAL)
    okCount[what]++;
  else
    report(v == DIFFER ? "eq" : "undecided", what, idx + " is " + TS.str(got) + " ; expected " + TS.str(want), at);
}
// a condition under the path facts, alternatives inside it taken one by one
static T inside(T t) { // the condition of some alternative
  if (t->k == ITE) return t->args[0];
  for (T x : t->args)
    if (T r = inside(x)) return r;
  for (auto &m : t->poly)
    for (auto &f : m.first->f)
      if (T r = inside(f.first)) return r;
  return nullptr;
}
static T simpB(State &s, T t, std::unordered_map<T, T> &memo) {
  switch (t->k) {
  case BNOT: return TS.bnot(simpB(s, t->args[0], memo));
  case BAND: return TS.band(simpB(s, t->args[0], memo), simpB(s, t->args[1], memo));
  case BOR: return TS.bor(simpB(s, t->args[0], memo), simpB(s, t->args[1], memo));
  case LT0: return TS.lt0(simp(s, t->args[0], memo));
  case LE0: return TS.le0(simp(s, t->args[0], memo));
  case EQ0: return TS.eq0(simp(s, t->args[0], memo));
  default: return t;
  }
}
static bool proved(State &s, T t, int depth) {
  std::unordered_map<T, T> memo;
  t = settle(s, simpB(s, t, memo));
  if (t == TS.tTrue) return true;
  if (t == TS.tFalse || depth == 0) return false;
  T c = inside(t);
  if (!c || decide(s, c) == TS.tTrue || decide(s, c) == TS.tFalse) return false;
  State x, y;
  x.assume = y.assume = s.assume;
  assume(x, c, true);
  assume(y, c, false);
  return proved(x, t, depth - 1) && proved(y, t, depth - 1);
}
static void truth(State &s, const std::string &what, const std::string &idx, const AV &c, uint32_t site) {
  std::string at = currentRepoFn();
  if (at.empty()) at = siteStr(site);
  else at += " [witness " + siteStr(site) + "]";
  if (c.k == INT) {
    if (c.i)
      okCount[what]++;
    else
      report("eq", what, idx + " does not hold", at);
    return;
  }
  if (c.k == UNINIT) {
    report("eq", what, idx + " depends on an uninitialised value", at);
    return;
  }
  T t = nullptr;
  if (c.k == BOOLT) t = c.t;
  if (c.k == NUMT) t = TS.bnot(TS.eq0(c.t));
  if (!t) {
    report("undecided", what, idx + " has no trackable truth value", at);
    return;
  }
  t = settle(s, t);
  if (t == TS.tTrue) {
    okCount[what]++;
    return;
  }
  if (proved(s, t, 10)) {
    okCount[what]++;
    return;
  }
  for (uint64_t seed = 1; seed <= 600; seed++) {
    std::unordered_map<T, double> memo;
    if (!feasible(s, memo, seed)) continue;
    if (evalT(t, memo, seed) == 0) {
      report("eq", what, idx + " fails when not (" + TS.str(t) + ")", at);
      return;
    }
  }
  report("undecided", what, idx + " reduces to " + TS.str(t), at);
}
static std::string symName(State &s, std::vector<AV> &a) {
  std::string n = cstr(s, a[0]);
  if (a.size() > 1) n += "[" + std::to_string(litArg(a[1])) + (a.size() > 2 ? "," + std::to_string(litArg(a[2])) : "") + "]";
  return n;
}
static RR intrinsic(Frame &f, DI &d, const std::string &n, std::vector<AV> &a, State &s, uint32_t site) {
  (void)f;
  auto ret = [&](AV v = AV()) { return okRet(std::move(s), v); };
  if (n == "sa_real") {
    AV r = mkNum(TS.sym(symName(s, a)));
    return ret(r);
  }
  if (n == "sa_int") return ret(mkITerm(TS.sym(symName(s, a)), d.bits));
  if (n == "sa_bool") return ret(mkITerm(TS.ite(TS.bsym(symName(s, a)), TS.onet, TS.zero), d.bits));
  if (n == "sa_fun") { // name, k, args, n
    std::vector<T> t;
    for (int64_t i = 0; i < litArg(a[3]); i++) {
      AV p = a[2];
      p.off += 8 * i;
      AV v = doLoad(s, p, Type::getDoubleTy(M->getContext()), site);
      T r = asReal(v, 8);
      if (!r) {
        if (v.k == UNINIT) memError("uninit", "user function '" + cstr(s, a[0]) + "' receives an uninitialised argument " + std::to_string(i), site);
        return ret(mkTop());
      }
      t.push_back(r);
    }
    return ret(mkNum(TS.app(cstr(s, a[0]) + "." + std::to_string(litArg(a[1])), t)));
  }
  if (n == "sa_eq" || n == "sa_eq_tol") { // cell, want, what, i, j [, tol]
    AV got;
    uint32_t store = 0;
    std::string what = ruleOf(s, a[2]), idx = idxStr(a[3], a[4]);
    if (!cellVal(s, a[0], got, store)) {
      if (a[0].k == GATE || a[0].k == TOP)
        report("undecided", what, idx + ": cell address unknown", siteStr(site));
      else
        report("eq", what, idx + ": cell does not exist", currentRepoFn().empty() ? siteStr(site) : currentRepoFn());
      return ret();
    }
    T want = asReal(a[1], 8);
    if (!want) {
      report("undecided", what, idx + ": expected value unknown", siteStr(site));
      return ret();
    }
    double tol = 1e-9;
    if (n == "sa_eq_tol") {
      T t = asReal(a[5], 8);
      if (t && t->k == NUM) tol = t->num;
    }
    verdict(s, what, idx, got, asReal(got, 8), want, store, tol, site);
    return ret();
  }
  if (n == "sa_eq_pm") { // like sa_eq, the opposite value will do as well; answers the sign
    AV got;
    uint32_t store = 0;
    std::string what = ruleOf(s, a[2]), idx = idxStr(a[3], a[4]);
    T want = asReal(a[1], 8), g = nullptr;
    if (cellVal(s, a[0], got, store)) g = asReal(got, 8);
    if (g && want && compareT(s, g, want, 1e-9) != EQUAL && compareT(s, g, TS.neg(want), 1e-9) == EQUAL) {
      okCount[what]++;
      return ret(mkInt((u64)-1, d.bits));
    }
    if (!want)
      report("undecided", what, idx + ": expected value unknown", siteStr(site));
    else
      verdict(s, what, idx, got, g, want, store, 1e-9, site);
    return ret(mkInt(1, d.bits));
  }
  if (n == "sa_veq" || n == "sa_ieq") { // got, want, what, i, j
    T want = n == "sa_veq" ? asReal(a[1], 8) : asITerm(a[1]);
    std::string what = ruleOf(s, a[2]), idx = idxStr(a[3], a[4]);
    if (!want) {
      report("undecided", what, idx + ": expected value unknown", siteStr(site));
      return ret();
    }
    verdict(s, what, idx, a[0], n == "sa_veq" ? asReal(a[0], 8) : asITerm(a[0]), want, 0, 1e-9, site);
    return ret();
  }
  if (n == "sa_true") {
    truth(s, ruleOf(s, a[1]), idxStr(a[2], a[3]), a[0], site);
    return ret();
  }
  if (n == "sa_reach") {
    okCount[ruleOf(s, a[0])]++;
    return ret();
  }
  if (n == "sa_unreach") {
    report("eq", ruleOf(s, a[0]), "reached", currentRepoFn().empty() ? siteStr(site) : currentRepoFn() + " [witness " + siteStr(site) + "]");
    return ret();
  }
  if (n == "sa_depends_not") { // value, prefix, what, i, j
    std::string what = ruleOf(s, a[2]), idx = idxStr(a[3], a[4]);
    T t = asReal(a[0], 8);
    if (!t) {
      report(a[0].k == UNINIT ? "eq" : "undecided", what, idx + ": value unknown", whereOf(a[0], 0));
      return ret();
    }
    std::unordered_set<T> seen;
    if (TS.mentions(t, cstr(s, a[1]), seen))
      report("eq", what, idx + " depends on " + cstr(s, a[1]) + ": " + TS.str(t), whereOf(a[0], 0).empty() ? currentRepoFn() : whereOf(a[0], 0));
    else
      okCount[what]++;
    return ret();
  }
  if (n == "sa_init") { // p, nbytes, granule, what
    std::string what = ruleOf(s, a[3]);
    int64_t g = litArg(a[2]), nb = litArg(a[1]);
    for (int64_t i = 0; i < nb; i += g) {
      AV p = a[0];
      p.off += i;
      Obj *o = p.k == PTR ? getObj(s, p.obj) : nullptr;
      if (!o || o->live == DEAD || p.off < 0 || (u64)p.off + g > o->size) {
        report("eq", what, "storage does not exist", currentRepoFn());
        break;
      }
      AV v = loadRaw(o, p.off, g);
      if (v.k == UNINIT)
        report("eq", what, "byte " + std::to_string(i) + " is never initialised", currentRepoFn());
      else
        okCount[what]++;
    }
    return ret();
  }
  if (n == "sa_havoc") { // p, n, prefix
    std::string pre = cstr(s, a[2]);
    for (int64_t i = 0; i < litArg(a[1]); i++) {
      AV p = a[0];
      p.off += 8 * i;
      doStore(s, p, mkNum(TS.sym(pre + "[" + std::to_string(i) + "]")), Type::getDoubleTy(M->getContext()), site);
    }
    return ret();
  }
  if (n == "sa_generic") {
    TS.generic = litArg(a[0]) != 0;
    return ret();
  }
  if (n == "sa_small") { // from here on, numbers down to the given magnitude matter
    T t = asReal(a[0], 8);
    if (t && t->k == NUM) absFloor = t->num;
    return ret();
  }
  if (n == "sa_also") { // what follows counts for this rule as well, until the matching sa_done
    also.push_back(also.empty() ? std::string() : also.back());
    std::string r = cstr(s, a[0]);
    if (!r.empty() && ("|" + also.back() + "|").find("|" + r + "|") == std::string::npos) also.back() += "|" + r;
    return ret();
  }
  if (n == "sa_done") {
    if (!also.empty()) also.pop_back();
    return ret();
  }
  if (n == "sa_scope") {
    scopeName = cstr(s, a[0]);
    return ret();
  }
  if (n == "sa_assume") {
    T t = boolOf(a[0]);
    if (t) {
      if (decide(s, t) == TS.tFalse) return RR();
      assume(s, t, true);
    }
    return ret();
  }
  if (n == "sa_heap_mark") {
    heapMarks.push_back(serialNo);
    return ret();
  }
  if (n == "sa_heap_check") {
    std::string what = ruleOf(s, a[0]);
    u64 mark = heapMarks.empty() ? 0 : heapMarks.back();
    if (!heapMarks.empty()) heapMarks.pop_back();
    int leaks = 0;
    // what a static object of the library still refers to is kept, not leaked
    std::set<Obj *> kept;
    std::vector<Obj *> todo;
    auto keep = [&](Obj *o) {
      if (o && o->live != DEAD && kept.insert(o).second) todo.push_back(o);
    };
    for (auto &o : s.objs)
      if (o && o->kind == OGLOBAL && (o->name.rfind("_ZN3mpc", 0) == 0 || o->name.rfind("_ZZN3mpc", 0) == 0 || o->name.rfind("_ZZNK3mpc", 0) == 0)) keep(o.get());
    std::function<void(const AV &)> follow = [&](const AV &v) {
      if (v.k == PTR) keep(getObj(s, v.obj));
      if (v.k == GATE) follow(gates[v.idx].a), follow(gates[v.idx].b);
    };
    while (!todo.empty()) {
      Obj *o = todo.back();
      todo.pop_back();
      for (auto &sl : o->slots)
        if (sl.mode == 1) follow(sl.v);
    }
    for (auto &o : s.objs)
      if (o && o->kind == OHEAP && o->live != DEAD && o->serial > mark && !kept.count(o.get()) && !(o->live == MAYBE && o->deadIf && settle(s, o->deadIf) == TS.tTrue)) {
        leaks++;
        std::string sst = siteStr(o->site);
        report("eq", what, std::string(o->live == MAYBE ? "on some path " : "") + "memory is never released: " + std::to_string(o->size) + " bytes allocated at " + sst, sst);
      }
    if (!leaks) okCount[what]++;
    return ret();
  }
  if (n == "sa_alive") { // p -> 1 alive / 0
    Obj *o = a[0].k == PTR ? getObj(s, a[0].obj) : nullptr;
    return ret(mkInt(o && (o->live == ALIVE || (o->live == MAYBE && o->deadIf && settle(s, o->deadIf) == TS.tFalse)), d.bits));
  }
  if (n == "sa_objsize") { // bytes available from p
    Obj *o = a[0].k == PTR ? getObj(s, a[0].obj) : nullptr;
    return ret(mkInt(o && o->live == ALIVE ? (u64)((int64_t)o->size - a[0].off) : 0, d.bits));
  }
  if (n == "sa_stream_count") { // stream object, or any if null
    u64 c = 0;
    for (auto &p : s.ev) {
      if (a[0].k == PTR && a[0].obj != NULLOBJ && p.first != a[0].obj) continue;
      if (a[0].k == PTR && a[0].obj == NULLOBJ) { // string streams of the program itself are no output
        Obj *o = getObj(s, p.first);
        if (!o || o->kind == OSTACK || o->kind == OHEAP) continue;
      }
      for (auto &e : p.second)
        if (e == "<conditional>") {
          return ret(mkITerm(TS.freshSym("stream-events"), d.bits));
        } else if (e != "flush")
          c++;
    }
    if (a[0].k == PTR && a[0].obj == NULLOBJ) c += rawOutput.size();
    return ret(mkInt(c, d.bits));
  }
  if (n == "sa_stream_only") { // nothing was written to any output but the given one
    std::string rule = ruleOf(s, a[1]);
    okCount[rule]++;
    for (auto &p : s.ev) {
      if (a[0].k == PTR && p.first == a[0].obj) continue;
      Obj *o = getObj(s, p.first);
      if (!o || o->kind == OSTACK || o->kind == OHEAP) continue;
      std::string all;
      for (auto &e : p.second) all += e + " ";
      report("eq", rule, "stray output: " + (o ? o->name : std::string("?")) + " <- " + all.substr(0, 120), siteStr(site));
    }
    for (auto &w : rawOutput) report("eq", rule, "stray output: " + w, siteStr(site));
    return ret();
  }
  if (n == "sa_stream_text") { // stream, substring -> occurrences
    std::string all;
    for (auto &p : s.ev)
      if (p.first == a[0].obj)
        for (auto &e : p.second) {
          if (e == "<conditional>") return ret(mkITerm(TS.freshSym("stream-events"), d.bits));
          if (e.compare(0, 5, "text:") == 0) all += e.substr(5);
          if (e.compare(0, 4, "val:") == 0) all += e.substr(4);
          if (e == "endl") all += "\n";
        }
    if (getenv("SA_STREAM")) fprintf(stderr, "[%s]\n", all.c_str());
    std::string sub = cstr(s, a[1]);
    u64 c = 0;
    for (size_t q = all.find(sub); q != std::string::npos; q = all.find(sub, q + sub.size())) c++;
    return ret(mkInt(c, d.bits));
  }
  if (n == "sa_print") {
    std::string w;
    for (auto &x : a) {
      if (x.k == NUMT || x.k == BOOLT) w += TS.str(x.t);
      else if (x.k == INT) w += std::to_string(sx(x.i, x.bits));
      else if (x.k == PTR && x.obj > 1) { std::string q = cstr(s, x); w += q.empty() ? "ptr" : q; }
      else w += "<" + std::to_string(x.k) + ">";
      w += " ";
    }
    fprintf(stderr, "%s\n", w.c_str());
    return ret();
  }
  giveUp("unknown intrinsic " + n);
  return ret(mkTop());
}
