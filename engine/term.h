// Value-number domain for reals (and unknown integers): hash-consed polynomials
// over atoms with exact-real semantics, plus hash-consed conditions.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum TK : uint8_t { NUM, SYM, APP, ITE, POLY, BTRUE, BFALSE, LT0, LE0, EQ0, BNOT, BAND, BOR, BSYM };
struct Term;
typedef const Term *T;
struct Mono {
  std::vector<std::pair<T, int>> f; // sorted by atom id
  uint32_t id;
};
typedef std::vector<std::pair<const Mono *, double>> PolyV; // sorted by mono id
struct Term {
  TK k;
  uint32_t id;
  double num = 0;
  std::string name;      // SYM / APP / BSYM
  std::vector<T> args;   // APP / ITE(c,a,b) / conditions
  PolyV poly;
};

struct TermStore {
  std::vector<Term *> all;
  std::unordered_map<std::string, T> tab;
  std::unordered_map<std::string, const Mono *> mtab;
  uint32_t nmono = 0;
  const Mono *one;
  T tTrue, tFalse, zero, onet;
  uint64_t fresh = 0;

  TermStore() {
    one = mono({});
    tTrue = mk("T", BTRUE);
    tFalse = mk("F", BFALSE);
    zero = num(0);
    onet = num(1);
  }
  Term *mk(const std::string &key, TK k) {
    Term *t = new Term;
    t->k = k;
    t->id = (uint32_t)all.size();
    all.push_back(t);
    tab[key] = t;
    return t;
  }
  T num(double d) {
    if (d == 0) d = 0; // -0 -> 0
    if (d != d) d = NAN;
    std::string key(9, 'n');
    memcpy(&key[1], &d, 8);
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = mk(key, NUM);
    t->num = d;
    return t;
  }
  T sym(const std::string &n) {
    std::string key = "s" + n;
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = mk(key, SYM);
    t->name = n;
    return t;
  }
  T freshSym(const std::string &n) { return sym(n + "#" + std::to_string(++fresh)); }
  T bsym(const std::string &n) {
    std::string key = "b" + n;
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = mk(key, BSYM);
    t->name = n;
    return t;
  }
  static void put(std::string &k, uint32_t v) { k.append((const char *)&v, 4); }
  T node(TK k, const std::string &name, const std::vector<T> &a) {
    std::string key = "a";
    key.push_back((char)k);
    key += name;
    key.push_back(0);
    for (T x : a) put(key, x->id);
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = mk(key, k);
    t->name = name;
    t->args = a;
    return t;
  }
  const Mono *mono(const std::vector<std::pair<T, int>> &f) {
    std::string key;
    for (auto &p : f) {
      put(key, p.first->id);
      put(key, (uint32_t)p.second);
    }
    auto it = mtab.find(key);
    if (it != mtab.end()) return it->second;
    Mono *m = new Mono;
    m->f = f;
    m->id = nmono++;
    mtab[key] = m;
    return m;
  }
  static bool isAtom(T t) { return t->k == SYM || t->k == APP || t->k == ITE; }
  bool isNum(T t) const { return t->k == NUM; }
  PolyV view(T t) {
    PolyV v;
    if (t->k == NUM) {
      if (t->num != 0) v.push_back({one, t->num});
    } else if (t->k == POLY)
      return t->poly;
    else
      v.push_back({mono({{t, 1}}), 1.0});
    return v;
  }
  T make(PolyV v) {
    if (v.empty()) return zero;
    if (v.size() == 1) {
      if (v[0].first == one) return num(v[0].second);
      if (v[0].second == 1.0 && v[0].first->f.size() == 1 && v[0].first->f[0].second == 1) return v[0].first->f[0].first;
    }
    std::string key = "p";
    for (auto &p : v) {
      put(key, p.first->id);
      key.append((const char *)&p.second, 8);
    }
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = mk(key, POLY);
    t->poly = std::move(v);
    return t;
  }
  bool special(T t) const { return t->k == NUM && !std::isfinite(t->num); }
  T add(T a, T b, double sb = 1.0) {
    if (a->k == NUM && b->k == NUM) return num(a->num + sb * b->num);
    if (special(a)) return a;
    if (special(b)) return num(sb * b->num);
    if (b->k == NUM && b->num == 0) return a;
    if (a->k == NUM && a->num == 0 && sb == 1.0) return b;
    PolyV x = view(a), y = view(b), r;
    r.reserve(x.size() + y.size());
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i].first->id < y[j].first->id))
        r.push_back(x[i++]);
      else if (i >= x.size() || y[j].first->id < x[i].first->id) {
        r.push_back({y[j].first, sb * y[j].second});
        j++;
      } else {
        double c1 = x[i].second, c2 = sb * y[j].second, c = c1 + c2;
        if (c != 0 && std::fabs(c) > 4e-15 * std::max(std::fabs(c1), std::fabs(c2))) r.push_back({x[i].first, c});
        i++;
        j++;
      }
    }
    return make(std::move(r));
  }
  T sub(T a, T b) { return add(a, b, -1.0); }
  T neg(T a) { return add(zero, a, -1.0); }
  T scale(T a, double s) {
    if (a->k == NUM) return num(a->num * s);
    if (s == 0) return zero;
    if (s == 1) return a;
    if (!std::isfinite(s)) {
      int g = std::isnan(s) ? 0 : sign(a);
      if (std::isnan(s)) return num(s);
      if (g == 1 || g == -1) return num(s * g);
      return node(APP, "scale", {num(s), a});
    }
    PolyV x = view(a);
    for (auto &p : x) p.second *= s;
    return make(std::move(x));
  }
  static bool isApp(T t, const char *n) { return t->k == APP && t->name == n; }
  // product of two monomials; a factor sqrt(p)^2 is rewritten to p through `extra`
  const Mono *mulM(const Mono *a, const Mono *b, std::vector<std::pair<T, int>> *extra) {
    if (a == one) return b;
    if (b == one) return a;
    std::vector<std::pair<T, int>> r;
    size_t i = 0, j = 0;
    auto push = [&](T t, int e) {
      if (e == 0) return;
      if (extra && isApp(t, "sqrt") && (e >= 2 || e <= -2)) {
        extra->push_back({t->args[0], e / 2});
        e = e % 2;
        if (e == 0) return;
      }
      r.push_back({t, e});
    };
    while (i < a->f.size() || j < b->f.size()) {
      if (j >= b->f.size() || (i < a->f.size() && a->f[i].first->id < b->f[j].first->id)) {
        push(a->f[i].first, a->f[i].second);
        i++;
      } else if (i >= a->f.size() || b->f[j].first->id < a->f[i].first->id) {
        push(b->f[j].first, b->f[j].second);
        j++;
      } else {
        push(a->f[i].first, a->f[i].second + b->f[j].second);
        i++;
        j++;
      }
    }
    return mono(r);
  }
  T mul(T a, T b) {
    if (a->k == NUM && b->k == NUM) return num(a->num * b->num);
    if (a->k == NUM) return scale(b, a->num);
    if (b->k == NUM) return scale(a, b->num);
    PolyV x = view(a), y = view(b);
    if (x.size() == 1 && y.size() == 1) {
      std::vector<std::pair<T, int>> ex;
      const Mono *m = mulM(x[0].first, y[0].first, &ex);
      T r = make({{m, x[0].second * y[0].second}});
      for (auto &e : ex) r = e.second > 0 ? mul(r, powi(e.first, e.second)) : div(r, powi(e.first, -e.second));
      return r;
    }
    std::map<uint32_t, std::pair<const Mono *, double>> acc;
    T more = zero;
    for (auto &p : x)
      for (auto &q : y) {
        std::vector<std::pair<T, int>> ex;
        const Mono *m = mulM(p.first, q.first, &ex);
        double c = p.second * q.second;
        if (!ex.empty()) {
          T r = make({{m, c}});
          for (auto &e : ex) r = e.second > 0 ? mul(r, powi(e.first, e.second)) : div(r, powi(e.first, -e.second));
          more = add(more, r);
          continue;
        }
        auto it = acc.find(m->id);
        if (it == acc.end())
          acc[m->id] = {m, c};
        else {
          double o = it->second.second, n = o + c;
          if (std::fabs(n) <= 4e-15 * std::max(std::fabs(o), std::fabs(c))) n = 0;
          it->second.second = n;
        }
      }
    PolyV r;
    for (auto &e : acc)
      if (e.second.second != 0) r.push_back(e.second);
    return add(make(std::move(r)), more);
  }
  T powi(T a, int n) {
    T r = onet;
    for (int i = 0; i < n; i++) r = mul(r, a);
    return r;
  }
  T div(T a, T b) {
    if (a->k == NUM && b->k == NUM) return num(a->num / b->num);
    if (b->k == NUM) {
      if (b->num == 0) return node(APP, "div0", {a});
      if (!std::isfinite(b->num)) return zero;
      if (a->k == POLY || isAtom(a)) {
        PolyV x = view(a);
        for (auto &p : x) p.second /= b->num;
        return make(std::move(x));
      }
      return scale(a, 1.0 / b->num);
    }
    if (a->k == NUM && a->num == 0) return zero;
    if (a == b) return onet;
    PolyV y = view(b);
    if (y.size() == 1) {
      std::vector<std::pair<T, int>> inv;
      for (auto &f : y[0].first->f) inv.push_back({f.first, -f.second});
      T d = make({{mono(inv), 1.0 / y[0].second}});
      // divide coefficients directly to keep them exact
      PolyV x = view(a);
      T r = zero;
      for (auto &p : x) r = add(r, mul(make({{p.first, p.second / y[0].second}}), make({{mono(inv), 1.0}})));
      (void)d;
      return r;
    }
    // b is a sum: a == c*b ?
    PolyV x = view(a);
    if (x.size() == y.size()) {
      bool same = true;
      double c = x[0].second / y[0].second;
      for (size_t i = 0; i < x.size() && same; i++)
        if (x[i].first != y[i].first || std::fabs(x[i].second - c * y[i].second) > 1e-12 * std::fabs(x[i].second)) same = false;
      if (same) return num(c);
    }
    double lead = y[0].second;
    T bn = scale(b, 1.0 / lead);
    T inv = node(APP, "inv", {bn});
    return scale(mul(a, inv), 1.0 / lead);
  }
  T app(const std::string &n, std::vector<T> a) {
    bool allnum = !a.empty();
    for (T x : a)
      if (x->k != NUM) allnum = false;
    if (n == "abs") {
      if (allnum) return num(std::fabs(a[0]->num));
      if (isApp(a[0], "abs") || isApp(a[0], "sqrt")) return a[0];
      PolyV v = view(a[0]);
      double lead = v[0].second;
      T base = scale(a[0], 1.0 / lead);
      if (v.size() == 1) { // |c*m| = |c|*|m|, even powers drop
        bool even = true;
        for (auto &f : v[0].first->f)
          if (f.second % 2 && !(isApp(f.first, "abs") || isApp(f.first, "sqrt"))) even = false;
        if (even) return scale(base, std::fabs(lead));
      }
      return scale(node(APP, "abs", {base}), std::fabs(lead));
    }
    if (n == "flt") {
      if (allnum) return num((double)(float)a[0]->num);
      if (isApp(a[0], "flt")) return a[0];
    }
    if (n == "sqrt") {
      if (allnum) return num(std::sqrt(a[0]->num));
      PolyV v = view(a[0]);
      if (v.size() == 1) {
        bool even = v[0].second > 0;
        for (auto &f : v[0].first->f)
          if (f.second % 2) even = false;
        if (even && !v[0].first->f.empty()) {
          T r = num(std::sqrt(v[0].second));
          for (auto &f : v[0].first->f) {
            T b = app("abs", {f.first});
            int e = f.second / 2;
            r = e > 0 ? mul(r, powi(b, e)) : div(r, powi(b, -e));
          }
          return r;
        }
      }
      return node(APP, "sqrt", a);
    }
    if (n == "max" || n == "min") {
      if (allnum) return num(n == "max" ? std::max(a[0]->num, a[1]->num) : std::min(a[0]->num, a[1]->num));
      if (a[0] == a[1]) return a[0];
      for (int k = 0; k < 2; k++)
        if (a[k]->k == NUM && std::isinf(a[k]->num)) return ((a[k]->num > 0) == (n == "max")) ? a[k] : a[1 - k];
      if (a[0]->id > a[1]->id) std::swap(a[0], a[1]);
      return node(APP, n, a);
    }
    if (n == "pow" && a[1]->k == NUM) {
      double e = a[1]->num;
      if (allnum) return num(std::pow(a[0]->num, e));
      if (e == (int)e && std::fabs(e) <= 8) return e >= 0 ? powi(a[0], (int)e) : div(onet, powi(a[0], (int)-e));
      if (e == 0.5) return app("sqrt", {a[0]});
    }
    return node(APP, n, a);
  }
  // ---- conditions
  int sign(T p) { // 1: >0, 2: >=0, -1: <0, -2: <=0, 0 unknown (finite reals)
    PolyV v = view(p);
    if (v.empty()) return 2;
    int s = 0;
    bool strict = false;
    for (auto &t : v) {
      int ms = 1;
      bool zeroable = false;
      for (auto &f : t.first->f) {
        T a = f.first;
        if (isApp(a, "abs") || isApp(a, "sqrt") || f.second % 2 == 0) {
          zeroable = true;
        } else if (isApp(a, "max") && (nonneg(a->args[0], true) || nonneg(a->args[1], true))) {
        } else if (isApp(a, "max") && (nonneg(a->args[0], false) || nonneg(a->args[1], false))) {
          zeroable = true;
        } else if (a->k == SYM && !a->name.empty() && a->name[0] == '+') { // positive input by declaration
        } else
          return 0;
      }
      if (t.second < 0) ms = -ms;
      if (s == 0) s = ms;
      if (s != ms) return 0;
      if (!zeroable) strict = true;
    }
    return strict ? s : 2 * s;
  }
  bool nonneg(T t, bool strict) {
    int s = sign(t);
    return strict ? s == 1 : s > 0;
  }
  T bnot(T c) {
    if (c == tTrue) return tFalse;
    if (c == tFalse) return tTrue;
    if (c->k == BNOT) return c->args[0];
    if (c->k == LT0) return le0(neg(c->args[0])); // !(p<0) = (-p<=0)
    if (c->k == LE0) return lt0(neg(c->args[0]));
    return node(BNOT, "", {c});
  }
  T normScale(T p) {
    PolyV v = view(p);
    double l = std::fabs(v.back().second);
    return l == 1 ? p : scale(p, 1.0 / l);
  }
  T lt0(T p) {
    if (p->k == NUM) return p->num < 0 ? tTrue : tFalse;
    int s = sign(p);
    if (s == -1) return tTrue;
    if (s == 1 || s == 2) return tFalse;
    return node(LT0, "", {normScale(p)});
  }
  T le0(T p) {
    if (p->k == NUM) return p->num <= 0 ? tTrue : tFalse;
    int s = sign(p);
    if (s == -1 || s == -2) return tTrue;
    if (s == 1) return tFalse;
    if (s == 2) return eq0(p);
    return node(LE0, "", {normScale(p)});
  }
  bool generic = false; // treat non-constant values as non-zero
  T eq0(T p) {
    if (p->k == NUM) return p->num == 0 ? tTrue : tFalse;
    int s = sign(p);
    if (s == 1 || s == -1) return tFalse;
    if (p->k == ITE) { // eq0(ite(c,n,m)) with constants
      T a = p->args[1], b = p->args[2];
      if (a->k == NUM && b->k == NUM) return bite(p->args[0], eq0(a), eq0(b));
    }
    if (p->k == POLY && p->poly.size() <= 2) { // c1*ite + c0
      T at = nullptr;
      double c1 = 0, c0 = 0;
      bool ok = true;
      for (auto &m : p->poly)
        if (m.first == one)
          c0 = m.second;
        else if (m.first->f.size() == 1 && m.first->f[0].second == 1 && m.first->f[0].first->k == ITE) {
          at = m.first->f[0].first;
          c1 = m.second;
        } else
          ok = false;
      if (ok && at && at->args[1]->k == NUM && at->args[2]->k == NUM)
        return bite(at->args[0], num(0 + c1 * at->args[1]->num + c0)->num == 0 ? tTrue : tFalse, c1 * at->args[2]->num + c0 == 0 ? tTrue : tFalse);
    }
    if (p->k == APP && p->name == "abs") return eq0(p->args[0]);
    if (generic) return tFalse;
    // sign-normalise
    PolyV v = view(p);
    T q = scale(p, 1.0 / v.back().second);
    return node(EQ0, "", {q});
  }
  T band(T a, T b) {
    if (a == tFalse || b == tFalse) return tFalse;
    if (a == tTrue) return b;
    if (b == tTrue) return a;
    if (a == b) return a;
    if (bnot(a) == b) return tFalse;
    if (a->id > b->id) std::swap(a, b);
    return node(BAND, "", {a, b});
  }
  T bor(T a, T b) {
    if (a == tTrue || b == tTrue) return tTrue;
    if (a == tFalse) return b;
    if (b == tFalse) return a;
    if (a == b) return a;
    if (bnot(a) == b) return tTrue;
    if (a->id > b->id) std::swap(a, b);
    return node(BOR, "", {a, b});
  }
  T bite(T c, T a, T b) {
    if (c == tTrue) return a;
    if (c == tFalse) return b;
    if (a == b) return a;
    if (a == tTrue && b == tFalse) return c;
    if (a == tFalse && b == tTrue) return bnot(c);
    return bor(band(c, a), band(bnot(c), b));
  }
  T restrict_(T t, T c, bool val) { // shallow
    if (t->k == ITE) {
      if (t->args[0] == c) return val ? t->args[1] : t->args[2];
      if (t->args[0] == bnot(c)) return val ? t->args[2] : t->args[1];
    }
    return t;
  }
  T ite(T c, T a, T b) {
    if (c == tTrue) return a;
    if (c == tFalse) return b;
    a = restrict_(a, c, true);
    b = restrict_(b, c, false);
    if (a == b) return a;
    if (c->k == BNOT) return ite(c->args[0], b, a);
    if (c->k == LE0) return ite(bnot(c), b, a); // use the strict form only
    if (c->k == LT0) {                          // c: p<0
      T d = sub(a, b);
      if (d->k != NUM || d->num != 0) {
        T p = c->args[0];
        T dn = d->k == NUM ? d : normScale(d);
        if (dn == p) return app("min", {a, b}); // a<b ? a : b
        if (d->k != NUM && neg(dn) == p) return app("max", {a, b});
      }
    }
    // pull out the common part of two sums
    if (a->k == POLY && b->k == POLY) {
      PolyV common, ra, rb;
      size_t i = 0, j = 0;
      auto &x = a->poly;
      auto &y = b->poly;
      while (i < x.size() || j < y.size()) {
        if (j >= y.size() || (i < x.size() && x[i].first->id < y[j].first->id))
          ra.push_back(x[i++]);
        else if (i >= x.size() || y[j].first->id < x[i].first->id)
          rb.push_back(y[j++]);
        else {
          if (x[i].second == y[j].second)
            common.push_back(x[i]);
          else {
            ra.push_back(x[i]);
            rb.push_back(y[j]);
          }
          i++;
          j++;
        }
      }
      if (!common.empty()) return add(make(common), ite(c, make(ra), make(rb)));
    }
    return node(ITE, "", {c, a, b});
  }
  // ---- queries
  bool mentions(T t, const std::string &prefix, std::unordered_set<T> &seen) {
    if (!seen.insert(t).second) return false;
    if ((t->k == SYM || t->k == BSYM) && t->name.compare(t->name[0] == '+' ? 1 : 0, prefix.size(), prefix) == 0) return true;
    for (T a : t->args)
      if (mentions(a, prefix, seen)) return true;
    for (auto &p : t->poly)
      for (auto &f : p.first->f)
        if (mentions(f.first, prefix, seen)) return true;
    return false;
  }
  std::string str(T t, int depth = 0) {
    char buf[64];
    switch (t->k) {
    case NUM: snprintf(buf, sizeof buf, "%.6g", t->num); return buf;
    case SYM:
    case BSYM: return t->name;
    case BTRUE: return "true";
    case BFALSE: return "false";
    default: break;
    }
    if (depth > 5) return "...";
    std::string s;
    if (t->k == POLY) {
      int n = 0;
      for (auto &p : t->poly) {
        if (n++ > 7) {
          s += " + ...(" + std::to_string(t->poly.size()) + " terms)";
          break;
        }
        snprintf(buf, sizeof buf, "%.6g", p.second);
        if (n > 1) s += " + ";
        bool first = true;
        if (p.second != 1 || p.first == one) {
          s += buf;
          first = false;
        }
        for (auto &f : p.first->f) {
          if (!first) s += "*";
          first = false;
          s += str(f.first, depth + 1);
          if (f.second != 1) s += "^" + std::to_string(f.second);
        }
      }
      return "(" + s + ")";
    }
    const char *op = t->k == LT0 ? "lt0" : t->k == LE0 ? "le0" : t->k == EQ0 ? "eq0" : t->k == BNOT ? "not" : t->k == BAND ? "and" : t->k == BOR ? "or" : t->k == ITE ? "ite" : t->name.c_str();
    s = op;
    s += "(";
    for (size_t i = 0; i < t->args.size(); i++) {
      if (i) s += ", ";
      s += str(t->args[i], depth + 1);
    }
    return s + ")";
  }
};
