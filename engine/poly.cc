#include "poly.h"

#include <gmpxx.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>

namespace lfv {
namespace {
typedef std::vector<uint32_t> MV;  // sorted variables with repetition
struct MVH { size_t operator()(const MV& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };

typedef std::vector<std::pair<uint32_t, mpq_class>> Poly;  // sorted by mono id

struct Ctx {
  long budget, used = 0;
  std::vector<MV> monos;
  std::unordered_map<MV, uint32_t, MVH> monoId;
  std::unordered_map<uint64_t, uint32_t> prodCache;
  struct Rat { Poly num; std::map<uint32_t, int> den; };
  struct Var { int kind = 0; /*0 free 1 sqrt 2 abs*/ std::shared_ptr<Rat> arg; };
  std::vector<Var> vars;
  std::unordered_map<T, uint32_t> symVar;
  std::map<std::string, uint32_t> keyVar;
  std::vector<Poly> factors;
  std::map<std::string, uint32_t> factorId;
  std::unordered_map<T, std::shared_ptr<Rat>> memo;
  std::unordered_map<T, bool> cut;
  std::unordered_map<T, std::shared_ptr<Poly>> imemo;

  void spend(long n) { used += n; if (used > budget) throw TooBig(); }
  uint32_t mono(MV v) {
    auto it = monoId.find(v);
    if (it != monoId.end()) return it->second;
    monos.push_back(v);
    monoId[v] = (uint32_t)monos.size() - 1;
    return (uint32_t)monos.size() - 1;
  }
  uint32_t one() { return mono({}); }
  uint32_t mulM(uint32_t a, uint32_t b) {
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b;
    auto it = prodCache.find(k);
    if (it != prodCache.end()) return it->second;
    MV v; v.reserve(monos[a].size() + monos[b].size());
    std::merge(monos[a].begin(), monos[a].end(), monos[b].begin(), monos[b].end(), std::back_inserter(v));
    uint32_t r = mono(std::move(v));
    prodCache[k] = r;
    return r;
  }
  Poly cst(const mpq_class& q) { Poly p; if (q != 0) p.push_back({one(), q}); return p; }
  Poly add(const Poly& a, const Poly& b, int s) {
    spend((long)(a.size() + b.size()));
    Poly r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, s > 0 ? b[j].second : mpq_class(-b[j].second)}); ++j; }
      else { mpq_class v = s > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (v != 0) r.push_back({a[i].first, v}); ++i; ++j; }
    }
    return r;
  }
  bool needsRed(uint32_t m) {
    const MV& v = monos[m];
    for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == v[i + 1] && vars[v[i]].kind) return true;
    return false;
  }
  Poly mulRaw(const Poly& a, const Poly& b) {
    spend((long)(a.size() * b.size()));
    if (a.size() == 1 && monos[a[0].first].empty()) { Poly r = b; for (auto& t : r) t.second *= a[0].second; return r; }
    if (b.size() == 1 && monos[b[0].first].empty()) { Poly r = a; for (auto& t : r) t.second *= b[0].second; return r; }
    std::unordered_map<uint32_t, mpq_class> acc;
    acc.reserve(a.size() * b.size() / 2 + 8);
    mpq_class tmp;
    for (auto& x : a) for (auto& y : b) { tmp = x.second * y.second; acc[mulM(x.first, y.first)] += tmp; }
    Poly r; r.reserve(acc.size());
    for (auto& e : acc) if (e.second != 0) r.push_back({e.first, e.second});
    std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.first < y.first; });
    return r;
  }
  std::string keyOf(const Poly& p) {
    std::string s;
    for (auto& t : p) { s += std::to_string(t.first); s += ':'; s += t.second.get_str(); s += ';'; }
    return s;
  }
  std::string keyOf(const Rat& r) {
    std::string s = keyOf(r.num) + "/";
    for (auto& d : r.den) s += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
    return s;
  }
  uint32_t factor(const Poly& p) {  // p already normalised
    std::string k = keyOf(p);
    auto it = factorId.find(k);
    if (it != factorId.end()) return it->second;
    factors.push_back(p);
    return factorId[k] = (uint32_t)factors.size() - 1;
  }
  // reduce squares of sqrt/abs variables
  Rat reduce(Rat r) {
    bool any = false;
    for (auto& t : r.num) if (needsRed(t.first)) { any = true; break; }
    if (!any) return r;
    Rat out; out.den = r.den;
    Poly plain;
    Rat acc; bool hasAcc = false;
    for (auto& t : r.num) {
      if (!needsRed(t.first)) { plain.push_back(t); continue; }
      MV v = monos[t.first], rest;
      Rat f; f.num = cst(t.second);
      for (size_t i = 0; i < v.size();) {
        if (i + 1 < v.size() && v[i] == v[i + 1] && vars[v[i]].kind) {
          Rat a = *vars[v[i]].arg;
          f = mul(f, a);
          if (vars[v[i]].kind == 2) f = mul(f, a);
          i += 2;
        } else rest.push_back(v[i++]);
      }
      Poly mp; mp.push_back({mono(rest), mpq_class(1)});
      f.num = mulRaw(f.num, mp);
      acc = hasAcc ? addR(acc, f, 1) : f;
      hasAcc = true;
    }
    Rat p; p.num = plain;
    if (hasAcc) p = addR(p, acc, 1);
    for (auto& d : out.den) p.den[d.first] += d.second;
    return reduce(p);
  }
  Rat addR(const Rat& a, const Rat& b, int s) {
    Rat r;
    if (a.den == b.den) { r.num = add(a.num, b.num, s); r.den = a.den; }
    else {
      Poly na = a.num, nb = b.num;
      r.den = a.den;
      for (auto& d : b.den) r.den[d.first] = std::max(r.den.count(d.first) ? r.den[d.first] : 0, d.second);
      for (auto& d : r.den) {
        auto ia = a.den.find(d.first); int ea = ia == a.den.end() ? 0 : ia->second;
        auto ib = b.den.find(d.first); int eb = ib == b.den.end() ? 0 : ib->second;
        for (int i = ea; i < d.second; ++i) na = mulRaw(na, factors[d.first]);
        for (int i = eb; i < d.second; ++i) nb = mulRaw(nb, factors[d.first]);
      }
      r.num = add(na, nb, s);
    }
    if (r.num.empty()) r.den.clear();
    return reduce(r);
  }
  Rat mul(const Rat& a, const Rat& b) {
    Rat r;
    // cancel a factor that equals the other numerator
    r.den = a.den;
    for (auto& d : b.den) r.den[d.first] += d.second;
    Poly na = a.num, nb = b.num;
    auto cancel = [&](Poly& p) {
      if (r.den.empty() || p.size() < 2) return;
      Poly q = p; mpq_class lc = q[0].second; for (auto& t : q) t.second /= lc;
      auto it = factorId.find(keyOf(q));
      if (it == factorId.end()) return;
      auto d = r.den.find(it->second);
      if (d == r.den.end()) return;
      if (--d->second == 0) r.den.erase(d);
      p = cst(lc);
    };
    cancel(na); cancel(nb);
    r.num = mulRaw(na, nb);
    if (r.num.empty()) r.den.clear();
    return reduce(r);
  }
  Rat inv(const Rat& a) {
    if (a.num.empty()) throw std::runtime_error("division by the zero polynomial");
    Rat r; r.num = cst(1);
    for (auto& d : a.den) for (int i = 0; i < d.second; ++i) r.num = mulRaw(r.num, factors[d.first]);
    Poly p = a.num;
    if (p.size() == 1) {
      mpq_class c = 1 / p[0].second;
      MV v = monos[p[0].first];
      for (auto& t : r.num) t.second *= c;
      Rat out = r;
      for (uint32_t x : v) {
        if (vars[x].kind) {  // 1/s = s / s^2
          Rat s; s.num.push_back({mono({x}), mpq_class(1)});
          Rat sq = *vars[x].arg;
          if (vars[x].kind == 2) sq = mul(sq, sq);
          out = mul(mul(out, s), inv(sq));
        } else {
          Poly f; f.push_back({mono({x}), mpq_class(1)});
          out.den[factor(f)] += 1;
        }
      }
      return out;
    }
    // single sqrt/abs variable times a common monomial: rationalise  c*s*(..)
    mpq_class lc = p[0].second;
    for (auto& t : p) t.second /= lc;
    for (auto& t : r.num) t.second /= lc;
    r.den[factor(p)] += 1;
    return r;
  }
  static mpq_class rationalise(double d) {
    if (d == std::floor(d) && std::fabs(d) < 9e15) return mpq_class(d);
    // nearest simple rational within 2 ulp (1.0/3 reads as 1/3)
    double ad = std::fabs(d);
    double p0 = 0, q0 = 1, p1 = 1, q1 = 0, y = ad;
    for (int i = 0; i < 20; ++i) {
      double a = std::floor(y);
      double p2 = a * p1 + p0, q2 = a * q1 + q0;
      if (q2 > 100000 || p2 > 1e9) break;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      if (std::fabs(p1 / q1 - ad) <= 4.5e-16 * ad) { mpq_class r((long)p1, (long)q1); r.canonicalize(); return d < 0 ? mpq_class(-r) : r; }
      if (y == a) break;
      y = 1 / (y - a);
    }
    return mpq_class(d);
  }
  uint32_t freshVar(int kind = 0, std::shared_ptr<Rat> arg = nullptr) { Var v; v.kind = kind; v.arg = arg; vars.push_back(v); return (uint32_t)vars.size() - 1; }
  Rat varR(uint32_t v) { Rat r; r.num.push_back({mono({v}), mpq_class(1)}); return r; }
  uint32_t atom(T n) { auto it = symVar.find(n); if (it != symVar.end()) return it->second; return symVar[n] = freshVar(); }
  uint32_t keyed(const std::string& k, int kind = 0, std::shared_ptr<Rat> arg = nullptr) {
    auto it = keyVar.find(k); if (it != keyVar.end()) return it->second; return keyVar[k] = freshVar(kind, arg);
  }
  std::string argKey(T x) {
    if (x->sort == REAL) return keyOf(nf(x));
    if (x->sort == INT) { Rat r; r.num = ofInt(x); return "i" + keyOf(r); }
    return "b" + std::to_string(x->id);
  }
  static mpz_class toZ(i128 v) { return mpz_class(i128s(v)); }
  Poly ofInt(T x) {
    if (x->op == I_CONST) return cst(mpq_class(toZ(x->c)));
    if (x->op == I_POLY) {
      Poly r = cst(mpq_class(toZ(x->c)));
      for (auto& t : x->mons) {
        Poly m = cst(mpq_class(toZ(t.second)));
        for (T a : t.first) m = mulRaw(m, ofInt(a));
        r = add(r, m, 1);
      }
      return r;
    }
    Poly p; p.push_back({mono({atom(x)}), mpq_class(1)});
    return p;
  }
  Rat nf(T n) {
    auto it = memo.find(n);
    if (it != memo.end()) return *it->second;
    spend(1);
    Rat r;
    if (cut.count(n)) r = varR(atom(n));
    else switch (n->op) {
      case R_CONST:
        if (!std::isfinite(n->d)) throw std::runtime_error("non-finite constant");
        r.num = cst(rationalise(n->d));
        break;
      case R_SYM: r = varR(atom(n)); break;
      case R_ADD: r = addR(nf(n->k[0]), nf(n->k[1]), 1); break;
      case R_SUB: r = addR(nf(n->k[0]), nf(n->k[1]), -1); break;
      case R_MUL: r = mul(nf(n->k[0]), nf(n->k[1])); break;
      case R_DIV: r = mul(nf(n->k[0]), inv(nf(n->k[1]))); break;
      case R_NEG: { r = nf(n->k[0]); for (auto& t : r.num) t.second = -t.second; break; }
      case R_OFINT: r.num = ofInt(n->k[0]); break;
      case R_SQRT: {
        Rat a = nf(n->k[0]);
        if (a.num.empty()) break;
        if (a.num.size() == 1 && monos[a.num[0].first].empty() && a.den.empty()) {
          double q = a.num[0].second.get_d();
          r.num = cst(rationalise(std::sqrt(q)));
          break;
        }
        r = varR(keyed("sqrt" + keyOf(a), 1, std::make_shared<Rat>(a)));
        break;
      }
      case R_ABS: {
        Rat a = nf(n->k[0]);
        if (a.num.empty()) break;
        mpq_class lc = a.num[0].second;
        for (auto& t : a.num) t.second /= lc;
        if (a.num.size() == 1 && monos[a.num[0].first].empty() && a.den.empty()) { r.num = cst(abs(lc)); break; }
        r = varR(keyed("abs" + keyOf(a), 2, std::make_shared<Rat>(a)));
        for (auto& t : r.num) t.second *= abs(lc);
        break;
      }
      case R_UN: {
        Rat a = nf(n->k[0]);
        std::string f = n->name;
        mpq_class s = 1;
        if ((f == "sin" || f == "tan" || f == "atan" || f == "asin" || f == "sinh" || f == "tanh") && !a.num.empty() && a.num[0].second < 0) { s = -1; for (auto& t : a.num) t.second = -t.second; }
        if ((f == "cos" || f == "cosh") && !a.num.empty() && a.num[0].second < 0) for (auto& t : a.num) t.second = -t.second;
        if (a.num.empty()) { double v = libm1(f, 0); r.num = cst(rationalise(v)); break; }
        r = varR(keyed(f + "(" + keyOf(a)));
        for (auto& t : r.num) t.second *= s;
        break;
      }
      case R_BIN: r = varR(keyed(n->name + "(" + keyOf(nf(n->k[0])) + "|" + keyOf(nf(n->k[1])))); break;
      case R_APP: { std::string k = "F" + n->name + "("; for (T x : n->k) k += argKey(x) + "|"; r = varR(keyed(k)); break; }
      case R_ITE: {
        Rat a = nf(n->k[1]), b = nf(n->k[2]);
        if (keyOf(a) == keyOf(b)) { r = a; break; }
        r = varR(atom(n));
        break;
      }
      default: r = varR(atom(n)); break;
    }
    memo[n] = std::make_shared<Rat>(r);
    return r;
  }
};

double maxAbs(const Poly& p) { double m = 0; for (auto& t : p) m = std::max(m, std::fabs(t.second.get_d())); return m; }

EqResult tryEq(T a, T b, double tol, long budget, const std::unordered_map<T, bool>& cut, const char* how) {
  Ctx c; c.budget = budget; c.cut = cut;
  auto ra = c.nf(a), rb = c.nf(b);
  // bring to the common denominator without losing the scale of each side
  auto d = c.addR(ra, rb, -1);
  double res = maxAbs(d.num);
  if (d.num.empty()) return {1, how, 0.0, c.used};
  Poly na = ra.num, nb = rb.num;
  double scale = std::max({maxAbs(na), maxAbs(nb)});
  if (ra.den != rb.den || true) {
    double fa = 1;
    for (auto& f : d.den) for (int i = 0; i < f.second; ++i) fa *= std::max(1.0, maxAbs(c.factors[f.first]));
    if (ra.den == rb.den) fa = 1;
    scale *= fa;
  }
  scale = std::max(scale, 1e-300);
  if (res <= tol * std::max(scale, 1e-3)) return {1, std::string(how) + "+tol", res / scale, c.used};
  return {0, "residual polynomial with " + std::to_string(d.num.size()) + " terms, max coefficient " + std::to_string(res), res, c.used};
}
void dagCounts(T n, std::unordered_map<T, int>& uses, std::unordered_map<T, bool>& seen) {
  if (n->sort != REAL) return;
  uses[n]++;
  if (seen[n]) return;
  seen[n] = true;
  for (T k : n->k) dagCounts(k, uses, seen);
}
long dagSize(T n, std::unordered_map<T, long>& m) {
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  long s = 1;
  if (n->sort == REAL) for (T k : n->k) s = std::min(1000000L, s + dagSize(k, m));
  return m[n] = s;
}
}  // namespace

// Generalise shared subterms by free variables as long as the identity survives
// numerically (sound: a more general identity is proved).
static std::unordered_map<T, bool> greedyCut(T a, T b, double tol) {
  std::unordered_map<T, bool> seen; std::unordered_map<T, int> uses;
  dagCounts(a, uses, seen); dagCounts(b, uses, seen);
  std::unordered_map<T, long> sz; dagSize(a, sz); dagSize(b, sz);
  std::vector<T> cand;
  for (auto& u : uses) {
    T n = u.first;
    if (u.second < 2 || n == a || n == b) continue;
    if (n->op == R_ADD || n->op == R_SUB || n->op == R_MUL || n->op == R_DIV || n->op == R_SQRT || n->op == R_NEG) cand.push_back(n);
  }
  std::sort(cand.begin(), cand.end(), [&](T x, T y) { return sz[x] != sz[y] ? sz[x] > sz[y] : x->id < y->id; });
  if (cand.size() > 1500) cand.resize(1500);
  std::vector<std::pair<T, std::array<double, 3>>> cut;
  auto holds = [&]() {
    int good = 0;
    for (int k = 0; k < 3; ++k) {
      Sample q; q.seed = 9001 + (uint64_t)k;
      for (auto& c : cut) q.memo[c.first] = c.second[(size_t)k];
      double x = evalR(a, q), y = evalR(b, q);
      if (!std::isfinite(x) || !std::isfinite(y)) continue;
      if (std::fabs(x - y) > std::max(1e-8, tol) * std::max({1.0, std::fabs(x), std::fabs(y)})) return false;
      ++good;
    }
    return good >= 2;
  };
  std::unordered_map<T, bool> r;
  if (!holds()) return r;
  auto t0 = std::chrono::steady_clock::now();
  for (T n : cand) {
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) break;
    // reachable only through cuts already made?  cheap enough to try anyway
    std::array<double, 3> v;
    for (int k = 0; k < 3; ++k) v[(size_t)k] = 0.4 + std::fabs(natReal("cut" + std::to_string(n->id), 31 + (uint64_t)k, 0.1, 1.7));
    cut.push_back({n, v});
    if (!holds()) cut.pop_back(); else r[n] = true;
  }
  return r;
}

EqResult proveEq(T a, T b, double tol, long budget) {
  if (a == b) return {1, "syntactic", 0, 0};
  try {
    return tryEq(a, b, tol, std::min(budget, 100000L), {}, "polynomial identity");
  } catch (TooBig&) { }
  auto cut = greedyCut(a, b, tol);
  if (getenv("LFV_DEBUG")) { fprintf(stderr, "cut %zu nodes\n", cut.size()); for (auto& c : cut) fprintf(stderr, "   %s\n", show(c.first, 3).c_str()); fprintf(stderr, "A %s\nB %s\n", show(a, 12).substr(0, 2500).c_str(), show(b, 12).substr(0,2500).c_str()); }
  if (!cut.empty()) {
    try {
      auto q = tryEq(a, b, tol, budget / 2, cut, "polynomial identity (shared subterms generalised)");
      if (getenv("LFV_DEBUG")) fprintf(stderr, "cut result %d %s\n", q.verdict, q.how.c_str());
      if (q.verdict) return q;
    } catch (TooBig&) {
    }
  }
  try {
    return tryEq(a, b, tol, budget, {}, "polynomial identity");
  } catch (TooBig&) {
    return {0, "too big", 0, budget};
  }
}

// a term that is constant as a rational function (its value up to relative 1e-14)
bool constValue(T a, double& v) {
  static std::unordered_map<T, std::pair<bool, double>> memo;
  auto it = memo.find(a);
  if (it == memo.end()) {
    double x[3];
    bool ok = true;
    for (int k = 0; k < 3; ++k) { Sample q; q.seed = 7331 + (uint64_t)k; x[k] = evalR(a, q); ok = ok && std::isfinite(x[k]); }
    ok = ok && std::fabs(x[0] - x[1]) <= 1e-10 * std::max(1.0, std::fabs(x[0])) && std::fabs(x[0] - x[2]) <= 1e-10 * std::max(1.0, std::fabs(x[0]));
    if (ok) {
      try { ok = proveEq(a, rConst(x[0]), 1e-13, 20000).verdict == 1; } catch (std::exception&) { ok = false; }
    }
    it = memo.emplace(a, std::make_pair(ok, x[0])).first;
  }
  v = it->second.second;
  return it->second.first;
}

// ---- signs of real terms up to a positive factor
namespace { Ctx& signCtx() { static Ctx* c = new Ctx; return *c; } }
bool signKey(T diff, std::string& key, int& flip) {
  struct E { bool ok; std::string key; int flip; };
  static std::unordered_map<T, E> memo;
  auto it = memo.find(diff);
  if (it == memo.end()) {
    E e{false, "", 1};
    try {
      Ctx& c = signCtx();
      c.used = 0; c.budget = 20000;
      auto r = c.nf(diff);
      Poly p = r.num;
      for (auto& d : r.den) if (d.second & 1) p = c.mulRaw(p, c.factors[d.first]);
      { Ctx::Rat q; q.num = p; q = c.reduce(q); p = q.num; for (auto& d : q.den) if (d.second & 1) p = c.mulRaw(p, c.factors[d.first]); }
      if (p.empty()) { e.ok = true; e.key = "0"; }
      else {
        mpq_class lc = p[0].second; e.flip = lc < 0 ? -1 : 1;
        for (auto& t : p) t.second /= lc;
        e.ok = true; e.key = c.keyOf(p);
        if (p.size() == 1 && c.monos[p[0].first].empty()) e.key = "1";
      }
    } catch (std::exception&) { }
    it = memo.emplace(diff, e).first;
  }
  key = it->second.key; flip = it->second.flip;
  return it->second.ok;
}

T derive(T a, T h) {
  std::unordered_map<T, T> memo;
  std::function<T(T)> D = [&](T n) -> T {
    if (n == h) return rConst(1);
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    T r = rConst(0);
    auto& k = n->k;
    switch (n->op) {
      case R_ADD: r = rAdd(D(k[0]), D(k[1])); break;
      case R_SUB: r = rSub(D(k[0]), D(k[1])); break;
      case R_NEG: r = rNeg(D(k[0])); break;
      case R_MUL: r = rAdd(rMul(D(k[0]), k[1]), rMul(k[0], D(k[1]))); break;
      case R_DIV: { T da = D(k[0]), db = D(k[1]); r = rSub(rDiv(da, k[1]), rDiv(rMul(k[0], db), rMul(k[1], k[1]))); break; }
      case R_SQRT: r = rDiv(D(k[0]), rMul(rConst(2), n)); break;
      case R_ABS: { T d = D(k[0]); r = d->op == R_CONST && d->d == 0 ? d : rMul(rDiv(n, k[0]), d); break; }
      case R_ITE: { T x = D(k[1]), y = D(k[2]); r = x == y ? x : rIte(k[0], x, y); break; }
      case R_UN: {
        T d = D(k[0]);
        if (d->op == R_CONST && d->d == 0) { r = d; break; }
        if (n->name == "sin") r = rMul(rUn("cos", k[0]), d);
        else if (n->name == "cos") r = rNeg(rMul(rUn("sin", k[0]), d));
        else if (n->name == "exp") r = rMul(n, d);
        else if (n->name == "log") r = rDiv(d, k[0]);
        else throw std::runtime_error("derivative of " + n->name);
        break;
      }
      case R_APP: case R_BIN: {
        for (T x : k) { if (x->sort != REAL) continue; T d = D(x); if (!(d->op == R_CONST && d->d == 0)) throw std::runtime_error("derivative of " + n->name); }
        break;
      }
      default: break;
    }
    memo[n] = r;
    return r;
  };
  return D(a);
}
}  // namespace lfv
