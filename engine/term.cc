#include "term.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <unordered_set>

#include "../rt/natfun.h"

namespace lfv {
bool constValue(T a, double& v);  // poly.cc
static const i128 INF = ((i128)1) << 100;
static i128 sat(i128 v) { return v > INF ? INF : (v < -INF ? -INF : v); }
static i128 satMul(i128 a, i128 b) {
  if (a == 0 || b == 0) return 0;
  i128 aa = a < 0 ? -a : a, bb = b < 0 ? -b : b;
  if (aa > INF / bb) return ((a < 0) != (b < 0)) ? -INF : INF;
  return a * b;
}
std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0;
  unsigned __int128 u = n ? -(unsigned __int128)v : v;
  std::string s;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (n) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

struct KeyHash {
  size_t operator()(const Node* n) const {
    uint64_t h = lfv_mix(n->op * 131 + 7);
    for (T k : n->k) h = lfv_mix(h ^ k->id);
    for (auto& m : n->mons) {
      for (T k : m.first) h = lfv_mix(h ^ (k->id + 5));
      h = lfv_mix(h ^ (uint64_t)m.second);
    }
    h = lfv_mix(h ^ (uint64_t)n->c);
    uint64_t b; memcpy(&b, &n->d, 8);
    h = lfv_mix(h ^ b);
    if (!n->name.empty()) h = lfv_hash(n->name.c_str(), h);
    return h;
  }
};
struct KeyEq {
  bool operator()(const Node* a, const Node* b) const {
    return a->op == b->op && a->k == b->k && a->c == b->c && memcmp(&a->d, &b->d, 8) == 0 && a->mons == b->mons &&
           a->name == b->name && ((a->op != I_SYM && a->op != I_APP) || (a->lo == b->lo && a->hi == b->hi));
  }
};
static std::unordered_set<const Node*, KeyHash, KeyEq>& table() {
  static std::unordered_set<const Node*, KeyHash, KeyEq> t;
  return t;
}
size_t nodeCount() { return table().size(); }
static T intern(Node&& n) {
  auto& t = table();
  auto it = t.find(&n);
  if (it != t.end()) return *it;
  Node* p = new Node(std::move(n));
  p->id = (uint32_t)t.size() + 1;
  for (T k : p->k) p->hasBound |= k->hasBound;
  for (auto& m : p->mons) for (T k : m.first) p->hasBound |= k->hasBound;
  t.insert(p);
  return p;
}
static Node mk(Op op, Sort s) { Node n; n.op = op; n.sort = s; n.id = 0; return n; }

// ---------------------------------------------------------------- integers
T iConst(i128 v) { Node n = mk(I_CONST, INT); n.c = v; n.lo = n.hi = v; return intern(std::move(n)); }
T iSym(const std::string& name, i128 lo, i128 hi) {
  if (lo == hi) return iConst(lo);
  Node n = mk(I_SYM, INT); n.name = name; n.lo = lo; n.hi = hi;
  return intern(std::move(n));
}
bool isC(T a, i128* v) { if (a->op != I_CONST) return false; if (v) *v = a->c; return true; }

typedef std::vector<std::pair<Mono, i128>> Mons;
static bool monoLess(const Mono& a, const Mono& b) {
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](T x, T y) { return x->id < y->id; });
}
static void toPoly(T a, i128& c, Mons& m) {
  if (a->op == I_CONST) { c = a->c; return; }
  if (a->op == I_POLY) { c = a->c; m = a->mons; return; }
  c = 0;
  m.push_back({{a}, 1});
}
static T fromPoly(i128 c, Mons& m) {
  m.erase(std::remove_if(m.begin(), m.end(), [](auto& x) { return x.second == 0; }), m.end());
  if (m.empty()) return iConst(c);
  if (c == 0 && m.size() == 1 && m[0].second == 1 && m[0].first.size() == 1) return m[0].first[0];
  Node n = mk(I_POLY, INT);
  n.c = c;
  n.mons = m;
  i128 lo = c, hi = c;
  for (auto& t : m) {
    i128 l = 1, h = 1;
    for (size_t i = 0; i < t.first.size(); ++i) {
      T x = t.first[i];
      if (i + 1 < t.first.size() && t.first[i + 1] == x && x->lo < 0) {  // square
        i128 a = std::max(x->hi, (i128)-x->lo), s2 = satMul(a, a);
        i128 c2[4] = {satMul(l, (i128)0), satMul(l, s2), satMul(h, (i128)0), satMul(h, s2)};
        l = *std::min_element(c2, c2 + 4); h = *std::max_element(c2, c2 + 4);
        ++i;
        continue;
      }
      i128 c4[4] = {satMul(l, x->lo), satMul(l, x->hi), satMul(h, x->lo), satMul(h, x->hi)};
      l = *std::min_element(c4, c4 + 4); h = *std::max_element(c4, c4 + 4);
    }
    i128 a = satMul(l, t.second), b = satMul(h, t.second);
    lo = sat(lo + std::min(a, b)); hi = sat(hi + std::max(a, b));
  }
  n.lo = lo; n.hi = hi;
  return intern(std::move(n));
}
static void addTo(Mons& r, const Mons& b, i128 s) {
  Mons out; out.reserve(r.size() + b.size());
  size_t i = 0, j = 0;
  while (i < r.size() || j < b.size()) {
    if (j == b.size() || (i < r.size() && monoLess(r[i].first, b[j].first))) out.push_back(std::move(r[i++]));
    else if (i == r.size() || monoLess(b[j].first, r[i].first)) { out.push_back({b[j].first, b[j].second * s}); ++j; }
    else { i128 v = r[i].second + b[j].second * s; if (v != 0) out.push_back({r[i].first, v}); ++i; ++j; }
  }
  r.swap(out);
}
T iAdd(T a, T b) {
  if (a->op == I_CONST && b->op == I_CONST) return iConst(a->c + b->c);
  if (a->op == I_CONST && a->c == 0) return b;
  if (b->op == I_CONST && b->c == 0) return a;
  i128 c1, c2; Mons m1, m2; toPoly(a, c1, m1); toPoly(b, c2, m2);
  addTo(m1, m2, 1);
  return fromPoly(c1 + c2, m1);
}
T iSub(T a, T b) {
  if (a == b) return iConst(0);
  i128 c1, c2; Mons m1, m2; toPoly(a, c1, m1); toPoly(b, c2, m2);
  addTo(m1, m2, -1);
  return fromPoly(c1 - c2, m1);
}
T iNeg(T a) { return iScale(a, -1); }
T iScale(T a, i128 s) {
  if (s == 1) return a;
  if (s == 0) return iConst(0);
  i128 c; Mons m; toPoly(a, c, m);
  for (auto& t : m) t.second *= s;
  return fromPoly(c * s, m);
}
T iMul(T a, T b) {
  if (a->op == I_CONST) return iScale(b, a->c);
  if (b->op == I_CONST) return iScale(a, b->c);
  i128 c1, c2; Mons m1, m2; toPoly(a, c1, m1); toPoly(b, c2, m2);
  std::map<std::vector<uint32_t>, std::pair<Mono, i128>> acc;
  auto put = [&](Mono m, i128 c) {
    std::sort(m.begin(), m.end(), [](T x, T y) { return x->id < y->id; });
    std::vector<uint32_t> key; for (T t : m) key.push_back(t->id);
    auto& e = acc[key]; e.first = m; e.second += c;
  };
  for (auto& x : m1) { if (c2 != 0) put(x.first, x.second * c2);
    for (auto& y : m2) { Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); put(m, x.second * y.second); } }
  for (auto& y : m2) if (c1 != 0) put(y.first, y.second * c1);
  Mons r; for (auto& e : acc) if (e.second.second != 0) r.push_back(e.second);
  std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return monoLess(x.first, y.first); });
  return fromPoly(c1 * c2, r);
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
static i128 fmod_(i128 a, i128 b) { return a - fdiv(a, b) * b; }
T iDiv(T a, T b) {
  i128 d;
  if (isC(b, &d)) {
    if (d == 1) return a;
    if (a->op == I_CONST) return iConst(fdiv(a->c, d));
    i128 c; Mons m; toPoly(a, c, m);
    Mons q, r;
    for (auto& t : m) { if (t.second % d == 0) q.push_back({t.first, t.second / d}); else r.push_back(t); }
    i128 cq = fdiv(c, d), cr = c - cq * d;
    if (r.empty()) return fromPoly(cq, q);
    if (!q.empty() || cq != 0) {
      T rest = fromPoly(cr, r);
      T restq = iDiv(rest, b);
      return iAdd(fromPoly(cq, q), restq);
    }
    if (a->lo >= 0 && a->hi < d) return iConst(0);
    if (a->op == I_DIV && a->k[1]->op == I_CONST) return iDiv(a->k[0], iConst(a->k[1]->c * d));
  } else {
    if (a->lo >= 0 && a->hi < b->lo) return iConst(0);
    // (b*q + r) / b
    i128 c; Mons m; toPoly(a, c, m);
    if (b->op != I_POLY) {
      Mons q, r;
      for (auto& t : m) {
        auto it = std::find(t.first.begin(), t.first.end(), b);
        if (it != t.first.end()) {
          Mono mm = t.first; mm.erase(mm.begin() + (it - t.first.begin()));
          q.push_back({mm, t.second});
        } else r.push_back(t);
      }
      if (!q.empty()) {
        i128 qc = 0; Mons qq; for (auto& t : q) if (t.first.empty()) qc += t.second; else qq.push_back(t);
        std::sort(qq.begin(), qq.end(), [](auto& x, auto& y) { return monoLess(x.first, y.first); });
        return iAdd(fromPoly(qc, qq), iDiv(fromPoly(c, r), b));
      }
    }
  }
  Node n = mk(I_DIV, INT); n.k = {a, b};
  if (isC(b, &d)) { n.lo = fdiv(a->lo, d); n.hi = fdiv(a->hi, d); }
  else { i128 m = std::max(a->hi < 0 ? -a->hi : a->hi, a->lo < 0 ? -a->lo : a->lo); n.lo = a->lo >= 0 ? 0 : -m; n.hi = a->hi < 0 ? 0 : m; if (a->lo>=0 && b->lo>0) n.hi = a->hi / b->lo; }
  return intern(std::move(n));
}
T iMod(T a, T b) {
  i128 d;
  if (isC(b, &d)) {
    if (d == 1) return iConst(0);
    if (a->op == I_CONST) return iConst(fmod_(a->c, d));
    i128 c; Mons m; toPoly(a, c, m);
    Mons r; bool ch = false;
    for (auto& t : m) { i128 v = fmod_(t.second, d); if (v != t.second) ch = true; if (v != 0) r.push_back({t.first, v}); }
    i128 cr = fmod_(c, d);
    if (ch || cr != c) { T x = fromPoly(cr, r); if (x->op == I_CONST) return iConst(fmod_(x->c, d)); if (a->lo >= 0 && a->hi < d) return a; if (x->lo >= 0 && x->hi < d) return x; a = x; }
    if (a->lo >= 0 && a->hi < d) return a;
  } else {
    if (a->lo >= 0 && a->hi < b->lo) return a;
    if (a == b) return iConst(0);
  }
  Node n = mk(I_MOD, INT); n.k = {a, b}; n.lo = 0; n.hi = sat(b->hi - 1);
  return intern(std::move(n));
}
T iSdiv(T a, T b) {
  if (a->op == I_CONST && b->op == I_CONST) return iConst(a->c / b->c);
  i128 d;
  if (isC(b, &d) && d > 0) {
    if (a->lo >= 0) return iDiv(a, b);
    i128 c; Mons m; toPoly(a, c, m);
    bool ok = c % d == 0; for (auto& t : m) ok &= t.second % d == 0;
    if (ok) return iDiv(a, b);
  }
  if (a->lo >= 0 && b->lo > 0) return iDiv(a, b);
  Node n = mk(I_SDIV, INT); n.k = {a, b};
  i128 m = std::max(a->hi < 0 ? -a->hi : a->hi, a->lo < 0 ? -a->lo : a->lo); n.lo = -m; n.hi = m;
  return intern(std::move(n));
}
T iSrem(T a, T b) {
  if (a->op == I_CONST && b->op == I_CONST) return iConst(a->c % b->c);
  if (a->lo >= 0 && b->lo > 0) return iMod(a, b);
  Node n = mk(I_SREM, INT); n.k = {a, b};
  i128 m = std::max(b->hi < 0 ? -b->hi : b->hi, b->lo < 0 ? -b->lo : b->lo); n.lo = a->lo >= 0 ? 0 : -m; n.hi = m;
  return intern(std::move(n));
}
T iIte(T c, T a, T b) {
  if (isTrue(c) || a == b) return a;
  if (isFalse(c)) return b;
  if (a->op == I_CONST && b->op == I_CONST) {
    // a = b + (a-b)*b2i(c)
    return iAdd(b, iScale(iOfBool(c), a->c - b->c));
  }
  if (c->op == B_NOT) return iIte(c->k[0], b, a);
  Node n = mk(I_ITE, INT); n.k = {c, a, b}; n.lo = std::min(a->lo, b->lo); n.hi = std::max(a->hi, b->hi);
  return intern(std::move(n));
}
T iOfBool(T b) {
  if (isTrue(b)) return iConst(1);
  if (isFalse(b)) return iConst(0);
  if (b->op == B_NOT) return iSub(iConst(1), iOfBool(b->k[0]));
  Node n = mk(I_B2I, INT); n.k = {b}; n.lo = 0; n.hi = 1;
  return intern(std::move(n));
}
T iApp(const std::string& f, const std::vector<T>& args, i128 lo, i128 hi) {
  if (lo == hi) return iConst(lo);
  Node n = mk(I_APP, INT); n.name = f; n.k = args; n.lo = lo; n.hi = hi;
  return intern(std::move(n));
}
static i128 pw(int w) { return ((i128)1) << w; }
static i128 symMod(i128 v, int w) {
  if (w >= 120) return v;
  i128 M = pw(w), r = fmod_(v, M);
  return r >= M / 2 ? r - M : r;
}
T iReduce(int w, T p) {
  if (p->op == I_CONST) return iConst(symMod(p->c, w));
  if (p->op != I_POLY) return p;
  bool ch = symMod(p->c, w) != p->c;
  for (auto& t : p->mons) ch |= symMod(t.second, w) != t.second;
  if (!ch) return p;
  Mons m; for (auto& t : p->mons) { i128 v = symMod(t.second, w); if (v != 0) m.push_back({t.first, v}); }
  return fromPoly(symMod(p->c, w), m);
}
T iWrapU(int w, T p) {
  i128 M = pw(w);
  if (p->lo >= 0 && p->hi < M) return p;
  if (p->op == I_CONST) return iConst(fmod_(p->c, M));
  i128 k = fdiv(p->lo, M);
  if (k == fdiv(p->hi, M)) return iSub(p, iConst(k * M));
  p = iReduce(w, p);
  if (p->lo >= 0 && p->hi < M) return p;
  Node n = mk(I_WRAPU, INT); n.k = {p}; n.c = w; n.lo = 0; n.hi = M - 1;
  return intern(std::move(n));
}
T iWrapS(int w, T p) {
  i128 M = pw(w), H = M / 2;
  if (p->lo >= -H && p->hi < H) return p;
  if (p->op == I_CONST) return iConst(symMod(p->c, w));
  i128 k = fdiv(p->lo + H, M);
  if (k == fdiv(p->hi + H, M)) return iSub(p, iConst(k * M));
  p = iReduce(w, p);
  if (p->lo >= -H && p->hi < H) return p;
  Node n = mk(I_WRAPS, INT); n.k = {p}; n.c = w; n.lo = -H; n.hi = H - 1;
  return intern(std::move(n));
}
T iBit(Op op, int w, T a, T b) {  // a,b in unsigned range
  i128 x, y;
  if (isC(a, &x) && isC(b, &y)) return iConst(op == I_BITAND ? (x & y) : op == I_BITOR ? (x | y) : (x ^ y));
  if (isC(a)) std::swap(a, b);
  bool bc = isC(b, &y);
  if (op == I_BITAND) {
    if (a == b) return a;
    if (bc) {
      if (y == 0) return b;
      if ((y & (y + 1)) == 0) return iMod(a, iConst(y + 1));
      i128 z = pw(w) - 1 - y;
      if ((z & (z + 1)) == 0) return iSub(a, iMod(a, iConst(z + 1)));
      if ((y & (y - 1)) == 0) return iScale(iMod(iDiv(a, iConst(y)), iConst(2)), y);
    }
    if (a->op == I_B2I && b->op == I_B2I) return iOfBool(bAnd(a->k[0], b->k[0]));
  }
  if (op == I_BITOR) {
    if (a == b) return a;
    if (bc && y == 0) return a;
    if (a->op == I_B2I && b->op == I_B2I) return iOfBool(bOr(a->k[0], b->k[0]));
    if (bc && y > 0 && a->lo >= 0) {  // constant low bits below the granularity of a
      i128 g = 0, c; Mons m; toPoly(a, c, m);
      auto gcd = [](i128 p, i128 q) { p = p < 0 ? -p : p; q = q < 0 ? -q : q; while (q) { i128 t = p % q; p = q; q = t; } return p; };
      g = c; for (auto& t : m) g = gcd(g, t.second);
      i128 p2 = g & -g;
      if (p2 > y) return iAdd(a, b);
    }
    if (!bc) { // disjoint: one multiple of 2^k, other < 2^k
      for (int s = 0; s < 2; ++s, std::swap(a, b)) {
        i128 c; Mons m; toPoly(a, c, m); i128 g = c < 0 ? -c : c;
        for (auto& t : m) { i128 p = g, q = t.second < 0 ? -t.second : t.second; while (q) { i128 r = p % q; p = q; q = r; } g = p; }
        i128 p2 = g & -g;
        if (b->lo >= 0 && b->hi < p2) return iAdd(a, b);
      }
    }
  }
  if (op == I_BITXOR) {
    if (a == b) return iConst(0);
    if (bc && y == 0) return a;
    if (bc && y == pw(w) - 1) return iSub(b, a);
    if (bc && y == 1 && a->lo >= 0 && a->hi <= 1) return iSub(b, a);
    if (a->op == I_B2I && b->op == I_B2I) return iOfBool(bXor(a->k[0], b->k[0]));
  }
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(op, INT); n.k = {a, b}; n.c = w; n.lo = 0;
  i128 m = std::max(a->hi, b->hi), q = 1; while (q <= m) q <<= 1;
  n.hi = op == I_BITAND ? std::min(a->hi, b->hi) : q - 1;
  return intern(std::move(n));
}
T iFloor(T r) {
  if (r->op == R_CONST) return iConst((i128)std::floor(r->d));
  if (r->op == R_OFINT) return r->k[0];
  Node n = mk(I_FLOOR, INT); n.k = {r}; n.lo = -INF; n.hi = INF; return intern(std::move(n));
}
T iTrunc(T r) {
  if (r->op == R_CONST) return iConst((i128)std::trunc(r->d));
  if (r->op == R_OFINT) return r->k[0];
  if (r->rsign & 1) { T f = iFloor(r); return f; }
  Node n = mk(I_TRUNC, INT); n.k = {r}; n.lo = -INF; n.hi = INF; return intern(std::move(n));
}

// ---------------------------------------------------------------- booleans
T bConst(bool v) { Node n = mk(B_CONST, BOOL); n.c = v; return intern(std::move(n)); }
bool isTrue(T b) { return b->op == B_CONST && b->c; }
bool isFalse(T b) { return b->op == B_CONST && !b->c; }
T bLe0(T p) {
  if (p->hi <= 0) return bConst(true);
  if (p->lo > 0) return bConst(false);
  i128 c; Mons m; toPoly(p, c, m);
  i128 g = 0;
  for (auto& t : m) { i128 a = g, b = t.second < 0 ? -t.second : t.second; while (b) { i128 r = a % b; a = b; b = r; } g = a; }
  if (g > 1) { for (auto& t : m) t.second /= g; c = -fdiv(-c, g); p = fromPoly(c, m); }  // ceil(c/g)
  if (p->op == I_POLY && p->mons.size() == 1 && p->mons[0].first.size() == 1 && p->mons[0].first[0]->op == I_B2I) {
    T b = p->mons[0].first[0]->k[0]; i128 k = p->mons[0].second;
    bool t = k + p->c <= 0, f = p->c <= 0;
    return t && f ? bConst(true) : t ? b : f ? bNot(b) : bConst(false);
  }
  if (p->op == I_B2I) return bNot(p->k[0]);
  Node n = mk(B_LE0, BOOL); n.k = {p};
  return intern(std::move(n));
}
T bEq0(T p) {
  if (p->lo > 0 || p->hi < 0) return bConst(false);
  if (p->op == I_CONST) return bConst(p->c == 0);
  i128 c; Mons m; toPoly(p, c, m);
  i128 g = 0;
  for (auto& t : m) { i128 a = g, b = t.second < 0 ? -t.second : t.second; while (b) { i128 r = a % b; a = b; b = r; } g = a; }
  if (g > 1) { if (c % g != 0) return bConst(false); for (auto& t : m) t.second /= g; c /= g; }
  if (!m.empty() && m[0].second < 0) { for (auto& t : m) t.second = -t.second; c = -c; }
  p = fromPoly(c, m);
  if (m.size() == 1 && m[0].first.size() == 1 && m[0].first[0]->op == I_B2I) {
    T b = m[0].first[0]->k[0]; i128 k = m[0].second;
    bool t = k + c == 0, f = c == 0;
    return t && f ? bConst(true) : t ? b : f ? bNot(b) : bConst(false);
  }
  if (p->op == I_ITE && p->k[1]->op == I_CONST) return bIte(p->k[0], bEq0(p->k[1]), bEq0(p->k[2]));
  if (p->op == I_ITE && p->k[2]->op == I_CONST) return bIte(p->k[0], bEq0(p->k[1]), bEq0(p->k[2]));
  Node n = mk(B_EQ0, BOOL); n.k = {p};
  return intern(std::move(n));
}
T bLe(T a, T b) { return bLe0(iSub(a, b)); }
T bLt(T a, T b) { return bLe0(iAdd(iSub(a, b), iConst(1))); }
T bEq(T a, T b) { return bEq0(iSub(a, b)); }
T bNot(T a) {
  if (a->op == B_CONST) return bConst(!a->c);
  if (a->op == B_NOT) return a->k[0];
  if (a->op == B_LE0) return bLe0(iSub(iConst(1), a->k[0]));
  if (a->op == B_RLT) return bRLe(a->k[1], a->k[0]);
  if (a->op == B_RLE) return bRLt(a->k[1], a->k[0]);
  Node n = mk(B_NOT, BOOL); n.k = {a}; return intern(std::move(n));
}
T bAnd(T a, T b) {
  if (isFalse(a) || isFalse(b)) return bConst(false);
  if (isTrue(a) || a == b) return b;
  if (isTrue(b)) return a;
  if (bNot(a) == b) return bConst(false);
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(B_AND, BOOL); n.k = {a, b}; return intern(std::move(n));
}
T bOr(T a, T b) {
  if (isTrue(a) || isTrue(b)) return bConst(true);
  if (isFalse(a) || a == b) return b;
  if (isFalse(b)) return a;
  if (bNot(a) == b) return bConst(true);
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(B_OR, BOOL); n.k = {a, b}; return intern(std::move(n));
}
T bXor(T a, T b) {
  if (a->op == B_CONST) return a->c ? bNot(b) : b;
  if (b->op == B_CONST) return b->c ? bNot(a) : a;
  if (a == b) return bConst(false);
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(B_XOR, BOOL); n.k = {a, b}; return intern(std::move(n));
}
T bIte(T c, T a, T b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->op == B_CONST) return a->c ? bOr(c, b) : bAnd(bNot(c), b);
  if (b->op == B_CONST) return b->c ? bOr(bNot(c), a) : bAnd(c, a);
  Node n = mk(B_ITE, BOOL); n.k = {c, a, b}; return intern(std::move(n));
}
T bApp(const std::string& f, const std::vector<T>& args) { Node n = mk(B_APP, BOOL); n.name = f; n.k = args; return intern(std::move(n)); }
T bRLt(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return bConst(a->d < b->d);
  if (a == b) return bConst(false);
  if (a->op == R_CONST && a->d < 0 && (b->rsign & 1)) return bConst(true);
  if (a->op == R_CONST && a->d <= 0 && (b->rsign & 2)) return bConst(true);
  if (b->op == R_CONST && b->d <= 0 && (a->rsign & 1)) return bConst(false);
  if (a->op == R_OFINT && b->op == R_OFINT) return bLt(a->k[0], b->k[0]);
  if (a->op == R_OFINT && b->op == R_CONST && std::abs(b->d) < 1e30) return bLt(a->k[0], iConst((i128)std::ceil(b->d)));
  if (b->op == R_OFINT && a->op == R_CONST && std::abs(a->d) < 1e30) return bLt(iConst((i128)std::floor(a->d)), b->k[0]);
  Node n = mk(B_RLT, BOOL); n.k = {a, b}; return intern(std::move(n));
}
T bRLe(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return bConst(a->d <= b->d);
  if (a == b) return bConst(true);
  if (a->op == R_CONST && a->d <= 0 && (b->rsign & 1)) return bConst(true);
  if (b->op == R_CONST && b->d < 0 && (a->rsign & 1)) return bConst(false);
  if (b->op == R_CONST && b->d <= 0 && (a->rsign & 2)) return bConst(false);
  if (a->op == R_OFINT && b->op == R_OFINT) return bLe(a->k[0], b->k[0]);
  if (a->op == R_OFINT && b->op == R_CONST && std::abs(b->d) < 1e30) return bLe(a->k[0], iConst((i128)std::floor(b->d)));
  if (b->op == R_OFINT && a->op == R_CONST && std::abs(a->d) < 1e30) return bLe(iConst((i128)std::ceil(a->d)), b->k[0]);
  Node n = mk(B_RLE, BOOL); n.k = {a, b}; return intern(std::move(n));
}
T bREq(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return bConst(a->d == b->d);
  if (a == b) return bConst(true);
  if (a->op == R_OFINT && b->op == R_OFINT) return bEq(a->k[0], b->k[0]);
  if (a->op == R_OFINT && b->op == R_CONST) { if (std::floor(b->d) != b->d) return bConst(false); if (std::abs(b->d) < 1e30) return bEq(a->k[0], iConst((i128)b->d)); }
  if (b->op == R_OFINT && a->op == R_CONST) return bREq(b, a);
  if (a->op == R_CONST && a->d <= 0 && (b->rsign & 2)) return bConst(false);
  if (b->op == R_CONST && b->d <= 0 && (a->rsign & 2)) return bConst(false);
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(B_REQ, BOOL); n.k = {a, b}; return intern(std::move(n));
}

// ---------------------------------------------------------------- reals
T rConst(double d) {
  if (d == 0) d = 0.0;
  Node n = mk(R_CONST, REAL); n.d = d;
  n.rsign = d > 0 ? 3 : d == 0 ? 1 : 0;
  return intern(std::move(n));
}
T rSym(const std::string& name, double slo, double shi) {
  Node n = mk(R_SYM, REAL); n.name = name; n.slo = slo; n.shi = shi; return intern(std::move(n));
}
static bool isR(T a, double v) { return a->op == R_CONST && a->d == v; }
T rNeg(T a) {
  if (a->op == R_CONST) return rConst(-a->d);
  if (a->op == R_NEG) return a->k[0];
  Node n = mk(R_NEG, REAL); n.k = {a}; return intern(std::move(n));
}
T rAdd(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return rConst(a->d + b->d);
  if (isR(a, 0)) return b;
  if (isR(b, 0)) return a;
  if (a->op == R_OFINT && b->op == R_OFINT) return rOfInt(iAdd(a->k[0], b->k[0]));
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(R_ADD, REAL); n.k = {a, b};
  n.rsign = (a->rsign & b->rsign & 1) | (((a->rsign | b->rsign) & 2) && (a->rsign & b->rsign & 1) ? 2 : 0);
  return intern(std::move(n));
}
T rSub(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return rConst(a->d - b->d);
  if (isR(b, 0)) return a;
  if (isR(a, 0)) return rNeg(b);
  if (a == b) return rConst(0);
  Node n = mk(R_SUB, REAL); n.k = {a, b}; return intern(std::move(n));
}
T rMul(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return rConst(a->d * b->d);
  if (isR(a, 0) || isR(b, 0)) return rConst(0);
  if (isR(a, 1)) return b;
  if (isR(b, 1)) return a;
  if (isR(a, -1)) return rNeg(b);
  if (isR(b, -1)) return rNeg(a);
  if (a->id > b->id) std::swap(a, b);
  Node n = mk(R_MUL, REAL); n.k = {a, b};
  n.rsign = a == b ? 1 : 0;
  n.rsign |= (a->rsign & b->rsign & 1) | (a->rsign & b->rsign & 2);
  return intern(std::move(n));
}
T rDiv(T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return rConst(a->d / b->d);
  if (isR(b, 1)) return a;
  if (isR(a, 0)) return a;
  Node n = mk(R_DIV, REAL); n.k = {a, b};
  n.rsign = (a->rsign & b->rsign & 1) | (a->rsign & b->rsign & 2);
  return intern(std::move(n));
}
T rSqrt(T a) {
  if (a->op == R_CONST) return rConst(std::sqrt(a->d));
  Node n = mk(R_SQRT, REAL); n.k = {a}; n.rsign = 1 | (a->rsign & 2); return intern(std::move(n));
}
T rAbs(T a) {
  if (a->op == R_CONST) return rConst(std::fabs(a->d));
  if (a->rsign & 1) return a;
  Node n = mk(R_ABS, REAL); n.k = {a}; n.rsign = 1; return intern(std::move(n));
}
double libm1(const std::string& f, double x) {
  if (f == "sin") return std::sin(x);
  if (f == "cos") return std::cos(x);
  if (f == "tan") return std::tan(x);
  if (f == "asin") return std::asin(x);
  if (f == "acos") return std::acos(x);
  if (f == "atan") return std::atan(x);
  if (f == "exp") return std::exp(x);
  if (f == "exp2") return std::exp2(x);
  if (f == "log") return std::log(x);
  if (f == "log2") return std::log2(x);
  if (f == "log10") return std::log10(x);
  if (f == "sinh") return std::sinh(x);
  if (f == "cosh") return std::cosh(x);
  if (f == "tanh") return std::tanh(x);
  if (f == "floor") return std::floor(x);
  if (f == "ceil") return std::ceil(x);
  if (f == "round") return std::round(x);
  if (f == "rint") return std::rint(x);
  if (f == "nearbyint") return std::nearbyint(x);
  if (f == "trunc") return std::trunc(x);
  if (f == "lgamma") return std::lgamma(x);
  if (f == "tgamma") return std::tgamma(x);
  if (f == "cbrt") return std::cbrt(x);
  if (f == "sqrt") return std::sqrt(x);
  if (f == "fabs") return std::fabs(x);
  if (f == "expm1") return std::expm1(x);
  if (f == "log1p") return std::log1p(x);
  if (f == "erf") return std::erf(x);
  return NAN;
}
double libm2(const std::string& f, double x, double y) {
  if (f == "pow") return std::pow(x, y);
  if (f == "atan2") return std::atan2(x, y);
  if (f == "fmod") return std::fmod(x, y);
  if (f == "hypot") return std::hypot(x, y);
  if (f == "fmin") return std::fmin(x, y);
  if (f == "fmax") return std::fmax(x, y);
  if (f == "copysign") return std::copysign(x, y);
  if (f == "ldexp") return std::ldexp(x, (int)y);
  return NAN;
}
T rUn(const std::string& f, T a) {
  if (a->op == R_CONST) return rConst(libm1(f, a->d));
  if (f == "sqrt") return rSqrt(a);
  if (f == "fabs") return rAbs(a);
  if (f == "floor") return rOfInt(iFloor(a));
  if (f == "ceil") return rNeg(rOfInt(iFloor(rNeg(a))));
  if (f == "trunc") return rOfInt(iTrunc(a));
  double cv;
  if (constValue(a, cv)) return rConst(libm1(f, cv));
  Node n = mk(R_UN, REAL); n.name = f; n.k = {a}; if (f == "exp" || f == "cosh") n.rsign = 3; return intern(std::move(n));
}
T rBin(const std::string& f, T a, T b) {
  if (a->op == R_CONST && b->op == R_CONST) return rConst(libm2(f, a->d, b->d));
  if (f == "fmin") return rIte(bRLt(a, b), a, b);
  if (f == "fmax") return rIte(bRLt(a, b), b, a);
  if (f == "hypot") return rSqrt(rAdd(rMul(a, a), rMul(b, b)));
  if (f == "pow" && b->op == R_CONST) {
    double e = b->d;
    if (e == 0) return rConst(1);
    if (e == 0.5) return rSqrt(a);
    if (e == std::floor(e) && std::fabs(e) <= 64) {
      int n = (int)std::fabs(e); T r = rConst(1), p = a;
      while (n) { if (n & 1) r = rMul(r, p); n >>= 1; if (n) p = rMul(p, p); }
      return e < 0 ? rDiv(rConst(1), r) : r;
    }
  }
  Node n = mk(R_BIN, REAL); n.name = f; n.k = {a, b}; return intern(std::move(n));
}
T rIte(T c, T a, T b) {
  if (isTrue(c) || a == b) return a;
  if (isFalse(c)) return b;
  if (c->op == B_NOT) return rIte(c->k[0], b, a);
  // |x|
  Node n = mk(R_ITE, REAL); n.k = {c, a, b}; n.rsign = a->rsign & b->rsign; return intern(std::move(n));
}
T rApp(const std::string& f, const std::vector<T>& args) { Node n = mk(R_APP, REAL); n.name = f; n.k = args; return intern(std::move(n)); }
T rOfInt(T i) {
  if (i->op == I_CONST) return rConst((double)i->c);
  Node n = mk(R_OFINT, REAL); n.k = {i}; n.rsign = i->lo > 0 ? 3 : i->lo >= 0 ? 1 : 0; return intern(std::move(n));
}

// ---------------------------------------------------------------- substitution etc.
T Subst::operator()(T n) {
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  T r = n;
  auto& S = *this;
  switch (n->op) {
    case I_CONST: case I_SYM: case B_CONST: case R_CONST: case R_SYM: return n;
    case I_POLY: {
      r = iConst(n->c);
      bool same = true;
      for (auto& t : n->mons) for (T x : t.first) if (S(x) != x) same = false;
      if (same) { r = n; break; }
      for (auto& t : n->mons) { T p = iConst(t.second); for (T x : t.first) p = iMul(p, S(x)); r = iAdd(r, p); }
      break;
    }
    case I_DIV: r = iDiv(S(n->k[0]), S(n->k[1])); break;
    case I_MOD: r = iMod(S(n->k[0]), S(n->k[1])); break;
    case I_SDIV: r = iSdiv(S(n->k[0]), S(n->k[1])); break;
    case I_SREM: r = iSrem(S(n->k[0]), S(n->k[1])); break;
    case I_WRAPU: r = iWrapU((int)n->c, S(n->k[0])); break;
    case I_WRAPS: r = iWrapS((int)n->c, S(n->k[0])); break;
    case I_ITE: r = iIte(S(n->k[0]), S(n->k[1]), S(n->k[2])); break;
    case I_B2I: r = iOfBool(S(n->k[0])); break;
    case I_APP: { std::vector<T> a; for (T x : n->k) a.push_back(S(x)); r = iApp(n->name, a, n->lo, n->hi); break; }
    case I_BITAND: case I_BITOR: case I_BITXOR: r = iBit(n->op, (int)n->c, S(n->k[0]), S(n->k[1])); break;
    case I_FLOOR: r = iFloor(S(n->k[0])); break;
    case I_TRUNC: r = iTrunc(S(n->k[0])); break;
    case B_LE0: r = bLe0(S(n->k[0])); break;
    case B_EQ0: r = bEq0(S(n->k[0])); break;
    case B_NOT: r = bNot(S(n->k[0])); break;
    case B_AND: r = bAnd(S(n->k[0]), S(n->k[1])); break;
    case B_OR: r = bOr(S(n->k[0]), S(n->k[1])); break;
    case B_XOR: r = bXor(S(n->k[0]), S(n->k[1])); break;
    case B_ITE: r = bIte(S(n->k[0]), S(n->k[1]), S(n->k[2])); break;
    case B_APP: { std::vector<T> a; for (T x : n->k) a.push_back(S(x)); r = bApp(n->name, a); break; }
    case B_RLT: r = bRLt(S(n->k[0]), S(n->k[1])); break;
    case B_RLE: r = bRLe(S(n->k[0]), S(n->k[1])); break;
    case B_REQ: r = bREq(S(n->k[0]), S(n->k[1])); break;
    case R_ADD: r = rAdd(S(n->k[0]), S(n->k[1])); break;
    case R_SUB: r = rSub(S(n->k[0]), S(n->k[1])); break;
    case R_MUL: r = rMul(S(n->k[0]), S(n->k[1])); break;
    case R_DIV: r = rDiv(S(n->k[0]), S(n->k[1])); break;
    case R_NEG: r = rNeg(S(n->k[0])); break;
    case R_SQRT: r = rSqrt(S(n->k[0])); break;
    case R_ABS: r = rAbs(S(n->k[0])); break;
    case R_UN: r = rUn(n->name, S(n->k[0])); break;
    case R_BIN: r = rBin(n->name, S(n->k[0]), S(n->k[1])); break;
    case R_ITE: r = rIte(S(n->k[0]), S(n->k[1]), S(n->k[2])); break;
    case R_APP: { std::vector<T> a; for (T x : n->k) a.push_back(S(x)); r = rApp(n->name, a); break; }
    case R_OFINT: r = rOfInt(S(n->k[0])); break;
  }
  m[n] = r;
  return r;
}
void collectSyms(T n, std::vector<T>& out, std::unordered_map<T, bool>& seen) {
  if (seen[n]) return;
  seen[n] = true;
  if (n->op == I_SYM || n->op == R_SYM) out.push_back(n);
  for (T k : n->k) collectSyms(k, out, seen);
  for (auto& m : n->mons) for (T k : m.first) collectSyms(k, out, seen);
}
static const char* opn(Op o) {
  static const char* N[] = {"iconst","isym","poly","div","mod","sdiv","srem","wrapu","wraps","ite","b2i","iapp","and","or","xor","floor","trunc",
    "bconst","<=0","==0","not","&&","||","<","<=","==","bapp","bite","bxor","rconst","rsym","+","-","*","/","neg","sqrt","abs","un","rite","rapp","real","bin"};
  return N[o];
}
std::string show(T n, int depth) {
  std::ostringstream o;
  switch (n->op) {
    case I_CONST: return i128s(n->c);
    case B_CONST: return n->c ? "true" : "false";
    case R_CONST: o.precision(17); o << n->d; return o.str();
    case I_SYM: case R_SYM: return n->name;
    default: break;
  }
  if (depth <= 0) return "...";
  if (n->op == I_POLY) {
    o << "(";
    bool first = true;
    for (auto& t : n->mons) {
      if (!first) o << " + ";
      first = false;
      if (t.second != 1) o << i128s(t.second) << "*";
      for (size_t i = 0; i < t.first.size(); ++i) o << (i ? "*" : "") << show(t.first[i], depth - 1);
    }
    if (n->c != 0) o << " + " << i128s(n->c);
    o << ")";
    return o.str();
  }
  o << (n->name.empty() ? opn(n->op) : n->name) << "(";
  for (size_t i = 0; i < n->k.size(); ++i) o << (i ? ", " : "") << show(n->k[i], depth - 1);
  o << ")";
  return o.str();
}

// ---------------------------------------------------------------- evaluation
double natReal(const std::string& name, uint64_t seed, double lo, double hi) { return lfv_nat_real(name.c_str(), seed, lo, hi); }
i128 natInt(const std::string& name, uint64_t seed, i128 lo, i128 hi) {
  uint64_t h = lfv_hash(name.c_str(), seed);
  i128 r = hi - lo + 1;
  if (r > 12 && (h & 7) != 0) r = 12;  // prefer small values
  return lo + (i128)((lfv_mix(h) >> 3) % (uint64_t)(r > (((i128)1) << 60) ? (((i128)1) << 60) : r));
}
double natFun(const std::string& name, const std::vector<double>& a) { return lfv_nat_fun(name.c_str(), (int)a.size(), a.data()); }

static double asD(T x, Sample& s) { return x->sort == REAL ? evalR(x, s) : x->sort == INT ? (double)evalI(x, s) : (double)evalB(x, s); }
double evalR(T n, Sample& s) {
  if (n->op == R_CONST) return n->d;
  auto it = s.memo.find(n);
  if (it != s.memo.end()) return it->second;
  double v = 0;
  switch (n->op) {
    case R_SYM: { auto o = s.ovr.find(n); v = o != s.ovr.end() ? o->second : natReal(n->name, s.seed, n->slo, n->shi); break; }
    case R_ADD: v = evalR(n->k[0], s) + evalR(n->k[1], s); break;
    case R_SUB: v = evalR(n->k[0], s) - evalR(n->k[1], s); break;
    case R_MUL: v = evalR(n->k[0], s) * evalR(n->k[1], s); break;
    case R_DIV: v = evalR(n->k[0], s) / evalR(n->k[1], s); break;
    case R_NEG: v = -evalR(n->k[0], s); break;
    case R_SQRT: v = std::sqrt(evalR(n->k[0], s)); break;
    case R_ABS: v = std::fabs(evalR(n->k[0], s)); break;
    case R_UN: v = libm1(n->name, evalR(n->k[0], s)); break;
    case R_BIN: v = libm2(n->name, evalR(n->k[0], s), evalR(n->k[1], s)); break;
    case R_ITE: v = evalB(n->k[0], s) ? evalR(n->k[1], s) : evalR(n->k[2], s); break;
    case R_APP: { std::vector<double> a; for (T x : n->k) a.push_back(asD(x, s)); v = natFun(n->name, a); break; }
    case R_OFINT: v = (double)evalI(n->k[0], s); break;
    default: break;
  }
  s.memo[n] = v;
  return v;
}
i128 evalI(T n, Sample& s) {
  if (n->op == I_CONST) return n->c;
  auto it = s.memoi.find(n);
  if (it != s.memoi.end()) return it->second;
  i128 v = 0;
  auto dm = [](i128 a, i128 b) { return b == 0 ? (i128)0 : fdiv(a, b); };
  switch (n->op) {
    case I_SYM: { auto o = s.ovr.find(n); v = o != s.ovr.end() ? (i128)o->second : natInt(n->name, s.seed, n->lo, n->hi); break; }
    case I_POLY: v = n->c; for (auto& t : n->mons) { i128 p = t.second; for (T x : t.first) p *= evalI(x, s); v += p; } break;
    case I_DIV: v = dm(evalI(n->k[0], s), evalI(n->k[1], s)); break;
    case I_MOD: { i128 a = evalI(n->k[0], s), b = evalI(n->k[1], s); v = b == 0 ? 0 : fmod_(a, b); break; }
    case I_SDIV: { i128 a = evalI(n->k[0], s), b = evalI(n->k[1], s); v = b == 0 ? 0 : a / b; break; }
    case I_SREM: { i128 a = evalI(n->k[0], s), b = evalI(n->k[1], s); v = b == 0 ? 0 : a % b; break; }
    case I_WRAPU: v = fmod_(evalI(n->k[0], s), pw((int)n->c)); break;
    case I_WRAPS: v = symMod(evalI(n->k[0], s), (int)n->c); break;
    case I_ITE: v = evalB(n->k[0], s) ? evalI(n->k[1], s) : evalI(n->k[2], s); break;
    case I_B2I: v = evalB(n->k[0], s); break;
    case I_APP: {
      std::string nm = n->name; for (T x : n->k) { nm += ","; nm += x->sort == REAL ? std::to_string(evalR(x, s)) : x->sort == INT ? i128s(evalI(x, s)) : std::to_string((int)evalB(x, s)); }
      v = natInt(nm, s.seed, n->lo, n->hi); break; }
    case I_BITAND: v = evalI(n->k[0], s) & evalI(n->k[1], s); break;
    case I_BITOR: v = evalI(n->k[0], s) | evalI(n->k[1], s); break;
    case I_BITXOR: v = evalI(n->k[0], s) ^ evalI(n->k[1], s); break;
    case I_FLOOR: v = (i128)std::floor(evalR(n->k[0], s)); break;
    case I_TRUNC: v = (i128)std::trunc(evalR(n->k[0], s)); break;
    default: break;
  }
  s.memoi[n] = v;
  return v;
}
bool evalB(T n, Sample& s) {
  if (n->op == B_CONST) return n->c != 0;
  auto it = s.memoi.find(n);
  if (it != s.memoi.end()) return it->second != 0;
  bool v = false;
  switch (n->op) {
    case B_LE0: v = evalI(n->k[0], s) <= 0; break;
    case B_EQ0: v = evalI(n->k[0], s) == 0; break;
    case B_NOT: v = !evalB(n->k[0], s); break;
    case B_AND: v = evalB(n->k[0], s) && evalB(n->k[1], s); break;
    case B_OR: v = evalB(n->k[0], s) || evalB(n->k[1], s); break;
    case B_XOR: v = evalB(n->k[0], s) != evalB(n->k[1], s); break;
    case B_ITE: v = evalB(n->k[0], s) ? evalB(n->k[1], s) : evalB(n->k[2], s); break;
    case B_RLT: v = evalR(n->k[0], s) < evalR(n->k[1], s); break;
    case B_RLE: v = evalR(n->k[0], s) <= evalR(n->k[1], s); break;
    case B_REQ: v = evalR(n->k[0], s) == evalR(n->k[1], s); break;
    case B_APP: {
      std::string nm = n->name; for (T x : n->k) { nm += ","; nm += x->sort == REAL ? std::to_string(evalR(x, s)) : x->sort == INT ? i128s(evalI(x, s)) : std::to_string((int)evalB(x, s)); }
      v = natInt(nm, s.seed, 0, 1) != 0; break; }
    default: break;
  }
  s.memoi[n] = v;
  return v;
}
}  // namespace lfv
