#include "solver.h"

#include <z3++.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <set>

namespace lfv {
SolverStats g_solver;
static std::unordered_map<T, std::vector<uint32_t>> symMemo;
const std::vector<uint32_t>& symsOf(T n) {
  auto it = symMemo.find(n);
  if (it != symMemo.end()) return it->second;
  std::vector<uint32_t> r;
  if (n->op == I_SYM || n->op == R_SYM || n->op == R_APP || n->op == I_APP || n->op == B_APP) r.push_back(n->id);
  auto add = [&](T k) { auto& s = symsOf(k); std::vector<uint32_t> o; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(o)); r.swap(o); };
  for (T k : n->k) add(k);
  for (auto& m : n->mons) for (T k : m.first) add(k);
  return symMemo[n] = r;
}
static std::unordered_map<T, bool> realMemo;
bool hasReal(T n) {
  auto it = realMemo.find(n);
  if (it != realMemo.end()) return it->second;
  bool r = n->sort == REAL;
  for (T k : n->k) r = r || hasReal(k);
  for (auto& m : n->mons) for (T k : m.first) r = r || hasReal(k);
  return realMemo[n] = r;
}
namespace {
struct Z {
  z3::context c;
  std::unordered_map<T, z3::expr> memo;
  std::unordered_map<T, std::vector<z3::expr>> side;  // side conditions of a node
  std::map<std::string, z3::func_decl> fns;
  std::vector<z3::expr>* cur = nullptr;

  z3::expr num(i128 v) { return c.int_val(i128s(v).c_str()); }
  z3::expr rnum(double d) {
    // exact dyadic
    int e; double m = std::frexp(d, &e);
    long long mm = (long long)std::ldexp(m, 53);
    e -= 53;
    std::string s = std::to_string(mm);
    z3::expr r = c.real_val(s.c_str());
    if (e == 0) return r;
    i128 dummy = 0; (void)dummy;
    // 2^|e|
    std::string p = "1";
    int k = std::abs(e);
    auto dbl = [](std::string x) { int cy = 0; for (int i = (int)x.size() - 1; i >= 0; --i) { int v = (x[i] - '0') * 2 + cy; x[i] = char('0' + v % 10); cy = v / 10; } if (cy) x = std::string(1, char('0' + cy)) + x; return x; };
    for (int i = 0; i < k; ++i) p = dbl(p);
    z3::expr pe = c.real_val(p.c_str());
    return e > 0 ? r * pe : r / pe;
  }
  z3::func_decl fn(const std::string& name, const std::vector<T>& a, z3::sort rs) {
    std::string key = name + "/" + std::to_string(a.size());
    for (T x : a) key += x->sort == REAL ? 'r' : x->sort == INT ? 'i' : 'b';
    auto it = fns.find(key);
    if (it != fns.end()) return it->second;
    z3::sort_vector sv(c);
    for (T x : a) sv.push_back(x->sort == REAL ? c.real_sort() : x->sort == INT ? c.int_sort() : c.bool_sort());
    auto f = c.function(key.c_str(), sv, rs);
    fns.emplace(key, f);
    return f;
  }
  void add(T n, z3::expr e) { side[n].push_back(e); }
  z3::expr tr(T n) {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    z3::expr r = tr0(n);
    memo.emplace(n, r);
    return r;
  }
  z3::expr tr0(T n) {
    auto& k = n->k;
    switch (n->op) {
      case I_CONST: return num(n->c);
      case I_SYM: { auto e = c.int_const(("i" + std::to_string(n->id)).c_str()); add(n, e >= num(n->lo)); add(n, e <= num(n->hi)); return e; }
      case I_POLY: {
        z3::expr_vector v(c);
        if (n->c != 0) v.push_back(num(n->c));
        for (auto& t : n->mons) {
          z3::expr_vector p(c);
          if (t.second != 1) p.push_back(num(t.second));
          for (T x : t.first) p.push_back(tr(x));
          if (p.size() == 1) v.push_back(p[0]);
          else { z3::expr e = p[0]; for (unsigned i = 1; i < p.size(); ++i) e = e * p[i]; v.push_back(e); }
        }
        return v.size() == 1 ? v[0] : z3::sum(v);
      }
      case I_DIV: return tr(k[0]) / tr(k[1]);
      case I_MOD: return z3::mod(tr(k[0]), tr(k[1]));
      case I_SDIV: { auto a = tr(k[0]), b = tr(k[1]); return z3::ite(a >= 0, a / b, -((-a) / b)); }
      case I_SREM: { auto a = tr(k[0]), b = tr(k[1]); return z3::ite(a >= 0, z3::mod(a, b), -z3::mod(-a, b)); }
      case I_WRAPU: return z3::mod(tr(k[0]), num(((i128)1) << (int)n->c));
      case I_WRAPS: { i128 M = ((i128)1) << (int)n->c; return z3::mod(tr(k[0]) + num(M / 2), num(M)) - num(M / 2); }
      case I_ITE: case B_ITE: case R_ITE: return z3::ite(tr(k[0]), tr(k[1]), tr(k[2]));
      case I_B2I: return z3::ite(tr(k[0]), num(1), num(0));
      case I_APP: { z3::expr_vector a(c); for (T x : k) a.push_back(tr(x)); auto e = fn(n->name, k, c.int_sort())(a); add(n, e >= num(n->lo)); add(n, e <= num(n->hi)); return e; }
      case I_BITAND: case I_BITOR: case I_BITXOR: { auto e = fn(n->op == I_BITAND ? "band" : n->op == I_BITOR ? "bor" : "bxor", k, c.int_sort())(tr(k[0]), tr(k[1])); add(n, e >= num(n->lo)); add(n, e <= num(n->hi));
        { auto x = tr(k[0]), y = tr(k[1]);  // facts on the bitwise operations of non-negative integers
          if (n->op == I_BITOR) { add(n, e >= x); add(n, e >= y); add(n, e <= x + y); }
          if (n->op == I_BITAND) { add(n, e <= x); add(n, e <= y); }
          if (n->op == I_BITXOR) { add(n, e <= x + y); add(n, e >= x - y); add(n, e >= y - x); } }
        return e; }
      case I_FLOOR: return z3::to_expr(c, Z3_mk_real2int(c, tr(k[0])));
      case I_TRUNC: { auto a = tr(k[0]); auto f = [&](z3::expr x) { return z3::to_expr(c, Z3_mk_real2int(c, x)); }; return z3::ite(a >= 0, f(a), -f(-a)); }
      case B_CONST: return c.bool_val(n->c != 0);
      case B_LE0: return tr(k[0]) <= 0;
      case B_EQ0: return tr(k[0]) == 0;
      case B_NOT: return !tr(k[0]);
      case B_AND: return tr(k[0]) && tr(k[1]);
      case B_OR: return tr(k[0]) || tr(k[1]);
      case B_XOR: return tr(k[0]) != tr(k[1]);
      case B_RLT: return tr(k[0]) < tr(k[1]);
      case B_RLE: return tr(k[0]) <= tr(k[1]);
      case B_REQ: return tr(k[0]) == tr(k[1]);
      case B_APP: { z3::expr_vector a(c); for (T x : k) a.push_back(tr(x)); return fn(n->name, k, c.bool_sort())(a); }
      case R_CONST: return rnum(n->d);
      case R_SYM: return c.real_const(("r" + std::to_string(n->id)).c_str());
      case R_ADD: return tr(k[0]) + tr(k[1]);
      case R_SUB: return tr(k[0]) - tr(k[1]);
      case R_MUL: return tr(k[0]) * tr(k[1]);
      case R_DIV: return tr(k[0]) / tr(k[1]);
      case R_NEG: return -tr(k[0]);
      case R_SQRT: { auto e = c.real_const(("s" + std::to_string(n->id)).c_str()); add(n, e >= 0); add(n, z3::implies(tr(k[0]) >= 0, e * e == tr(k[0]))); return e; }
      case R_ABS: { auto a = tr(k[0]); return z3::ite(a >= 0, a, -a); }
      case R_UN: { auto e = fn("u_" + n->name, k, c.real_sort())(tr(k[0])); if (n->name == "exp") add(n, e > 0); if (n->name == "sin" || n->name == "cos") { add(n, e <= 1); add(n, e >= -1); } return e; }
      case R_BIN: return fn("u_" + n->name, k, c.real_sort())(tr(k[0]), tr(k[1]));
      case R_APP: { z3::expr_vector a(c); for (T x : k) a.push_back(tr(x)); if (k.empty()) return c.real_const(n->name.c_str()); return fn(n->name, k, c.real_sort())(a); }
      case R_OFINT: return z3::to_real(tr(k[0]));
    }
    throw std::runtime_error("tr");
  }
  void sides(T n, std::set<T>& seen, z3::solver& s) {
    if (!seen.insert(n).second) return;
    auto it = side.find(n);
    if (it != side.end()) for (auto& e : it->second) s.add(e);
    for (T k : n->k) sides(k, seen, s);
    for (auto& m : n->mons) for (T k : m.first) sides(k, seen, s);
  }
};
Z& z() { static Z* p = new Z; return *p; }
}  // namespace

Ans solve(const std::vector<T>& pc, T extra, int timeout_ms, Model* m) {
  if (isFalse(extra)) return Ans::Unsat;
  auto t0 = std::chrono::steady_clock::now();
  g_solver.queries++;
  // relevance
  std::vector<uint32_t> syms = symsOf(extra);
  std::vector<char> use(pc.size(), 0);
  bool ch = true;
  if (m) { std::fill(use.begin(), use.end(), 1); ch = false; }
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (use[i]) continue;
      auto& s = symsOf(pc[i]);
      bool hit = false;
      for (size_t a = 0, b = 0; a < s.size() && b < syms.size();) { if (s[a] == syms[b]) { hit = true; break; } if (s[a] < syms[b]) ++a; else ++b; }
      if (hit) { use[i] = 1; ch = true; std::vector<uint32_t> o; std::set_union(syms.begin(), syms.end(), s.begin(), s.end(), std::back_inserter(o)); syms.swap(o); }
    }
  }
  Ans ans = Ans::Unknown;
  try {
    Z& Q = z();
    bool real = hasReal(extra);
    for (size_t i = 0; i < pc.size(); ++i) if (use[i]) real = real || hasReal(pc[i]);
    z3::solver s = z3::solver(Q.c);
    z3::params p(Q.c);
    p.set("timeout", (unsigned)timeout_ms);
    s.set(p);
    std::set<T> seen;
    auto put = [&](T t) { z3::expr e = Q.tr(t); Q.sides(t, seen, s); s.add(e); };
    for (size_t i = 0; i < pc.size(); ++i) if (use[i]) put(pc[i]);
    put(extra);
    auto r = s.check();
    ans = r == z3::sat ? Ans::Sat : r == z3::unsat ? Ans::Unsat : Ans::Unknown;
    if (r == z3::sat && m) {
      z3::model md = s.get_model();
      for (T n : seen) {
        if (n->op != I_SYM && n->op != R_SYM) continue;
        z3::expr v = md.eval(Q.tr(n), true);
        if (n->op == I_SYM) { std::string t = v.is_numeral() ? v.get_decimal_string(0) : "0"; bool neg = t[0] == '-'; i128 x = 0; for (char ch2 : t) if (isdigit(ch2)) x = x * 10 + (ch2 - '0'); m->ints[n] = neg ? -x : x; }
        else { std::string t = v.is_algebraic() || v.is_numeral() ? v.get_decimal_string(20) : "0"; try { m->real[n] = std::stod(t); } catch (...) { m->real[n] = 0; } }
      }
    }
  } catch (z3::exception& e) {
    ans = Ans::Unknown;
  }
  g_solver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (ans == Ans::Sat) g_solver.sat++; else if (ans == Ans::Unsat) g_solver.unsat++; else g_solver.unknown++;
  return ans;
}
}  // namespace lfv
