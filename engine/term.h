// Terms of the verifier: mathematical integers, reals, booleans (hash-consed).
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace lfv {
typedef __int128 i128;

enum Op : uint8_t {
  // integers (mathematical)
  I_CONST, I_SYM, I_POLY, I_DIV /*floor, divisor>0*/, I_MOD /*floor mod*/, I_SDIV, I_SREM,
  I_WRAPU, I_WRAPS, I_ITE, I_B2I, I_APP, I_BITAND, I_BITOR, I_BITXOR, I_FLOOR /*floor of a real*/, I_TRUNC,
  // bool
  B_CONST, B_LE0, B_EQ0, B_NOT, B_AND, B_OR, B_RLT, B_RLE, B_REQ, B_APP, B_ITE, B_XOR,
  // reals
  R_CONST, R_SYM, R_ADD, R_SUB, R_MUL, R_DIV, R_NEG, R_SQRT, R_ABS, R_UN /*named unary libm*/, R_ITE, R_APP, R_OFINT, R_BIN,
};
enum Sort : uint8_t { INT, BOOL, REAL };

struct Node;
typedef const Node* T;
typedef std::vector<T> Mono;  // sorted by id, with repetition

struct Node {
  Op op;
  Sort sort;
  uint32_t id;
  std::vector<T> k;
  std::string name;  // symbols / applications
  double d = 0;      // R_CONST
  i128 c = 0;        // I_CONST value, poly constant, wrap width, B_CONST value
  std::vector<std::pair<Mono, i128>> mons;
  i128 lo = 0, hi = 0;    // interval of integer nodes
  double slo = 0, shi = 0;  // sampling hint for real symbols
  uint8_t rsign = 0;      // reals: bit0 = known >=0, bit1 = known > 0
  bool hasBound = false;  // contains a bound (loop) variable
};

// integer constructors
T iConst(i128 v);
T iSym(const std::string& name, i128 lo, i128 hi);
T iAdd(T a, T b);
T iSub(T a, T b);
T iNeg(T a);
T iMul(T a, T b);
T iScale(T a, i128 c);
T iDiv(T a, T b);  // floor division, b>0
T iMod(T a, T b);
T iSdiv(T a, T b);
T iSrem(T a, T b);
T iIte(T c, T a, T b);
T iOfBool(T b);
T iApp(const std::string& f, const std::vector<T>& args, i128 lo, i128 hi);
T iWrapU(int w, T p);
T iWrapS(int w, T p);
T iBit(Op op, int w, T a, T b);
T iReduce(int w, T p);  // coefficients mod 2^w, symmetric
T iFloor(T r);
T iTrunc(T r);
bool isC(T a, i128* v = nullptr);
// booleans
T bConst(bool v);
T bNot(T a);
T bAnd(T a, T b);
T bOr(T a, T b);
T bXor(T a, T b);
T bIte(T c, T a, T b);
T bLe0(T p);
T bEq0(T p);
T bLe(T a, T b);
T bLt(T a, T b);
T bEq(T a, T b);
T bApp(const std::string& f, const std::vector<T>& args);
T bRLt(T a, T b);
T bRLe(T a, T b);
T bREq(T a, T b);
bool isTrue(T b);
bool isFalse(T b);
// reals
T rConst(double d);
T rSym(const std::string& name, double slo, double shi);
T rAdd(T a, T b);
T rSub(T a, T b);
T rMul(T a, T b);
T rDiv(T a, T b);
T rNeg(T a);
T rSqrt(T a);
T rAbs(T a);
T rUn(const std::string& f, T a);
T rBin(const std::string& f, T a, T b);
T rIte(T c, T a, T b);
T rApp(const std::string& f, const std::vector<T>& args);
T rOfInt(T i);

// substitute symbols (by node) in a term
struct Subst {
  std::unordered_map<T, T> m;
  T operator()(T n);
};
void collectSyms(T n, std::vector<T>& out, std::unordered_map<T, bool>& seen);
std::string show(T n, int depth = 6);
size_t nodeCount();

// numeric evaluation under a pseudo random sample
struct Sample {
  uint64_t seed;
  std::unordered_map<T, double> ovr;      // overrides for symbols
  std::unordered_map<T, double> memo;
  std::unordered_map<T, i128> memoi;
  bool nan = false;
};
double evalR(T n, Sample& s);
i128 evalI(T n, Sample& s);
bool evalB(T n, Sample& s);
double natReal(const std::string& name, uint64_t seed, double lo, double hi);
i128 natInt(const std::string& name, uint64_t seed, i128 lo, i128 hi);
double natFun(const std::string& name, const std::vector<double>& a);
double libm1(const std::string& f, double x);
double libm2(const std::string& f, double x, double y);
std::string i128s(i128 v);
}  // namespace lfv
