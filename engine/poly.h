// Normal forms of real terms: quotients of multivariate polynomials over Q.
#pragma once
#include <set>
#include <stdexcept>
#include "term.h"
namespace lfv {
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("polynomial too big") {} };
struct EqResult { int verdict; /*1 proved, 0 not proved*/ std::string how; double residual; long terms; };
// proves a == b (as rational functions, coefficients up to relative tol)
EqResult proveEq(T a, T b, double tol, long budget);
// derivative of a with respect to symbol h
T derive(T a, T h);
// key identifying the sign of a real term: sign(diff) = flip * sign(key); "0" and "1" are constants
bool signKey(T diff, std::string& key, int& flip);
}  // namespace lfv
