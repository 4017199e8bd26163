// The operators of the element type as user code writes them, i.e., including those that headers generate.
// Compiled to IR only, never run.
#include <e-antic/cppyy.hpp>

namespace client {
using E = eantic::renf_elem_class;

#define EACH(M, n, op) M(n, op, short) M(n, op, unsigned short) M(n, op, int) M(n, op, unsigned int) M(n, op, long) M(n, op, unsigned long) M(n, op, long long) M(n, op, unsigned long long) M(n, op, const mpz_class &) M(n, op, const mpq_class &)

#define BIN1(n, op, T) E n(const E & a, T b) { return a op b; } E n(T a, const E & b) { return a op b; }
#define BIN(n, op) E n(const E & a, const E & b) { return a op b; } EACH(BIN1, n, op)
BIN(add, +)
BIN(sub, -)
BIN(mul, *)
BIN(div, /)

#define REL1(n, op, T) bool n(const E & a, T b) { return a op b; } bool n(T a, const E & b) { return a op b; }
#define REL(n, op) bool n(const E & a, const E & b) { return a op b; } EACH(REL1, n, op)
REL(eq, ==)
REL(ne, !=)
REL(lt, <)
REL(le, <=)
REL(gt, >)
REL(ge, >=)

#define PY1(n, f, T) E py_##n(const E & a, T b) { return eantic::cppyy::f(a, b); } E py_##n(T a, const E & b) { return eantic::cppyy::f(a, b); }
#define PY(n, f) E py_##n(const E & a, const E & b) { return eantic::cppyy::f(a, b); } PY1(n, f, int) PY1(n, f, const mpz_class &) PY1(n, f, const mpq_class &)
PY(add, add)
PY(sub, sub)
PY(mul, mul)
PY(div, truediv)
E py_neg(const E & a) { return eantic::cppyy::neg(a); }
mpq_class py_rational(const E & a) { return eantic::cppyy::rational(a); }
}
