// Path condition, models and queries (z3).
#pragma once
#include "expr.h"
#include <set>
enum class R { UNSAT, SAT, UNKNOWN };
struct Model { std::vector<mpq_class> re; std::vector<uint64_t> iv; };   // indexed by variable id
struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, abstr=0, exact=0; double seconds=0; };
extern SolverStats SS;
struct PathState { std::vector<E> pc; Model model; bool hasModel=true; };
extern PathState P;
void modelExtend();                                   // give new variables a default value
// three-valued evaluation under a model; 1/0, or -1 when not exactly evaluable
int evalBool(E e, const Model&m);
uint64_t evalBV(E e, const Model&m, bool&exact);
mpq_class evalPoly(const Poly&p, const Model&m, bool&exact);
// satisfiability of pc /\ extra;  on SAT with model!=null the model satisfies it
R query(const std::vector<E>& extra, Model* model, unsigned effort=1);
// is some point of the path with |p| > bound ?   (p already cleared); fills model when found
R queryAbsGreater(const Poly&p, const mpq_class&bound, Model*model);
// all of |p_i| <= b_i on the path: one incremental solver, coefficients rounded to short dyadics with the rounding error moved into the bound
bool allWithin(const std::vector<const Poly*>&ps, const std::vector<mpq_class>&bs, std::vector<char>&proved);
bool polyLowerBoundAbs(uint32_t polyId, mpq_class&L);  // proven lower bound of |poly| on the path
void interval(const Poly&p, mpq_class&lo, mpq_class&hi, bool&finite);
extern unsigned long RLIMIT;
std::string dumpSMT(const std::vector<E>& extra);
