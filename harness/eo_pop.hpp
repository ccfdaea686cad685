// Populations of numbered individuals for the evolutionary-operator drivers.
#ifndef EO_POP_HPP
#define EO_POP_HPP
#include "vt.hpp"
#include <eo>
#include <memory>
using namespace vt;
static const long Inv = -1000000001;
template <class F> struct Dir { static constexpr int v = 0; }; template <> struct Dir<eoMinimizingFitness> { static constexpr int v = 1; };
template <class F> using Ind = eoVector<F, int>;
template <class F> static Ind<F> ind(long id, long f) { Ind<F> x(1, (int)id); x.fitness(F(f)); return x; }
template <class E> static IV rec(const E& x) { return IV{x.size() ? (long)x[0] : -7, x.invalid() ? Inv : exactint((double)x.fitness())}; }
template <class P> static IVV recs(const P& p) { IVV o; for (auto& x : p) o.push_back(rec(x)); return o; }
// populations with ties, all equal, sorted, reversed, spread
template <class F> static eoPop<Ind<F> > mkpop(Rng& r, int n, int first, int v = 6) { eoPop<Ind<F> > p; int k = r.below(5); std::vector<long> f; for (int i = 0; i < n; ++i) f.push_back(k == 0 ? r.below(2) : k == 1 ? 3 : r.in(-v, v)); if (k == 3) std::sort(f.begin(), f.end()); if (k == 4) std::sort(f.rbegin(), f.rend()); for (int i = 0; i < n; ++i) p.push_back(ind<F>(first + i, f[i])); return p; }
#endif
