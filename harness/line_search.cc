// Drives gCP::LineSearch the way the Newton loops do, with merit values from
// the specification's behaviours (file) and random ones.
#include <gCP/line_search.h>
#include <deal.II/base/exceptions.h>
#include "trace.h"

using namespace vt;

namespace
{
  std::unique_ptr<gCP::LineSearch> make(const int nmax, const double alpha)
  {
    gCP::RunTimeParameters::LineSearchParameters p;
    p.n_max_iterations = nmax;
    p.alpha            = alpha;
    return std::make_unique<gCP::LineSearch>(p);
  }

  // one search; trial(k, lambda) is the merit value of the k-th trial
  template <class F>
  void search(Recorder &rec, gCP::LineSearch &ls, const double f0, const int limit, F trial,
              const bool objective = false)
  {
    ls.reinit(f0, 1, 1);
    rec(Ev("reinit").r("f0", f0));
    double lambda = 1.;
    for (int k = 0; k <= limit; ++k)
      {
        const double f  = trial(k, lambda);
        const bool   ok = ls.suficient_descent_condition(f, lambda);
        rec(Ev("accept").r("f", f).r("lam", lambda).b("out", ok));
        if (ok)
          break;
        double next = 0.;
        bool   exc  = false;
        try
          {
            next = ls.get_lambda(f, lambda);
          }
        catch (...)
          {
            exc = true;
          }
        rec(Ev("next").r("f", f).r("lam", lambda).r("out", next).b("exc", exc));
        rec(Ev("count").i("out", ls.get_n_iterations()));
        if (exc)
          break;
        lambda = next;
      }
    (void)objective;
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder rec(argv[1]);
  Rng      rng(std::atoi(argv[3]));
  const int n_random = std::atoi(argv[4]);
  Mute     mute;

  // behaviours of the specification: nmax alpha f0 m1 m2 ...
  {
    std::ifstream in(argv[2]);
    std::string   line;
    while (std::getline(in, line))
      {
        std::istringstream is(line);
        int                nmax;
        double             alpha, f0, m;
        is >> nmax >> alpha >> f0;
        std::vector<double> t;
        while (is >> m)
          t.push_back(m);
        rec.begin();
        auto ls = make(nmax, alpha);
        rec(Ev("new").i("nmax", nmax).r("alpha", alpha));
        search(rec, *ls, f0, nmax + 3, [&](int k, double) {
          return f0 * t[std::min<std::size_t>(k, t.size() - 1)];
        });
      }
  }

  for (int c = 0; c < n_random; ++c)
    {
      rec.begin();
      const bool dflt  = rng.n(6) == 0;
      const int  nmax  = dflt ? 15 : rng.n(8);
      const double alpha = dflt ? 1e-4 : rng.coin() ? 1e-4 : rng.lu(1e-5, 0.24);
      auto ls = dflt ? std::make_unique<gCP::LineSearch>() : make(nmax, alpha);
      rec(Ev("new").i("nmax", nmax).r("alpha", alpha));
      for (int k = 0; k < 3; ++k)
        {
          const double r = rng.lu(1e-12, 1e6) * (rng.coin() ? 1 : -1);
          rec(Ev("merit").r("r", r).r("out", gCP::LineSearch::get_objective_function_value(r)));
        }
      // several searches with the same object
      const int n_searches = 1 + rng.n(4);
      for (int k = 0; k < n_searches; ++k)
        {
          const double f0   = rng.n(12) == 0 ? 0. : rng.lu(1e-14, 1e8);
          const int    kind = f0 == 0. ? 5 : rng.n(6);
          const double b = rng.lu(1.5, 1e5), a = rng.u(-.2, 1.) * b, q = rng.lu(1., 50.);
          search(rec, *ls, f0, nmax + 3, [&](int n, double l) -> double {
            switch (kind)
              {
                case 5: // exactly a solution, at once or after a reduction
                return f0 == 0. || n == 1 ? 0. : f0 * rng.lu(1., 10.);
              case 0: // never better
                  return f0 * rng.lu(1., 1e5);
                case 1: // a cubic
                  return f0 * std::abs(1. - 2. * l + b * l * l + a * l * l * l);
                case 2: // an exact quadratic
                  return f0 * (1. - 2. * l + std::floor(b) * l * l);
                case 3: // decreasing slowly, close to the threshold
                  return f0 * (1. - 2. * alpha * l * rng.u(.5, 1.5));
                default: // exponential growth, small steps are good
                  return f0 * std::max(0., 1. - 2. * l) + f0 * (std::exp(q * l) - 1.) * rng.u(.9, 1.1);
              }
          });
        }
    }
  return 0;
}
