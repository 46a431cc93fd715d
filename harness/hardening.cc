// Drives real slip resistance records through histories: those of the
// specification (file) and random ones.
#include <gCP/quadrature_point_history.h>
#include <deal.II/base/exceptions.h>
#include "trace.h"

using namespace vt;
using Matrix = std::vector<std::vector<double>>;

namespace
{
  std::string matrix(const Matrix &m)
  {
    std::vector<std::string> r;
    for (const auto &v : m)
      r.push_back(seq(v));
    return join(r);
  }

  template <int dim>
  struct Point
  {
    gCP::QuadraturePointHistory<dim> h;
    Recorder                        &rec;
    unsigned                         n = 0;

    explicit Point(Recorder &rec) : rec(rec) {}

    // run f, then read the record in all ways
    template <class F>
    void op(Ev ev, F f)
    {
      bool                exc = false;
      std::vector<double> cur, old, cur1, old1;
      try
        {
          f();
          const auto &c = h;
          cur           = c.get_slip_resistances();
          old           = c.get_old_slip_resistances();
          for (unsigned i = 0; i < n; ++i)
            {
              cur1.push_back(c.get_slip_resistance(i));
              old1.push_back(c.get_old_slip_resistance(i));
            }
        }
      catch (...)
        {
          exc = true;
        }
      rec(ev.rs("cur", cur).rs("old", old).rs("cur1", cur1).rs("old1", old1).b("exc", exc));
    }
    void init(const double g0, const double H, const double q, const bool perfect,
              const unsigned n_, const double chr, const bool dflt = false)
    {
      n = n_;
      gCP::RunTimeParameters::HardeningLaw law;
      law.initial_slip_resistance  = g0;
      law.linear_hardening_modulus = H;
      law.hardening_parameter      = q;
      law.flag_perfect_plasticity  = perfect;
      Ev l("law");
      l.r("g0", g0).r("H", H).r("q", q).b("perfect", perfect);
      op(Ev("init").raw("law", l.done()).i("n", n).r("chr", dflt ? 1. : chr), [&] {
        if (dflt)
          h.init(law, n);
        else
          h.init(law, n, chr);
      });
    }
    void store()
    {
      op(Ev("store"), [&] { h.store_current_values(); });
    }
    void reset()
    {
      op(Ev("reset"), [&] { h.reset_values(); });
    }
    void read()
    {
      op(Ev("read"), [] {});
    }
    void update(const unsigned q, const Matrix &s, const Matrix &o)
    {
      op(Ev("update").i("q", q).raw("slips", matrix(s)).raw("old_slips", matrix(o)),
         [&] { h.update_values(q, s, o); });
    }
  };

  template <int dim>
  void random_history(Recorder &rec, Rng &rng, const int length)
  {
    rec.begin();
    Point<dim> p(rec);
    if (rng.n(4) == 0) // before set-up
      switch (rng.n(4))
        {
          case 0: p.store(); break;
          case 1: p.reset(); break;
          case 2: p.read(); break;
          default: p.update(0, {{1.}}, {{0.}});
        }
    const unsigned n = 1 + rng.n(rng.coin() ? 3 : 13), nq = 1 + rng.n(4);
    const auto     setup = [&] {
      p.init(rng.n(10) ? rng.lu(1e-2, 1e3) : 0., rng.n(8) ? rng.lu(1e-3, 1e3) : 0.,
             rng.n(4) ? rng.u(0., 2.) : double(rng.n(2)), rng.n(6) == 0, n, rng.lu(1e-2, 1e3),
             rng.n(5) == 0);
    };
    setup();
    Matrix com(n, std::vector<double>(nq, 0.)), cur = com;
    const double scale = rng.lu(1e-6, 10.);
    for (int k = 0; k < length; ++k)
      switch (rng.n(8))
        {
          case 0:
            p.store();
            com = cur;
            break;
          case 1:
            p.reset();
            cur = com;
            break;
          case 2:
            p.read();
            break;
          case 3: // forgotten or repeated set-up
            if (rng.n(6) == 0)
              {
                setup();
                com = cur = Matrix(n, std::vector<double>(nq, 0.));
              }
            else // the same evaluation again
              p.update(rng.n(nq), cur, com);
            break;
          default:
            for (auto &v : cur)
              for (auto &x : v)
                if (rng.n(3))
                  x += scale * rng.u(-1., 1.);
            p.update(rng.n(nq), cur, com);
        }
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder rec(argv[1]);
  Rng      rng(std::atoi(argv[3]));
  Mute     mute, mute2(std::cerr);

  std::ifstream in(argv[2]);
  std::string   line;
  while (std::getline(in, line))
    {
      std::istringstream is(line);
      double             g0, H, q, chr, x, y;
      int                perfect;
      std::string        op;
      is >> g0 >> H >> q >> perfect >> chr;
      rec.begin();
      Point<2> p(rec);
      p.init(g0, H, q, perfect, 2, chr);
      Matrix cur(2, std::vector<double>(1, 0.)), com = cur;
      while (is >> op)
        if (op == "s")
          {
            p.store();
            com = cur;
          }
        else if (op == "r")
          {
            p.reset();
            cur = com;
          }
        else
          {
            is >> x >> y;
            cur[0][0] = x;
            cur[1][0] = y;
            p.update(0, cur, com);
          }
    }
  const int n = std::atoi(argv[4]), length = std::atoi(argv[5]);
  for (int c = 0; c < n; ++c)
    if (rng.coin())
      random_history<2>(rec, rng, length);
    else
      random_history<3>(rec, rng, length);
  return 0;
}
