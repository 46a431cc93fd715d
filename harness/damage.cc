// Drives real grain-boundary records through histories: those of the
// specification (file) and random ones.
#include <gCP/quadrature_point_history.h>
#include <deal.II/base/exceptions.h>
#include "trace.h"

using namespace vt;

namespace
{
  struct Prm
  {
    double deltac, beta, A, c, m, limit;
    bool   zero;
  };

  template <int dim>
  struct Point
  {
    gCP::InterfaceQuadraturePointHistory<dim> h;
    Recorder                                 &rec;
    explicit Point(Recorder &rec) : rec(rec) {}

    void log(Ev ev)
    {
      const auto &c = h;
      rec(ev.r("d", c.get_damage_variable())
            .r("max", c.get_max_effective_opening_displacement())
            .r("eff0", c.get_old_effective_opening_displacement())
            .r("eff", c.get_effective_opening_displacement())
            .r("traction", c.get_effective_cohesive_traction()));
    }
    void init(const Prm &p, const double tc, const bool again = false)
    {
      gCP::RunTimeParameters::DamageEvolution       e;
      gCP::RunTimeParameters::CohesiveLawParameters k;
      k.critical_cohesive_traction           = tc;
      k.critical_opening_displacement        = p.deltac;
      k.tangential_to_normal_stiffness_ratio = p.beta;
      e.damage_accumulation_constant         = p.A;
      e.damage_decay_constant                = p.c;
      e.damage_decay_exponent                = p.m;
      e.endurance_limit                      = p.limit;
      e.flag_set_damage_to_zero              = p.zero;
      h.init(e, k);
      Ev j("prm");
      j.r("deltac", p.deltac).r("beta", p.beta).r("A", p.A).r("c", p.c).r("m", p.m)
        .r("limit", p.limit).b("zero", p.zero);
      log(Ev(again ? "again" : "init").raw("prm", j.done()));
    }
    void set(const double v)
    {
      h.set(v);
      log(Ev("set").r("v", v));
    }
    void store()
    {
      h.store_current_values();
      log(Ev("store"));
    }
    void reset()
    {
      h.reset_values();
      log(Ev("reset"));
    }
    void exp(const double x)
    {
      h.update_values(x);
      log(Ev("exp").r("x", x));
    }
    void acc(const double x, const double chr, const double force)
    {
      h.update_values(x, chr, force);
      log(Ev("acc").r("x", x).r("chr", chr).r("force", force));
    }
    void opening(const dealii::Tensor<1, dim> &nb, const dealii::Tensor<1, dim> &here,
                 const dealii::Tensor<1, dim> &n, const double *t = nullptr)
    {
      Ev ev(t ? "openingT" : "opening");
      ev.raw("nb", seq(nb.begin_raw(), nb.end_raw()))
        .raw("here", seq(here.begin_raw(), here.end_raw()))
        .raw("normal", seq(n.begin_raw(), n.end_raw()));
      if (t)
        {
          h.store_effective_opening_displacement(nb, here, n, *t);
          ev.r("t", *t);
        }
      else
        h.store_effective_opening_displacement(nb, here, n);
      log(ev);
    }
  };

  template <int dim>
  dealii::Tensor<1, dim> vec(Rng &rng, const double scale)
  {
    dealii::Tensor<1, dim> v;
    for (unsigned i = 0; i < dim; ++i)
      v[i] = scale * rng.u(-1., 1.);
    return v;
  }

  template <int dim>
  void random_history(Recorder &rec, Rng &rng, const int length)
  {
    rec.begin();
    Point<dim> p(rec);
    const auto random_prm = [&] {
      return Prm{rng.lu(1e-3, 10.), rng.n(5) ? rng.lu(1e-2, 5.) : 1., rng.n(8) ? rng.lu(1e-3, 10.) : 1.,
                 rng.coin() ? 0. : rng.u(0., 1.), rng.coin() ? 1. : rng.u(0.2, 4.),
                 rng.coin() ? 0. : rng.lu(1e-3, 10.), rng.n(7) == 0};
    };
    const Prm prm = random_prm();
    p.init(prm, rng.lu(.1, 100.));
    const bool   exponential = rng.coin();
    const double scale       = prm.deltac * rng.lu(.1, 10.);
    if (!exponential && rng.n(3) == 0)
      {
        p.set(rng.n(4) ? rng.u() : double(rng.n(2)));
        p.store();
      }
    for (int k = 0; k < length; ++k)
      switch (rng.n(9))
        {
          case 0:
          case 1:
            p.store();
            break;
          case 2:
            p.reset();
            break;
          case 3:
            {
              auto n = vec<dim>(rng, 1.);
              n /= n.norm();
              auto here = vec<dim>(rng, scale), nb = vec<dim>(rng, scale);
              switch (rng.n(5))
                {
                  case 0: nb = here + scale * rng.u(-1., 1.) * n; break; // normal
                  case 1: nb -= ((nb - here) * n) * n; break;            // tangential
                  default:;
                }
              const double t = rng.lu(1e-3, 1e2);
              p.opening(nb, here, n, rng.coin() ? &t : nullptr);
              break;
            }
          case 4:
            if (rng.n(3) == 0)
              {
                p.init(random_prm(), rng.lu(.1, 100.), true);
                break;
              }
            // fall through
          default:
            {
              const double x = rng.n(8) ? scale * rng.u(0., 1.5) : rng.n(2) ? 0. : 50. * scale;
              if (exponential)
                p.exp(x);
              else
                p.acc(x, rng.coin() ? 1. : rng.lu(1e-2, 10.), rng.n(6) ? rng.lu(1e-3, 30.) : 0.);
            }
        }
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder rec(argv[1]);
  Rng      rng(std::atoi(argv[3]));
  Mute     mute;

  std::ifstream in(argv[2]);
  std::string   line;
  while (std::getline(in, line))
    {
      std::istringstream is(line);
      int                ex, zero;
      Prm                p;
      double             chr, x, f;
      std::string        op;
      is >> ex >> p.deltac >> p.beta >> p.A >> p.c >> p.m >> p.limit >> zero >> chr;
      p.zero = zero;
      rec.begin();
      Point<2> pt(rec);
      pt.init(p, 1.);
      double eff = 0., eff0 = 0.;
      while (is >> op)
        if (op == "s")
          {
            pt.store();
            dealii::Tensor<1, 2> n, nb;
            n[0]  = .6;
            n[1]  = .8;
            nb    = eff * n;
            pt.opening(nb, dealii::Tensor<1, 2>(), n);
            eff0 = eff;
          }
        else if (op == "r")
          {
            pt.reset();
            eff = eff0;
          }
        else
          {
            is >> x >> f;
            eff = x;
            if (ex)
              pt.exp(x);
            else
              pt.acc(x, chr, f);
          }
    }
  const int n = std::atoi(argv[4]), length = std::atoi(argv[5]);
  for (int c = 0; c < n; ++c)
    if (rng.coin())
      random_history<2>(rec, rng, length);
    else
      random_history<3>(rec, rng, length);
  return 0;
}
