// Evaluates the real laws of grain boundaries along random opening histories.
#include <gCP/constitutive_laws.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include "crystals.h"

using namespace vt;
namespace RTP = gCP::RunTimeParameters;

namespace
{
  template <int dim>
  void experiment(Recorder &rec, Rng &rng, const int ops)
  {
    RTP::CohesiveLawParameters cp;
    cp.critical_cohesive_traction           = rng.lu(1e-1, 1e4);
    cp.critical_opening_displacement        = rng.lu(1e-4, 1e1);
    cp.tangential_to_normal_stiffness_ratio = rng.n(4) ? rng.lu(1e-1, 1e1) : rng.coin() ? 1. : 0.;
    RTP::ContactLawParameters kp;
    kp.penalty_coefficient = rng.lu(1e-1, 1e6);
    RTP::DegradationFunction dp;
    dp.degradation_exponent = rng.n(3) ? rng.u(1., 5.) : rng.coin() ? 1. : 2.;
    const bool   unit = rng.coin();
    const double chrs = unit ? 1. : rng.lu(1e-2, 1e3), chru = unit ? 1. : rng.lu(1e-3, 1e2);

    rec.begin();
    rec(Ev("laws").raw("cohesive", Ev("c").r("Tc", cp.critical_cohesive_traction).r("dc", cp.critical_opening_displacement)
                                     .r("beta", cp.tangential_to_normal_stiffness_ratio).r("chrs", chrs).r("chru", chru).done())
          .raw("contact", Ev("c").r("k", kp.penalty_coefficient).r("chrs", chrs).r("chru", chru).done())
          .r("exponent", dp.degradation_exponent));
    // the default characteristic quantities are one
    const auto cohesive = unit ? gCP::ConstitutiveLaws::CohesiveLaw<dim>(cp) : gCP::ConstitutiveLaws::CohesiveLaw<dim>(cp, chrs, chru);
    const auto contact  = unit ? gCP::ConstitutiveLaws::ContactLaw<dim>(kp) : gCP::ConstitutiveLaws::ContactLaw<dim>(kp, chrs, chru);
    gCP::ConstitutiveLaws::DegradationFunction degradation(dp);

    auto                   n = random_normal<dim>(rng);
    dealii::Tensor<1, dim> u;
    double                 max = 0., old = 0.;
    for (int o = 0; o < ops; ++o)
      {
        if (rng.n(10) == 0)
          {
            n   = random_normal<dim>(rng);
            max = old = 0.;
          }
        // another opening: zero, scaled, reversed, along or across the normal, any
        const double size = cp.critical_opening_displacement / chru * rng.lu(1e-3, 1e1);
        switch (rng.n(9))
          {
            case 0: u = 0.; break;
            case 1: u *= rng.u(0., 2.); break;
            case 2: u = -u; break;
            case 3: u = size * n; break;
            case 4: u = -size * n; break;
            case 5:
              u = size * random_normal<dim>(rng);
              u -= (u * n) * n;
              break;
            case 6: break;
            default: u = size * random_normal<dim>(rng);
          }
        double eff = 0, eff1 = 0, energy = 0;
        bool   exc = false;
        try
          {
            eff    = cohesive.get_effective_opening_displacement(u, n);
            eff1   = cohesive.get_effective_quantities(u, n).opening_displacement;
            energy = cohesive.get_free_energy_density(chru * eff);
          }
        catch (...)
          {
            exc = true;
          }
        rec(Ev("open").raw("u", vec<dim>(u)).raw("n", vec<dim>(n)).r("eff", eff).r("eff1", eff1).r("energy", energy).b("exc", exc));
        max = std::max(max, eff);
        dealii::Tensor<1, dim>          t, c;
        dealii::SymmetricTensor<2, dim> j, k;
        const double                    dt = rng.lu(1e-5, 1e1);
        exc                                = false;
        try
          {
            t = cohesive.get_cohesive_traction(u, n, max, old, dt);
            j = cohesive.get_jacobian(u, n, max, old, dt);
            c = contact.get_contact_traction(u, n);
            k = contact.get_jacobian(u, n);
          }
        catch (...)
          {
            exc = true;
          }
        rec(Ev("tractions").raw("u", vec<dim>(u)).raw("n", vec<dim>(n)).r("eff", eff).r("max", max).r("old", old)
              .raw("traction", vec<dim>(t)).raw("tangent", mat<dim>(j)).raw("contact", vec<dim>(c)).raw("contact_tangent", mat<dim>(k)).b("exc", exc));
        if (rng.n(3))
          old = eff;
        const double d       = rng.n(4) ? rng.u() : rng.coin() ? 0. : 1.;
        const bool   coupled = rng.coin();
        rec(Ev("degradation").r("damage", d).b("coupled", coupled).r("value", degradation.get_degradation_function_value(d, coupled))
              .r("slope", degradation.get_degradation_function_derivative_value(d, coupled)).b("exc", false));
      }
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder  rec(argv[1]);
  Rng       rng(std::atoi(argv[2]));
  const int n = std::atoi(argv[3]), ops = std::atoi(argv[4]);
  Mute      mute, mute2(std::cerr);
  for (int i = 0; i < n; ++i)
    if (rng.coin())
      experiment<2>(rec, rng, ops);
    else
      experiment<3>(rec, rng, ops);
  return 0;
}
