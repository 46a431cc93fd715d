// Evaluates the real constitutive laws of the crystals.
#include <gCP/constitutive_laws.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include "crystals.h"

using namespace vt;
namespace RTP = gCP::RunTimeParameters;

namespace
{
  template <class F>
  bool throws(F f)
  {
    try
      {
        f();
      }
    catch (...)
      {
        return true;
      }
    return false;
  }

  template <int dim>
  void experiment(Recorder &rec, Rng &rng, const std::string &dir, const int ops)
  {
    using Sym = dealii::SymmetricTensor<2, dim>;
    const unsigned   crystals = 1 + rng.n(4), slips = rng.n(8) ? 1 + rng.n(dim == 2 ? 4 : 12) : 1, points = 1 + rng.n(4);
    Polycrystal<dim> poly(rng, crystals, slips);
    rec.begin();
    rec(poly.event());

    // parameters
    RTP::HookeLawParameters hooke;
    hooke.C1111      = rng.lu(1., 1e6);
    hooke.C1122      = hooke.C1111 * rng.u(0., .9);
    hooke.C1212      = rng.lu(1., 1e6);
    const double chr = rng.n(3) ? rng.lu(1e-2, 1e5) : 1.;
    const Ev     hl  = Ev("hooke").r("C1111", hooke.C1111).r("C1122", hooke.C1122).r("C1212", hooke.C1212);

    const char *                        kinds[]   = {"atan", "sqrt", "gd", "tanh", "erf"};
    const RTP::RegularizationFunction   funs[]    = {RTP::RegularizationFunction::Atan, RTP::RegularizationFunction::Sqrt,
                                                     RTP::RegularizationFunction::Gd, RTP::RegularizationFunction::Tanh,
                                                     RTP::RegularizationFunction::Erf};
    const unsigned                      k         = rng.n(5);
    RTP::ScalarMicrostressLawParameters sp;
    sp.regularization_function  = funs[k];
    sp.regularization_parameter = rng.lu(1e-7, 1.);
    sp.flag_rate_independent    = rng.n(5) == 0;
    RTP::HardeningLaw hp;
    hp.initial_slip_resistance  = rng.lu(1e-2, 1e3);
    hp.linear_hardening_modulus = rng.n(5) ? rng.lu(1e-2, 1e4) : 0.;
    hp.hardening_parameter      = rng.u(0., 2.);
    hp.flag_perfect_plasticity  = rng.n(4) == 0;
    const double schr           = rng.n(3) ? rng.lu(1e-2, 1e3) : 1.;
    const Ev     sl = Ev("scalar").str("kind", kinds[k]).r("p", sp.regularization_parameter).r("H", hp.linear_hardening_modulus)
                    .r("q", hp.hardening_parameter).r("chr", schr).b("perfect", hp.flag_perfect_plasticity)
                    .b("indep", sp.flag_rate_independent);

    RTP::VectorialMicrostressLawParameters vp;
    const double                           powers[] = {1., 1.25, 1.5, 2., 2., 2., 2.5, 3.};
    vp.energetic_length_scale                       = rng.lu(1e-3, 1e1);
    vp.initial_slip_resistance                      = hp.initial_slip_resistance;
    vp.defect_energy_index                          = powers[rng.n(8)];
    vp.regularization_parameter                     = rng.lu(1e-8, 1e-2);
    const bool dimless                              = rng.coin();
    const Ev   vl = Ev("vector").r("g0", vp.initial_slip_resistance).r("l", vp.energetic_length_scale)
                    .r("p", vp.defect_energy_index).b("dimless", dimless);
    const double number = rng.n(3) ? rng.lu(1e-3, 1e3) : 1.;

    gCP::Kinematics::ElasticStrain<dim>                kin(poly.data, number);
    gCP::ConstitutiveLaws::HookeLaw<dim>               mono(hooke, chr), law(poly.data, hooke, chr);
    gCP::ConstitutiveLaws::ResolvedShearStressLaw<dim> rss(poly.data);
    gCP::ConstitutiveLaws::ScalarMicrostressLaw<dim>   scalar(poly.data, sp, hp, schr);
    gCP::ConstitutiveLaws::VectorialMicrostressLaw<dim> vector(poly.data, vp);

    // nothing is delivered before set-up
    if (rng.n(4) == 0)
      {
        const Sym  e;
        const bool a = throws([&] { kin.get_elastic_strain_tensor(0, 0, e, Lines(slips, Line(1))); });
        const bool b = throws([&] { kin.get_plastic_strain_tensor(0, 0, Lines(slips, Line(1))); });
        const bool c = throws([&] { law.get_stress_tensor(0, e); }) && throws([&] { law.get_stiffness_tetrad(0); }) &&
                       throws([&] { law.get_stiffness_tetrad_3d(0); }) && throws([&] { mono.get_stress_tensor(e); }) &&
                       throws([&] { mono.get_stiffness_tetrad(); }) && throws([&] { mono.get_stiffness_tetrad_3d(); });
        const bool d = throws([&] { scalar.get_scalar_microstress(0., 0., 1., 1.); });
        const bool f = throws([&] { law.init(); }) && throws([&] { vector.init(dimless); });
        rec(Ev("refused").b("exc", a && b && c && d && f));
      }
    poly.setup(dir);
    law.init();
    mono.init();
    vector.init(dimless);
    if (rng.n(4) == 0)
      {
        const Sym e;
        rec(Ev("refused").b("exc", throws([&] { law.get_stress_tensor(e); }) && throws([&] { mono.get_stress_tensor(0, e); }) &&
                                     throws([&] { law.get_stiffness_tetrad(); }) && throws([&] { mono.get_stiffness_tetrad(0); })));
      }

    for (int o = 0; o < ops; ++o)
      {
        const unsigned c = rng.n(crystals), a = rng.n(slips), q = rng.n(points);
        bool           exc = false;
        switch (rng.n(6))
          {
            case 0:
              {
                const Sym   e = random_symmetric<dim>(rng, rng.lu(1e-6, 1.));
                const Lines g = random_matrix(rng, slips, points, rng.lu(1e-6, 1.));
                Sym         el, pl;
                exc = throws([&] {
                  el = kin.get_elastic_strain_tensor(c, q, e, g);
                  pl = kin.get_plastic_strain_tensor(c, q, g);
                });
                rec(Ev("strain").r("number", number).i("c", c + 1).i("q", q + 1).raw("strain", mat<dim>(e)).raw("slips", json(g))
                      .raw("el", mat<dim>(el)).raw("pl", mat<dim>(pl)).b("exc", exc));
                break;
              }
            case 1:
              {
                const Sym                           e  = random_symmetric<dim>(rng, rng.lu(1e-6, 1.));
                const dealii::SymmetricTensor<2, 3> e3 = random_symmetric<3>(rng, rng.lu(1e-6, 1.));
                const bool                          m  = rng.n(4) == 0;
                Sym                                 s, s1;
                dealii::SymmetricTensor<2, 3>       s3;
                exc = throws([&] {
                  s  = m ? mono.get_stress_tensor(e) : law.get_stress_tensor(c, e);
                  s1 = m ? mono.get_stiffness_tetrad() * e : law.get_stiffness_tetrad(c) * e;
                  s3 = m ? mono.get_stiffness_tetrad_3d() * e3 : law.get_stiffness_tetrad_3d(c) * e3;
                });
                rec(Ev("stress").raw("law", hl.done()).r("chr", chr).i("c", m ? 0 : c + 1).raw("strain", mat<dim>(e))
                      .raw("strain3", mat<3>(e3)).raw("stress", mat<dim>(s)).raw("stress1", mat<dim>(s1)).raw("stress3", mat<3>(s3)).b("exc", exc));
                break;
              }
            case 2:
              {
                const Sym s   = random_symmetric<dim>(rng, rng.lu(1e-2, 1e3));
                double    tau = 0;
                exc           = throws([&] { tau = rss.get_resolved_shear_stress(c, a, s); });
                rec(Ev("resolved").i("c", c + 1).i("a", a + 1).raw("stress", mat<dim>(s)).r("value", tau).b("exc", exc));
                break;
              }
            case 3:
            case 4:
              {
                // rates well below, around and far above the regularisation parameter
                const double dt    = rng.lu(1e-5, 1e1);
                const double scale = rng.n(6) ? sp.regularization_parameter * dt * rng.lu(1e-2, 1e2) : rng.lu(1e-8, 1e2);
                Lines        g = random_matrix(rng, slips, points, scale), old = random_matrix(rng, slips, points, scale);
                if (rng.n(6) == 0)
                  old = g;
                Line res;
                for (unsigned i = 0; i < slips; ++i)
                  res.push_back(rng.lu(1e-2, 1e3));
                if (rng.coin())
                  {
                    double v = 0;
                    exc = throws([&] { v = scalar.get_scalar_microstress(g[a][q], old[a][q], res[a], dt); });
                    rec(Ev("scalar").raw("law", sl.done()).r("slip", g[a][q]).r("old", old[a][q]).r("g", res[a]).r("dt", dt)
                          .r("value", v).b("exc", exc));
                  }
                else
                  {
                    dealii::FullMatrix<double> j;
                    exc = throws([&] { j = scalar.get_jacobian(q, g, old, res, dt); });
                    rec(Ev("tangent").raw("law", sl.done()).i("q", q + 1).raw("slips", json(g)).raw("old", json(old)).rs("g", res)
                          .r("dt", dt).raw("value", full(j)).b("exc", exc));
                  }
                break;
              }
            default:
              {
                dealii::Tensor<1, dim> grad;
                // zero, across the slip plane where that is exact, any
                const unsigned kind = rng.n(6);
                if (kind > 0)
                  for (int i = 0; i < dim; ++i)
                    grad[i] = rng.u(-1., 1.) * rng.lu(1e-3, 1e3);
                if (kind == 1 && (vp.defect_energy_index == 2. || vp.defect_energy_index >= 3.))
                  grad = (grad * poly.data->get_slip_direction(c, a)) * poly.data->get_slip_direction(c, a);
                if (kind == 2)
                  {
                    // exact for axis-parallel systems only
                    const auto d = poly.data->get_slip_direction(c, a);
                    for (int i = 0; i < dim; ++i)
                      if (std::abs(d[i]) == 1.)
                        grad = 0.;
                  }
                dealii::Tensor<1, dim> x;
                Sym                    t;
                exc = throws([&] {
                  x = vector.get_vectorial_microstress(c, a, grad);
                  t = vector.get_jacobian(c, a, grad);
                });
                rec(Ev("vector").raw("law", vl.done()).i("c", c + 1).i("a", a + 1).raw("grad", vec<dim>(grad)).raw("value", vec<dim>(x))
                      .raw("tangent", mat<dim>(t)).b("exc", exc));
              }
          }
      }
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder          rec(argv[1]);
  Rng               rng(std::atoi(argv[2]));
  const int         n   = std::atoi(argv[3]), ops = std::atoi(argv[4]);
  const std::string dir = argv[5];
  Mute              mute, mute2(std::cerr);
  for (int i = 0; i < n; ++i)
    if (rng.coin())
      experiment<2>(rec, rng, dir, ops);
    else
      experiment<3>(rec, rng, dir, ops);
  return 0;
}
