// Evaluates the real microtraction law for random pairs of crystals.
#include <gCP/constitutive_laws.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include "crystals.h"

using namespace vt;
namespace RTP = gCP::RunTimeParameters;

namespace
{
  template <int dim>
  void experiment(Recorder &rec, Rng &rng, const std::string &dir, const int ops)
  {
    const unsigned   crystals = 2 + rng.n(3), slips = rng.n(8) ? 1 + rng.n(dim == 2 ? 4 : 12) : 1;
    Polycrystal<dim> poly(rng, crystals, slips);
    rec.begin();
    rec(poly.event());
    poly.setup(dir);
    RTP::MicrotractionLawParameters prm;
    prm.grain_boundary_modulus = rng.n(5) ? rng.lu(1e-3, 1e4) : 0.;
    const double                                chr = rng.coin() ? rng.lu(1e-2, 1e3) : 1.;
    gCP::ConstitutiveLaws::MicrotractionLaw<dim> law(poly.data, prm, chr);
    for (int o = 0; o < ops; ++o)
      {
        const unsigned c = rng.n(crystals), n = (c + 1 + rng.n(crystals - 1)) % crystals, points = 1 + rng.n(3), q = rng.n(points);
        std::vector<dealii::Tensor<1, dim>> normals;
        for (unsigned i = 0; i < points; ++i)
          {
            normals.push_back(random_normal<dim>(rng));
            // in or across a slip plane
            if (rng.n(4) == 0)
              normals.back() = rng.coin() ? poly.data->get_slip_direction(c, rng.n(slips)) : poly.data->get_slip_normal(n, rng.n(slips));
          }
        bool exc = false;
        if (rng.n(20) == 0)
          {
            try
              {
                law.get_grain_interaction_moduli(c, c, normals);
              }
            catch (...)
              {
                exc = true;
              }
            rec(Ev("same").b("exc", exc));
            continue;
          }
        std::vector<std::string> intra, inter, ns;
        std::string              di = "[]", de = "[]";
        Line                     t;
        double                   energy = 0;
        const double             scale  = rng.lu(1e-6, 1.);
        const Lines              cur = random_matrix(rng, slips, points, scale),
                    nei = rng.n(5) ? random_matrix(rng, slips, points, scale) : cur;
        for (const auto &x : normals)
          ns.push_back(vec<dim>(x));
        try
          {
            const auto m = law.get_grain_interaction_moduli(c, n, normals);
            for (const auto &x : m.first)
              intra.push_back(full(x));
            for (const auto &x : m.second)
              inter.push_back(full(x));
            for (unsigned a = 0; a < slips; ++a)
              t.push_back(law.get_microtraction(q, a, m, cur, nei));
            di     = full(law.get_intra_gateaux_derivative(q, m));
            de     = full(law.get_inter_gateaux_derivative(q, m));
            energy = law.get_free_energy_density(n, c, q, normals, nei, cur);
          }
        catch (...)
          {
            exc = true;
          }
        if (rng.n(3) == 0 || exc)
          rec(Ev("moduli").i("c", c + 1).i("n", n + 1).raw("normals", join(ns)).raw("intra", join(intra)).raw("inter", join(inter)).b("exc", exc));
        rec(Ev("point").i("c", c + 1).i("n", n + 1).i("q", q + 1).raw("normal", ns[q]).raw("cur", json(cur)).raw("nei", json(nei))
              .r("modulus", prm.grain_boundary_modulus).r("chr", chr).rs("traction", t).raw("intra", di).raw("inter", de)
              .r("energy", energy).b("exc", exc));
      }
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder          rec(argv[1]);
  Rng               rng(std::atoi(argv[2]));
  const int         n   = std::atoi(argv[3]), ops = std::atoi(argv[4]);
  const std::string dir = argv[5];
  Mute              mute, mute2(std::cerr);
  for (int i = 0; i < n; ++i)
    if (rng.coin())
      experiment<2>(rec, rng, dir, ops);
    else
      experiment<3>(rec, rng, dir, ops);
  return 0;
}
