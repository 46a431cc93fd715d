// Records the schedule (mode "schedule") or the prescribed boundary values
// (mode "values") of loading programmes given in a parameter file.
#include <gCP/boundary_conditions.h>
#include <gCP/run_time_parameters.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/parameter_handler.h>
#include "trace.h"

using namespace vt;

namespace
{
  struct P
  {
    bool   cyclic, skip;
    double max, min, dur, phase, period;
    int    n, nphase, nq, cycles;
  };

  bool parse(gCP::RunTimeParameters::SimpleLoading &sl, const P &p)
  {
    dealii::ParameterHandler prm;
    gCP::RunTimeParameters::SimpleLoading::declare_parameters(prm);
    std::ostringstream o;
    o.precision(17);
    o << "subsection 2. Temporal discretization parameters\nsubsection Simple loading\n"
      << "set Loading type = " << (p.cyclic ? "cyclic" : "monotonic") << "\n"
      << "set Maximum load = " << p.max << "\nset Minimum load = " << p.min << "\n"
      << "subsection Monotonic load parameters\nset Duration of monotonic load = " << p.dur
      << "\nset Number of steps during monotonic load = " << p.n << "\nend\n"
      << "subsection Cyclic load parameters\nset Duration of un- and loading phase = " << p.phase
      << "\nset Number of steps during un- and loading phase = " << p.nphase
      << "\nset Period = " << p.period << "\nset Number of steps during a quarter cycle = " << p.nq
      << "\nset Number of cycles = " << p.cycles
      << "\nset Skip unloading phase = " << (p.skip ? "true" : "false") << "\nend\nend\nend\n";
    try
      {
        prm.parse_input_from_string(o.str());
        sl.parse_parameters(prm);
      }
    catch (...)
      {
        return false;
      }
    return true;
  }

  bool programme(Recorder &rec, gCP::RunTimeParameters::SimpleLoading &sl, const P &p)
  {
    const bool ok = parse(sl, p);
    Ev         j("p");
    j.b("cyclic", p.cyclic).b("skip", p.skip).r("max", p.max).r("min", p.min).r("dur", p.dur)
      .r("phase", p.phase).r("period", p.period).i("n", p.n).i("nphase", p.nphase).i("nq", p.nq)
      .i("cycles", p.cycles);
    rec(Ev("programme").raw("p", j.done()).r("start", sl.start_time).r("end", sl.end_time)
          .r("cyclic_start", sl.start_of_cyclic_phase).r("unload_start", sl.start_of_unloading_phase)
          .b("exc", !ok));
    return ok;
  }

  // the planned steps up to the end time
  void schedule(Recorder &rec, const P &p)
  {
    rec.begin();
    gCP::RunTimeParameters::SimpleLoading sl;
    if (!programme(rec, sl, p))
      return;
    double   t    = sl.start_time;
    bool     stop = false;
    unsigned k    = 0;
    while (!stop && k < 5000)
      {
        const double size = sl.get_next_time_step_size(k);
        const bool   skip = sl.skip_extrapolation(k);
        t += size;
        ++k;
        stop = t > sl.end_time * (1. - 1e-10);
        rec(Ev("step").r("size", size).b("skip", skip).r("time", t).b("at_end", stop));
      }
    rec(Ev("done"));
  }

  template <int dim>
  void values(Recorder &rec, Rng &rng, const P &p)
  {
    rec.begin();
    gCP::RunTimeParameters::SimpleLoading sl;
    if (!programme(rec, sl, p))
      return;
    for (int c = 0; c < 3; ++c)
      {
        const unsigned comp = rng.coin() ? 0 : rng.n(dim), crystals = 1 + rng.n(4), slips = rng.n(5);
        const bool     dec   = rng.coin();
        const unsigned total = dim * (dec ? crystals : 1) + slips * crystals;
        const double   h = rng.lu(1e-3, 1e3), chr = rng.coin() ? 1. : rng.lu(1e-3, 1e3);
        Ev             j("b");
        j.i("dim", dim).i("comp", comp).i("total", total).i("crystals", crystals)
          .b("decohesion", dec).r("height", h).r("chr", chr);
        rec(Ev("boundary").raw("b", j.done()));
        gCP::BoundaryConditions::DisplacementControl<dim> bc(sl, total, crystals, h, dec, chr, comp);
        std::vector<double> times = {0., sl.end_time};
        if (p.cyclic)
          {
            // around the phase boundaries and at the extrema
            for (const double x : {p.phase, p.phase + p.cycles * p.period})
              for (const double d : {-1e-7, 0., 1e-7})
                times.push_back(x + d);
            for (int i = 0; i < 2 * p.cycles; ++i)
              times.push_back(p.phase + p.period * (i / 2. + .25));
          }
        for (int i = 0; i < 12; ++i)
          times.push_back(rng.u(0., sl.end_time));
        for (const double t : times)
          if (t >= 0. && t <= sl.end_time)
            {
              dealii::Vector<double> v(total);
              v        = 17.; // must be overwritten
              bool exc = false;
              try
                {
                  bc.set_time(t);
                  dealii::Point<dim> x;
                  for (unsigned i = 0; i < dim; ++i)
                    x[i] = rng.u(0., 10.);
                  bc.vector_value(x, v);
                }
              catch (...)
                {
                  exc = true;
                }
              rec(Ev("value").r("t", t).raw("v", seq(v.begin(), v.end())).b("exc", exc));
            }
      }
  }

  P random_programme(Rng &rng)
  {
    P p;
    p.cyclic = rng.n(5) > 0;
    p.skip   = rng.coin();
    p.min    = rng.coin() ? 0. : rng.u(0., .1);
    p.max    = p.min + rng.lu(1e-4, 2.);
    p.dur    = rng.lu(1e-2, 1e2);
    p.phase  = rng.lu(1e-2, 1e2);
    p.period = rng.lu(1e-2, 1e2);
    p.n      = 1 + rng.n(rng.coin() ? 10 : 60);
    p.nphase = 1 + rng.n(rng.coin() ? 10 : 60);
    p.nq     = 1 + rng.n(12);
    p.cycles = rng.n(6);
    return p;
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder          rec(argv[1]);
  const std::string mode = argv[2];
  Rng               rng(std::atoi(argv[4]));
  const int         n = std::atoi(argv[5]);
  Mute              mute, mute2(std::cerr);

  std::vector<P> ps;
  std::ifstream  in(argv[3]);
  P              p;
  while (in >> p.cyclic >> p.skip >> p.max >> p.min >> p.dur >> p.phase >> p.period >> p.n >> p.nphase >> p.nq >> p.cycles)
    ps.push_back(p);
  for (int c = 0; c < n; ++c)
    ps.push_back(random_programme(rng));
  for (const auto &q : ps)
    if (mode == "schedule")
      schedule(rec, q);
    else if (rng.coin())
      values<2>(rec, rng, q);
    else
      values<3>(rec, rng, q);
  return 0;
}
