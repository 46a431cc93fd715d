// Records how parameter files are read.  Stimuli: one file per line,
// "problem<TAB>path element<US>path element...<TAB>text<TAB>...".
#include <gCP/run_time_parameters.h>
#include <deal.II/base/exceptions.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <map>
#include "trace.h"

using namespace vt;
namespace R = gCP::RunTimeParameters;
namespace fs = std::filesystem;

namespace
{
  using Path = std::vector<std::string>;
  struct File
  {
    std::string                               prob;
    std::vector<std::pair<Path, std::string>> set;
    bool                                      with_3d = false;
  };

  std::vector<std::string> split(const std::string &s, const char c)
  {
    std::vector<std::string> r(1);
    for (const char x : s)
      if (x == c)
        r.emplace_back();
      else
        r.back() += x;
    return r;
  }

  // the settings as a JSON object
  struct Got
  {
    std::string s;
    void        raw(const std::string &k, const std::string &v)
    {
      s += (s.empty() ? "" : ",") + quote(k) + ":" + v;
    }
    void n(const std::string &k, const double v) { raw(k, num(v)); }
    void b(const std::string &k, const bool v) { raw(k, v ? "\"true\"" : "\"false\""); }
    void t(const std::string &k, const std::string &v) { raw(k, quote(v)); }
    template <class T>
    void o(const std::string &k, const T v, const std::vector<std::pair<T, std::string>> &names)
    {
      for (const auto &x : names)
        if (x.first == v)
          return t(k, x.second);
      t(k, "?");
    }
  };

  void system(Got &g, const std::string &k, const R::NonlinearSystemSolverParameters &p)
  {
    g.n(k + ".newton.rel", p.newton_parameters.relative_tolerance);
    g.n(k + ".newton.abs", p.newton_parameters.absolute_tolerance);
    g.n(k + ".newton.step", p.newton_parameters.step_tolerance);
    g.n(k + ".newton.max", p.newton_parameters.n_max_iterations);
    g.b(k + ".newton.line_search", p.newton_parameters.flag_line_search);
    g.n(k + ".ls.alpha", p.line_search_parameters.alpha);
    g.n(k + ".ls.beta", p.line_search_parameters.beta);
    g.n(k + ".ls.max", p.line_search_parameters.n_max_iterations);
    g.o<R::SolverType>(k + ".krylov.type", p.krylov_parameters.solver_type,
                       {{R::SolverType::DirectSolver, "directsolver"},
                        {R::SolverType::CG, "cg"},
                        {R::SolverType::GMRES, "gmres"}});
    g.n(k + ".krylov.rel", p.krylov_parameters.relative_tolerance);
    g.n(k + ".krylov.abs", p.krylov_parameters.absolute_tolerance);
    g.n(k + ".krylov.max", p.krylov_parameters.n_max_iterations);
  }

  void basic(Got &g, const R::BasicProblem &p)
  {
    const auto &s = p.solver_parameters;
    const auto &l = s.constitutive_laws_parameters;
    g.n("hooke.C1111", l.hooke_law_parameters.C1111);
    g.n("hooke.C1122", l.hooke_law_parameters.C1122);
    g.n("hooke.C1212", l.hooke_law_parameters.C1212);
    using F = R::RegularizationFunction;
    g.o<F>("scalar.function", l.scalar_microstress_law_parameters.regularization_function,
           {{F::Atan, "atan"}, {F::Sqrt, "sqrt"}, {F::Gd, "gd"}, {F::Tanh, "tanh"}, {F::Erf, "erf"}});
    g.n("scalar.parameter", l.scalar_microstress_law_parameters.regularization_parameter);
    g.b("scalar.rate_independent", l.scalar_microstress_law_parameters.flag_rate_independent);
    g.n("vectorial.length", l.vectorial_microstress_law_parameters.energetic_length_scale);
    g.n("vectorial.resistance", l.vectorial_microstress_law_parameters.initial_slip_resistance);
    g.n("vectorial.index", l.vectorial_microstress_law_parameters.defect_energy_index);
    g.n("vectorial.parameter", l.vectorial_microstress_law_parameters.regularization_parameter);
    g.n("micro.modulus", l.microtraction_law_parameters.grain_boundary_modulus);
    g.o<R::CohesiveLawModel>("cohesive.model", l.cohesive_law_parameters.cohesive_law_model,
                             {{R::CohesiveLawModel::OrtizEtAl, "OrtizEtAl"}});
    g.n("cohesive.traction", l.cohesive_law_parameters.critical_cohesive_traction);
    g.n("cohesive.opening", l.cohesive_law_parameters.critical_opening_displacement);
    g.n("cohesive.ratio", l.cohesive_law_parameters.tangential_to_normal_stiffness_ratio);
    g.n("contact.penalty", l.contact_law_parameters.penalty_coefficient);
    g.n("degradation.exponent", l.degradation_function_parameters.degradation_exponent);
    g.n("hardening.resistance", l.hardening_law_parameters.initial_slip_resistance);
    g.n("hardening.modulus", l.hardening_law_parameters.linear_hardening_modulus);
    g.n("hardening.latent", l.hardening_law_parameters.hardening_parameter);
    g.b("hardening.perfect", l.hardening_law_parameters.flag_perfect_plasticity);
    const auto &d = l.damage_evolution_parameters;
    using M = R::DamageEvolutionModel;
    g.o<M>("damage.model", d.damage_evolution_model, {{M::OrtizEtAl, "OrtizEtAl"}, {M::M1, "M1"}});
    g.n("damage.accumulation", d.damage_accumulation_constant);
    g.n("damage.decay", d.damage_decay_constant);
    g.n("damage.exponent", d.damage_decay_exponent);
    g.n("damage.endurance", d.endurance_limit);
    g.b("damage.zero", d.flag_set_damage_to_zero);
    g.b("damage.couple_micro", d.flag_couple_microtraction_to_damage);
    g.b("damage.couple_macro", d.flag_couple_macrotraction_to_damage);
    g.n("damage.degradation_exponent", d.degradation_exponent);

    const auto &m = s.monolithic_algorithm_parameters;
    system(g, "mono", m.monolithic_system_solver_parameters);
    using MP = R::MonolithicPreconditioner;
    g.o<MP>("mono.preconditioner", m.monolithic_preconditioner,
            {{MP::BuiltIn, "built-in"}, {MP::Block, "block"}});
    const auto &st = s.staggered_algorithm_parameters;
    system(g, "macro", st.linear_momentum_solver_parameters);
    system(g, "micro", st.pseudo_balance_solver_parameters);
    g.n("staggered.loops", st.max_n_solution_loops);
    g.b("staggered.reset", st.flag_reset_trial_solution_at_micro_loop);

    const auto &df = s.dimensionless_form_parameters;
    const auto &c  = df.characteristic_quantities;
    g.b("dimless.flag", df.flag_solve_dimensionless_problem);
    g.n("char.length", c.length);
    g.n("char.time", c.time);
    g.n("char.displacement", c.displacement);
    g.n("char.stiffness", c.stiffness);
    g.n("char.resistance", c.slip_resistance);
    g.n("char.strain", c.strain);
    g.n("char.stress", c.stress);
    g.n("char.resolved", c.resolved_shear_stress);
    g.n("char.macro", c.macro_traction);
    g.n("char.micro", c.micro_traction);
    g.n("char.body", c.body_force);
    g.n("char.dislocation", c.dislocation_density);
    for (unsigned int i = 0; i < 4; ++i)
      g.n("number." + std::to_string(i + 1), df.dimensionless_numbers.at(i));

    using A = R::SolutionAlgorithm;
    g.o<A>("solver.algorithm", s.solution_algorithm,
           {{A::Monolithic, "monolithic"}, {A::Bouncing, "bouncing"}, {A::Embracing, "embracing"}});
    g.b("solver.decohesion", s.allow_decohesion);
    using B = R::BoundaryConditionsAtGrainBoundaries;
    g.o<B>("solver.gb", s.boundary_conditions_at_grain_boundaries,
           {{B::Microhard, "microhard"}, {B::Microfree, "microfree"}, {B::Microtraction, "microtraction"}});
    g.b("solver.skip_extrapolation", s.flag_skip_extrapolation);
    g.b("solver.skip_extrapolation_at_extrema", s.flag_skip_extrapolation_at_extrema);
    g.n("solver.extrapolation_factor", s.extrapolation_factor);
    g.b("solver.zero_damage", s.flag_zero_damage_during_loading_and_unloading);
    g.b("solver.print_sparsity", s.print_sparsity_pattern);
    g.b("solver.debug_fields", s.flag_output_debug_fields);
    g.b("solver.verbose", s.verbose);
    g.t("solver.log_directory", s.logger_output_directory);

    const auto &sp = p.spatial_discretization;
    g.n("space.dim", sp.dim);
    g.n("space.mapping_degree", sp.mapping_degree);
    g.b("space.mapping_interior", sp.flag_apply_mapping_to_interior_cells);
    g.n("space.refinements", sp.n_global_refinements);
    g.n("space.degree_displacements", sp.fe_degree_displacements);
    g.n("space.degree_slips", sp.fe_degree_slips);
    const auto &t = p.temporal_discretization_parameters;
    g.n("time.start", t.start_time);
    g.n("time.end", t.end_time);
    g.n("time.step", t.time_step_size);
    g.t("input.normals", p.input.slips_normals_pathname);
    g.t("input.directions", p.input.slips_directions_pathname);
    g.t("input.angles", p.input.euler_angles_pathname);
    g.t("output.directory", p.output.output_directory);
    g.n("output.frequency", p.output.graphical_output_frequency);
    g.n("output.terminal_frequency", p.output.terminal_output_frequency);
    g.b("output.damage", p.output.flag_output_damage_variable);
    g.b("output.dimensionless", p.output.flag_output_dimensionless_quantities);
    g.b("output.fluctuations", p.output.flag_output_fluctuations);
    g.b("homogenization.compute", p.homogenization.flag_compute_homogenized_quantities);
    g.n("homogenization.frequency", p.homogenization.homogenization_frequency);
    g.b("verbose", p.verbose);
  }

  std::string strip(const R::InfiniteStripProblem &p)
  {
    Got g;
    basic(g, p);
    const auto &l = p.simple_loading;
    g.o<R::LoadingType>("load.type", l.loading_type,
                        {{R::LoadingType::Monotonic, "monotonic"}, {R::LoadingType::Cyclic, "cyclic"}});
    g.n("load.max", l.max_load);
    g.n("load.min", l.min_load);
    g.n("load.duration", l.duration_monotonic_load);
    g.n("load.steps", l.n_steps_monotonic_load);
    g.n("load.step", l.time_step_size_monotonic_load);
    g.n("load.phase_duration", l.duration_loading_and_unloading_phase);
    g.n("load.phase_steps", l.n_steps_loading_and_unloading_phase);
    g.n("load.phase_step", l.time_step_size_loading_and_unloading_phase);
    g.n("load.cycles", l.n_cycles);
    g.n("load.period", l.period);
    g.n("load.quarter_steps", l.n_steps_quarter_period);
    g.n("load.cyclic_step", l.time_step_size_cyclic_phase);
    g.b("load.skip_unloading", l.flag_skip_unloading_phase);
    g.n("load.cyclic_start", l.start_of_cyclic_phase);
    g.n("load.unload_start", l.start_of_unloading_phase);
    g.n("load.end", l.end_time);
    g.n("strip.height", p.height);
    g.n("strip.elements", p.n_elements_in_y_direction);
    g.n("strip.crystals", p.n_equal_sized_crystals);
    g.o<R::ControlType>("strip.control", p.control_type,
                        {{R::ControlType::Load, "load_control"},
                         {R::ControlType::Displacement, "displacement_control"}});
    return "{" + g.s + "}";
  }

  std::string semi(const R::SemicoupledParameters &p)
  {
    Got g;
    basic(g, p);
    g.n("semi.11", p.strain_component_11);
    g.n("semi.22", p.strain_component_22);
    g.n("semi.33", p.strain_component_33);
    g.n("semi.23", p.strain_component_23);
    g.n("semi.13", p.strain_component_13);
    g.n("semi.12", p.strain_component_12);
    g.n("semi.ratio", p.min_to_max_strain_load_ratio);
    g.t("semi.mesh", p.msh_file_pathname);
    return "{" + g.s + "}";
  }

  bool read(const std::string &prob, const std::string &name, std::string &got)
  {
    got = "[]";
    try
      {
        // poisoned memory: a setting nobody assigns must not look right by chance
        if (prob == "strip")
          {
            alignas(64) static unsigned char m[sizeof(R::InfiniteStripProblem)];
            std::fill(std::begin(m), std::end(m), 0xA5);
            const auto p = new (m) R::InfiniteStripProblem(name);
            got          = strip(*p);
            p->~InfiniteStripProblem();
          }
        else
          {
            alignas(64) static unsigned char m[sizeof(R::SemicoupledParameters)];
            std::fill(std::begin(m), std::end(m), 0xA5);
            const auto p = new (m) R::SemicoupledParameters(name);
            got          = semi(*p);
            p->~SemicoupledParameters();
          }
      }
    catch (...)
      {
        return false;
      }
    return true;
  }

  void one(Recorder &rec, const File &f, const unsigned long n)
  {
    rec.begin();
    const std::string dir = "run" + std::to_string(n) + "/";
    fs::remove_all("work");
    fs::create_directories("work");
    fs::current_path("work");
    std::string set = "[";
    std::string out = "results/default/";
    std::map<std::string, std::string> names = {
      {"Slip normals path name", "input/crystal_structure/symmetric_double_slip_system/slip_normals"},
      {"Slip directions path name", "input/crystal_structure/symmetric_double_slip_system/slip_directions"},
      {"Euler angles path name", "input/crystal_orientation/euler_angles_0_30"}};
    std::ofstream o("a.prm");
    for (const auto &a : f.set)
      {
        for (unsigned int i = 0; i + 1 < a.first.size(); ++i)
          o << "subsection " << a.first[i] << "\n";
        o << "set " << a.first.back() << " = " << a.second << "\n";
        for (unsigned int i = 0; i + 1 < a.first.size(); ++i)
          o << "end\n";
        std::string p;
        for (const auto &x : a.first)
          p += (p.empty() ? "" : ",") + quote(x);
        set += (set.size() > 1 ? "," : "") + ("[[" + p + "]," + quote(a.second) + "]");
        if (a.first.back() == "Graphical output directory")
          out = a.second;
        if (names.count(a.first.back()))
          names[a.first.back()] = a.second;
      }
    o.close();
    std::string existing;
    unsigned int k = 0;
    for (const auto &x : names)
      {
        // sometimes one of the three is not there
        if (!f.with_3d || (n % 3 == 0 && k++ == n / 3 % 3))
          continue;
        const std::string y = x.second + "_3d.txt";
        fs::create_directories(fs::path(y).parent_path());
        std::ofstream(y) << "1. 0. 0.\n";
        existing += (existing.empty() ? "" : ",") + quote(y);
      }
    rec(Ev("file").str("prob", f.prob).raw("set", set + "]").raw("existing", "[" + existing + "]"));
    std::string got, again;
    const bool  ok = read(f.prob, "a.prm", got);
    rec(Ev("read").b("exc", !ok).raw("got", got));
    if (ok)
      {
        const bool ok2 = read(f.prob, out + "parameter_file.prm", again);
        rec(Ev("reread").b("exc", !ok2).raw("got", again));
      }
    fs::current_path("..");
    fs::remove_all("work");
  }

  void missing(Recorder &rec, const std::string &prob)
  {
    rec.begin();
    fs::remove_all("work");
    fs::create_directories("work");
    fs::current_path("work");
    rec(Ev("file").str("prob", prob).raw("set", "[]").raw("existing", "[]"));
    std::string got;
    const bool  ok = read(prob, "new.prm", got);
    rec(Ev("missing").b("exc", !ok).b("written", fs::exists("new.prm")));
    const bool ok2 = read(prob, "new.prm", got);
    rec(Ev("read").b("exc", !ok2).raw("got", got));
    fs::current_path("..");
    fs::remove_all("work");
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  MPI_Init(&argc, &argv);
  Recorder rec(argv[1]);
  std::ifstream in(argv[2]);
  fs::create_directories(argv[3]);
  fs::current_path(argv[3]);
  missing(rec, "strip");
  missing(rec, "semi");
  std::string   line;
  unsigned long n = 0;
  while (std::getline(in, line))
    {
      const auto w = split(line, '\t');
      File       f;
      f.prob = w[0];
      f.with_3d = w[1] == "1";
      for (unsigned int i = 2; i + 1 < w.size(); i += 2)
        f.set.emplace_back(split(w[i], '\x1f'), w[i + 1]);
      one(rec, f, n++);
    }
  MPI_Finalize();
  return 0;
}
