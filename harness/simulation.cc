// Runs the real simple shear application on a parameter file and records what
// it does at the observation points of the solver.
//
//   simulation OUT WHAT SEED PRM CONFIG.json [MACROSTRAIN [FORCES]]
//
// WHAT is a set of letters: s solver (iterates, residuals, updates), a active
// sets, w residuals as they are assembled, j system matrices, d driver output,
// p postprocessing, h records of the material points, f records of the grain
// boundary points.
#define main gcp_application_main
#include <deal.II/base/tensor_function.h>
#include <applications/simple_shear.cc>
#undef main
#include <deal.II/fe/fe_nothing.h>
#include <gCP/verification.h>

#include <zlib.h>

#include <algorithm>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <map>
#include <set>
#include "trace.h"

namespace
{
  std::string                             what;
  std::function<void(const std::string &)> observer;
  bool                                    suspended = false;
  vt::Recorder                           *rec       = nullptr;

  bool wants(const char c) { return what.find(c) != std::string::npos; }

  void emit(const vt::Ev &e)
  {
    if (rec)
      (*rec)(e);
  }
} // namespace

void gCP::Verification::observe(const char *point, const void *)
{
  if (!suspended && observer)
    observer(point);
}

namespace
{
  using BV = dealii::LinearAlgebraTrilinos::MPI::BlockVector;

  std::string contents(const std::string &name)
  {
    std::ifstream      in(name);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
  }

  // the numbers of a table, line by line; other lines are left out.  Empty
  // cells ("") are kept.
  std::string numbers(const std::string &text)
  {
    std::vector<std::string> rows;
    std::istringstream       in(text);
    for (std::string line; std::getline(in, line);)
      {
        for (auto &c : line)
          if (c == '|')
            c = ' ';
        std::istringstream       words(line);
        std::vector<std::string> row;
        bool                     ok = true;
        for (std::string w; words >> w;)
          {
            char *end = nullptr;
            std::strtod(w.c_str(), &end);
            if (w == "\"\"")
              w = "";
            else
              ok = ok && !*end;
            row.push_back(vt::quote(w));
          }
        if (ok && !row.empty())
          rows.push_back(vt::join(row));
      }
    return vt::join(rows);
  }

  std::string names(const std::string &directory)
  {
    std::vector<std::string> l;
    if (std::filesystem::exists(directory))
      for (const auto &f : std::filesystem::directory_iterator(directory))
        l.push_back(vt::quote(f.path().filename().string()));
    std::sort(l.begin(), l.end());
    return vt::join(l);
  }

  // Points and point data of a vtu file, the arrays of the latter in the order
  // of the file and split into their components
  struct Vtu
  {
    std::vector<double>                                       points; // x y z ...
    std::vector<std::pair<std::string, std::vector<double>>>  data;
  };

  std::vector<double> floats(const std::string &text)
  {
    std::vector<std::uint8_t> bytes[2];
    unsigned                  part = 0, bits = 0, n = 0, pad = 0;
    for (const char c : text)
      {
        static const std::string code = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        const auto               k    = code.find(c);
        if (c != '=' && k == std::string::npos)
          continue;
        bits = bits << 6 | (c == '=' ? 0 : k), pad += c == '=';
        if (++n % 4 == 0)
          {
            for (unsigned i = 0; i < 3 - pad; ++i)
              bytes[part].push_back(bits >> (16 - 8 * i) & 255);
            bits = 0, pad = 0;
            // the header is encoded on its own
            if (part == 0 && bytes[0].size() >= 12)
              {
                const auto *h = reinterpret_cast<const std::uint32_t *>(bytes[0].data());
                if (bytes[0].size() == 12 + 4 * h[0])
                  part = 1;
              }
          }
      }
    const auto         *h = reinterpret_cast<const std::uint32_t *>(bytes[0].data());
    std::vector<double> r;
    std::size_t         at = 0;
    for (unsigned b = 0; b < h[0]; ++b)
      {
        uLongf             size = b + 1 == h[0] && h[2] ? h[2] : h[1];
        std::vector<float> v(size / 4);
        if (uncompress(reinterpret_cast<Bytef *>(v.data()), &size, bytes[1].data() + at, h[3 + b]) != Z_OK)
          throw std::runtime_error("unreadable vtu file");
        at += h[3 + b];
        r.insert(r.end(), v.begin(), v.end());
      }
    return r;
  }

  Vtu read_vtu(const std::string &name)
  {
    const std::string text = contents(name);
    Vtu               v;
    const auto        data = text.find("<PointData");
    for (auto p = text.find("<DataArray"); p != std::string::npos; p = text.find("<DataArray", p + 1))
      {
        const auto        a = text.find('>', p), b = text.find('<', a);
        const std::string tag = text.substr(p, a - p);
        if (tag.find("Float32") == std::string::npos)
          continue;
        const auto field = [&](const std::string &key) {
          const auto i = tag.find(key + "=\"");
          if (i == std::string::npos)
            return std::string();
          const auto j = i + key.size() + 2;
          return tag.substr(j, tag.find('"', j) - j);
        };
        const auto     values = floats(text.substr(a + 1, b - a - 1));
        const unsigned nc     = field("NumberOfComponents").empty() ? 1 : std::stoi(field("NumberOfComponents"));
        if (p < data)
          v.points = values;
        else
          for (unsigned c = 0; c < nc; ++c)
            {
              std::vector<double> w;
              for (std::size_t i = c; i < values.size(); i += nc)
                w.push_back(values[i]);
              v.data.emplace_back(field("Name"), w);
            }
      }
    return v;
  }

  std::vector<double> sum(std::vector<double> v)
  {
    dealii::Utilities::MPI::sum(dealii::ArrayView<const double>(v), MPI_COMM_WORLD,
                                dealii::ArrayView<double>(v));
    return v;
  }

  dealii::IndexSet owned; // unknowns of this process

  std::vector<double> gather(const BV &v)
  {
    std::vector<double> r(v.size(), 0.);
    for (const auto i : owned)
      r[i] = v(i);
    return sum(r);
  }

  std::vector<long> gather(const dealii::IndexSet &s)
  {
    std::vector<double> r(s.size(), 0.);
    for (const auto i : s)
      r[i] = 1.;
    r = sum(r);
    std::vector<long> l;
    for (std::size_t i = 0; i < r.size(); ++i)
      if (r[i] > 0.)
        l.push_back(i + 1);
    return l;
  }

  template <int dim>
  struct Fields : dealii::DataOut<dim>
  {
    using dealii::DataOut<dim>::get_patches;
  };

  template <int dim>
  struct Run
  {
    gCP::SimpleShearProblem<dim>                   &p;
    gCP::GradientCrystalPlasticitySolver<dim>      &s;
    gCP::FEField<dim>                              &f;
    bool                                            first = true;
    vt::Rng                                         rng;
    unsigned                                        n_solve = 0, n_residual = 0;
    std::ostringstream                              quiet;

    Run(gCP::SimpleShearProblem<dim> &p, const unsigned seed)
      : p(p), s(p.gCP_solver), f(*p.fe_field), rng(seed) {}

    // kind (0 displacement, 1 slip), number of the direction or slip system,
    // crystal (-1: shared), block and position in half elements of every unknown
    void mesh()
    {
      const unsigned n = f.n_dofs(), nc = f.get_n_crystals(), ns = f.get_n_slips();
      const bool     deco = f.is_decohesion_allowed();
      const double   h = 0.5 * p.parameters.height / p.parameters.n_elements_in_y_direction /
                       (1 << p.parameters.spatial_discretization.n_global_refinements);
      const double hx = 0.5 / p.parameters.n_elements_in_y_direction /
                        (1 << p.parameters.spatial_discretization.n_global_refinements);
      std::vector<double> kind(n), idx(n), crystal(n), seen(n), x(n), y(n), z(n);
      std::vector<dealii::types::global_dof_index> dofs;
      std::vector<double> cells;
      for (const auto &cell : f.get_dof_handler().active_cell_iterators())
        if (cell->is_locally_owned())
          {
            const auto &fe = cell->get_fe();
            dofs.resize(fe.n_dofs_per_cell());
            cell->get_dof_indices(dofs);
            for (unsigned i = 0; i < dofs.size(); ++i)
              {
                const unsigned c = fe.system_to_component_index(i).first,
                               nu = deco ? nc * dim : dim;
                const auto g = dofs[i];
                if (!f.get_locally_owned_dofs().is_element(g))
                  continue;
                kind[g]    = c >= nu;
                idx[g]     = c < nu ? c % dim : (c - nu) % ns;
                crystal[g] = c < nu ? (deco ? (double)(c / dim) : -1.) : (double)((c - nu) / ns);
                const auto pt = p.mapping->transform_unit_to_real_cell(
                  cell, fe.base_element(fe.system_to_base_index(i).first.first)
                          .unit_support_point(fe.system_to_base_index(i).second));
                x[g] = std::lround(pt[0] / hx);
                y[g] = std::lround(pt[1] / h);
                z[g] = dim == 3 ? std::lround(pt[2] / hx) : 0;
                seen[g] = 1.;
              }
          }
      std::vector<std::string> rows;
      kind = sum(kind), idx = sum(idx), crystal = sum(crystal), x = sum(x), y = sum(y), z = sum(z);
      unsigned off = f.solution.n_blocks() > 1 ? f.solution.block(0).size() : n;
      for (unsigned i = 0; i < n; ++i)
        rows.push_back(vt::iseq({(long)kind[i], (long)idx[i] + 1, (long)crystal[i] + 1, i < off ? 1 : 2,
                                 (long)x[i], (long)y[i], (long)z[i]}));
      emit(vt::Ev("mesh").raw("dofs", vt::join(rows)).i("blocks", f.solution.n_blocks())
             .i("ranks", dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD)));
    }

    // material of the cells and their centres in half elements
    void grid()
    {
      const auto               u = unit();
      std::vector<std::string> rows;
      for (const auto &cell : p.triangulation.active_cell_iterators())
        if (cell->is_locally_owned())
          rows.push_back(vt::iseq(position(cell->center(), u, (long)cell->material_id() + 1)));
      emit(vt::Ev("grid").raw("cells", vt::join(rows)));
    }

    dealii::Point<3> unit() const
    {
      const double n = p.parameters.n_elements_in_y_direction *
                       (1 << p.parameters.spatial_discretization.n_global_refinements);
      return dealii::Point<3>(0.5 / n, 0.5 * p.parameters.height / n, 0.5 / n);
    }

    template <typename P>
    std::vector<long> position(const P &x, const dealii::Point<3> &u, const long first) const
    {
      std::vector<long> r;
      if (first > 0)
        r.push_back(first);
      for (unsigned d = 0; d < 3; ++d)
        r.push_back(d < dim ? std::lround(x[d] / u[d]) : 0);
      return r;
    }

    // what a run has reported so far
    unsigned n_fields = 0;
    void     report()
    {
      const std::string out = p.parameters.output.output_directory;
      if (wants('d'))
        emit(vt::Ev("report").i("k", p.discrete_time.get_step_number()).r("t", p.discrete_time.get_current_time())
               .raw("curve", numbers(contents(out + "stress12_vs_shear_strain_at_boundary.txt")))
               .raw("statistics", numbers(contents(out + "solution_algorithm_statistics.txt")))
               .raw("files", names(out + "paraview")));
      if (!wants('p'))
        return;
      char name[100];
      std::snprintf(name, 100, "paraview/solution_%05u.0.vtu", n_fields);
      if (std::filesystem::exists(out + name))
        {
          fields("fields", read_vtu(out + name), 1 << dim);
          std::snprintf(name, 100, "paraview/damage_%05u.0.vtu", n_fields);
          if (std::filesystem::exists(out + name))
            fields("faces", read_vtu(out + name), 1);
          ++n_fields;
        }
      const auto &prm = p.parameters.solver_parameters;
      if (f.is_decohesion_allowed() && f.get_n_crystals() > 1)
        aside([&] {
          const auto              &d = s.get_damage_at_grain_boundaries();
          const auto              &h = s.projection_dof_handler;
          std::map<unsigned, std::string> rows;
          std::vector<dealii::types::global_dof_index> dofs;
          for (const auto &cell : h.active_cell_iterators())
            {
              const auto &fe = cell->get_fe();
              dofs.resize(fe.n_dofs_per_cell());
              cell->get_dof_indices(dofs);
              for (unsigned i = 0; i < dofs.size(); ++i)
                {
                  std::vector<std::string> row;
                  for (const long c : position(p.mapping->transform_unit_to_real_cell(cell, fe.unit_support_point(i)), unit(), 0))
                    row.push_back(std::to_string(c));
                  row.push_back(vt::seq({d[dofs[i]]}));
                  rows[dofs[i]] = vt::join(row);
                }
            }
          std::vector<std::string> l;
          for (const auto &[i, r] : rows)
            l.push_back(r);
          emit(vt::Ev("damage").raw("nodes", vt::join(l)).r("mean", s.get_macroscopic_damage()));
        });
      (void)prm;
    }

    // rows of positions (half elements), the centre of the group of points
    // they belong to, and values
    void fields(const std::string &what, const Vtu &v, const unsigned group)
    {
      const auto               u = unit();
      std::vector<std::string> names, points, rows;
      for (const auto &d : v.data)
        names.push_back(vt::quote(d.first));
      for (std::size_t i = 0; 3 * i < v.points.size(); ++i)
        {
          dealii::Point<3> c;
          for (std::size_t k = i / group * group; k < (i / group + 1) * group; ++k)
            for (unsigned d = 0; d < 3; ++d)
              c[d] += v.points[3 * k + d] / group;
          auto        a = position(dealii::Point<3>(v.points[3 * i], v.points[3 * i + 1], v.points[3 * i + 2]), u, 0);
          const auto  b = position(c, u, 0);
          a.insert(a.end(), b.begin(), b.end());
          points.push_back(vt::iseq(a));
          std::vector<double> w;
          for (const auto &d : v.data)
            w.push_back(d.second[i]);
          rows.push_back(vt::seq(w));
        }
      emit(vt::Ev(what).raw("names", vt::join(names)).raw("points", vt::join(points)).raw("values", vt::join(rows)));
    }

    // fields and averages of arbitrary values of the unknowns
    void probe_fields()
    {
      vt::Ev e("arbitrary");
      aside([&] {
        BV           v(f.distributed_vector);
        const BV     keep  = f.solution;
        const double scale = std::pow(10., rng.u(-4., -1.5));
        for (const auto i : owned)
          v(i) = scale * rng.u(-1., 1.);
        v.compress(dealii::VectorOperation::insert);
        f.solution = v;
        dealii::SymmetricTensor<2, dim> strain;
        std::vector<double>             flat;
        for (unsigned i = 0; i < dim; ++i)
          for (unsigned j = i; j < dim; ++j)
            strain[i][j] = scale * rng.u(-1., 1.);
        for (unsigned i = 0; i < dim; ++i)
          for (unsigned j = 0; j < dim; ++j)
            flat.push_back(strain[i][j]);
        const bool dimless = rng.coin(0.3);
        gCP::Postprocessing::Postprocessor<dim> post(
          p.fe_field, p.crystals_data, p.parameters.solver_parameters.dimensionless_form_parameters, false, dimless, true);
        post.init(s.get_hooke_law());
        post.set_macroscopic_strain(strain);
        Fields<dim> out;
        out.attach_dof_handler(f.get_dof_handler());
        out.add_data_vector(f.solution, post);
        out.build_patches(*p.mapping, 0, dealii::DataOut<dim>::curved_inner_cells);
        Vtu w;
        const auto names = post.get_names();
        for (const auto &n : names)
          w.data.emplace_back(n, std::vector<double>());
        for (const auto &patch : out.get_patches())
          for (unsigned i = 0; i < 1 << dim; ++i)
            {
              for (unsigned d = 0; d < 3; ++d)
                w.points.push_back(d < dim ? patch.vertices[i][d] : 0.);
              for (unsigned c = 0; c < names.size(); ++c)
                w.data[c].second.push_back(patch.data(c, i));
            }
        gCP::Postprocessing::Homogenization<dim> hom(p.fe_field, p.mapping);
        const std::string file = p.parameters.output.output_directory + "arbitrary.txt";
        std::ofstream     stream(file);
        hom.init(s.get_elastic_strain_law(), s.get_hooke_law(), stream);
        hom.set_macroscopic_strain(strain);
        hom.compute_macroscopic_quantities(p.discrete_time.get_current_time());
        hom.output_macroscopic_quantities_to_file();
        hom.path_to_output_file.close();
        e.rs("x", gather(v)).rs("strain", flat).b("dimless", dimless).raw("homogenized", numbers(contents(file)));
        emit(e);
        fields("values", w, 1 << dim);
        f.solution = keep;
      });
    }

    // Calls of the solver made by the harness: not observed, and timed apart
    template <typename F>
    void aside(const F &calls)
    {
      const auto timer = s.timer_output;
      s.timer_output   = std::make_shared<dealii::TimerOutput>(
        MPI_COMM_WORLD, quiet, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
      suspended = true;
      calls();
      suspended      = false;
      s.timer_output = timer;
    }

    void assemble_fresh()
    {
      aside([&] {
        s.reset_and_update_internal_variables();
        s.assemble_residual();
      });
    }

    std::vector<double> product(const std::vector<double> &)
    {
      BV u(f.distributed_vector), r(f.distributed_vector);
      u = s.newton_update;
      s.jacobian.vmult(r, u);
      return gather(r);
    }

    // the active set of arbitrary admissible iterates
    void probe_active_set()
    {
      const BV   x      = s.trial_solution;
      const auto active = s.locally_owned_active_set, inactive = s.locally_owned_inactive_set;
      const BV   g = s.slip_resistance, tau = s.trial_microstress->solution;
      for (unsigned k = 0; k < 4; ++k)
        {
          vt::Ev e("probe");
          aside([&] {
            // slips and displacements of the order of elastic and plastic
            // strains up to a few times the yield strain
            BV           v(f.distributed_vector);
            const double scale = std::pow(10., rng.u(-4., -1.5)),
                         us    = 1. / p.parameters.solver_parameters.dimensionless_form_parameters
                                     .characteristic_quantities.displacement;
            for (const auto i : owned)
              v(i) = f.get_locally_owned_plastic_slip_dofs().is_element(i) ?
                       f.old_solution(i) + scale * rng.u(-1., 1.) :
                       us * scale * rng.u(-1., 1.);
            v.compress(dealii::VectorOperation::insert);
            f.get_affine_constraints().distribute(v);
            s.trial_solution = v;
            s.reset_and_update_internal_variables();
            e.rs("x", gather(s.trial_solution)).rs("g", gather(s.slip_resistance))
              .is("from", gather(s.locally_owned_active_set));
            bool flag = true;
            s.active_set_algorithm(flag);
            e.rs("tau", gather(s.trial_microstress->solution))
              .is("active", gather(s.locally_owned_active_set))
              .is("inactive", gather(s.locally_owned_inactive_set)).rs("y", gather(s.trial_solution));
          });
          emit(e);
        }
      s.locally_owned_active_set      = active;
      s.locally_owned_inactive_set    = inactive;
      s.slip_resistance               = g;
      s.trial_microstress->solution   = tau;
      s.trial_solution                = x;
      s.reset_internal_newton_method_constraints();
    }

    // residual and matrix, applied to displacements only and to slips only, at
    // arbitrary admissible iterates
    void probe_tangents(const bool undeformed)
    {
      const BV     x     = s.trial_solution;
      const double us    = 1. / p.parameters.solver_parameters.dimensionless_form_parameters
                               .characteristic_quantities.displacement;
      const auto   slips = f.get_locally_owned_plastic_slip_dofs();
      for (unsigned k = 0; k < (undeformed ? 3 : 2); ++k)
        {
          vt::Ev e("tangents");
          aside([&] {
            BV           v(f.distributed_vector), w(f.distributed_vector);
            const double scale = std::pow(10., rng.u(-4., -1.5)), growth = rng.u(0., 1.);
            if (!(undeformed && k == 2))
              {
                for (const auto i : owned)
                  v(i) = slips.is_element(i) ? f.old_solution(i) + scale * rng.u(-1., 1.) :
                                               growth * f.old_solution(i) + us * scale * rng.u(-1., 1.);
                v.compress(dealii::VectorOperation::insert);
                f.get_affine_constraints().distribute(v);
              }
            s.trial_solution = v;
            s.reset_and_update_internal_variables();
            s.assemble_residual();
            s.assemble_jacobian();
            e.rs("x", gather(s.trial_solution)).rs("r", gather(s.residual));
            std::vector<std::string> vs, js;
            for (const bool slip : {false, true})
              {
                for (const auto i : owned)
                  v(i) = slips.is_element(i) == slip ? rng.u(-1., 1.) : 0.;
                v.compress(dealii::VectorOperation::insert);
                s.internal_newton_method_constraints.distribute(v);
                s.jacobian.vmult(w, v);
                for (const auto i : owned)
                  if (s.internal_newton_method_constraints.is_constrained(i))
                    w(i) = 0.;
                w.compress(dealii::VectorOperation::insert);
                vs.push_back(vt::seq(gather(v)));
                js.push_back(vt::seq(gather(w)));
              }
            e.raw("v", vt::join(vs)).raw("jv", vt::join(js));
          });
          emit(e);
        }
      s.trial_solution = x;
    }

    // the records as they are: slip resistances of every element and point,
    // damage and largest opening of every boundary between crystals and point
    void records()
    {
      const auto     u  = unit();
      const unsigned ne = std::lround(p.parameters.height / (2. * u[1])), ns = f.get_n_slips();
      const auto     element = [&](const auto &cell) {
        return static_cast<unsigned>(std::lround(cell->center()[1] / u[1])) / 2;
      };
      vt::Ev e(wants('h') ? "records" : "boundaries");
      e.rs("x", gather(s.trial_solution));
      const unsigned      nq = wants('h') ? s.quadrature_collection[0].size() : s.face_quadrature_collection[0].size();
      const unsigned      nv = wants('h') ? ns : 2;
      std::vector<double> v(ne * nq * nv, 0.), n(ne, 0.);
      for (const auto &cell : f.get_triangulation().active_cell_iterators())
        if (cell->is_locally_owned())
          {
            const unsigned j = element(cell);
            if (wants('h'))
              {
                const auto r = s.quadrature_point_history.get_data(cell);
                ++n[j];
                for (unsigned q = 0; q < nq; ++q)
                  for (unsigned a = 0; a < ns; ++a)
                    v[(j * nq + q) * nv + a] += r[q]->get_slip_resistance(a);
                continue;
              }
            const unsigned up = 3;
            if (!f.is_decohesion_allowed() || cell->face(up)->at_boundary() ||
                cell->material_id() == cell->neighbor(up)->material_id())
              continue;
            ++n[j];
            const auto r = s.interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(up)->id());
            dealii::FE_Nothing<dim>   nothing;
            dealii::FEFaceValues<dim> values(*p.mapping, nothing, s.face_quadrature_collection[0],
                                             dealii::update_quadrature_points);
            values.reinit(cell, up);
            std::vector<unsigned> order(nq);
            for (unsigned q = 0; q < nq; ++q)
              order[q] = q;
            std::sort(order.begin(), order.end(), [&](const unsigned a, const unsigned b) {
              const auto &x = values.quadrature_point(a), &y = values.quadrature_point(b);
              if (dim == 3 && std::abs(x[dim - 1] - y[dim - 1]) > 1e-6 * u[2])
                return x[dim - 1] < y[dim - 1];
              return x[0] < y[0];
            });
            for (unsigned q = 0; q < nq; ++q)
              {
                v[(j * nq + q) * nv]     += r[order[q]]->get_damage_variable();
                v[(j * nq + q) * nv + 1] += r[order[q]]->get_max_effective_opening_displacement();
              }
          }
      v = sum(v), n = sum(n);
      std::vector<std::string> rows;
      for (unsigned j = 0; j < ne; ++j)
        if (n[j] > 0.)
          {
            std::vector<std::string> points;
            for (unsigned q = 0; q < nq; ++q)
              {
                std::vector<double> w(v.begin() + (j * nq + q) * nv, v.begin() + (j * nq + q + 1) * nv);
                for (auto &y : w)
                  y /= n[j];
                points.push_back(vt::seq(w));
              }
            rows.push_back(vt::join(points));
          }
      emit(e.raw("values", vt::join(rows)));
    }

    void operator()(const std::string &point)
    {
      if (point == "step")
        {
          owned = f.get_locally_owned_dofs();
          if (first)
            mesh();
          if (first && (wants('d') || wants('p')))
            grid();
          report();
          if (first && wants('p'))
            probe_fields();
          first   = false;
          n_solve = n_residual = 0;
          emit(vt::Ev("step").i("k", p.discrete_time.get_step_number())
                 .r("t", p.discrete_time.get_current_time())
                 .r("next", p.discrete_time.get_next_time())
                 .r("dt", p.discrete_time.get_next_step_size())
                 .r("dtold", p.discrete_time.get_step_number() > 0 ? p.discrete_time.get_previous_step_size() : 0.)
                 .rs("old", gather(f.old_solution)).rs("oldold", gather(f.old_old_solution)));
        }
      else if (point == "start")
        {
          if (wants('s'))
            emit(vt::Ev("start").rs("x", gather(s.trial_solution)).rs("init", gather(s.initial_trial_solution)));
          if (wants('a') && p.parameters.solver_parameters.constitutive_laws_parameters
                              .scalar_microstress_law_parameters.flag_rate_independent)
            probe_active_set();
          if (wants('j'))
            probe_tangents(p.discrete_time.get_step_number() == 0);
          if (wants('h') || wants('f'))
            {
              // before anything is evaluated: the committed ones
              const BV x       = s.trial_solution;
              s.trial_solution = f.old_solution;
              records();
              s.trial_solution = x;
            }
        }
      else if (point == "residual" && (wants('h') || wants('f')))
        {
          if (++n_residual <= 8 || n_residual % 8 == 0)
            records();
        }
      else if (point == "residual" && wants('w'))
        {
          // in long iterations only some of them
          if (++n_residual > 8 && n_residual % 8 != 0)
            return;
          emit(vt::Ev("forces").rs("x", gather(s.trial_solution)).rs("r", gather(s.residual)));
        }
      else if (point == "residual" && (wants('s') || wants('a')))
        {
          // what the code assembled, then the same anew from the committed records
          const auto r = gather(s.residual);
          const auto g = f.get_n_slips() ? gather(s.slip_resistance) : std::vector<double>();
          assemble_fresh();
          emit(vt::Ev("residual").rs("x", gather(s.trial_solution)).rs("r", r).rs("fresh", gather(s.residual))
                 .rs("g", g).is("active", gather(s.locally_owned_active_set)));
        }
      else if (point.substr(0, 5) == "solve" && wants('s'))
        {
          ++n_solve;
          vt::Ev e("solve");
          e.str("what", point.size() > 6 ? point.substr(6) : "all");
          e.rs("x", gather(s.trial_solution)).rs("u", gather(s.newton_update)).rs("r", gather(s.residual));
          if (point == "solve reduced")
            {
              // G w = F u with the matrix blocks | D E | F G |
              BV u(f.distributed_vector), a(f.distributed_vector);
              u = s.newton_update;
              auto w = u.block(1);
              dealii::Vector<double> dummy;
              s.jacobian.block(1, 0).vmult(a.block(1), u.block(0));
              dealii::SolverControl                   control(1000, 1e-14);
              dealii::TrilinosWrappers::SolverDirect  solver(control);
              solver.solve(s.jacobian.block(1, 1), w, a.block(1));
              s.jacobian.block(0, 1).vmult(a.block(0), w);
              u.block(1) = w;
              BV d(f.distributed_vector);
              s.jacobian.block(0, 0).vmult(d.block(0), u.block(0));
              d.block(0) -= a.block(0);
              s.jacobian.block(1, 1).vmult(d.block(1), w);
              d.block(1) -= a.block(1);
              e.rs("ju", gather(d));
            }
          else
            e.rs("ju", product({}));
          // is the matrix the one of this iterate?
          aside([&] {
            BV u(f.distributed_vector), a(f.distributed_vector), b(f.distributed_vector);
            for (const auto i : f.get_locally_owned_dofs())
              u(i) = std::sin(1. + i);
            u.compress(dealii::VectorOperation::insert);
            s.jacobian.vmult(a, u);
            const bool keep = point == "solve macro";
            dealii::TrilinosWrappers::SparseMatrix copy[2][2];
            const unsigned                         nb = s.jacobian.n_block_rows();
            for (unsigned i = 0; keep && i < nb; ++i)
              for (unsigned j = 0; j < nb; ++j)
                copy[i][j].copy_from(s.jacobian.block(i, j));
            s.reset_and_update_internal_variables();
            s.assemble_jacobian();
            s.jacobian.vmult(b, u);
            for (unsigned i = 0; keep && i < nb; ++i)
              for (unsigned j = 0; j < nb; ++j)
                s.jacobian.block(i, j).copy_from(copy[i][j]);
            e.rs("jv", gather(a)).rs("jvfresh", gather(b));
          });
          emit(e);
        }
      else if (point == "active set applied" && wants('w'))
        emit(vt::Ev("applied").is("active", gather(s.locally_owned_active_set)));
      else if (point.substr(0, 6) == "active" && (wants('s') || wants('a')))
        emit(vt::Ev(point == "active set applied" ? "applied" : "determined")
               .rs("x", gather(s.trial_solution)).rs("tau", gather(s.trial_microstress->solution))
               .rs("g", gather(s.slip_resistance)).is("active", gather(s.locally_owned_active_set))
               .is("inactive", gather(s.locally_owned_inactive_set)));
      else if (point == "accept")
        {
          emit(vt::Ev("accept").rs("x", gather(f.solution)));
        }
    }
  };

  // affine function of the place, which may grow with the time
  template <int dim>
  class Affine : public dealii::TensorFunction<1, dim>
  {
  public:
    Affine(std::istringstream &words, const bool growing) : growing(growing)
    {
      const auto next = [&words]() {
        std::string word;
        std::getline(words, word, ',');
        return std::stod(word);
      };
      for (unsigned i = 0; i < dim; ++i)
        a[i] = next();
      for (unsigned i = 0; i < dim; ++i)
        for (unsigned j = 0; j < dim; ++j)
          m[i][j] = next();
    }
    dealii::Tensor<1, dim> value(const dealii::Point<dim> &p) const override
    {
      return (growing ? 1. + this->get_time() : 1.) * (a + m * p);
    }

  private:
    const bool             growing;
    dealii::Tensor<1, dim> a;
    dealii::Tensor<2, dim> m;
  };

  template <int dim>
  void simulate(const gCP::RunTimeParameters::InfiniteStripProblem &prm, const unsigned seed,
                const std::string &macrostrain, const std::string &forces)
  {
    const std::string out = prm.output.output_directory;
    std::string       failure;
    {
      // left over from another run
      if (wants('d'))
        for (const auto name : {"solution_00001.pvtu", "solution_00077.3.vtu", "stale.vtu", "stale.pvtu", "notes.txt"})
          std::ofstream(out + "paraview/" + name) << "stale";
      gCP::SimpleShearProblem<dim> problem(prm);
      if (!macrostrain.empty())
        {
          std::istringstream              words(macrostrain);
          dealii::SymmetricTensor<2, dim> strain;
          for (unsigned i = 0; i < dim; ++i)
            for (unsigned j = 0; j < dim; ++j)
              {
                std::string word;
                std::getline(words, word, ',');
                if (i <= j)
                  strain[i][j] = std::stod(word);
              }
          problem.gCP_solver.set_macroscopic_strain(strain);
        }
      std::istringstream list(forces);
      for (std::string entry; list >> entry;)
        {
          std::istringstream words(entry);
          std::string        name;
          std::getline(words, name, ',');
          const auto f = std::make_shared<Affine<dim>>(words, name != "supply");
          if (name == "supply")
            problem.gCP_solver.set_supply_term(f);
          else
            problem.gCP_solver.set_neumann_boundary_condition(std::stoi(name), f);
        }
      Run<dim>                     run(problem, seed);
      observer = [&run](const std::string &point) { run(point); };
      try
        {
          problem.run();
        }
      catch (const std::exception &exc)
        {
          failure = exc.what();
        }
      observer = nullptr;
      if (failure.empty())
        run.report();
    }
    if (failure.empty())
      emit(vt::Ev("end"));
    else
      emit(vt::Ev("fail").b("limit", failure.find("The maximum number of iterations (") != std::string::npos)
             .str("text", failure.substr(0, 1500)));
    emit(vt::Ev("files").raw("log", numbers(contents(out + "nonlinear_solver_log.txt")))
           .raw("statistics", numbers(contents(out + "solution_algorithm_statistics.txt")))
           .raw("curve", numbers(contents(out + "stress12_vs_shear_strain_at_boundary.txt")))
           .raw("homogenized", numbers(contents(out + "homogenization.txt")))
           .raw("out", names(out)));
  }
} // namespace

int main(int argc, char *argv[])
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  const bool root = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0;
  what            = argv[2];
  std::unique_ptr<vt::Recorder> recorder;
  if (root)
    {
      recorder = std::make_unique<vt::Recorder>(argv[1]);
      rec      = recorder.get();
      rec->begin();
      rec->raw(contents(argv[5]));
    }
  vt::Mute mute;
  gCP::RunTimeParameters::InfiniteStripProblem prm(argv[4]);
  if (prm.spatial_discretization.dim == 2)
    simulate<2>(prm, std::atoi(argv[3]), argc > 6 ? argv[6] : "", argc > 7 ? argv[7] : "");
  else
    simulate<3>(prm, std::atoi(argv[3]), argc > 6 ? argv[6] : "", argc > 7 ? argv[7] : "");
  return 0;
}
