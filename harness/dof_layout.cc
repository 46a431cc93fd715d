// Sets up the real finite element field on meshes made by the specification
// and records which unknown every component at every node received.
#include <gCP/fe_field.h>
#include <deal.II/base/mpi.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/fe/fe_nothing.h>
#include <deal.II/grid/grid_generator.h>
#include "trace.h"
#include <map>
#include <memory>

using namespace vt;

static std::unique_ptr<Recorder> out;
static unsigned                  rank_, ranks_;

struct Case
{
  unsigned          dim, nc, ns, deco, du, ds, single, w, l;
  std::vector<long> mat;
};

static std::string intervals(const dealii::IndexSet &s)
{
  std::vector<long> v;
  for (const auto i : s)
    v.push_back(i);
  return iseq(v);
}

template <int dim>
void run(const Case &k, Rng &rng)
{
  dealii::parallel::distributed::Triangulation<dim> tria(MPI_COMM_WORLD);
  std::vector<unsigned> rep(dim, 1);
  rep[0] = k.w;
  rep[1] = k.l;
  dealii::Point<dim> p, q;
  for (int i = 0; i < dim; ++i)
    q[i] = rep[i];
  dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, p, q, true);

  const auto at = [&](const auto &cell) {
    std::vector<long> x;
    for (int i = 0; i < dim; ++i)
      x.push_back(long(std::floor(cell->center()[i])));
    return x;
  };
  for (const auto &cell : tria.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        const auto x = at(cell);
        cell->set_material_id(k.mat[x[0] * k.l + x[1]]);
      }

  gCP::FEField<dim> field(tria, k.du, k.ds, k.deco, k.single);
  field.setup_extractors(k.nc, k.ns);
  field.update_ghost_material_ids();
  for (const auto &cell : field.get_dof_handler().active_cell_iterators())
    if (cell->is_locally_owned())
      cell->set_active_fe_index(cell->material_id());
  field.setup_dofs();

  std::vector<std::string> cells;
  if (rank_ == 0)
    {
      out->begin();
      for (unsigned i = 0; i < k.mat.size(); ++i)
        {
          std::vector<long> x = {long(i / k.l), long(i % k.l)};
          if (dim == 3)
            x.push_back(0);
          cells.push_back("{\"at\":" + iseq(x) + ",\"mat\":" + std::to_string(k.mat[i]) + "}");
        }
      (*out)(Ev("config").i("dim", k.dim).i("nc", k.nc).i("ns", k.ns).b("deco", k.deco).i("du", k.du).i("ds", k.ds)
               .b("single", k.single).i("ranks", ranks_).raw("cells", join(cells)));
      std::vector<long>        d;
      std::vector<std::string> s, masks;
      for (unsigned c = 0; c < k.nc; ++c)
        {
          d.push_back(field.get_displacement_extractor(c).first_vector_component);
          std::vector<long> r;
          for (unsigned i = 0; i < k.ns; ++i)
            r.push_back(field.get_slip_extractor(c, i).component);
          s.push_back(iseq(r));
        }
      (*out)(Ev("components").i("n", field.get_n_components()).is("disp", d).raw("slips", join(s))
               .b("decohesion", field.is_decohesion_allowed()).i("crystals", field.get_n_crystals())
               .i("slipsystems", field.get_n_slips()).i("du", field.get_displacement_fe_degree())
               .i("ds", field.get_slips_fe_degree()));
    }

  const auto emit = [&](const std::vector<std::string> &mine) {
    const auto g = dealii::Utilities::MPI::gather(MPI_COMM_WORLD, mine, 0);
    if (rank_ == 0)
      for (const auto &v : g)
        for (const auto &s : v)
          out->raw(s);
  };

  // unknowns of the cells
  std::vector<std::string> mine;
  for (const auto &cell : field.get_dof_handler().active_cell_iterators())
    if (cell->is_locally_owned() || cell->is_ghost())
      {
        const auto &fe = cell->get_fe();
        std::vector<dealii::types::global_dof_index> dofs(fe.n_dofs_per_cell());
        cell->get_dof_indices(dofs);
        std::vector<long>        comp, within, num;
        std::vector<std::string> nodes;
        for (unsigned i = 0; i < dofs.size(); ++i)
          {
            const unsigned base = fe.system_to_component_index(i).first;
            comp.push_back(base);
            within.push_back(field.get_global_component(cell->material_id(), i));
            num.push_back(dofs[i]);
            std::vector<long> n;
            const auto        pt = fe.unit_support_point(i);
            for (int a = 0; a < dim; ++a)
              n.push_back(2 * at(cell)[a] + std::lround(2 * pt[a]));
            nodes.push_back(iseq(n));
          }
        mine.push_back(Ev("cell").i("rank", rank_).b("owned", cell->is_locally_owned()).is("at", at(cell))
                         .i("mat", cell->material_id()).i("fe", cell->active_fe_index()).is("comp", comp)
                         .is("within", within).is("dofs", num).raw("nodes", join(nodes)).done());
      }
  emit(mine);

  // the sets of unknowns
  std::vector<long>        bs;
  for (const auto &b : field.get_locally_owned_dofs_per_block())
    bs.push_back(b.size());
  mine.clear();
  mine.push_back(Ev("owned").i("rank", rank_).raw("all", intervals(field.get_locally_owned_dofs()))
                   .raw("disp", intervals(field.get_locally_owned_displacement_dofs()))
                   .raw("slip", intervals(field.get_locally_owned_plastic_slip_dofs())).is("blocks", bs).done());
  emit(mine);
  mine.clear();
  {
    std::vector<std::string> ties;
    for (const auto &line : field.get_hanging_node_constraints().get_lines())
      {
        std::vector<std::string> e;
        for (const auto &x : line.entries)
          e.push_back("[" + std::to_string(x.first) + "," + num(x.second) + "]");
        ties.push_back("{\"dof\":" + std::to_string(line.index) + ",\"to\":" + join(e) + ",\"plus\":" + num(line.inhomogeneity) + "}");
      }
    mine.push_back(Ev("ties").i("rank", rank_).raw("lines", join(ties)).done());
  }
  emit(mine);
  if (rank_ == 0)
    (*out)(Ev("count").i("n", field.n_dofs()).i("nu", k.ns ? field.get_n_displacement_dofs() : 0)
             .i("ng", k.ns ? field.get_n_plastic_slip_dofs() : 0));

  if (k.ns == 0)
    {
      if (rank_ == 0)
        (*out)(Ev("end"));
      return;
    }

  // vectors: values which identify the unknown
  field.setup_vectors();
  const double                                    big = rng.coin() ? 1. : std::pow(2., 5. * rng.n(7));
  dealii::LinearAlgebraTrilinos::MPI::BlockVector v;
  v.reinit(field.distributed_vector);
  v = 0.;
  for (const auto i : field.get_locally_owned_dofs())
    v[i] = big * (i + 1.);
  v.compress(dealii::VectorOperation::insert);
  field.old_solution = v;
  field.solution     = v;
  mine.clear();
  {
    std::vector<long> d, x;
    for (const auto i : field.get_locally_relevant_dofs())
      {
        d.push_back(i);
        x.push_back(std::lround(field.solution[i] / big));
      }
    mine.push_back(Ev("ghosts").i("rank", rank_).is("dofs", d).is("vals", x).done());
  }
  emit(mine);
  const auto   parts = field.get_sub_l2_norms(field.solution);
  const double whole = field.get_l2_norm(field.solution), whole_d = field.get_l2_norm(v);
  const auto   parts_d = field.get_sub_l2_norms(v);
  if (rank_ == 0)
    (*out)(Ev("norms").r("big", big).r("all", whole).r("all_d", whole_d).r("u", parts[0]).r("g", parts[1])
             .r("u_d", parts_d[0]).r("g_d", parts_d[1]));
  if (rank_ == 0)
    (*out)(Ev("end"));
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  rank_  = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  ranks_ = dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
  if (rank_ == 0)
    out = std::make_unique<Recorder>(argv[1]);
  Rng           rng(std::stoul(argv[3]));
  std::ifstream f(argv[2]);
  std::string   line;
  while (std::getline(f, line))
    {
      std::istringstream s(line);
      Case               k;
      s >> k.dim >> k.nc >> k.ns >> k.deco >> k.du >> k.ds >> k.single >> k.w >> k.l;
      for (long m; s >> m;)
        k.mat.push_back(m);
      if (k.dim == 2)
        run<2>(k, rng);
      else
        run<3>(k, rng);
    }
  if (rank_ == 0)
    out.reset();
}
