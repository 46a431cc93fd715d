// Uses the real storage of grain-boundary records on real meshes from both
// sides of the faces.
#include <gCP/quadrature_point_history.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>
#include "trace.h"
#include <map>

using namespace vt;

namespace
{
  template <int dim>
  void make_mesh(dealii::Triangulation<dim> &t, Rng &rng)
  {
    const bool                refine = rng.n(3) == 0;
    std::vector<unsigned int> rep(dim);
    for (unsigned i = 0; i < dim; ++i)
      rep[i] = refine ? 1 + rng.n(2) : 1 + rng.n(dim == 2 ? 5 : 3);
    dealii::Point<dim> p, q;
    for (unsigned i = 0; i < dim; ++i)
      q[i] = 1.;
    if (rng.n(4) == 0 && dim == 2)
      dealii::GridGenerator::hyper_ball(t); // unstructured face numbering
    else
      dealii::GridGenerator::subdivided_hyper_rectangle(t, rep, p, q);
    if (refine)
      t.refine_global(1);
    const unsigned n_crystals = 1 + rng.n(4), kind = rng.n(3);
    for (const auto &cell : t.active_cell_iterators())
      cell->set_material_id(kind == 0 ? rng.n(n_crystals) :
                            kind == 1 ? unsigned(std::min(.999, std::max(0., cell->center()[1])) * n_crystals) :
                                        cell->active_cell_index() % n_crystals);
  }

  template <int dim, class Data>
  struct Store
  {
    using It = typename dealii::Triangulation<dim>::cell_iterator;
    gCP::InterfaceDataStorage<It, Data>       store;
    const dealii::Triangulation<dim>         &t;
    Recorder                                 &rec;
    std::vector<dealii::CellId>               cells;
    std::map<const void *, long>              seen;
    std::vector<std::pair<unsigned, unsigned>> faces;

    Store(const dealii::Triangulation<dim> &t, Recorder &rec) : t(t), rec(rec)
    {
      std::map<dealii::CellId, unsigned> index;
      std::vector<long>                  mat;
      for (const auto &c : t.active_cell_iterators())
        {
          index[c->id()] = cells.size();
          cells.push_back(c->id());
          mat.push_back(c->material_id());
        }
      std::vector<std::string> f;
      for (const auto &c : t.active_cell_iterators())
        for (const auto i : c->face_indices())
          if (!c->at_boundary(i))
            {
              const unsigned a = index[c->id()], b = index[c->neighbor(i)->id()];
              faces.emplace_back(a, b);
              f.push_back(iseq({long(a) + 1, long(b) + 1}));
            }
      rec(Ev("mesh").is("mat", mat).raw("faces", join(f)));
    }
    void init(const unsigned nq)
    {
      store.initialize(t.begin_active(), t.end(), nq);
      rec(Ev("init").i("nq", nq));
    }
    std::vector<std::shared_ptr<Data>> query(const unsigned a, const unsigned b, const bool constant)
    {
      std::vector<std::shared_ptr<Data>> r;
      std::vector<long>                  ids;
      bool                               exc = false;
      try
        {
          if (constant)
            {
              const auto &s = store;
              for (const auto &p : s.get_data(cells[a], cells[b]))
                ids.push_back(seen.emplace(p.get(), seen.size() + 1).first->second);
            }
          else
            {
              r = store.get_data(cells[a], cells[b]);
              for (const auto &p : r)
                ids.push_back(seen.emplace(p.get(), seen.size() + 1).first->second);
            }
        }
      catch (...)
        {
          exc = true;
        }
      rec(Ev("query").i("a", a + 1).i("b", b + 1).is("ids", ids).b("exc", exc));
      return r;
    }
    // all the faces, then pairs that share none
    void query_all(Rng &rng)
    {
      for (const auto &f : faces)
        query(f.first, f.second, rng.coin());
      for (int k = 0; k < 6; ++k)
        query(rng.n(cells.size()), rng.n(cells.size()), false);
    }
    bool boundary(const std::pair<unsigned, unsigned> &f) const
    {
      unsigned m[2], k = 0;
      for (const unsigned i : {f.first, f.second})
        {
          auto c = t.create_cell_iterator(cells[i]);
          m[k++] = c->material_id();
        }
      return m[0] != m[1];
    }
  };

  template <int dim>
  void values(Recorder &rec, Rng &rng, const int length)
  {
    rec.begin();
    dealii::Triangulation<dim> t;
    make_mesh(t, rng);
    Store<dim, gCP::InterfaceData<dim>> s(t, rec);
    const unsigned                      nq = 1 + rng.n(4);
    s.init(nq);
    s.query_all(rng);
    std::vector<std::pair<unsigned, unsigned>> gb;
    for (const auto &f : s.faces)
      if (s.boundary(f))
        gb.push_back(f);
    if (gb.empty())
      return;
    for (const auto &f : gb)
      if (f.first < f.second)
        for (unsigned q = 0; q < nq; ++q)
          {
            auto         r = s.store.get_data(s.cells[f.first], s.cells[f.second]);
            const double x = rng.coin() ? 0. : rng.u();
            r[q]->init(x);
            rec(Ev("set").i("a", f.first + 1).i("b", f.second + 1).i("q", q + 1).r("x", x).r("v", r[q]->get_value()));
            r[q]->prepare_for_update_call();
            rec(Ev("announce").i("a", f.first + 1).i("b", f.second + 1).i("q", q + 1).r("v", r[q]->get_value()));
          }
    // few records, visited often
    const unsigned few = std::min<unsigned>(gb.size(), 3);
    for (int k = 0; k < length; ++k)
      {
        const auto f = gb[rng.n(3) ? rng.n(few) : rng.n(gb.size())];
        unsigned   a = f.first, b = f.second;
        if (rng.coin())
          std::swap(a, b);
        const unsigned q = rng.n(nq);
        auto           r = s.store.get_data(s.cells[a], s.cells[b]);
        const auto     ev = [&](const char *e) { return Ev(e).i("a", a + 1).i("b", b + 1).i("q", q + 1); };
        switch (rng.n(6))
          {
            case 0:
              r[q]->prepare_for_update_call();
              rec(ev("announce").r("v", r[q]->get_value()));
              break;
            case 1:
              rec(ev("get").r("v", r[q]->get_value()));
              break;
            case 2:
              if (rng.n(5) == 0)
                {
                  s.init(rng.coin() ? nq : 1 + rng.n(4));
                  break;
                }
              // fall through
            default:
              {
                dealii::Tensor<1, dim> x, y;
                for (unsigned i = 0; i < dim; ++i)
                  {
                    x[i] = rng.u(-2., 2.);
                    y[i] = rng.u(-2., 2.);
                  }
                r[q]->update(x, y);
                rec(ev("update")
                      .raw("x", seq(x.begin_raw(), x.end_raw()))
                      .raw("y", seq(y.begin_raw(), y.end_raw()))
                      .r("v", r[q]->get_value()));
              }
          }
      }
    s.query_all(rng);
  }

  template <int dim>
  void identities(Recorder &rec, Rng &rng)
  {
    rec.begin();
    dealii::Triangulation<dim> t;
    make_mesh(t, rng);
    Store<dim, gCP::InterfaceQuadraturePointHistory<dim>> s(t, rec);
    if (rng.coin())
      s.query_all(rng);
    const unsigned nq = 1 + rng.n(6);
    s.init(nq);
    s.query_all(rng);
    s.init(nq);
    s.query_all(rng);
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder  rec(argv[1]);
  Rng       rng(std::atoi(argv[2]));
  Mute      mute, mute2(std::cerr);
  const int n = std::atoi(argv[3]), length = std::atoi(argv[4]);
  for (int c = 0; c < n; ++c)
    switch (rng.n(5))
      {
        case 0: identities<2>(rec, rng); break;
        case 1: identities<3>(rec, rng); break;
        case 2: values<3>(rec, rng, length); break;
        default: values<2>(rec, rng, length);
      }
  return 0;
}
