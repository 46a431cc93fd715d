// Sets up real crystal data from files: those of the specification (JSON-like
// stimuli in a simple line format) and random ones, well- and ill-formed.
#include <gCP/crystal_data.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include <deal.II/grid/grid_generator.h>
#include "trace.h"
#include <unistd.h>

using namespace vt;
using Line = std::vector<double>;
struct File
{
  bool              missing = false;
  std::vector<Line> lines;
};

namespace
{
  std::string json(const File &f)
  {
    if (f.missing)
      return "[[\"missing\"]]";
    std::vector<std::string> r;
    for (const auto &l : f.lines)
      r.push_back(seq(l));
    return join(r);
  }

  std::string number(Rng &rng, const double x)
  {
    char b[64];
    switch (rng.n(4))
      {
        case 0: std::snprintf(b, sizeof b, " %.17g", x); break;
        case 1: std::snprintf(b, sizeof b, "%.17e", x); break;
        case 2: std::snprintf(b, sizeof b, "%+.17g ", x); break;
        default: std::snprintf(b, sizeof b, "%.17g", x);
      }
    return b;
  }

  void write(Rng &rng, const std::string &path, const File &f)
  {
    ::unlink((path + ".txt").c_str());
    if (f.missing)
      return;
    std::ofstream o(path + ".txt");
    for (std::size_t i = 0; i < f.lines.size(); ++i)
      {
        if (f.lines[i].empty() && rng.coin())
          o << "   ";
        for (std::size_t j = 0; j < f.lines[i].size(); ++j)
          o << (j ? "," : "") << number(rng, f.lines[i][j]);
        if (i + 1 < f.lines.size() || rng.coin())
          o << "\n";
      }
  }

  template <int dim>
  std::string mat(const dealii::Tensor<2, dim> &t)
  {
    std::vector<std::string> r;
    for (int i = 0; i < dim; ++i)
      {
        std::vector<double> v;
        for (int j = 0; j < dim; ++j)
          v.push_back(t[i][j]);
        r.push_back(seq(v));
      }
    return join(r);
  }
  template <int dim>
  std::string vec(const dealii::Tensor<1, dim> &t)
  {
    return seq(t.begin_raw(), t.end_raw());
  }

  template <int dim>
  void read(Recorder &rec, const gCP::CrystalsData<dim> &d)
  {
    bool exc = false;
    int  nc = -1, ns = -1;
    try
      {
        nc = d.get_n_crystals();
        ns = d.get_n_slips();
      }
    catch (...)
      {
        exc = true;
      }
    rec(Ev("read").i("n_crystals", nc).i("n_slips", ns).b("exc", exc).b("ready", d.is_initialized()));
    if (exc)
      {
        // no other accessor gives anything away either
        int refused = 0;
        const auto t = [&](auto f) {
          try
            {
              f();
            }
          catch (...)
            {
              ++refused;
            }
        };
        t([&] { d.get_rotation_tensor(0); });
        t([&] { d.get_3d_rotation_tensor(0); });
        t([&] { d.get_slip_direction(0, 0); });
        t([&] { d.get_slip_directions(0); });
        t([&] { d.get_slip_normal(0, 0); });
        t([&] { d.get_slip_normals(0); });
        t([&] { d.get_slip_orthogonal(0, 0); });
        t([&] { d.get_schmid_tensor(0, 0); });
        t([&] { d.get_symmetrized_schmid_tensor(0, 0); });
        t([&] { d.get_symmetrized_schmid_tensors(0); });
        rec(Ev("range").b("exc", refused == 10));
        return;
      }
    for (int c = 0; c < nc; ++c)
      {
        rec(Ev("crystal").i("c", c + 1).raw("R", mat(d.get_rotation_tensor(c))).raw("R3", mat<3>(d.get_3d_rotation_tensor(c))));
        for (int i = 0; i < ns; ++i)
          rec(Ev("slip").i("c", c + 1).i("i", i + 1)
                .raw("dir", vec(d.get_slip_direction(c, i)))
                .raw("normal", vec(d.get_slip_normal(c, i)))
                .raw("orth", vec(d.get_slip_orthogonal(c, i)))
                .raw("schmid", mat<dim>(d.get_schmid_tensor(c, i)))
                .raw("sym", mat<dim>(dealii::Tensor<2, dim>(d.get_symmetrized_schmid_tensor(c, i))))
                .raw("dirs", vec(d.get_slip_directions(c)[i]))
                .raw("normals", vec(d.get_slip_normals(c)[i]))
                .raw("syms", mat<dim>(dealii::Tensor<2, dim>(d.get_symmetrized_schmid_tensors(c)[i]))));
      }
  }

  template <int dim>
  void experiment(Recorder &rec, Rng &rng, const std::string &dir, const int crystals, const File &angles,
                  const File &dirs, const File &normals)
  {
    rec.begin();
    dealii::Triangulation<dim> t;
    std::vector<unsigned>      rep(dim, 1);
    rep[dim - 1] = crystals + rng.n(3);
    dealii::Point<dim> p, q;
    for (int i = 0; i < dim; ++i)
      q[i] = 1.;
    dealii::GridGenerator::subdivided_hyper_rectangle(t, rep, p, q);
    for (const auto &c : t.active_cell_iterators())
      c->set_material_id(c->active_cell_index() % crystals);
    write(rng, dir + "/angles", angles);
    write(rng, dir + "/dirs", dirs);
    write(rng, dir + "/normals", normals);
    gCP::CrystalsData<dim> d;
    if (rng.n(5) == 0)
      read(rec, d);
    bool exc = false;
    try
      {
        d.init(t, dir + "/angles", dir + "/dirs", dir + "/normals");
      }
    catch (...)
      {
        exc = true;
      }
    rec(Ev("init").i("dim", dim).i("crystals", crystals).raw("angles", json(angles)).raw("dirs", json(dirs))
          .raw("normals", json(normals)).b("exc", exc));
    read(rec, d);
  }

  template <int dim>
  void random_experiment(Recorder &rec, Rng &rng, const std::string &dir)
  {
    const int crystals = 1 + rng.n(5), slips = rng.n(6), na = dim == 2 ? 1 : 3;
    File      a, d, m;
    for (int c = 0; c < crystals; ++c)
      {
        Line l;
        for (int i = 0; i < na; ++i)
          l.push_back(rng.n(3) ? rng.u(-400., 400.) : 15. * (int(rng.n(50)) - 25));
        a.lines.push_back(l);
      }
    while (int(d.lines.size()) < slips)
      {
        // integer vectors are perpendicular exactly
        Line x, y;
        int  dot = 0;
        for (int i = 0; i < dim; ++i)
          {
            x.push_back(int(rng.n(7)) - 3);
            y.push_back(int(rng.n(7)) - 3);
            dot += int(x[i]) * int(y[i]);
          }
        if (dim == 2)
          {
            y[0] = -x[1];
            y[1] = x[0];
            if (rng.coin())
              {
                y[0] *= -2.;
                y[1] *= -2.;
              }
            dot = 0;
          }
        const bool zero = (Line(dim, 0.) == x || Line(dim, 0.) == y);
        if (dot != 0 || zero)
          continue;
        d.lines.push_back(x);
        m.lines.push_back(y);
      }
    // one thing may be wrong
    const bool any = slips > 0;
    switch (rng.n(20))
      {
        case 0: a.missing = true; break;
        case 1: d.missing = true; break;
        case 2: m.missing = true; break;
        case 3: a.lines.pop_back(); break;
        case 4: a.lines.push_back(Line(na, 1.)); break;
        case 5: a.lines[rng.n(crystals)].push_back(1.); break;
        case 6: if (any) d.lines[rng.n(slips)].pop_back(); break;
        case 7: if (any) m.lines[rng.n(slips)].push_back(0.); break;
        case 8: if (any) d.lines.pop_back(); break;
        case 9: if (any) m.lines.pop_back(); break;
        case 10: if (any) d.lines[rng.n(slips)][rng.n(dim)] += rng.coin() ? 1. : 1e-3; break;
        case 11: if (any) (rng.coin() ? d : m).lines[rng.n(slips)] = Line(dim, 0.); break;
        case 12: // data end early in both
          {
            const int k = rng.n(slips + 1);
            d.lines.insert(d.lines.begin() + k, Line());
            m.lines.insert(m.lines.begin() + k, Line());
            break;
          }
        case 13: a.lines.insert(a.lines.begin() + rng.n(crystals + 1), Line()); break;
        case 14: a.lines.push_back(Line()); d.lines.push_back(Line()); break;
        default:;
      }
    experiment<dim>(rec, rng, dir, crystals, a, d, m);
  }

  // "n | cols v v | ..." : number of lines (-1: missing), then each line
  File parse(std::istream &is)
  {
    File f;
    int  n, k;
    is >> n;
    f.missing = n < 0;
    for (int i = 0; i < n; ++i)
      {
        is >> k;
        Line l(k);
        for (auto &x : l)
          is >> x;
        f.lines.push_back(l);
      }
    return f;
  }
} // namespace

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  Recorder          rec(argv[1]);
  Rng               rng(std::atoi(argv[3]));
  const int         n   = std::atoi(argv[4]);
  const std::string dir = argv[5];
  Mute              mute, mute2(std::cerr);
  std::ifstream     in(argv[2]);
  std::string       line;
  while (std::getline(in, line))
    {
      std::istringstream is(line);
      int                dim;
      is >> dim;
      const File a = parse(is), d = parse(is), m = parse(is);
      if (dim == 2)
        experiment<2>(rec, rng, dir, 2, a, d, m);
      else
        experiment<3>(rec, rng, dir, 2, a, d, m);
    }
  for (int c = 0; c < n; ++c)
    if (rng.coin())
      random_experiment<2>(rec, rng, dir);
    else
      random_experiment<3>(rec, rng, dir);
  return 0;
}
