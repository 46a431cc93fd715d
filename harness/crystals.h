// Real crystal data of random polycrystals, set up through the input files,
// and the description of them a specification needs.
#pragma once
#include <gCP/crystal_data.h>
#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/grid/grid_generator.h>
#include "trace.h"
#include <memory>
#include <unistd.h>

namespace vt
{
  using Line  = std::vector<double>;
  using Lines = std::vector<Line>;

  inline std::string json(const Lines &m)
  {
    std::vector<std::string> r;
    for (const auto &l : m)
      r.push_back(seq(l));
    return join(r);
  }

  template <int dim>
  std::string mat(const dealii::Tensor<2, dim> &t)
  {
    std::vector<std::string> r;
    for (int i = 0; i < dim; ++i)
      r.push_back(seq(t[i].begin_raw(), t[i].end_raw()));
    return join(r);
  }
  template <int dim>
  std::string mat(const dealii::SymmetricTensor<2, dim> &t)
  {
    return mat<dim>(dealii::Tensor<2, dim>(t));
  }
  template <int dim>
  std::string vec(const dealii::Tensor<1, dim> &t)
  {
    return seq(t.begin_raw(), t.end_raw());
  }
  template <class M>
  std::string full(const M &m)
  {
    std::vector<std::string> r;
    for (unsigned i = 0; i < m.m(); ++i)
      {
        std::vector<double> v;
        for (unsigned j = 0; j < m.n(); ++j)
          v.push_back(m(i, j));
        r.push_back(seq(v));
      }
    return join(r);
  }

  template <int dim>
  struct Polycrystal
  {
    Lines                                    angles, dirs, normals;
    std::shared_ptr<gCP::CrystalsData<dim>>  data = std::make_shared<gCP::CrystalsData<dim>>();

    Polycrystal(Rng &rng, const unsigned crystals, const unsigned slips)
    {
      const int na = dim == 2 ? 1 : 3;
      for (unsigned c = 0; c < crystals; ++c)
        {
          Line l;
          // unrotated, multiples of a right angle, any
          const unsigned kind = rng.n(6);
          for (int i = 0; i < na; ++i)
            l.push_back(kind == 0 ? 0. : kind == 1 ? 90. * rng.n(4) : kind == 2 && c ? angles[c - 1][i] : rng.u(-200., 200.));
          angles.push_back(l);
        }
      while (dirs.size() < slips)
        {
          Line   x, y;
          double dot = 0, xx = 0, yy = 0;
          for (int i = 0; i < dim; ++i)
            {
              x.push_back(int(rng.n(7)) - 3);
              y.push_back(int(rng.n(7)) - 3);
            }
          if (dim == 2)
            y = {-2. * x[1], 2. * x[0]};
          for (int i = 0; i < dim; ++i)
            {
              dot += x[i] * y[i];
              xx += x[i] * x[i];
              yy += y[i] * y[i];
            }
          if (dot == 0 && xx > 0 && yy > 0)
            {
              dirs.push_back(x);
              normals.push_back(y);
            }
        }
    }

    static void write(const std::string &path, const Lines &m)
    {
      std::ofstream o(path + ".txt");
      for (const auto &l : m)
        {
          for (std::size_t j = 0; j < l.size(); ++j)
            {
              char b[64];
              std::snprintf(b, sizeof b, "%s%.17g", j ? "," : "", l[j]);
              o << b;
            }
          o << "\n";
        }
    }

    void files(const std::string &dir) const
    {
      write(dir + "/angles", angles);
      write(dir + "/dirs", dirs);
      write(dir + "/normals", normals);
    }

    void setup(const std::string &dir)
    {
      files(dir);
      dealii::Triangulation<dim> t;
      std::vector<unsigned>      rep(dim, 1);
      rep[dim - 1] = angles.size();
      dealii::Point<dim> p, q;
      for (int i = 0; i < dim; ++i)
        q[i] = 1.;
      dealii::GridGenerator::subdivided_hyper_rectangle(t, rep, p, q);
      for (const auto &c : t.active_cell_iterators())
        c->set_material_id(c->active_cell_index());
      data->init(t, dir + "/angles", dir + "/dirs", dir + "/normals");
    }

    Ev event() const
    {
      return Ev("setup").i("dim", dim).raw("angles", json(angles)).raw("dirs", json(dirs)).raw("normals", json(normals));
    }
  };

  template <int dim>
  dealii::SymmetricTensor<2, dim> random_symmetric(Rng &rng, const double scale)
  {
    dealii::SymmetricTensor<2, dim> e;
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j)
        e[i][j] = rng.n(4) ? rng.u(-scale, scale) : 0.;
    return e;
  }

  template <int dim>
  dealii::Tensor<1, dim> random_normal(Rng &rng)
  {
    dealii::Tensor<1, dim> n;
    if (rng.n(3) == 0)
      {
        n[rng.n(dim)] = rng.coin() ? 1. : -1.;
        return n;
      }
    do
      for (int i = 0; i < dim; ++i)
        n[i] = rng.u(-1., 1.);
    while (n.norm() < .1);
    return n / n.norm();
  }

  inline Lines random_matrix(Rng &rng, const unsigned n, const unsigned m, const double scale)
  {
    Lines r(n, Line(m));
    for (auto &l : r)
      for (auto &x : l)
        x = rng.n(6) ? rng.u(-scale, scale) : 0.;
    return r;
  }
} // namespace vt
