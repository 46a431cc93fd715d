// Writing of recorded behaviours: one JSON array of events per line.  Reals
// are written as strings with 17 significant digits.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vt
{
  inline std::string num(const double x)
  {
    if (std::isnan(x))
      return "\"NaN\"";
    if (std::isinf(x))
      return x > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    char b[40];
    std::snprintf(b, sizeof b, "\"%.17g\"", x);
    return b;
  }

  inline std::string quote(const std::string &s)
  {
    std::string r = "\"";
    for (const char c : s)
      {
        if (c == '"' || c == '\\')
          (r += '\\') += c;
        else if (c == '\n')
          r += "\\n";
        else if ((unsigned char)c < 32)
          r += ' ';
        else
          r += c;
      }
    return r + "\"";
  }

  template <class It>
  std::string seq(It b, const It e)
  {
    std::string r = "[";
    for (bool first = true; b != e; ++b, first = false)
      {
        if (!first)
          r += ",";
        r += num(*b);
      }
    return r + "]";
  }

  inline std::string seq(const std::vector<double> &v) { return seq(v.begin(), v.end()); }

  inline std::string iseq(const std::vector<long> &v)
  {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
      r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
  }

  inline std::string join(const std::vector<std::string> &v)
  {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
      r += (i ? "," : "") + v[i];
    return r + "]";
  }

  // one JSON object under construction
  class Ev
  {
    std::string s;

  public:
    explicit Ev(const std::string &e) : s("{\"e\":" + quote(e)) {}
    Ev &raw(const std::string &k, const std::string &json)
    {
      s += "," + quote(k) + ":" + json;
      return *this;
    }
    Ev &r(const std::string &k, const double x) { return raw(k, num(x)); }
    Ev &i(const std::string &k, const long x) { return raw(k, std::to_string(x)); }
    Ev &b(const std::string &k, const bool x) { return raw(k, x ? "true" : "false"); }
    Ev &str(const std::string &k, const std::string &x) { return raw(k, quote(x)); }
    Ev &rs(const std::string &k, const std::vector<double> &x) { return raw(k, seq(x)); }
    Ev &is(const std::string &k, const std::vector<long> &x) { return raw(k, iseq(x)); }
    std::string done() const { return s + "}"; }
  };

  // the file of behaviours
  class Recorder
  {
    std::ofstream f;
    bool open = false, first = true;

  public:
    explicit Recorder(const std::string &path) : f(path) {}
    ~Recorder() { end(); }
    void begin()
    {
      end();
      f << "[";
      open = first = true;
    }
    void operator()(const Ev &e) { raw(e.done()); }
    void raw(const std::string &event)
    {
      if (!first)
        f << ",";
      f << event;
      first = false;
    }
    void end()
    {
      if (open)
        f << "]" << std::endl;
      open = false;
    }
  };

  // small deterministic generator, independent of the standard library's
  // distributions
  class Rng
  {
    std::uint64_t s;

  public:
    explicit Rng(const std::uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 12345) {}
    std::uint64_t next()
    {
      s += 0x9e3779b97f4a7c15ull;
      std::uint64_t z = s;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * 0x1.0p-53; }
    double u(const double a, const double b) { return a + (b - a) * u(); }
    // log-uniform
    double lu(const double a, const double b) { return std::exp(u(std::log(a), std::log(b))); }
    unsigned n(const unsigned k) { return next() % k; }
    bool coin(const double p = .5) { return u() < p; }
  };

  // silence the code under test on the given stream while in scope
  class Mute
  {
    std::ostringstream o;
    std::ostream &s;
    std::streambuf *b;

  public:
    explicit Mute(std::ostream &st = std::cout) : s(st), b(st.rdbuf(o.rdbuf())) {}
    ~Mute() { s.rdbuf(b); }
    std::string text() const { return o.str(); }
  };
} // namespace vt
