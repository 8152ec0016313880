// Common parts of the conformance drivers: script reader, event writer, value encoding.
#ifndef vh_hpp_
#define vh_hpp_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <complex>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vh
{
typedef long long ll;
typedef std::vector<ll> Vec;

// Values that are not (small) integers are logged as these markers, which no specification allows.
ll const NONINT = 1999999999, HUGEVAL = 1888888888, NANVAL = 1777777777;

inline ll enc_real(double v)
{
  if (v != v) return NANVAL;
  if (!(std::fabs(v) < 1e9)) return HUGEVAL;
  ll r = (ll)std::llround(v);
  return (double)r == v ? r : NONINT;
}
template <typename T> struct Enc
{
  static int const n = 1;
  static void put(Vec &o, T const &v) { o.push_back(enc_real((double)v));}
  static T get(ll const *p) { return T(p[0]);}
};
template <typename T> struct Enc<std::complex<T> >
{
  static int const n = 2;
  static void put(Vec &o, std::complex<T> const &v)
  { o.push_back(enc_real(v.real())); o.push_back(enc_real(v.imag()));}
  static std::complex<T> get(ll const *p) { return std::complex<T>(T(p[0]), T(p[1]));}
};
template <> struct Enc<bool>
{
  static int const n = 1;
  static void put(Vec &o, bool v) { o.push_back(v);}
  static bool get(ll const *p) { return p[0] != 0;}
};
// Rounded to the nearest integer when within tol of it (for inexact algorithms with integer results).
inline ll enc_round(double v, double tol)
{
  if (v != v) return NANVAL;
  if (!(std::fabs(v) < 1e9)) return HUGEVAL;
  double r = std::nearbyint(v);
  return std::fabs(v - r) <= tol ? (ll)r : NONINT;
}

class Ev
{
public:
  explicit Ev(char const *op) { s_ = "{\"op\":\""; s_ += op; s_ += "\"";}
  Ev &i(char const *k, ll v) { key(k); num(v); return *this;}
  Ev &b(char const *k, bool v) { key(k); s_ += v ? "true" : "false"; return *this;}
  Ev &s(char const *k, std::string const &v) { key(k); s_ += "\"" + v + "\""; return *this;}
  Ev &v(char const *k, Vec const &x)
  {
    key(k); s_ += "[";
    for (size_t j = 0; j < x.size(); ++j) { if (j) s_ += ","; num(x[j]);}
    s_ += "]"; return *this;
  }
  Ev &sv(char const *k, std::vector<std::string> const &x)
  {
    key(k); s_ += "[";
    for (size_t j = 0; j < x.size(); ++j) { if (j) s_ += ","; s_ += "\"" + x[j] + "\"";}
    s_ += "]"; return *this;
  }
  Ev &vv(char const *k, std::vector<Vec> const &x)
  {
    key(k); s_ += "[";
    for (size_t a = 0; a < x.size(); ++a)
    {
      if (a) s_ += ",";
      s_ += "[";
      for (size_t j = 0; j < x[a].size(); ++j) { if (j) s_ += ","; num(x[a][j]);}
      s_ += "]";
    }
    s_ += "]"; return *this;
  }
  std::string str() const { return s_ + "}\n";}
private:
  void key(char const *k) { s_ += ",\""; s_ += k; s_ += "\":";}
  void num(ll v) { char b[24]; std::snprintf(b, sizeof b, "%lld", v); s_ += b;}
  std::string s_;
};

class Out
{
public:
  explicit Out(std::string const &p) : f_(std::fopen(p.c_str(), "w")) { if (!f_) std::exit(3);}
  ~Out() { if (f_) std::fclose(f_);}
  void operator()(Ev const &e) { std::string s = e.str(); std::fwrite(s.data(), 1, s.size(), f_); std::fflush(f_);}
private:
  std::FILE *f_;
};

// One script line: a word followed by integers (and possibly further words).
struct Line
{
  std::string op;
  std::vector<std::string> w;
  size_t pos;
  Line() : pos(0) {}
  bool more() const { return pos < w.size();}
  ll i() { if (pos >= w.size()) { std::fprintf(stderr, "script: missing argument for %s\n", op.c_str()); std::exit(4);} return std::atoll(w[pos++].c_str());}
  std::string s() { if (pos >= w.size()) std::exit(4); return w[pos++];}
  Vec v() { ll n = i(); Vec r; for (ll k = 0; k < n; ++k) r.push_back(i()); return r;}
};

inline bool read_line(std::istream &is, Line &l)
{
  std::string t;
  while (std::getline(is, t))
  {
    std::istringstream ss(t);
    l = Line();
    if (!(ss >> l.op)) continue;
    std::string x;
    while (ss >> x) l.w.push_back(x);
    return true;
  }
  return false;
}
inline void die(std::string const &m) { std::fprintf(stderr, "driver: %s\n", m.c_str()); std::exit(5);}
}
#endif
