// C03: domain and index algebra.
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <ovxx/domain_utils.hpp>
using namespace vsip;
using namespace vh;

template <dimension_type D> struct Mk;
template <> struct Mk<1>
{
  static Domain<1> dom(Domain<1> const *d) { return d[0];}
  static Index<1> idx(Vec const &v) { return Index<1>(v[0]);}
  static ovxx::Length<1> len(Vec const &v) { return ovxx::Length<1>(v[0]);}
};
template <> struct Mk<2>
{
  static Domain<2> dom(Domain<1> const *d) { return Domain<2>(d[0], d[1]);}
  static Index<2> idx(Vec const &v) { return Index<2>(v[0], v[1]);}
  static ovxx::Length<2> len(Vec const &v) { return ovxx::Length<2>(v[0], v[1]);}
};
template <> struct Mk<3>
{
  static Domain<3> dom(Domain<1> const *d) { return Domain<3>(d[0], d[1], d[2]);}
  static Index<3> idx(Vec const &v) { return Index<3>(v[0], v[1], v[2]);}
  static ovxx::Length<3> len(Vec const &v) { return ovxx::Length<3>(v[0], v[1], v[2]);}
};
template <dimension_type D> Vec iv(Index<D> const &i) { Vec r; for (dimension_type d = 0; d < D; ++d) r.push_back((ll)(long)i[d]); return r;}

template <dimension_type D> struct Regs { static Domain<D> r[8];};
template <dimension_type D> Domain<D> Regs<D>::r[8];
int rank_[8];

template <dimension_type D> void obs(Ev &e, int t)
{
  Domain<D> const &d = Regs<D>::r[t];
  rank_[t] = D;
  std::vector<Vec> nth, dom;
  Vec ext, first, last, dnth;
  for (dimension_type i = 0; i < D; ++i)
  {
    Vec n;
    length_type len = d[i].length();
    if (len > 1000) len = 1000;
    for (index_type k = 0; k < len; ++k) n.push_back((ll)(long)d[i].impl_nth(k));
    nth.push_back(n);
    Vec t; t.push_back((long)d[i].first());
    ll s = d[i].stride(); if (s > 1000000000 || s < -1000000000) s = HUGEVAL;
    t.push_back(s); t.push_back(d[i].length());
    dom.push_back(t);
  }
  for (dimension_type i = 0; i < D; ++i) ext.push_back(ovxx::extent(d)[i]);
  first = iv<D>(ovxx::first(d));
  if (d.size())
  {
    Vec li;
    for (dimension_type i = 0; i < D; ++i) { last.push_back((long)d[i].impl_last()); li.push_back(d[i].length() - 1);}
    dnth = iv<D>(ovxx::domain_nth(d, Mk<D>::idx(li)));
  }
  e.i("t", t).i("size", d.size()).i("size2", ovxx::size(d)).vv("dom", dom).vv("nth", nth).v("ext", ext)
    .v("first", first).v("last", last).v("dnth", dnth);
}

template <dimension_type D, typename O> void trav(Out &out, Vec const &ext, Vec const &ord, bool dflt)
{
  ovxx::Length<D> e = Mk<D>::len(ext);
  Index<D> i;
  out(Ev("trav").v("ext", ext).v("ord", ord).b("valid", ovxx::valid(e, i)));
  ll n = 0;
  while (ovxx::valid(e, i) && n < 100000)
  {
    if (dflt) ovxx::next(e, i); else ovxx::next<O>(e, i);
    ++n;
    out(Ev("next").v("idx", iv<D>(i)).b("valid", ovxx::valid(e, i)));
  }
  out(Ev("end").i("count", n));
}

template <dimension_type D> void pconf(Out &out, int a, int b)
{ out(Ev("pconf").i("a", a).i("b", b).b("res", Regs<D>::r[a].product_conformant(Regs<2>::r[b])));}

template <dimension_type D, dimension_type P> struct Proj
{ static void f(Line &, Out &, Ev &, int, int) {}};

template <dimension_type P, dimension_type D> void project(Ev &e, int r, int t)
{ Regs<P>::r[t] = ovxx::project<P>(Regs<D>::r[r]); obs<P>(e, t);}
template <dimension_type D> struct PJ;
template <> struct PJ<1> { static void f(Ev &e, int r, int t, int) { project<1, 1>(e, r, t);}};
template <> struct PJ<2> { static void f(Ev &e, int r, int t, int k) { if (k == 1) project<1, 2>(e, r, t); else project<2, 2>(e, r, t);}};
template <> struct PJ<3> { static void f(Ev &e, int r, int t, int k) { if (k == 1) project<1, 3>(e, r, t); else if (k == 2) project<2, 3>(e, r, t); else project<3, 3>(e, r, t);}};

template <dimension_type D> void op(Line &l, Out &out)
{
  Domain<D> *R = Regs<D>::r;
  if (l.op == "mk")
  {
    int t = l.i(), form = l.i(); Vec a = l.v();
    Domain<1> d[D];
    std::vector<Vec> args;
    for (dimension_type i = 0; i < D; ++i)
    {
      if (form && a[3*i] == 0 && a[3*i+1] == 1) d[i] = Domain<1>((length_type)a[3*i+2]);
      else d[i] = Domain<1>(a[3*i], a[3*i+1], a[3*i+2]);
      args.push_back(Vec(a.begin() + 3*i, a.begin() + 3*i + 3));
    }
    if (form == 2) R[t] = ovxx::construct_domain<D>(d); else { Domain<D> x(Mk<D>::dom(d)); R[t] = x;}
    Ev e("mk"); e.vv("args", args); obs<D>(e, t); out(e);
  }
  else if (l.op == "copy") { int r = l.i(), t = l.i(); Domain<D> x(R[r]); R[t] = x; Ev e("copy"); e.i("r", r); obs<D>(e, t); out(e);}
  else if (l.op == "shift")
  {
    int r = l.i(), t = l.i(); ll k = l.i(); int form = l.i();
    if (form == 0) R[t] = R[r] + k; else if (form == 1) R[t] = k + R[r]; else if (form == 2) R[t] = R[r] - (-k);
    else { Domain<D> x = R[r]; if (form == 3) x.impl_add_in(k); else x.impl_sub_out(-k); R[t] = x;}
    Ev e("shift"); e.i("r", r).i("k", k); obs<D>(e, t); out(e);
  }
  else if (l.op == "scale")
  {
    int r = l.i(), t = l.i(); ll k = l.i(); int form = l.i();
    if (form == 0) R[t] = R[r] * k; else if (form == 1) R[t] = k * R[r]; else { Domain<D> x = R[r]; x.impl_mul_by(k); R[t] = x;}
    Ev e("scale"); e.i("r", r).i("k", k); obs<D>(e, t); out(e);
  }
  else if (l.op == "unscale")
  {
    int r = l.i(), t = l.i(); ll k = l.i();
    R[t] = R[r] / k;
    Ev e("unscale"); e.i("r", r).i("k", k); obs<D>(e, t); out(e);
  }
  else if (l.op == "normal") { int r = l.i(), t = l.i(); R[t] = ovxx::normalize(R[r]); Ev e("normal"); e.i("r", r); obs<D>(e, t); out(e);}
  else if (l.op == "project") { int r = l.i(), t = l.i(), k = l.i(); Ev e("project"); e.i("r", r).i("k", k); PJ<D>::f(e, r, t, k); out(e);}
  else if (l.op == "empty") { int t = l.i(); R[t] = ovxx::empty_domain<D>(); Ev e("empty"); e.i("k", D); obs<D>(e, t); out(e);}
  else if (l.op == "eq")
  {
    int a = l.i(), b = l.i();
    out(Ev("eq").i("a", a).i("b", b).b("eq", R[a] == R[b]).b("ne", R[a] != R[b]).b("sym", R[b] == R[a]));
  }
  else if (l.op == "conf") { int a = l.i(), b = l.i(); out(Ev("conf").i("a", a).i("b", b).b("res", R[a].element_conformant(R[b])));}
  else if (l.op == "intersect")
  {
    int a = l.i(), b = l.i(), t = l.i();
    bool f = ovxx::intersect(R[a], R[b], R[t]);
    Ev e("intersect"); e.i("a", a).i("b", b).b("found", f); obs<D>(e, t); out(e);
    if (l.more() && f)
    {
      // map the intersection back into both operands and into a third domain
      int x = l.i(), u = l.i();
      R[u] = ovxx::apply_intr(R[x], R[a], R[t]);
      Ev e1("apply"); e1.i("x", x).i("y", a).i("z", t); obs<D>(e1, u); out(e1);
      R[u] = ovxx::subset_from_intr(R[b], R[t]);
      Ev e2("subset"); e2.i("y", b).i("z", t); obs<D>(e2, u); out(e2);
      bool unit = true;
      for (dimension_type i = 0; i < D; ++i) unit &= R[t][i].stride() == 1;
      if (unit)
      {
        R[u] = ovxx::subset_from_intr(R[a], R[t]);
        Ev e3("subset"); e3.i("y", a).i("z", t); obs<D>(e3, u); out(e3);
      }
    }
  }
  else if (l.op == "index")
  {
    Vec a = l.v(), b = l.v();
    Index<D> x = Mk<D>::idx(a), y = Mk<D>::idx(b);
    out(Ev("index").v("a", a).v("b", b).b("eq", x == y).v("sum", iv<D>(x + y)).v("diff", iv<D>((x + y) - y)));
  }
  else die("unknown op " + l.op);
}

int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  int dim = 1;
  while (read_line(is, l))
  {
    if (l.op == "begin") { out(Ev("begin")); continue;}
    if (l.op == "trav")
    {
      Vec ext = l.v(), ord = l.v(); bool dflt = l.i();
      int c = 0; for (size_t i = 0; i < ord.size(); ++i) c = c * 10 + ord[i];
      switch (ext.size() * 1000 + c)
      {
        case 1000: trav<1, tuple<0,1,2> >(out, ext, ord, dflt); break;
        case 2001: trav<2, tuple<0,1,2> >(out, ext, ord, dflt); break;
        case 2010: trav<2, tuple<1,0,2> >(out, ext, ord, false); break;
        case 3012: trav<3, tuple<0,1,2> >(out, ext, ord, dflt); break;
        case 3021: trav<3, tuple<0,2,1> >(out, ext, ord, false); break;
        case 3102: trav<3, tuple<1,0,2> >(out, ext, ord, false); break;
        case 3120: trav<3, tuple<1,2,0> >(out, ext, ord, false); break;
        case 3201: trav<3, tuple<2,0,1> >(out, ext, ord, false); break;
        case 3210: trav<3, tuple<2,1,0> >(out, ext, ord, false); break;
        default: die("order");
      }
      continue;
    }
    if (l.op == "pconf")
    {
      int d = l.i(), a = l.i(), b = l.i();
      if (d == 1) pconf<1>(out, a, b); else if (d == 2) pconf<2>(out, a, b); else pconf<3>(out, a, b);
      continue;
    }
    dim = l.i();
    if (dim == 1) op<1>(l, out); else if (dim == 2) op<2>(l, out); else op<3>(l, out);
  }
}
