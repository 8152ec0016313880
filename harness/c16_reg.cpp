#include "c16.hpp"
#if PART == 1
template <typename T> void do_ramp(Line &l, Out &out)
{
  Vec a = l.v(), b = l.v(); ll n = l.i(); char f = l.s()[0];
  T ta = Enc<T>::get(&a[0]), tb = Enc<T>::get(&b[0]);
  std::vector<T> x(n);
  bool ok = true;
  if (f == 'g') { auto r = ramp(ta, tb, n); for (ll i = n; i-- > 0;) x[i] = r.get(i);}
  else if (f == 'e') ok = with_vec<T>('d', x, [&](auto v) { v = T(2) * ramp(ta, tb, n); v -= ramp(ta, tb, n);});
  else ok = with_vec_all<T>(f, x, [&](auto v) { v = ramp(ta, tb, n);});
  out(Ev("ramp").i("w", Enc<T>::n).v("a", a).v("b", b).i("n", n).b("intact", ok).v("x", enc(x)));
}
struct P0 { template <typename A, typename B> bool operator()(A a, B b) const { return a == b;}};
struct P1 { template <typename A, typename B> bool operator()(A a, B b) const { return a < b;}};
struct P2 { template <typename A, typename B> bool operator()(A a, B b) const { return a > b + 1;}};
template <typename T, typename U> void do_first(Line &l, Out &out)
{
  ll pred = l.i(), begin = l.i(); char f = l.s()[0], g = l.s()[0]; Vec v = l.v(), u = l.v();
  std::vector<T> x = dec<T>(v), x0 = x; std::vector<U> y = dec<U>(u), y0 = y;
  ll ret = -7;
  bool ok2 = true, ok = with_vec<T>(f, x, [&](auto a) { ok2 = with_vec_few<U>(g, y, [&](auto b) {
    ret = pred == 0 ? first(begin, P0(), a, b) : pred == 1 ? first(begin, P1(), a, b) : first(begin, P2(), a, b); });});
  out(Ev("first").i("pred", pred).i("begin", begin).v("v", v).v("u", u).i("ret", ret).b("intact", ok && ok2 && x == x0 && y == y0));
}
template <dimension_type D, typename V> length_type ib(char f, V s, std::vector<Index<D> > &ix, bool &ok)
{
  length_type n = ix.size(), r;
  Index<D> mark;
  for (dimension_type d = 0; d < D; ++d) mark[d] = 77;
  if (f == 'd') { Vector<Index<D> > v(n); wr(v, ix); r = indexbool(s, v); rd(v, ix);}
  else
  {
    Vector<Index<D> > b(2 * n + 3, mark);
    typename Vector<Index<D> >::subview_type v = b(Domain<1>(1, 2, n));
    wr(v, ix); r = indexbool(s, v); rd(v, ix);
    for (length_type i = 0; i < 2 * n + 3; ++i) if (i % 2 == 0 || i > 2 * n) ok = ok && b.get(i) == mark;
  }
  return r;
}
void op_a(Line &l, Out &out)
{
  if (l.op == "ramp")
    switch (l.s()[0]) { case 'i': do_ramp<int>(l, out); break; case 'f': do_ramp<float>(l, out); break; case 'd': do_ramp<double>(l, out); break; case 'z': do_ramp<std::complex<float> >(l, out); break; default: die("type");}
  else if (l.op == "first")
    switch (l.s()[0]) { case 'i': do_first<int, float>(l, out); break; case 'f': do_first<float, float>(l, out); break; case 'd': do_first<double, int>(l, out); break; default: die("type");}
  else
  {
    Vec d = l.v(), s = l.v(); char f = l.s()[0], g = l.s()[0]; ll room = l.i();
    std::vector<bool> dummy;
    bool ok = true, ok2 = true;
    Vec ix, old;
    ll ret = -7;
    if (d.size() == 1)
    {
      std::vector<Index<1> > p;
      for (ll i = 0; i < room; ++i) { p.push_back(Index<1>(50 + i)); old.push_back(50 + i);}
      std::vector<int> x = dec<int>(s), x0 = x;
      if (f == 'b') { Vector<bool> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v.put(i, s[i]); ret = ib<1>(g, v, p, ok2);}
      else ok = with_vec<int>(f, x, [&](auto v) { ret = ib<1>(g, v > 0, p, ok2);});
      for (ll i = 0; i < room; ++i) ix.push_back(p[i][0]);
      ok = ok && x == x0;
    }
    else
    {
      std::vector<Index<2> > p;
      for (ll i = 0; i < room; ++i) { p.push_back(Index<2>(i, 50)); old.push_back(i); old.push_back(50);}
      std::vector<int> x = dec<int>(s), x0 = x;
      if (f == 'b') { Matrix<bool, Dense<2, bool, col2_type> > v(d[0], d[1]); for (size_t i = 0; i < s.size(); ++i) At<2>::put(v, i, s[i] != 0); ret = ib<2>(g, v, p, ok2);}
      else ok = with_mat<int>(f, x, d[0], d[1], [&](auto v) { ret = ib<2>(g, v > 0, p, ok2);});
      for (ll i = 0; i < room; ++i) { ix.push_back(p[i][0]); ix.push_back(p[i][1]);}
      ok = ok && x == x0;
    }
    out(Ev("ib").v("d", d).v("s", s).v("old", old).v("ix", ix).i("ret", ret).b("intact", ok && ok2));
  }
}
#elif PART == 2
template <dimension_type D> Vector<Index<D> > mkix(Vec const &ix, Vector<Index<D> > store)
{
  for (size_t i = 0; i < store.size(); ++i) { Index<D> p; for (dimension_type d = 0; d < D; ++d) p[d] = ix[i * D + d]; store.put(i, p);}
  return store;
}
template <typename T, typename F> bool with_ten(char f, std::vector<T> &x, Vec const &d, F fn)
{
  if (f == 'd') { Tensor<T> t(d[0], d[1], d[2]); return guarded(t, t, x, fn);}
  if (f == 'c') { Tensor<T, Dense<3, T, tuple<1, 2, 0> > > t(d[0], d[1], d[2]); return guarded(t, t, x, fn);}
  Tensor<T> t(d[0] + 1, 2 * d[1] + 1, d[2] + 2);
  return guarded(t, typename Tensor<T>::subview_type(t(Domain<3>(Domain<1>(1, 1, d[0]), Domain<1>(0, 2, d[1]), Domain<1>(1, 1, d[2])))), x, fn);
}
template <typename T> void go2(Line &l, Out &out)
{
  bool g = l.op == "gather";
  Vec d = l.v(), s = l.v(), ix = l.v(), dst; char f = l.s()[0], h = l.s()[0];
  if (!g) dst = l.v();
  length_type n = ix.size() / d.size();
  std::vector<T> x = dec<T>(g ? s : dst), x0 = x, y = g ? std::vector<T>() : dec<T>(s), y0 = y, res;
  bool ok, ok2 = true;
  auto body = [&](auto v)
  {
    dimension_type const D = decltype(v)::dim;
    Vector<Index<D> > store(n);
    Vector<Index<D> > i = mkix<D>(ix, store);
    if (g) rd(gather(v, i), res);
    else ok2 = with_vec_few<T>(h, y, [&](auto src) { scatter(src, i, v);});
  };
  if (d.size() == 1) ok = with_vec<T>(f, x, body);
  else if (d.size() == 2) ok = with_mat<T>(f, x, d[0], d[1], body);
  else ok = with_ten<T>(f, x, d, body);
  Ev e(g ? "gather" : "scatter");
  e.i("w", Enc<T>::n).v("d", d).v("s", s).v("ix", ix).b("intact", ok && ok2 && y == y0 && (!g || x == x0));
  if (!g) e.v("dst", dst);
  e.v("out", enc(g ? res : x));
  out(e);
}
void op_b(Line &l, Out &out)
{
  switch (l.s()[0]) { case 'i': go2<int>(l, out); break; case 'f': go2<float>(l, out); break; case 'z': go2<std::complex<float> >(l, out); break; default: die("type");}
}
#elif PART == 3
template <typename T> std::vector<T> half(Vec const &v) { std::vector<T> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(T(v[i] / 2.)); return r;}
template <typename T> Vec twice(std::vector<T> const &x) { Vec v; for (size_t i = 0; i < x.size(); ++i) v.push_back(enc_real(2. * x[i])); return v;}
// element values, thresholds and clip values in units of 1/2
template <typename T, typename U, typename O> void go3(Line &l, Out &out)
{
  ll inv = l.i(); Vec d = l.v(), x = l.v(), t = l.v(), c = l.v(); char f = l.s()[0], g = l.s()[0];
  std::vector<T> xi = half<T>(x), x0 = xi; std::vector<U> th = half<U>(t); std::vector<O> cv = half<O>(c), y(x.size());
  bool ok, ok2 = true;
  auto cl = [&](auto v, auto w) { if (inv) w = invclip(v, th[0], th[1], th[2], cv[0], cv[1]); else w = clip(v, th[0], th[2], cv[0], cv[1]);};
  if (d.size() == 1) ok = with_vec<T>(f, xi, [&](auto v) { ok2 = with_vec_few<O>(g, y, [&](auto w) { cl(v, w);});});
  else ok = with_mat_few<T>(f, xi, d[0], d[1], [&](auto v) { ok2 = with_mat_few<O>(g, y, d[0], d[1], [&](auto w) { cl(v, w);});});
  out(Ev("clip").b("inv", inv).v("x", x).v("t", t).v("c", c).v("out", twice(y)).b("intact", ok && ok2 && xi == x0));
}
void op_c(Line &l, Out &out)
{
  switch (l.s()[0])
  {
  case 'a': go3<float, float, float>(l, out); break;
  case 'b': go3<int, int, int>(l, out); break;
  case 'c': go3<int, float, float>(l, out); break;
  case 'd': go3<double, int, double>(l, out); break;
  case 'e': go3<float, double, int>(l, out); break;
  default: die("type");
  }
}
#elif PART == 4
template <typename T, typename U> void go4(Line &l, Out &out)
{
  Vec d = l.v(), a = l.v(), b = l.v(); char f = l.s()[0], g = l.s()[0];
  std::vector<T> x = dec<T>(a); std::vector<U> y = dec<U>(b);
  bool ok, ok2 = true;
  if (d.size() == 1) ok = with_vec<T>(f, x, [&](auto v) { ok2 = with_vec<U>(g, y, [&](auto w) { vsip::swap(v, w);});});
  else ok = with_mat<T>(f, x, d[0], d[1], [&](auto v) { ok2 = with_mat<U>(g, y, d[0], d[1], [&](auto w) { vsip::swap(v, w);});});
  out(Ev("swap").i("w", Enc<T>::n).v("d", d).v("a", a).v("b", b).v("a2", enc(x)).v("b2", enc(y)).b("intact", ok && ok2));
}
void op_d(Line &l, Out &out)
{
  switch (l.s()[0])
  {
  case 'i': go4<int, int>(l, out); break;
  case 'f': go4<float, float>(l, out); break;
  case 'm': go4<int, float>(l, out); break;
  case 'z': go4<std::complex<float>, std::complex<float> >(l, out); break;
  default: die("type");
  }
}
#elif PART == 5
template <typename T> void go5(Line &l, Out &out)
{
  std::string kind = l.s(); Vec d = l.v(), x = l.v(); char how = l.s()[0], f = l.s()[0], g = l.s()[0];
  std::vector<T> xi = dec<T>(x), x0 = xi, y(xi.size());
  bool ok, ok2 = true;
  if (d.size() == 1)
  {
    if (how == '=') { ok = with_vec_all<T>(f, xi, [&](auto v) { v = freqswap(v);}); y = xi; xi = x0;}
    else if (how == '2') { ok = with_vec<T>(f, xi, [&](auto v) { auto e = freqswap(v); v = e; });  y = xi; xi = x0;}
    else ok = with_vec<T>(f, xi, [&](auto v) { ok2 = with_vec<T>(g, y, [&](auto w) {
      if (how == 'e') w = freqswap(v + T(0));
      else if (how == '+') w = freqswap(v) + T(1) - T(1);
      else if (how == 'g') { auto e = freqswap(v); for (index_type i = w.size(); i-- > 0;) w.put(i, e.get(i)); }
      else if (how == 's') ovxx::signal::freqswap(v, w);
      else w = freqswap(v);});});
  }
  else
  {
    length_type r = d[0], c = d[1];
    if (how == '=') { ok = with_mat<T>(f, xi, r, c, [&](auto v) { v = freqswap(v);}); y = xi; xi = x0;}
    else ok = with_mat<T>(f, xi, r, c, [&](auto v) { ok2 = with_mat_few<T>(g, y, r, c, [&](auto w) {
      if (kind == "r") ovxx::signal::freqswap<row>(v, w);
      else if (kind == "c") ovxx::signal::freqswap<col>(v, w);
      else if (how == 'e') w = freqswap(v + T(0));
      else if (how == '+') w = freqswap(v) + T(1) - T(1);
      else if (how == 's') ovxx::signal::freqswap(v, w);
      else w = freqswap(v);});});
  }
  out(Ev("fs").i("w", Enc<T>::n).s("kind", kind).v("d", d).v("x", x).v("out", enc(y)).b("intact", ok && ok2).b("same", xi == x0));
}
void op_e(Line &l, Out &out)
{
  switch (l.s()[0])
  {
  case 'i': go5<int>(l, out); break;
  case 'f': go5<float>(l, out); break;
  case 'z': go5<std::complex<float> >(l, out); break;
  default: die("type");
  }
}
#endif
