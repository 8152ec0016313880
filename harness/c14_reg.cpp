#include "c14.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(x##_, PART)
template <typename T> struct N(Fold)
{
  typedef typename Ctl<T>::real R;
  // apply the named function to view v; n: number of elements
  template <typename V> static Vec real_idx(std::string const &fn, V v, Vec &ix, std::false_type)
  {
    Vec r; Index<V::dim> i;
    if (fn == "maxval") Enc<T>::put(r, maxval(v, i));
    else if (fn == "minval") Enc<T>::put(r, minval(v, i));
    else if (fn == "maxmgval") Enc<T>::put(r, maxmgval(v, i));
    else if (fn == "minmgval") Enc<T>::put(r, minmgval(v, i));
    else die("function " + fn);
    for (dimension_type d = 0; d < V::dim; ++d) ix.push_back(i[d]);
    return r;
  }
  template <typename V> static Vec real_idx(std::string const &fn, V v, Vec &ix, std::true_type)
  {
    Vec r; Index<V::dim> i; R x;
    if (fn == "maxmgval") { x = maxmgval(v, i); r.push_back(enc_round((double)x * x, .3));}
    else if (fn == "minmgval") { x = minmgval(v, i); r.push_back(enc_round((double)x * x, .3));}
    else if (fn == "maxmgsqval") Enc<R>::put(r, maxmgsqval(v, i));
    else if (fn == "minmgsqval") Enc<R>::put(r, minmgsqval(v, i));
    else die("function " + fn);
    for (dimension_type d = 0; d < V::dim; ++d) ix.push_back(i[d]);
    return r;
  }
  template <typename V> static Vec run(std::string const &fn, V v, Vec &ix)
  {
    Vec r;
    double n = v.size();
    if (fn == "sumval") Enc<T>::put(r, sumval(v));
    else if (fn == "sumsqval") Enc<T>::put(r, sumsqval(v));
    else if (fn == "meanval")
    {
      T m = meanval(v);
      if (std::is_integral<T>::value) Enc<T>::put(r, m);
      else { std::complex<double> c(m); r.push_back(enc_round(c.real() * n, .3)); if (Ctl<T>::cx) r.push_back(enc_round(c.imag() * n, .3));}
    }
    else if (fn == "meansqval")
    {
      R m = meansqval(v);
      if (std::is_integral<T>::value) Enc<R>::put(r, m); else r.push_back(enc_round(m * n, .3));
    }
    else r = real_idx(fn, v, ix, std::integral_constant<bool, Ctl<T>::cx>());
    return r;
  }
};
template <> struct N(Fold)<bool>
{
  template <typename V> static Vec run(std::string const &fn, V v, Vec &)
  {
    Vec r;
    if (fn == "alltrue") r.push_back(alltrue(v));
    else if (fn == "anytrue") r.push_back(anytrue(v));
    else if (fn == "sumval") r.push_back(sumval(v));
    else die("function " + fn);
    return r;
  }
};
struct N(Bits)
{
  template <typename V> static Vec run(std::string const &fn, V v, Vec &)
  { Vec r; r.push_back(fn == "alltrue" ? alltrue(v) : anytrue(v)); return r;}
};
// an expression with the same value as v
template <typename T> struct N(Same) { template <typename V, typename F> static void run(V v, F f) { f(-(-v));}};
template <> struct N(Same)<bool> { template <typename V, typename F> static void run(V v, F f) { f(lnot(lnot(v)));}};
// a column-major or strided bool view cannot hold the guards: with_* works for bool as for other types
template <typename T, typename H> void N(go)(Line &l, Out &out)
{
  std::string fn = l.s(); Vec d = l.v(); char f = l.s()[0]; bool ex = l.i(); Vec vals = l.v();
  std::vector<T> x = dec<T>(vals), x0 = x;
  Vec r, ix;
  auto g = [&](auto v) { if (ex) N(Same)<T>::run(v, [&](auto e) { r = H::run(fn, e, ix);}); else r = H::run(fn, v, ix);};
  bool ok;
#if PART <= 3
  if (d.size() == 1) ok = with_vec<T>(f, x, g);
  else ok = with_mat<T>(f, x, d[0], d[1], g);
#else
  ok = with_ten<T>(f, x, d[0], d[1], d[2], g);
#endif
  for (size_t i = 0; i < x.size(); ++i) ok = ok && x[i] == x0[i];
  out(Ev("red").s("fn", fn).s("t", std::is_same<T, bool>::value ? "b" : std::is_same<T, int>::value ? "i" : Ctl<T>::cx ? "z" : "f").i("w", Enc<T>::n).v("d", d)
    .s("form", std::string(1, f)).b("ex", ex).v("x", vals).v("r", r).v("ix", ix).b("intact", ok));
}
#if PART == 1
void op_a(Line &l, char T, Out &out)
{
  if (T == 'b') N(go)<bool, N(Fold)<bool> >(l, out);
  else
  {
    std::string fn = l.w[l.pos];
    if (fn == "alltrue" || fn == "anytrue") N(go)<int, N(Bits)>(l, out); else N(go)<int, N(Fold)<int> >(l, out);
  }
}
#elif PART == 2
void op_b(Line &l, char T, Out &out) { if (T == 'f') N(go)<float, N(Fold)<float> >(l, out); else N(go)<double, N(Fold)<double> >(l, out);}
#elif PART == 3
void op_c(Line &l, char T, Out &out) { if (T == 'z') N(go)<std::complex<float>, N(Fold)<std::complex<float> > >(l, out); else N(go)<std::complex<double>, N(Fold)<std::complex<double> > >(l, out);}
#elif PART == 4
void op_e(Line &l, char T, Out &out)
{
  if (T == 'b') N(go)<bool, N(Fold)<bool> >(l, out);
  else if (T == 'i') N(go)<int, N(Fold)<int> >(l, out); else N(go)<float, N(Fold)<float> >(l, out);
}
#elif PART == 5
void op_f(Line &l, char, Out &out) { N(go)<std::complex<float>, N(Fold)<std::complex<float> > >(l, out);}
#elif PART == 6
// long vectors: element k is ((a * k + b) mod m) + c, and for complex imaginary part ((b * k + a) mod m) - c
template <typename T> struct Gen { static T at(Vec const &p, ll k) { return T((p[0] * k + p[1]) % p[2] + p[3]);}};
template <typename T> struct Gen<std::complex<T> >
{ static std::complex<T> at(Vec const &p, ll k) { return std::complex<T>(Gen<T>::at(p, k), T((p[1] * k + p[0]) % p[2] - p[3]));}};
template <typename C> void bigpart(Line &l, Out &out)
{
  typedef typename Ctl<C>::real R;
  std::string fn = l.s(); ll n = l.i(); char f = l.s()[0]; char ex = l.s()[0]; Vec p = l.v();
  std::vector<C> x(n);
  for (ll k = 0; k < n; ++k) x[k] = Gen<C>::at(p, k);
  std::vector<C> x0 = x;
  Vec r, ix;
  bool ok = with_vec_all<C>(f, x, [&](auto v) { auto q = v.real(); r = N(Fold)<R>::run(fn, q, ix); (void)ex;});
  out(Ev("big").s("fn", fn).s("t", "f").i("n", n).v("p", p).v("r", r).b("intact", ok && x == x0).s("form", std::string(1, f)));
}
template <typename T> void bigr(Line &l, Out &out)
{
  std::string fn = l.s(); ll n = l.i(); char f = l.s()[0]; char ex = l.s()[0]; Vec p = l.v();
  std::vector<T> x(n);
  for (ll k = 0; k < n; ++k) x[k] = Gen<T>::at(p, k);
  std::vector<T> x0 = x;
  Vec r, ix;
  bool ok = with_vec_all<T>(f, x, [&](auto v)
  { if (ex == 'e') r = N(Fold)<T>::run(fn, -(-v), ix); else r = N(Fold)<T>::run(fn, v, ix);});
  out(Ev("big").s("fn", fn).s("t", Ctl<T>::cx ? "z" : "f").i("n", n).v("p", p).v("r", r).b("intact", ok && x == x0).s("form", std::string(1, f)));
}
void op_d(Line &l, char T, Out &out)
{
  if (T == 'f') bigr<float>(l, out); else if (T == 'd') bigr<double>(l, out);
  else if (T == 'z') bigr<std::complex<float> >(l, out); else if (T == 'p') bigpart<std::complex<float> >(l, out); else die("type");
}
#endif
