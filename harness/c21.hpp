// C21: descriptors of data and of user storage, their compatibility with block types, and rebinding blocks to described data.
#ifndef c21_hpp_
#define c21_hpp_
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/serialization.hpp>
#include <ovxx/strided.hpp>
#include <cstdint>
#include "vh.hpp"
using namespace vsip;
using namespace vh;
namespace ser = vsip::serialization;
struct Pixel { char r, g, b;};
namespace vsip { namespace serialization { template <> struct type_info<Pixel> { static uint64_type const value = 0x10000;};}}
template <typename T> struct F
{
  static T at(ll p) { return T(3 * p + 1);}
  static bool const cx = false;
  typedef T scalar;
};
template <> struct F<bool> { static bool at(ll p) { return p % 3 == 0;} static bool const cx = false; typedef bool scalar;};
template <typename T> struct F<std::complex<T> >
{
  static std::complex<T> at(ll p) { return std::complex<T>(T(3 * p + 1), T(-p - 2));}
  static bool const cx = true;
  typedef T scalar;
};
template <typename T> struct Put { static void put(Vec &o, T v) { o.push_back((ll)v);}};
template <typename T> struct Put<std::complex<T> > { static void put(Vec &o, std::complex<T> v) { Enc<std::complex<T> >::put(o, v);}};
template <> struct Put<float> { static void put(Vec &o, float v) { Enc<float>::put(o, v);}};
template <> struct Put<double> { static void put(Vec &o, double v) { Enc<double>::put(o, v);}};

inline void put_desc(Ev &e, ser::Descriptor const &d, int dim)
{
  Vec v, s, t;
  v.push_back((ll)d.value_type); v.push_back(d.dimensions); v.push_back(d.storage_format); v.push_back((ll)d.storage_size);
  for (int i = 0; i < dim; ++i) { s.push_back((ll)d.size[i]); t.push_back((ll)d.stride[i]);}
  e.v("head", v).v("size", s).v("stride", t);
}
Vec compat(ser::Descriptor const &);                  // with every block type

template <dimension_type D> struct Dom;
template <> struct Dom<1>
{
  static Domain<1> whole(Vec const &n) { return Domain<1>(n[0]);}
  static Domain<1> sub(Vec const &q) { return Domain<1>(q[0], q[1], q[2]);}
  template <typename G> static void each(Vec const &n, G g) { for (ll i = 0; i < n[0]; ++i) g(Index<1>(i));}
};
template <> struct Dom<2>
{
  static Domain<2> whole(Vec const &n) { return Domain<2>(n[0], n[1]);}
  static Domain<2> sub(Vec const &q) { return Domain<2>(Domain<1>(q[0], q[1], q[2]), Domain<1>(q[3], q[4], q[5]));}
  template <typename G> static void each(Vec const &n, G g) { for (ll i = 0; i < n[0]; ++i) for (ll j = 0; j < n[1]; ++j) g(Index<2>(i, j));}
};
template <> struct Dom<3>
{
  static Domain<3> whole(Vec const &n) { return Domain<3>(n[0], n[1], n[2]);}
  static Domain<3> sub(Vec const &q) { return Domain<3>(Domain<1>(q[0], q[1], q[2]), Domain<1>(q[3], q[4], q[5]), Domain<1>(q[6], q[7], q[8]));}
  template <typename G> static void each(Vec const &n, G g)
  { for (ll i = 0; i < n[0]; ++i) for (ll j = 0; j < n[1]; ++j) for (ll k = 0; k < n[2]; ++k) g(Index<3>(i, j, k));}
};
template <typename T> struct Look
{
  template <typename S> static T at(S const *p, ll k) { return p[k];}
};
template <typename T> struct Look<std::complex<T> >
{
  typedef std::complex<T> C;
  static C at(C const *p, ll k) { return p[k];}
  static C at(T const *p, ll k) { return C(p[2 * k], p[2 * k + 1]);}
  template <typename A, typename B> static C at(std::pair<A, B> const &p, ll k) { return C(p.first[k], p.second[k]);}
};
template <typename B, typename P> Vec rebound(P p, Vec const &n)
{
  static dimension_type const D = B::dim;
  typedef typename B::value_type T;
  B *b = new B(Dom<D>::whole(Vec(D, 0)), P());
  b->rebind(p, Dom<D>::whole(n));
  b->admit(true);
  Vec x;
  Dom<D>::each(n, [&](Index<D> const &i) { Put<T>::put(x, ovxx::get(*b, i));});
  b->decrement_count();
  return x;
}
template <typename T, dimension_type D, typename O, typename P> void trip(Out &out, ser::Descriptor const &d, P p, Vec const &n, Vec const &ord)
{
  typedef Dense<D, T, O> B;
  bool ok = ser::is_compatible<B>(d);
  Ev e("trip");
  e.v("ord", ord).b("ok", ok);
  if (ok) e.v("x", rebound<B>(p, n));
  else e.v("x", Vec());
  out(e);
}
inline Vec V3(ll a, ll b, ll c) { Vec v; v.push_back(a); v.push_back(b); v.push_back(c); return v;}
template <typename T, dimension_type D> struct Trips;
template <typename T> struct Trips<T, 1>
{ template <typename P> static void go(Out &o, ser::Descriptor const &d, P p, Vec const &n) { trip<T, 1, tuple<0, 1, 2> >(o, d, p, n, V3(0, 1, 2));}};
template <typename T> struct Trips<T, 2>
{
  template <typename P> static void go(Out &o, ser::Descriptor const &d, P p, Vec const &n)
  { trip<T, 2, tuple<0, 1, 2> >(o, d, p, n, V3(0, 1, 2)); trip<T, 2, tuple<1, 0, 2> >(o, d, p, n, V3(1, 0, 2));}
};
template <typename T> struct Trips<T, 3>
{
  template <typename P> static void go(Out &o, ser::Descriptor const &d, P p, Vec const &n)
  {
    trip<T, 3, tuple<0, 1, 2> >(o, d, p, n, V3(0, 1, 2)); trip<T, 3, tuple<2, 0, 1> >(o, d, p, n, V3(2, 0, 1));
    trip<T, 3, tuple<1, 0, 2> >(o, d, p, n, V3(1, 0, 2)); trip<T, 3, tuple<2, 1, 0> >(o, d, p, n, V3(2, 1, 0));
  }
};
template <typename T> struct Received                 // the storage in [0, n) elements from the pointer on
{
  template <dimension_type D, typename S> static void go(Out &o, ser::Descriptor const &d, S const *p, ll n, Vec const &sz, int per)
  {
    S *c = new S[n * per + 1];
    for (ll i = 0; i < n * per; ++i) c[i] = p[i];
    Trips<T, D>::go(o, d, c, sz);
    delete [] c;
  }
  template <dimension_type D, typename A, typename B> static void go(Out &o, ser::Descriptor const &d, std::pair<A, B> const &p, ll n, Vec const &sz, int)
  {
    typedef typename F<T>::scalar S;
    S *a = new S[n + 1], *b = new S[n + 1];
    for (ll i = 0; i < n; ++i) { a[i] = p.first[i]; b[i] = p.second[i];}
    Trips<T, D>::go(o, d, std::pair<S *, S *>(a, b), sz);
    delete [] a; delete [] b;
  }
};
// what the descriptor says is at the pointer
template <typename T, dimension_type D, typename P>
void described(Out &out, ser::Descriptor const &d, P p, Vec const &n, Ev &e)
{
  Vec x, sz, idx;
  ll lo = 0, hi = 0;
  for (dimension_type k = 0; k < D; ++k) { sz.push_back((ll)d.size[k]); ll s = (ll)d.stride[k] * ((ll)d.size[k] - 1); if (s < 0) lo += s; else hi += s;}
  if (d.dimensions == D && sz == n)
    Dom<D>::each(n, [&](Index<D> const &i) { ll k = 0; for (dimension_type q = 0; q < D; ++q) k += (ll)i[q] * (ll)d.stride[q]; Put<T>::put(x, Look<T>::at(p, k));});
  put_desc(e, d, D);
  e.v("x", x).i("lo", lo).i("hi", hi).v("ok", compat(d));
  out(e);
  int per = d.storage_format == interleaved_complex ? 2 : 1;
  if (lo == 0) Received<T>::template go<D>(out, d, p, hi + 1, n, per);
}
template <typename V, typename L, dda::sync_policy S> void by_data(Out &out, V v, Vec const &n, Ev e)
{
  typedef typename V::block_type B;
  ser::Descriptor d;
  std::memset(&d, 0x5a, sizeof d);
  dda::Data<B, S, L> data(v.block());
  ser::describe_data(data, d);
  e.i("esize", (ll)data.storage_size());
  described<typename V::value_type, B::dim>(out, d, data.ptr(), n, e);
}
template <dimension_type D> struct Rev;
template <> struct Rev<1> { typedef tuple<0, 1, 2> type;};
template <> struct Rev<2> { typedef tuple<1, 0, 2> type;};
template <> struct Rev<3> { typedef tuple<2, 1, 0> type;};
template <typename V> void lays(Out &out, V v, Vec const &n, Ev e, ll lay)
{
  typedef typename V::block_type B;
  typedef typename V::value_type T;
  static dimension_type const D = B::dim;
  e.i("lay", lay);
  if (lay == 0) by_data<V, typename dda::dda_block_layout<B>::layout_type, dda::inout>(out, v, n, e);
  else if (lay == 1) by_data<V, typename dda::dda_block_layout<B>::layout_type, dda::in>(out, v, n, e);
  else if (lay == 2) by_data<V, Layout<D, tuple<0, 1, 2>, dense, array>, dda::in>(out, v, n, e);
  else if (lay == 3) by_data<V, Layout<D, typename Rev<D>::type, dense, F<T>::cx ? split_complex : array>, dda::inout>(out, v, n, e);
  else by_data<V, Layout<D, typename Rev<D>::type, aligned_64, F<T>::cx ? interleaved_complex : array>, dda::in>(out, v, n, e);
}
template <typename B> void source(Out &out, Line &l, Ev e)
{
  static dimension_type const D = B::dim;
  typedef typename B::value_type T;
  Vec n = l.v(), q = l.v(); ll lay = l.i();
  B *b = new B(Dom<D>::whole(n));
  typename ovxx::view_of<B>::type v(*b);
  b->decrement_count();
  ll p = 0;
  Dom<D>::each(n, [&](Index<D> const &i) { ovxx::put(v.block(), i, F<T>::at(p++));});
  e.v("n", n).v("q", q);
  if (q.empty()) lays(out, v, n, e, lay);
  else
  {
    Vec m; for (dimension_type k = 0; k < D; ++k) m.push_back(q[3 * k + 2]);
    lays(out, v(Dom<D>::sub(q)), m, e, lay);
  }
}
template <typename T, storage_format_type S> struct User { typedef T *ptr; std::vector<T> m; User(ll n) : m(n + 1) {} ptr p() { return &m[0];}};
template <storage_format_type S> struct User<bool, S> { typedef bool *ptr; std::unique_ptr<bool[]> m; User(ll n) : m(new bool[n + 1]) {} ptr p() { return m.get();}};
template <typename T> struct User<std::complex<T>, interleaved_complex> { typedef T *ptr; std::vector<T> m; User(ll n) : m(2 * n + 1) {} ptr p() { return &m[0];}};
template <typename T> struct User<std::complex<T>, split_complex>
{ typedef std::pair<T *, T *> ptr; std::vector<T> a, b; User(ll n) : a(n + 1), b(n + 1) {} ptr p() { return ptr(&a[0], &b[0]);}};
template <typename B, storage_format_type S> void user(Out &out, Line &l, Ev e)
{
  static dimension_type const D = B::dim;
  typedef typename B::value_type T;
  Vec n = l.v();
  ll all = 1, p = 0;
  for (dimension_type k = 0; k < D; ++k) all *= n[k];
  User<T, S> u(all);
  B *b = new B(Dom<D>::whole(n), u.p());
  b->admit(false);
  Dom<D>::each(n, [&](Index<D> const &i) { ovxx::put(*b, i, F<T>::at(p++));});
  b->release(true);
  ser::Descriptor d;
  std::memset(&d, 0x5a, sizeof d);
  ser::describe_user_storage(*b, d);
  e.v("n", n).v("q", Vec()).i("lay", -1).i("esize", all);
  described<T, D>(out, d, u.p(), n, e);
  b->decrement_count();
}
template <typename T, dimension_type D, typename O, storage_format_type S> void packs(Out &out, Line &l, std::string const &pk, Ev const &e)
{
  if (pk == "d") source<ovxx::Strided<D, T, Layout<D, O, dense, S> > >(out, l, e);
  else if (pk == "D") source<Dense<D, T, O> >(out, l, e);
  else if (pk == "a") source<ovxx::Strided<D, T, Layout<D, O, aligned_32, S> > >(out, l, e);
  else if (pk == "u") user<Dense<D, T, O>, S>(out, l, e);
  else if (pk == "U") user<ovxx::Strided<D, T, Layout<D, O, dense, S> >, S>(out, l, e);
  else die("bad packing " + pk);
}
template <typename T, bool = F<T>::cx> struct Fmt
{
  template <dimension_type D, typename O> static void go(Out &out, Line &l, ll, std::string const &pk, Ev const &e) { packs<T, D, O, array>(out, l, pk, e);}
};
template <typename T> struct Fmt<T, true>
{
  template <dimension_type D, typename O> static void go(Out &out, Line &l, ll f, std::string const &pk, Ev const &e)
  {
    if (f == array) packs<T, D, O, array>(out, l, pk, e);
    else if (f == split_complex) packs<T, D, O, split_complex>(out, l, pk, e);
    else packs<T, D, O, interleaved_complex>(out, l, pk, e);
  }
};
template <typename T> void run(Out &out, Line &l, Ev e)
{
  ll d = l.i(), o = l.i(), f = l.i(); std::string pk = l.s();
  e.i("d", d).i("f", f).s("pk", pk);
  if (d == 1) Fmt<T>::template go<1, tuple<0, 1, 2> >(out, l, f, pk, e.v("o", V3(0, 1, 2)));
  else if (d == 2 && o == 0) Fmt<T>::template go<2, tuple<0, 1, 2> >(out, l, f, pk, e.v("o", V3(0, 1, 2)));
  else if (d == 2) Fmt<T>::template go<2, tuple<1, 0, 2> >(out, l, f, pk, e.v("o", V3(1, 0, 2)));
  else if (o == 0) Fmt<T>::template go<3, tuple<0, 1, 2> >(out, l, f, pk, e.v("o", V3(0, 1, 2)));
  else Fmt<T>::template go<3, tuple<2, 0, 1> >(out, l, f, pk, e.v("o", V3(2, 0, 1)));
}
void run_0(Out &, Line &, Ev); void run_1(Out &, Line &, Ev); void run_2(Out &, Line &, Ev); void run_3(Out &, Line &, Ev);
void run_4(Out &, Line &, Ev); void run_5(Out &, Line &, Ev); void run_6(Out &, Line &, Ev); void run_7(Out &, Line &, Ev);
#endif
