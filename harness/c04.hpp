// C04: lifetimes of storage. Handles (views, subviews, components, expressions, blocks, signal-processing and solver objects) of
// every kind are created from each second and dropped in any order, over recording allocators.
#ifndef c04_hpp_
#define c04_hpp_
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/map.hpp>
#include <vsip/math.hpp>
#include <vsip/random.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/strided.hpp>
#include "vh.hpp"
using namespace vsip;
using namespace vh;
struct H
{
  virtual ~H() {}
  virtual H *copy() const = 0;
  virtual H *derive(char, H const *) const { return 0;}
  virtual Vec read() const { return Vec();}         // the value of all elements; several if they differ
  virtual bool fill(ll) { return false;}
  virtual bool assign(H const *) { return false;}
  virtual H *fresh() const { return 0;}             // a new view initialised with this one's elements
  virtual bool use() { return false;}
  virtual bool rebind(ll) { return false;}
};
struct Made { H *h; ll bytes;};                    // bytes of storage the new block needs
template <typename T> struct El
{
  static T v(ll k) { return T(k);}
};
template <typename T> struct El<std::complex<T> > { static std::complex<T> v(ll k) { return std::complex<T>(T(k), T(k + 7));}};

template <typename V, int N> struct VH;
template <int N, typename V> H *wrap(V const &v) { return new VH<V, N>(v);}
template <typename T> struct Cx { static bool const value = false;};
template <typename T> struct Cx<std::complex<T> > { static bool const value = true;};

template <typename V, dimension_type D = V::block_type::dim> struct Each;
template <typename V> struct Each<V, 1>
{
  template <typename F> static void go(V const &v, F f) { for (index_type i = 0; i < v.size(); ++i) f(v.get(i));}
};
template <typename V> struct Each<V, 2>
{
  template <typename F> static void go(V const &v, F f)
  { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) f(v.get(i, j));}
};
template <typename V> struct Each<V, 3>
{
  template <typename F> static void go(V const &v, F f)
  { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) f(v.get(i, j, k));}
};
// fresh views of the same element type and dimension
template <typename T, dimension_type D> struct Plain;
template <typename T> struct Plain<T, 1> { typedef Vector<T> type;};
template <typename T> struct Plain<T, 2> { typedef Matrix<T> type;};
template <typename T> struct Plain<T, 3> { typedef Tensor<T> type;};
template <typename V> struct Konst;
template <typename T, typename B> struct Konst<Vector<T, B> > { typedef const_Vector<T, B> type;};
template <typename T, typename B> struct Konst<Matrix<T, B> > { typedef const_Matrix<T, B> type;};
template <typename T, typename B> struct Konst<Tensor<T, B> > { typedef const_Tensor<T, B> type;};
template <typename T, typename B> struct Konst<const_Vector<T, B> > { typedef const_Vector<T, B> type;};
template <typename T, typename B> struct Konst<const_Matrix<T, B> > { typedef const_Matrix<T, B> type;};
template <typename T, typename B> struct Konst<const_Tensor<T, B> > { typedef const_Tensor<T, B> type;};
template <typename V> struct Var { static bool const value = true;};
template <typename T, typename B> struct Var<const_Vector<T, B> > { static bool const value = false;};
template <typename T, typename B> struct Var<const_Matrix<T, B> > { static bool const value = false;};
template <typename T, typename B> struct Var<const_Tensor<T, B> > { static bool const value = false;};

// what can be derived: any dimension
template <typename V, int N, bool = Cx<typename V::value_type>::value> struct DerC
{ static H *go(V &, char) { return 0;}};
template <typename V, int N> struct DerC<V, N, true>
{
  static H *go(V &v, char how)
  {
    if (how == 'R') return wrap<N - 1>(v.real());
    if (how == 'I') return wrap<N - 1>(v.imag());
    return 0;
  }
};
template <typename V, int N, dimension_type D = V::block_type::dim> struct DerD;
template <typename V, int N> struct DerD<V, N, 1>
{
  static H *go(V &v, char how)
  {
    length_type n = v.size();
    if (how == 's') return wrap<N - 1>(v(Domain<1>(n / 2 + 1)));
    if (how == 't') return wrap<N - 1>(v(Domain<1>(n - 1, -1, n)));
    return 0;
  }
};
template <typename V, int N> struct DerD<V, N, 2>
{
  static H *go(V &v, char how)
  {
    length_type m = v.size(0), n = v.size(1);
    if (how == 's') return wrap<N - 1>(v(Domain<2>(Domain<1>(m / 2 + 1), Domain<1>(n - 1, -1, n))));
    if (how == 'T') return wrap<N - 1>(v.transpose());
    if (how == 'r') return wrap<N - 1>(v.row(m - 1));
    if (how == 'l') return wrap<N - 1>(v.col(0));
    if (how == 'd') return wrap<N - 1>(v.diag());
    return 0;
  }
};
template <typename V, int N> struct DerD<V, N, 3>
{
  static H *go(V &v, char how)
  {
    if (how == 's') return wrap<N - 1>(v(Domain<3>(Domain<1>(v.size(0)), Domain<1>(1), Domain<1>(v.size(2)))));
    if (how == 'T') return wrap<N - 1>(v.template transpose<1, 0, 2>());
    if (how == 'r') return wrap<N - 1>(v(0, whole_domain, whole_domain));
    if (how == 'l') return wrap<N - 1>(v(whole_domain, 0, whole_domain));
    if (how == 'd') return wrap<N - 1>(v(whole_domain, 0, 0));
    return 0;
  }
};
template <typename V, int N> struct Der
{
  static H *go(V const &c, char how, H const *o)
  {
    V v(c);
    VH<V, N> const *w = dynamic_cast<VH<V, N> const *>(o);
    typedef typename Konst<V>::type K;
    switch (how)
    {
      case 'k': return wrap<N - 1>(K(v));
      case 'n': return wrap<N - 1>(-K(v));
      case 'm': return wrap<N - 1>(v * typename V::value_type(3));
      case 'a': return w ? wrap<N - 1>(v + w->v) : 0;
      case 'L': return wrap<N - 1>(v.local());
      case 'R': case 'I': return DerC<V, N>::go(v, how);
      default: return DerD<V, N>::go(v, how);
    }
  }
};
template <typename V> struct Der<V, 0> { static H *go(V const &, char, H const *) { return 0;}};
template <typename V, int N, bool = Var<V>::value> struct Wr
{
  static bool fill(V &v, ll k) { v = El<typename V::value_type>::v(k); return true;}
  static bool assign(V &v, H const *o)
  {
    if (VH<V, N> const *w = dynamic_cast<VH<V, N> const *>(o)) { v = w->v; return true;}
    return false;
  }
};
template <typename V, int N> struct Wr<V, N, false>
{
  static bool fill(V &, ll) { return false;}
  static bool assign(V &, H const *) { return false;}
};
template <typename P> struct New;
template <typename T, typename B> struct New<Vector<T, B> > { template <typename V> static Vector<T, B> like(V const &v) { return Vector<T, B>(v.size());}};
template <typename T, typename B> struct New<Matrix<T, B> > { template <typename V> static Matrix<T, B> like(V const &v) { return Matrix<T, B>(v.size(0), v.size(1));}};
template <typename T, typename B> struct New<Tensor<T, B> > { template <typename V> static Tensor<T, B> like(V const &v) { return Tensor<T, B>(v.size(0), v.size(1), v.size(2));}};
template <typename V, bool = std::is_same<typename V::block_type::map_type, Local_map>::value> struct Fresh
{
  static H *go(V const &v)
  {
    typedef typename Plain<typename V::value_type, V::block_type::dim>::type P;
    P p(New<P>::like(v));
    p = v;
    return new VH<P, 0>(p);
  }
};
template <typename V> struct Fresh<V, false> { static H *go(V const &) { return 0;}};
template <typename V, int N> struct VH : H
{
  V v;
  explicit VH(V const &x) : v(x) {}
  H *copy() const { return new VH(v);}
  H *derive(char how, H const *o) const { return Der<V, N>::go(v, how, o);}
  Vec read() const
  {
    typedef typename V::value_type T;
    std::vector<Vec> all;
    Each<V>::go(v, [&](T x) { Vec e; Enc<T>::put(e, x); if (all.empty() || all.back() != e) all.push_back(e);});
    Vec r;
    for (auto &e : all) r.insert(r.end(), e.begin(), e.end());
    if (r.size() == 1) r.push_back(0);
    return r;
  }
  bool fill(ll k) { return Wr<V, N>::fill(v, k);}
  bool assign(H const *o) { return Wr<V, N>::assign(v, o);}
  H *fresh() const { return Fresh<V>::go(v);}
};
// a counted reference to a block
template <typename V> struct BH : H
{
  typedef typename V::block_type B;
  B *b;
  explicit BH(B *x) : b(x) {}
  ~BH() { b->decrement_count();}
  H *copy() const { b->increment_count(); return new BH(b);}
  H *derive(char how, H const *) const { return how == 'V' ? wrap<2>(V(*b)) : 0;}
};
extern int fail_in;                                // throw in this many allocations
extern ovxx::allocator *second;
extern std::vector<std::shared_ptr<void> > kept;   // user storage, until the end of a scenario
template <typename T> T sized(ll, ...);
template <typename V> struct Size;
template <typename T, typename B> struct Size<Vector<T, B> > { static Domain<1> dom(length_type n) { return Domain<1>(n);}};
template <typename T, typename B> struct Size<Matrix<T, B> > { static Domain<2> dom(length_type n) { return Domain<2>(n, n + 1);}};
template <typename T, typename B> struct Size<Tensor<T, B> > { static Domain<3> dom(length_type n) { return Domain<3>(n, 2, 3);}};
// modes: v with a value, l without one but filled at once, L without one, n and B a block (B: only the block), b another allocator
template <typename V> Made make(char mode, length_type n, ll k)
{
  typedef typename V::block_type B;
  typedef typename V::value_type T;
  typedef typename B::map_type M;
  Domain<V::block_type::dim> dom = Size<V>::dom(n);
  M map;
  if (mode == 'b') map.impl_set_allocator(second);
  bool const val = mode != 'l' && mode != 'L';
  B *b = val ? new B(dom, El<T>::v(k), map) : new B(dom, map);
  if (mode == 'B') { Made r = {new BH<V>(b), (ll)(dom.size() * sizeof(T))}; return r;}
  V v(*b);
  b->decrement_count();
  if (mode == 'l') v = El<T>::v(k);
  Made r = {wrap<2>(v), (ll)(dom.size() * sizeof(T))};
  return r;
}
Made make_0(char, length_type, ll); Made make_1(char, length_type, ll); Made make_2(char, length_type, ll); Made make_3(char, length_type, ll);
Made make_4(char, length_type, ll); Made make_5(char, length_type, ll); Made make_6(char, length_type, ll); Made make_7(char, length_type, ll);
Made make_8(char, length_type, ll);
#endif
