// C02: type-erased views over real library views; every composition of subview operators.
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <map>
#include <functional>
using namespace vsip;
using namespace vh;

template <typename V> struct ElemOf { typedef typename V::value_type type;};

struct Node
{
  virtual ~Node() {}
  virtual Vec dims() = 0;
  virtual int nc() = 0;
  virtual Vec read(int how) = 0;
  virtual void put(int how, ll p, Vec const &v) = 0;
  virtual void fill(Vec const &v) = 0;
  virtual void assign(int how, Vec const &v) = 0;
  virtual Node *sub(std::string const &k, Vec const &a, int how, Vec &peek) = 0;
  void idx(ll p, ll *i) { Vec d = dims(); for (int k = (int)d.size() - 1; k >= 0; --k) { i[k] = p % d[k]; p /= d[k];}}
  ll n() { Vec d = dims(); ll r = 1; for (size_t k = 0; k < d.size(); ++k) r *= d[k]; return r;}
};

template <dimension_type D> struct Acc;
template <> struct Acc<1>
{
  template <typename V> static typename V::value_type get(V const &v, ll const *i) { return v.get(i[0]);}
  template <typename V, typename T> static void put(V &v, ll const *i, T x) { v.put(i[0], x);}
  template <typename V, typename T> static void ref(V &v, ll const *i, T x) { v(i[0]) = x;}
  template <typename T> static Vector<T> dense(Vec const &d) { return Vector<T>(d[0]);}
  static Vec dims(ll a, ll, ll) { Vec r; r.push_back(a); return r;}
};
template <> struct Acc<2>
{
  template <typename V> static typename V::value_type get(V const &v, ll const *i) { return v.get(i[0], i[1]);}
  template <typename V, typename T> static void put(V &v, ll const *i, T x) { v.put(i[0], i[1], x);}
  template <typename V, typename T> static void ref(V &v, ll const *i, T x) { v(i[0], i[1]) = x;}
  template <typename T> static Matrix<T> dense(Vec const &d) { return Matrix<T>(d[0], d[1]);}
};
template <> struct Acc<3>
{
  template <typename V> static typename V::value_type get(V const &v, ll const *i) { return v.get(i[0], i[1], i[2]);}
  template <typename V, typename T> static void put(V &v, ll const *i, T x) { v.put(i[0], i[1], i[2], x);}
  template <typename V, typename T> static void ref(V &v, ll const *i, T x) { v(i[0], i[1], i[2]) = x;}
  template <typename T> static Tensor<T> dense(Vec const &d) { return Tensor<T>(d[0], d[1], d[2]);}
};

inline Domain<1> dom(Vec const &a, size_t k) { return Domain<1>(a[k], a[k+1], a[k+2]);}

template <typename V> Vec read_elems(V const &v)
{
  Vec r; ll i[3] = {0, 0, 0}, d[3] = {1, 1, 1};
  for (dimension_type k = 0; k < V::dim; ++k) d[k] = v.size(k);
  for (i[0] = 0; i[0] < d[0]; ++i[0])
    for (i[1] = 0; i[1] < d[1]; ++i[1])
      for (i[2] = 0; i[2] < d[2]; ++i[2])
        Enc<typename V::value_type>::put(r, Acc<V::dim>::get(v, i));
  return r;
}

template <typename V, int depth> Node *mk(V v);
template <typename T, typename B> const_Vector<T, B> const &cview(Vector<T, B> const &v) { return v;}
template <typename T, typename B> const_Matrix<T, B> const &cview(Matrix<T, B> const &v) { return v;}
template <typename T, typename B> const_Tensor<T, B> const &cview(Tensor<T, B> const &v) { return v;}

// Element access by reference does not compile for proxied slices of rank-3 blocks: use put there.
template <typename R, dimension_type D> struct RefOk { static bool const value = true;};
template <typename B, dimension_type P, dimension_type D> struct RefOk<ovxx::element_proxy<B, P>, D> { static bool const value = P == D;};
template <bool ok> struct RefPut
{ template <dimension_type D, typename V, typename T> static void go(V &v, ll const *i, T x) { Acc<D>::ref(v, i, x);} };
template <> struct RefPut<false>
{ template <dimension_type D, typename V, typename T> static void go(V &v, ll const *i, T x) { Acc<D>::put(v, i, x);} };

// Subview factories; depth 0 stops the recursion.
template <dimension_type D, int depth> struct Subs;
template <> struct Subs<1, 0>
{ template <typename V> static Node *go(V &, std::string const &, Vec const &, int, Vec &) { return 0;} };
template <> struct Subs<2, 0>
{ template <typename V> static Node *go(V &, std::string const &, Vec const &, int, Vec &) { return 0;} };
template <> struct Subs<3, 0>
{ template <typename V> static Node *go(V &, std::string const &, Vec const &, int, Vec &) { return 0;} };

template <bool cplx> struct Comp
{ template <int depth, typename V> static Node *go(V &, std::string const &, Vec &) { return 0;} };
template <> struct Comp<true>
{
  template <int depth, typename V> static Node *go(V &v, std::string const &k, Vec &peek)
  {
    if (k == "real") { peek = read_elems(cview(v).real()); return mk<typename V::realview_type, depth - 1>(v.real());}
    if (k == "imag") { peek = read_elems(cview(v).imag()); return mk<typename V::imagview_type, depth - 1>(v.imag());}
    return 0;
  }
};
template <typename T> struct IsC { static bool const value = false;};
template <typename T> struct IsC<std::complex<T> > { static bool const value = true;};

template <int depth> struct Subs<1, depth>
{
  template <typename V> static Node *go(V &v, std::string const &k, Vec const &a, int how, Vec &peek)
  {
    if (k == "dom")
    {
      peek = how ? read_elems(cview(v).get(dom(a, 0))) : read_elems(cview(v)(dom(a, 0)));
      return mk<typename V::subview_type, depth - 1>(v(dom(a, 0)));
    }
    return Comp<IsC<typename V::value_type>::value>::template go<depth>(v, k, peek);
  }
};
template <int depth> struct Subs<2, depth>
{
  template <typename V> static Node *go(V &v, std::string const &k, Vec const &a, int how, Vec &peek)
  {
    if (k == "dom")
    {
      Domain<2> d(dom(a, 0), dom(a, 3));
      peek = how ? read_elems(cview(v).get(d)) : read_elems(cview(v)(d));
      return mk<typename V::subview_type, depth - 1>(v(d));
    }
    if (k == "row")
    {
      peek = how ? read_elems(cview(v).row(a[0])) : read_elems(cview(v)(a[0], whole_domain));
      if (how) return mk<typename V::row_type, depth - 1>(v.row(a[0]));
      return mk<typename V::row_type, depth - 1>(v(a[0], whole_domain));
    }
    if (k == "col")
    {
      peek = how ? read_elems(cview(v).col(a[0])) : read_elems(cview(v)(whole_domain, a[0]));
      if (how) return mk<typename V::col_type, depth - 1>(v.col(a[0]));
      return mk<typename V::col_type, depth - 1>(v(whole_domain, a[0]));
    }
    if (k == "diag")
    {
      peek = read_elems(cview(v).diag(a[0]));
      return mk<typename V::diag_type, depth - 1>(v.diag(a[0]));
    }
    if (k == "trans")
    {
      peek = read_elems(cview(v).transpose());
      return mk<typename V::transpose_type, depth - 1>(v.transpose());
    }
    return Comp<IsC<typename V::value_type>::value>::template go<depth>(v, k, peek);
  }
};
template <int depth> struct Subs<3, depth>
{
  template <typename V> static Node *go(V &v, std::string const &k, Vec const &a, int how, Vec &peek)
  {
    int const dd = depth - 1;
    if (k == "dom")
    {
      Domain<3> d(dom(a, 0), dom(a, 3), dom(a, 6));
      peek = how ? read_elems(cview(v).get(d)) : read_elems(cview(v)(d));
      return mk<typename V::subview_type, dd>(v(d));
    }
    whole_domain_type const w = whole_domain;
    if (k == "slice" && a[0] == 1) { peek = read_elems(cview(v)(a[1], w, w)); return mk<typename V::template submatrix<0>::type, dd>(v(a[1], w, w));}
    if (k == "slice" && a[0] == 2) { peek = read_elems(cview(v)(w, a[1], w)); return mk<typename V::template submatrix<1>::type, dd>(v(w, a[1], w));}
    if (k == "slice" && a[0] == 3) { peek = read_elems(cview(v)(w, w, a[1])); return mk<typename V::template submatrix<2>::type, dd>(v(w, w, a[1]));}
    if (k == "slicesub" && a[0] == 1)
    { peek = read_elems(cview(v)(a[1], dom(a, 2), dom(a, 5))); return mk<typename V::template submatrix<0>::subset_type, dd>(v(a[1], dom(a, 2), dom(a, 5)));}
    if (k == "slicesub" && a[0] == 2)
    { peek = read_elems(cview(v)(dom(a, 2), a[1], dom(a, 5))); return mk<typename V::template submatrix<1>::subset_type, dd>(v(dom(a, 2), a[1], dom(a, 5)));}
    if (k == "slicesub" && a[0] == 3)
    { peek = read_elems(cview(v)(dom(a, 2), dom(a, 5), a[1])); return mk<typename V::template submatrix<2>::subset_type, dd>(v(dom(a, 2), dom(a, 5), a[1]));}
    // slice2: the two fixed dimensions and their indices
    if (k == "slice2" && a[0] == 2) { peek = read_elems(cview(v)(w, a[1], a[3])); return mk<typename V::template subvector<1,2>::type, dd>(v(w, a[1], a[3]));}
    if (k == "slice2" && a[2] == 3) { peek = read_elems(cview(v)(a[1], w, a[3])); return mk<typename V::template subvector<0,2>::type, dd>(v(a[1], w, a[3]));}
    if (k == "slice2") { peek = read_elems(cview(v)(a[1], a[3], w)); return mk<typename V::template subvector<0,1>::type, dd>(v(a[1], a[3], w));}
    if (k == "slice2sub" && a[0] == 2)
    { peek = read_elems(cview(v)(dom(a, 4), a[1], a[3])); return mk<typename V::template subvector<1,2>::subset_type, dd>(v(dom(a, 4), a[1], a[3]));}
    if (k == "slice2sub" && a[2] == 3)
    { peek = read_elems(cview(v)(a[1], dom(a, 4), a[3])); return mk<typename V::template subvector<0,2>::subset_type, dd>(v(a[1], dom(a, 4), a[3]));}
    if (k == "slice2sub")
    { peek = read_elems(cview(v)(a[1], a[3], dom(a, 4))); return mk<typename V::template subvector<0,1>::subset_type, dd>(v(a[1], a[3], dom(a, 4)));}
#define PERM(x, y, z) if (k == "perm" && a[0] == x && a[1] == y) \
    { peek = read_elems(v.template transpose<x,y,z>()); return mk<typename V::template transpose_view<x,y,z>::type, dd>(v.template transpose<x,y,z>());}
    PERM(0,1,2) PERM(0,2,1) PERM(1,0,2) PERM(1,2,0) PERM(2,0,1) PERM(2,1,0)
    return Comp<IsC<typename V::value_type>::value>::template go<depth>(v, k, peek);
  }
};

template <typename V, int depth> struct NodeV : Node
{
  typedef typename V::value_type T;
  static dimension_type const D = V::dim;
  V v;
  NodeV(V const &x) : v(x) {}
  Vec dims() { Vec r; for (dimension_type k = 0; k < D; ++k) r.push_back(v.size(k)); return r;}
  int nc() { return Enc<T>::n;}
  Vec read(int how)
  {
    if (how == 0) return read_elems(v);
    auto d = Acc<D>::template dense<T>(dims());
    if (how == 1) d = v;
    else d = v + T(0);
    return read_elems(d);
  }
  void put(int how, ll p, Vec const &x)
  {
    ll i[3];
    idx(p, i);
    if (how == 0) Acc<D>::put(v, i, Enc<T>::get(&x[0]));
    else RefPut<RefOk<typename V::reference_type, D>::value>::template go<D>(v, i, Enc<T>::get(&x[0]));
  }
  void fill(Vec const &x) { v = Enc<T>::get(&x[0]);}
  void assign(int how, Vec const &x)
  {
    auto d = Acc<D>::template dense<T>(dims());
    ll i[3];
    for (ll p = 0; p < n(); ++p) { idx(p, i); Acc<D>::put(d, i, Enc<T>::get(&x[p * Enc<T>::n]));}
    if (how == 0) v = d;
    else v = T(1) * d;
  }
  Node *sub(std::string const &k, Vec const &a, int how, Vec &peek)
  { return Subs<D, depth>::go(v, k, a, how, peek);}
};

template <typename V, int depth> Node *mk(V v) { return new NodeV<V, depth>(v);}

typedef std::function<Node*(Vec const &)> Fac;
typedef std::map<std::string, Fac> Reg;
template <typename B> struct MkB1 { static Node *go(Vec const &d, int); };
template <typename B, int depth> Node *mk1(Vec const &d) { typedef Vector<typename B::value_type, B> V; return mk<V, depth>(V(d[0]));}
template <typename B, int depth> Node *mk2(Vec const &d) { typedef Matrix<typename B::value_type, B> V; return mk<V, depth>(V(d[0], d[1]));}
template <typename B, int depth> Node *mk3(Vec const &d) { typedef Tensor<typename B::value_type, B> V; return mk<V, depth>(V(d[0], d[1], d[2]));}
typedef std::complex<float> cf;
typedef std::complex<double> cd;
using ovxx::Strided;
