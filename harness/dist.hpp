// C06, C07: SPMD programs over distributed views.
#ifndef dist_hpp_
#define dist_hpp_
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/dense.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include <map>
using namespace vsip;
using namespace vh;

// value <-> element
template <typename T> struct Cv { static T to(ll v) { return T(v);} static ll from(T v) { return enc_real((double)v);}};
template <typename T> struct Cv<std::complex<T> >
{
  static std::complex<T> to(ll v) { return std::complex<T>(T(v), T(7 - 2 * v));}
  static ll from(std::complex<T> v) { ll r = enc_real(v.real()); return enc_real(v.imag()) == 7 - 2 * r ? r : NONINT;}
};
template <> struct Cv<bool> { static bool to(ll v) { return v & 1;} static ll from(bool v) { return v;}};

template <dimension_type D, typename T, typename B> struct ViewOf;
template <typename T, typename B> struct ViewOf<1, T, B> { typedef Vector<T, B> type;};
template <typename T, typename B> struct ViewOf<2, T, B> { typedef Matrix<T, B> type;};
template <typename T, typename B> struct ViewOf<3, T, B> { typedef Tensor<T, B> type;};

struct Obj
{
  Vec ext;
  virtual ~Obj() {}
  virtual void dump(Vec &) = 0;
  virtual void fill(ll base, ll step) = 0;
};
inline Vector<processor_type> pvec(Vec const &p)
{
  Vector<processor_type> v(p.size());
  for (size_t i = 0; i < p.size(); ++i) v.put(i, (processor_type)p[i]);
  return v;
}
template <typename D> struct MkD;
template <> struct MkD<Block_dist> { static Block_dist mk(ll n, ll) { return Block_dist(n);}};
template <> struct MkD<Cyclic_dist> { static Cyclic_dist mk(ll n, ll c) { return Cyclic_dist(n, c);}};
template <> struct MkD<Whole_dist> { static Whole_dist mk(ll, ll) { return Whole_dist();}};
template <typename M> struct MkM;
template <typename A, typename B, typename C> struct MkM<Map<A, B, C> >
{
  static Map<A, B, C> mk(Vec const &n, Vec const &c, Vec const &p)
  { return Map<A, B, C>(pvec(p), MkD<A>::mk(n[0], c[0]), MkD<B>::mk(n[1], c[1]), MkD<C>::mk(n[2], c[2]));}
};
template <> struct MkM<Local_map>
{ static Local_map mk(Vec const &, Vec const &, Vec const &) { return Local_map();}};
template <dimension_type D> struct MkM<Replicated_map<D> >
{ static Replicated_map<D> mk(Vec const &, Vec const &, Vec const &p) { return Replicated_map<D>(pvec(p));}};

template <dimension_type D> struct G;
template <> struct G<1>
{
  template <typename V, typename M> static V mk(Vec const &e, M const &m) { return V(e[0], m);}
  static Domain<1> dom(Vec const &d) { return Domain<1>(d[0], d[1], d[2]);}
  template <typename V> static void each(V const &v, Vec &o) { typedef Cv<typename V::value_type> C; for (index_type i = 0; i < v.size(); ++i) o.push_back(C::from(v.get(i)));}
  template <typename V> static void fill(V v, Vec const &e, ll b, ll s)
  {
    typedef Cv<typename V::value_type> C; typename V::local_type l = v.local(); (void)e;
    for (index_type i = 0; i < l.size(); ++i) l.put(i, C::to(b + s * global_from_local_index(v, 0, i)));
  }
  template <typename V> static typename V::value_type get(V const &v, Vec const &i) { return v.get(i[0]);}
  template <typename V> static void put(V &v, Vec const &i, typename V::value_type x) { v.put(i[0], x);}
};
template <> struct G<2>
{
  template <typename V, typename M> static V mk(Vec const &e, M const &m) { return V(e[0], e[1], m);}
  static Domain<2> dom(Vec const &d) { return Domain<2>(Domain<1>(d[0], d[1], d[2]), Domain<1>(d[3], d[4], d[5]));}
  template <typename V> static void each(V const &v, Vec &o)
  {
    typedef Cv<typename V::value_type> C;
    for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) o.push_back(C::from(v.get(i, j)));
  }
  template <typename V> static void fill(V v, Vec const &e, ll b, ll s)
  {
    typedef Cv<typename V::value_type> C; typename V::local_type l = v.local();
    for (index_type i = 0; i < l.size(0); ++i) for (index_type j = 0; j < l.size(1); ++j)
      l.put(i, j, C::to(b + s * (ll)(global_from_local_index(v, 0, i) * e[1] + global_from_local_index(v, 1, j))));
  }
  template <typename V> static typename V::value_type get(V const &v, Vec const &i) { return v.get(i[0], i[1]);}
  template <typename V> static void put(V &v, Vec const &i, typename V::value_type x) { v.put(i[0], i[1], x);}
};
template <> struct G<3>
{
  template <typename V, typename M> static V mk(Vec const &e, M const &m) { return V(e[0], e[1], e[2], m);}
  static Domain<3> dom(Vec const &d) { return Domain<3>(Domain<1>(d[0], d[1], d[2]), Domain<1>(d[3], d[4], d[5]), Domain<1>(d[6], d[7], d[8]));}
  template <typename V> static void each(V const &v, Vec &o)
  {
    typedef Cv<typename V::value_type> C;
    for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) o.push_back(C::from(v.get(i, j, k)));
  }
  template <typename V> static void fill(V v, Vec const &e, ll b, ll s)
  {
    typedef Cv<typename V::value_type> C; typename V::local_type l = v.local();
    for (index_type i = 0; i < l.size(0); ++i) for (index_type j = 0; j < l.size(1); ++j) for (index_type k = 0; k < l.size(2); ++k)
      l.put(i, j, k, C::to(b + s * (ll)((global_from_local_index(v, 0, i) * e[1] + global_from_local_index(v, 1, j)) * e[2] + global_from_local_index(v, 2, k))));
  }
  template <typename V> static typename V::value_type get(V const &v, Vec const &i) { return v.get(i[0], i[1], i[2]);}
  template <typename V> static void put(V &v, Vec const &i, typename V::value_type x) { v.put(i[0], i[1], i[2], x);}
};

template <dimension_type D, typename T, typename O, typename M> struct Kind
{
  static dimension_type const dim = D;
  typedef T value_type;
  typedef M map_type;
  typedef Dense<D, T, O, M> block_type;
  typedef typename ViewOf<D, T, block_type>::type view_type;
};
template <typename K> struct ObjT : Obj
{
  typename K::view_type v;
  ObjT(Vec const &e, typename K::map_type const &m) : v(G<K::dim>::template mk<typename K::view_type>(e, m)) { ext = e;}
  void fill(ll b, ll s) { if (subblock(v) != no_subblock) G<K::dim>::fill(v, ext, b, s);}
  void dump(Vec &o) { if (subblock(v) != no_subblock) G<K::dim>::each(v.local(), o);}
};
template <typename K> Obj *mk_obj(Vec const &e, Vec const &n, Vec const &c, Vec const &p)
{ return new ObjT<K>(e, MkM<typename K::map_type>::mk(n, c, p));}

// selections
template <typename V> struct Fw { typedef V type; static type sel(V v, Vec const &) { return v;}};
template <typename V> struct Fs { typedef typename V::subview_type type; static type sel(V v, Vec const &d) { return v(G<V::dim>::dom(d));}};
template <typename V> struct Ft { typedef typename V::transpose_type type; static type sel(V v, Vec const &) { return v.transpose();}};
template <typename V> struct Fr { typedef typename V::row_type type; static type sel(V v, Vec const &d) { return v.row(d[0]);}};
template <typename V> struct Fc { typedef typename V::col_type type; static type sel(V v, Vec const &d) { return v.col(d[0]);}};
template <typename V> struct Fd { typedef typename V::diag_type type; static type sel(V v, Vec const &d) { return v.diag(d[0]);}};
#define F3S(f, tp, ...) template <typename V> struct F##f { typedef typename V::template tp::type type; static type sel(V v, Vec const &d) { whole_domain_type w = whole_domain; (void)w; return v(__VA_ARGS__);}};
#define COMMA_ ,
F3S(x, submatrix<0>, d[0], w, w) F3S(y, submatrix<1>, w, d[0], w) F3S(z, submatrix<2>, w, w, d[0])
F3S(p, subvector<0 COMMA_ 1>, d[0], d[1], w) F3S(q, subvector<0 COMMA_ 2>, d[0], w, d[1]) F3S(u, subvector<1 COMMA_ 2>, w, d[0], d[1])

typedef Obj *(*MkFn)(Vec const &, Vec const &, Vec const &, Vec const &);
typedef void (*AsgFn)(Obj &, Vec const &, Obj &, Vec const &);
// operation on the view (form, argument dd) of d; x: further arguments; operands o with arguments od; r: result
typedef void (*OpFn)(Obj &d, Vec const &dd, Vec const &x, std::vector<Obj *> const &o, std::vector<Vec> const &od, Vec &r);
std::map<std::string, MkFn> &makers();
std::map<std::string, AsgFn> &assigns();
std::map<std::string, OpFn> &ops();
typedef void (*CommFn)(Vec const &x, Vec &r);
std::map<std::string, CommFn> &comms();

template <typename KD, template <typename> class FD, typename KS, template <typename> class FS>
void asg(Obj &d, Vec const &dd, Obj &s, Vec const &sd)
{
  typedef typename KD::view_type VD; typedef typename KS::view_type VS;
  typename FD<VD>::type l = FD<VD>::sel(static_cast<ObjT<KD> &>(d).v, dd);
  l = FS<VS>::sel(static_cast<ObjT<KS> &>(s).v, sd);
}

// kinds by name: <map letters><order letter>
#define DKINDS1(T) typedef Kind<1, T, row1_type, Map<> > K_Br; typedef Kind<1, T, row1_type, Map<Cyclic_dist> > K_Cr; \
  typedef Kind<1, T, row1_type, Map<Whole_dist> > K_Wr; typedef Kind<1, T, row1_type, Replicated_map<1> > K_R1r; typedef Kind<1, T, row1_type, Local_map> K_L1r;
#define DKINDS2(T) typedef Kind<2, T, row2_type, Map<> > K_BBr; typedef Kind<2, T, col2_type, Map<> > K_BBc; \
  typedef Kind<2, T, row2_type, Map<Cyclic_dist, Block_dist> > K_CBr; typedef Kind<2, T, col2_type, Map<Block_dist, Cyclic_dist> > K_BCc; \
  typedef Kind<2, T, row2_type, Map<Cyclic_dist, Cyclic_dist> > K_CCr; typedef Kind<2, T, row2_type, Map<Whole_dist, Block_dist> > K_WBr; \
  typedef Kind<2, T, row2_type, Replicated_map<2> > K_R2r; typedef Kind<2, T, col2_type, Replicated_map<2> > K_R2c; typedef Kind<2, T, col2_type, Local_map> K_L2c;
#define DKINDS3(T) typedef Kind<3, T, row3_type, Map<> > K_BBBr; typedef Kind<3, T, col3_type, Map<> > K_BBBc; \
  typedef Kind<3, T, tuple<1, 2, 0>, Map<Cyclic_dist, Block_dist, Whole_dist> > K_CBWx; typedef Kind<3, T, tuple<2, 0, 1>, Map<> > K_BBBx; \
  typedef Kind<3, T, row3_type, Replicated_map<3> > K_R3r;
#define MK(T, k) makers()[#k ":" T] = &mk_obj<K_##k>;
#define AS(T, kd, fd, ks, fs) assigns()[#kd #fd ":" #ks #fs ":" T] = &asg<K_##kd, F##fd, K_##ks, F##fs>;

#define OPFN(name) template <typename K, template <typename> class F> struct name { typedef typename K::view_type V; typedef typename F<V>::type W; typedef typename K::value_type T; typedef Cv<T> C; \
  static void run_(Obj &d, Vec const &dd, Vec const &x, std::vector<Obj *> const &, std::vector<Vec> const &, Vec &r) { W v = F<V>::sel(static_cast<ObjT<K> &>(d).v, dd); (void)x; (void)r;
#define OPEND }};
#define OP1(T, nm, fn, k, fm) ops()[nm ":" #k #fm ":" T] = &fn<K_##k, F##fm>::run_;
#endif
