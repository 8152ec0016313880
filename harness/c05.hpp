// C05: placement queries of maps and of the blocks they distribute.
#ifndef c05_hpp_
#define c05_hpp_
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <functional>
#include <map>
using namespace vsip;
using namespace vh;

struct Arg { Vec ext, n, c, pset, n2, c2, pset2, sub; bool dflt; std::string kind;};
typedef void (*Fn)(Arg const &, Out &);
std::map<std::string, Fn> &table();

template <dimension_type D> struct G;
template <> struct G<1>
{
  template <typename T, typename B> struct view { typedef Vector<T, B> type;};
  static Domain<1> dom(Vec const &d) { return Domain<1>(d[0]);}
  static Domain<1> sub(Vec const &d) { return Domain<1>(d[0], d[1], d[2]);}
  static Index<1> idx(Vec const &v) { return Index<1>(v[0]);}
  template <typename V> static ll lsize(V const &v, int) { return v.size();}
};
template <> struct G<2>
{
  template <typename T, typename B> struct view { typedef Matrix<T, B> type;};
  static Domain<2> dom(Vec const &d) { return Domain<2>(d[0], d[1]);}
  static Domain<2> sub(Vec const &d) { return Domain<2>(Domain<1>(d[0], d[1], d[2]), Domain<1>(d[3], d[4], d[5]));}
  static Index<2> idx(Vec const &v) { return Index<2>(v[0], v[1]);}
};
template <> struct G<3>
{
  template <typename T, typename B> struct view { typedef Tensor<T, B> type;};
  static Domain<3> dom(Vec const &d) { return Domain<3>(d[0], d[1], d[2]);}
  static Domain<3> sub(Vec const &d) { return Domain<3>(Domain<1>(d[0], d[1], d[2]), Domain<1>(d[3], d[4], d[5]), Domain<1>(d[6], d[7], d[8]));}
  static Index<3> idx(Vec const &v) { return Index<3>(v[0], v[1], v[2]);}
};
template <dimension_type D> void flat(Vec &r, Domain<D> const &d)
{ for (dimension_type i = 0; i < D; ++i) { r.push_back((long)d[i].first()); r.push_back(d[i].stride()); r.push_back((long)d[i].length());}}
template <dimension_type D> Vec iv(Index<D> const &i) { Vec r; for (dimension_type d = 0; d < D; ++d) r.push_back((ll)(long)i[d]); return r;}
inline ll sbn(index_type s) { return s == no_subblock ? -1 : (ll)s;}
inline int kindc(distribution_type d) { return d == vsip::block ? 0 : d == cyclic ? 1 : d == whole ? 2 : 3;}

template <typename D> struct MkD;
template <> struct MkD<Block_dist> { static Block_dist mk(ll n, ll) { return Block_dist(n);}};
template <> struct MkD<Cyclic_dist> { static Cyclic_dist mk(ll n, ll c) { return c == 1 && n % 2 ? Cyclic_dist(n) : Cyclic_dist(n, c);}};
template <> struct MkD<Whole_dist> { static Whole_dist mk(ll, ll) { return Whole_dist();}};

inline Vector<processor_type> pvec(Vec const &p)
{
  Vector<processor_type> v(p.size());
  for (size_t i = 0; i < p.size(); ++i) v.put(i, (processor_type)p[i]);
  return v;
}
template <typename M> struct MkM;
template <typename A, typename B, typename C> struct MkM<Map<A, B, C> >
{
  static Map<A, B, C> mk(Vec const &n, Vec const &c, Vec const &p, bool)
  { return Map<A, B, C>(pvec(p), MkD<A>::mk(n[0], c[0]), MkD<B>::mk(n[1], c[1]), MkD<C>::mk(n[2], c[2]));}
  static bool eq(Map<A, B, C> const &a, Map<A, B, C> const &b) { return a == b;}
};
template <dimension_type D> struct MkM<Replicated_map<D> >
{
  static Replicated_map<D> mk(Vec const &, Vec const &, Vec const &p, bool dflt)
  { return dflt ? Replicated_map<D>() : Replicated_map<D>(pvec(p));}
  static bool eq(Replicated_map<D> const &a, Replicated_map<D> const &b) { return ovxx::parallel::is_same_map<D>(a, b);}
};

template <typename V> void subquery(V const &v, Out &out, Arg const &a, bool mine_only)
{
  dimension_type const D = V::dim;
  (void)mine_only;
  std::vector<Vec> g, l; Vec own;
  for (index_type s = 0; s < num_subblocks(v); ++s)
    for (index_type p = 0; p < num_patches(v, s); ++p)
    {
      Vec x, y; flat<D>(x, global_domain(v, s, p)); flat<D>(y, local_domain(v, s, p));
      g.push_back(x); l.push_back(y); own.push_back(*v.block().map().processor_begin(s));
    }
  out(Ev("subset").v("sub", a.sub).vv("g", g).vv("l", l).v("own", own));
}
template <typename T, typename B, dimension_type D> struct Subq { template <typename V> static void f(V &, Arg const &, Out &) {}};
template <typename T, dimension_type D, typename O, typename A, typename B, typename C>
struct Subq<T, Dense<D, T, O, Map<A, B, C> >, D>
{
  static bool const blocky = !ovxx::is_same<A, Cyclic_dist>::value && !ovxx::is_same<B, Cyclic_dist>::value && !ovxx::is_same<C, Cyclic_dist>::value;
  typedef typename G<D>::template view<T, Dense<D, T, O, Map<A, B, C> > >::type V;
  static void f(V &v, Arg const &a, Out &out)
  {
    if (blocky && a.sub.size()) { typename V::subview_type s = v(G<D>::sub(a.sub)); subquery(s, out, a, false);}
  }
};

template <dimension_type D, typename M> void run(Arg const &a, Out &out)
{
  typedef Dense<D, float, typename ovxx::row_major<D>::type, M> Bk;
  typedef typename G<D>::template view<float, Bk>::type V;
  M m0 = MkM<M>::mk(a.n, a.c, a.pset, a.dflt);
  M m(m0);
  Vec nd, cd, dd, ps;
  for (dimension_type d = 0; d < D; ++d) { nd.push_back(m.num_subblocks(d)); cd.push_back(m.cyclic_contiguity(d)); dd.push_back(kindc(m.distribution(d)));}
  for (index_type i = 0; i < m.num_processors(); ++i) ps.push_back(m.processor_set().get(i));
  Ev b("begin");
  b.s("kind", a.kind).v("ext", a.ext).v("n", a.n).v("c", a.c).v("pset", a.pset).i("me", local_processor());
  out(b);
  out(Ev("map").i("nsub", m.num_subblocks()).v("nd", nd).v("cd", cd).v("dd", dd).i("np", m.num_processors()).v("ps", ps));
  if (a.n2.size())
  {
    M m2 = MkM<M>::mk(a.n2, a.c2, a.pset2, false);
    out(Ev("same").v("n", a.n2).v("c", a.c2).v("pset", a.pset2)
        .b("same", ovxx::parallel::is_same_map<D>(m, m2)).b("sym", ovxx::parallel::is_same_map<D>(m2, m)).b("eq", MkM<M>::eq(m, m2))
        .b("self", ovxx::parallel::is_same_map<D>(m, m0)));
    m = m2; m = m0;   // assignment restores the map
  }
  V v(*new Bk(G<D>::dom(a.ext), m));
  v.block().decrement_count();
  for (index_type s = 0; s < num_subblocks(v); ++s)
  {
    Vec sd; flat<D>(sd, subblock_domain(v, s));
    Vec pr;
    for (typename M::processor_iterator i = v.block().map().processor_begin(s); i != v.block().map().processor_end(s); ++i)
    { pr.push_back(*i); if (pr.size() > 40) break;}
    std::vector<Vec> g, l;
    for (index_type p = 0; p < num_patches(v, s); ++p)
    { Vec x, y; flat<D>(x, global_domain(v, s, p)); flat<D>(y, local_domain(v, s, p)); g.push_back(x); l.push_back(y);}
    out(Ev("sub").i("sb", s).v("dom", sd).i("np", num_patches(v, s)).v("procs", pr).vv("g", g).vv("l", l));
  }
  ll tot = 1; for (dimension_type d = 0; d < D; ++d) tot *= a.ext[d];
  for (ll q = 0; q < tot; ++q)
  {
    Vec i(D); ll r = q;
    for (int d = D - 1; d >= 0; --d) { i[d] = r % a.ext[d]; r /= a.ext[d];}
    Index<D> x = G<D>::idx(i);
    index_type sb = subblock_from_global_index(v, x);
    Index<D> lo = local_from_global_index(v, x);
    Vec lo2, back2;
    for (dimension_type d = 0; d < D; ++d)
    {
      lo2.push_back((ll)local_from_global_index(v, d, x[d]));
      back2.push_back((ll)global_from_local_index(v, d, sb, lo[d]));
    }
    Ev e("idx");
    e.v("i", i).i("sb", sb).i("p", patch_from_global_index(v, x)).v("lo", iv<D>(lo)).v("lo2", lo2)
      .v("back", iv<D>(global_from_local_index(v, sb, lo))).v("back2", back2);
    out(e);
  }
  Vec held;
  for (processor_type p = 0; p < 12; ++p) held.push_back(sbn(subblock(v, p)));
  index_type mine = subblock(v);
  Vec ld; if (mine != no_subblock) { flat<D>(ld, subblock_domain(v));}
  typename V::local_type loc = v.local();
  Vec le; for (dimension_type d = 0; d < D; ++d) le.push_back((ll)loc.block().size(D, d));
  out(Ev("held").v("sb", held).i("mine", sbn(mine)).v("dom", ld).v("ext", le));
  Subq<float, Bk, D>::f(v, a, out);
}
#endif
