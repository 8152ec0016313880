// C01: user-storage blocks. Executes protocol histories and logs what the user can observe.
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/map.hpp>
#include <vsip/dda.hpp>
#include <map>
#include <functional>
using namespace vsip;
using namespace vh;

int const GUARD = 4;
enum { F_NONE = 0, F_ARRAY = 1, F_INTER = 2, F_SPLIT = 3 };
char const *fmt_name(int f) { static char const *n[] = {"none", "array", "interleaved", "split"}; return n[f];}

template <typename T> struct ST { typedef T type; static int const nc = 1;};
template <typename T> struct ST<std::complex<T> > { typedef T type; static int const nc = 2;};

template <dimension_type D> struct Dom;
template <> struct Dom<1> { static Domain<1> mk(Vec const &d) { return Domain<1>(d[0]);}};
template <> struct Dom<2> { static Domain<2> mk(Vec const &d) { return Domain<2>(d[0], d[1]);}};
template <> struct Dom<3> { static Domain<3> mk(Vec const &d) { return Domain<3>(d[0], d[1], d[2]);}};

template <typename B, dimension_type D> struct VT;
template <typename B> struct VT<B, 1> { typedef Vector<typename B::value_type, B> type;
  template <typename T> static void put(type v, ll const *i, T x) { v.put(i[0], x);}
  static typename B::value_type get(type v, ll const *i) { return v.get(i[0]);}
  static void bput(B &b, ll const *i, typename B::value_type x) { b.put(i[0], x);}
  static typename B::value_type bget(B &b, ll const *i) { return b.get(i[0]);} };
template <typename B> struct VT<B, 2> { typedef Matrix<typename B::value_type, B> type;
  template <typename T> static void put(type v, ll const *i, T x) { v.put(i[0], i[1], x);}
  static typename B::value_type get(type v, ll const *i) { return v.get(i[0], i[1]);}
  static void bput(B &b, ll const *i, typename B::value_type x) { b.put(i[0], i[1], x);}
  static typename B::value_type bget(B &b, ll const *i) { return b.get(i[0], i[1]);} };
template <typename B> struct VT<B, 3> { typedef Tensor<typename B::value_type, B> type;
  template <typename T> static void put(type v, ll const *i, T x) { v.put(i[0], i[1], i[2], x);}
  static typename B::value_type get(type v, ll const *i) { return v.get(i[0], i[1], i[2]);}
  static void bput(B &b, ll const *i, typename B::value_type x) { b.put(i[0], i[1], i[2], x);}
  static typename B::value_type bget(B &b, ll const *i) { return b.get(i[0], i[1], i[2]);} };

struct Ptrs { void *p[2]; int n; };

// format-dependent calls; real blocks only know the array format
template <typename T> struct U
{
  typedef T S;
  template <typename B, typename D> static B *make(D const &d, int f, std::vector<S*> p)
  { if (f == F_NONE) return new B(d); return new B(d, p[0]);}
  template <typename B, typename D> static B *make_val(D const &d, T v) { return new B(d, v);}
  template <typename B> static Ptrs release(B &b, int, bool u, int)
  { T *p = (T*)1; b.release(u, p); Ptrs r = {{p, 0}, 1}; return r;}
  template <typename B> static Ptrs find(B &b, int, int)
  { T *p = (T*)1; b.find(p); Ptrs r = {{p, 0}, 1}; return r;}
  template <typename B> static void rebind(B &b, int, std::vector<S*> p, int) { b.rebind(p[0]);}
  template <typename B, typename D> static void rebind(B &b, int, std::vector<S*> p, int, D const &d) { b.rebind(p[0], d);}
};
template <typename T> struct U<std::complex<T> >
{
  typedef T S; typedef std::complex<T> C;
  template <typename B, typename D> static B *make(D const &d, int f, std::vector<S*> p)
  {
    switch (f)
    {
      case F_NONE: return new B(d);
      case F_ARRAY: return new B(d, (C*)p[0]);
      case F_INTER: return new B(d, p[0]);
      default: return new B(d, p[0], p[1]);
    }
  }
  template <typename B, typename D> static B *make_val(D const &d, C v) { return new B(d, v);}
  template <typename B> static Ptrs release(B &b, int f, bool u, int alt)
  {
    Ptrs r = {{0, 0}, 1};
    if (f == F_INTER || (f == F_NONE && alt == 1)) { T *p = (T*)1; b.release(u, p); r.p[0] = p;}
    else if (f == F_SPLIT || (f == F_NONE && alt == 2))
    {
      T *p = (T*)1, *q = (T*)1;
      b.release(u, p, q);
      r.p[0] = p; r.p[1] = q; r.n = 2;
    }
    else { C *p = (C*)1; b.release(u, p); r.p[0] = p;}
    return r;
  }
  template <typename B> static Ptrs find(B &b, int f, int alt)
  {
    Ptrs r = {{0, 0}, 1};
    if (f == F_INTER || (f == F_NONE && alt == 1)) { T *p = (T*)1; b.find(p); r.p[0] = p;}
    else if (f == F_SPLIT || (f == F_NONE && alt == 2))
    { T *p = (T*)1, *q = (T*)1; b.find(p, q); r.p[0] = p; r.p[1] = q; r.n = 2;}
    else { C *p = (C*)1; b.find(p); r.p[0] = p;}
    return r;
  }
  template <typename B> static void rebind(B &b, int f, std::vector<S*> p, int)
  {
    if (f == F_ARRAY) b.rebind((C*)p[0]);
    else if (f == F_INTER) b.rebind(p[0]);
    else b.rebind(p[0], p[1]);
  }
  template <typename B, typename D> static void rebind(B &b, int f, std::vector<S*> p, int alt, D const &d)
  {
    if (f == F_ARRAY) b.rebind((C*)p[0], d);
    else if (f == F_INTER) b.rebind(p[0], d);
    else if (alt) b.rebind(std::make_pair(p[0], p[1]), d);
    else b.rebind(p[0], p[1], d);
  }
};

struct Scen
{
  virtual ~Scen() {}
  virtual void line(Line &l, Out &out) = 0;
};

// Layout queries of local and distributed blocks
template <typename B> struct Loc { static B &get(B &b) { return b;} static bool const dist = false;};
template <dimension_type D, typename T, typename O> struct Loc<Dense<D, T, O, Map<> > >
{
  typedef Dense<D, T, O, Map<> > B;
  static typename B::local_block_type &get(B &b) { return get_local_block(b);}
  static bool const dist = true;
};
template <bool dist> struct RebindDom
{
  template <typename T, typename B, typename P, typename Dm>
  static void go(B &b, int f, P p, int alt, Dm const &d) { U<T>::rebind(b, f, p, alt, d);}
};
template <> struct RebindDom<true>
{
  template <typename T, typename B, typename P, typename Dm>
  static void go(B &, int, P, int, Dm const &) { die("rebind with domain: distributed");}
};

// interleaved-complex multi-dimensional blocks do not support mixed-format view assignment (compile time)
// (Loc<B>::dist: local and global views do not mix)
template <typename B, bool ok = get_block_layout<B>::storage_format != interleaved_complex && !Loc<B>::dist> struct VAssign
{
  template <typename W, typename S> static bool set(W w, S s) { w = s; return true;}
  template <typename W, typename S> static bool set_expr(W w, S s) { w = s + s - s; return true;}
};
template <typename B> struct VAssign<B, false>
{
  template <typename W, typename S> static bool set(W, S) { return false;}
  template <typename W, typename S> static bool set_expr(W, S) { return false;}
};

template <typename B, dimension_type D>
struct SB : Scen
{
  typedef typename B::value_type T;
  typedef typename ST<T>::type S;
  static int const nc = ST<T>::nc;
  typedef VT<B, D> V;
  typedef typename V::type view_type;

  std::vector<std::vector<S> > arr;
  std::vector<Vec> last;
  std::unique_ptr<B> b;
  int fmt;
  Vec dims;

  ~SB() {}
  std::vector<Vec> snap()
  {
    std::vector<Vec> r;
    for (size_t a = 0; a < arr.size(); ++a)
    { Vec v; for (size_t k = 0; k < arr[a].size(); ++k) v.push_back(enc_real(arr[a][k])); r.push_back(v);}
    return r;
  }
  std::vector<Vec> chg()
  {
    std::vector<Vec> now = snap(), r;
    for (size_t a = 0; a < now.size(); ++a)
      for (size_t k = 0; k < now[a].size(); ++k)
        if (now[a][k] != last[a][k]) { Vec c; c.push_back(a + 1); c.push_back(k + 1); c.push_back(now[a][k]); r.push_back(c);}
    last = now;
    return r;
  }
  S *ptr(ll id) { return &arr[id - 1][GUARD];}
  ll id(void *p)
  {
    if (!p) return 0;
    for (size_t a = 0; a < arr.size(); ++a) if ((void*)&arr[a][GUARD] == p) return a + 1;
    return -1;
  }
  Vec ids(Ptrs const &p) { Vec r; for (int k = 0; k < p.n; ++k) r.push_back(id(p.p[k])); return r;}
  void layout(Ev &e)
  {
    Vec st; ll total = 1;
    for (dimension_type d = 0; d < D; ++d)
    {
      ll s = Loc<B>::get(*b).stride(D, d);
      st.push_back(s);
      if (s * dims[d] > total) total = s * dims[d];
    }
    e.v("dims", dims).v("strides", st).i("nc", nc).i("total", total);
  }
  std::string ufmt()
  {
    switch (b->user_storage())
    {
      case no_user_format: return "none";
      case array_format: return "array";
      case interleaved_format: return "interleaved";
      case split_format: return "split";
      default: return "?";
    }
  }
  ll n() const { ll r = 1; for (size_t k = 0; k < dims.size(); ++k) r *= dims[k]; return r;}
  void idx(ll p, ll *i) const { for (int d = (int)D - 1; d >= 0; --d) { i[d] = p % dims[d]; p /= dims[d];}}

  // begin kind ufmt narr cap dims... nids ids... hasinit [init...]
  void begin(Line &l, Out &out)
  {
    fmt = (int)l.i();
    ll narr = l.i(), cap = l.i();
    dims.clear();
    for (dimension_type d = 0; d < D; ++d) dims.push_back(l.i());
    Vec bid = l.v();
    bool hasinit = l.i() != 0;
    Vec init;
    if (hasinit) for (int c = 0; c < nc; ++c) init.push_back(l.i());
    arr.assign(narr, std::vector<S>(cap + 2 * GUARD));
    for (ll a = 0; a < narr; ++a)
      for (size_t k = 0; k < arr[a].size(); ++k) arr[a][k] = S((a + 1) * 1000 + k);
    last = snap();
    std::vector<S*> p;
    for (size_t k = 0; k < bid.size(); ++k) p.push_back(ptr(bid[k]));
    Domain<D> dom = Dom<D>::mk(dims);
    if (hasinit) b.reset(U<T>::template make_val<B>(dom, Enc<T>::get(&init[0])));
    else b.reset(U<T>::template make<B>(dom, fmt, p));
    Ev e("begin");
    layout(e);
    out(e.s("fmt", fmt_name(fmt)).v("ids", bid).b("adm", b->admitted()).s("ufmt", ufmt()).v("init", init).vv("mem", last));
  }
  void line(Line &l, Out &out)
  {
    ll i[3];
    if (l.op == "begin") begin(l, out);
    else if (l.op == "admit")
    {
      bool u = l.i();
      if (u && l.more()) b->admit(); else b->admit(u);
      out(Ev("admit").b("upd", u).b("adm", b->admitted()).s("ufmt", ufmt()).vv("chg", chg()));
    }
    else if (l.op == "release")
    {
      bool u = l.i(); int how = (int)l.i();
      Vec r;
      if (how == 0) b->release(u);
      else r = ids(U<T>::release(*b, fmt, u, how - 1));
      out(Ev("release").b("upd", u).b("adm", b->admitted()).s("ufmt", ufmt()).v("ids", r).vv("chg", chg()));
    }
    else if (l.op == "find")
    {
      int how = (int)l.i();
      Vec r = ids(U<T>::find(*b, fmt, how));
      out(Ev("find").v("ids", r).vv("chg", chg()));
    }
    else if (l.op == "put")
    {
      int how = (int)l.i(); ll p = l.i(); Vec v;
      for (int c = 0; c < nc; ++c) v.push_back(l.i());
      idx(p, i);
      T x = Enc<T>::get(&v[0]);
      if (how == 0) V::bput(*b, i, x);
      else { view_type w(*b); V::put(w, i, x);}
      out(Ev("put").i("p", p).v("v", v).vv("chg", chg()));
    }
    else if (l.op == "assign")
    {
      // how: 0 scalar fill, 1 view assignment from a row-major block, 2 direct data access, 3 elementwise expression
      int how = (int)l.i(); Vec v;
      for (int c = 0; c < nc * (how == 0 ? 1 : n()); ++c) v.push_back(l.i());
      view_type w(*b);
      if (how == 0)
      {
        w = Enc<T>::get(&v[0]);
        Vec f; for (ll k = 0; k < n(); ++k) for (int c = 0; c < nc; ++c) f.push_back(v[c]);
        v = f;
      }
      else
      {
        typedef Dense<D, T> SBlk;
        SBlk sb(Dom<D>::mk(dims));
        for (ll p = 0; p < n(); ++p) { idx(p, i); VT<SBlk, D>::bput(sb, i, Enc<T>::get(&v[nc * p]));}
        typename VT<SBlk, D>::type sv(sb);
        bool done = true;
        if (how == 1) done = VAssign<B>::set(w, sv);
        else if (how == 2) dda_write(sv);
        else done = VAssign<B>::set_expr(w, sv);
        if (!done)
          for (ll p = 0; p < n(); ++p) { idx(p, i); V::put(w, i, VT<SBlk, D>::get(sv, i));}
      }
      out(Ev("assign").v("v", v).vv("chg", chg()));
    }
    else if (l.op == "read")
    {
      int how = (int)l.i(); Vec v;
      view_type w(*b);
      if (how == 2)
      {
        typedef Dense<D, T> SBlk;
        SBlk sb(Dom<D>::mk(dims));
        typename VT<SBlk, D>::type sv(sb);
        bool done = VAssign<B>::set(sv, w);
        for (ll p = 0; p < n(); ++p) { idx(p, i); Enc<T>::put(v, done ? VT<SBlk, D>::bget(sb, i) : V::get(w, i));}
      }
      else
        for (ll p = 0; p < n(); ++p)
        { idx(p, i); Enc<T>::put(v, how == 0 ? V::bget(*b, i) : V::get(w, i));}
      out(Ev("read").v("v", v).vv("chg", chg()));
    }
    else if (l.op == "uwrite")
    {
      ll a = l.i(), pos = l.i(), v = l.i();
      arr[a - 1][GUARD + pos] = S(v);
      out(Ev("uwrite").i("id", a).i("pos", GUARD + pos + 1).i("v", v).vv("chg", chg()));
    }
    else if (l.op == "rebind")
    {
      int f = (int)l.i(), alt = (int)l.i(); Vec bid = l.v(); Vec nd = l.v();
      std::vector<S*> p;
      for (size_t k = 0; k < bid.size(); ++k) p.push_back(ptr(bid[k]));
      fmt = f;
      if (nd.empty()) U<T>::rebind(*b, f, p, alt);
      else { dims = nd; RebindDom<Loc<B>::dist>::template go<T>(*b, f, p, alt, Dom<D>::mk(nd));}
      Ev e("rebind");
      layout(e);
      out(e.s("fmt", fmt_name(f)).v("ids", bid).b("adm", b->admitted()).s("ufmt", ufmt()).vv("chg", chg()));
    }
    else die("unknown op " + l.op);
  }
  template <typename SV> void dda_write(SV sv)
  {
    dda_write_(sv, Loc<B>::get(*b));
  }
  template <typename SV, typename LB> void dda_write_(SV sv, LB &lb)
  {
    vsip::dda::Data<LB, vsip::dda::out, typename LPof::type> data(lb);
    ll i[3];
    for (ll p = 0; p < n(); ++p)
    {
      idx(p, i);
      index_type o = 0;
      for (dimension_type d = 0; d < D; ++d) o += i[d] * data.stride(d);
      data.ptr()[o] = VT<typename SV::block_type, D>::get(sv, i);
    }
  }
  struct LPof { typedef Layout<D, tuple<0, 1, 2>, dense, array> type;};
};

typedef std::function<Scen*()> Fac;
std::map<std::string, Fac> &reg() { static std::map<std::string, Fac> r; return r;}
template <typename B, dimension_type D> void add(char const *n) { reg()[n] = [] { return (Scen*)new SB<B, D>();};}

typedef std::complex<float> cf;
typedef std::complex<double> cd;
using ovxx::Strided;

int main(int argc, char **argv)
{
  vsipl lib(argc, argv);
  add<Dense<1, float>, 1>("d1f");
  add<Dense<1, int>, 1>("d1i");
  add<Dense<1, double>, 1>("d1d");
  add<Dense<1, cf>, 1>("d1c");
  add<Dense<1, cd>, 1>("d1z");
  add<Dense<2, float, row2_type>, 2>("d2fr");
  add<Dense<2, float, col2_type>, 2>("d2fc");
  add<Dense<2, cf, row2_type>, 2>("d2cr");
  add<Dense<2, cf, col2_type>, 2>("d2cc");
  add<Dense<2, cd, col2_type>, 2>("d2zc");
  add<Dense<3, float, tuple<0,1,2> >, 3>("d3f012");
  add<Dense<3, int, tuple<0,2,1> >, 3>("d3i021");
  add<Dense<3, cf, tuple<1,0,2> >, 3>("d3c102");
  add<Dense<3, cf, tuple<1,2,0> >, 3>("d3c120");
  add<Dense<3, double, tuple<2,0,1> >, 3>("d3d201");
  add<Dense<3, cd, tuple<2,1,0> >, 3>("d3z210");
  add<Strided<1, cf, Layout<1, row1_type, dense, split_complex> >, 1>("s1s");
  add<Strided<1, cd, Layout<1, row1_type, dense, interleaved_complex> >, 1>("s1n");
  add<Strided<2, cf, Layout<2, row2_type, dense, split_complex> >, 2>("s2sr");
  add<Strided<2, cd, Layout<2, col2_type, dense, split_complex> >, 2>("s2sc");
  add<Strided<2, cf, Layout<2, col2_type, dense, interleaved_complex> >, 2>("s2nc");
  add<Strided<3, cf, Layout<3, tuple<2,0,1>, dense, split_complex> >, 3>("s3s201");
  add<Strided<3, cf, Layout<3, tuple<1,2,0>, dense, interleaved_complex> >, 3>("s3n120");
  add<Strided<2, float, Layout<2, row2_type, aligned_16, array> >, 2>("a2fr");
  add<Strided<2, cf, Layout<2, col2_type, aligned_8, array> >, 2>("a2cc");
  add<Strided<2, cf, Layout<2, row2_type, aligned_8, split_complex> >, 2>("a2sr");
  add<Strided<3, float, Layout<3, tuple<0,2,1>, aligned_8, array> >, 3>("a3f021");
  add<Strided<3, cf, Layout<3, tuple<1,0,2>, aligned_8, split_complex> >, 3>("a3s102");
  add<Dense<1, float, row1_type, Map<> >, 1>("m1f");
  add<Dense<2, cf, col2_type, Map<> >, 2>("m2cc");
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  std::unique_ptr<Scen> s;
  while (read_line(is, l))
  {
    if (l.op == "begin")
    {
      std::string k = l.s();
      if (!reg().count(k)) die("kind " + k);
      s.reset();
      s.reset(reg()[k]());
    }
    s->line(l, out);
  }
  return 0;
}
