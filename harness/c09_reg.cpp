#include "c09.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(x##_, PART)
#if PART == 1
typedef float TT; int const DD = 1;
#elif PART == 2
typedef std::complex<float> TT; int const DD = 1;
#elif PART == 3
typedef short TT; int const DD = 2;
#elif PART == 4
typedef std::complex<float> TT; int const DD = 2;
#elif PART == 5
typedef double TT; int const DD = 3;
#elif PART == 6
typedef std::complex<double> TT; int const DD = 3;
#elif PART == 7
typedef float TT; int const DD = 2;
#elif PART == 8
typedef std::complex<double> TT; int const DD = 1;
#endif
using ovxx::tuple;
// what the raw pointer addresses, at offset o
template <typename P> struct N(Raw);
template <typename T> struct N(Raw)<T *>
{
  template <typename V> static void get(T const *p, stride_type o, V *v) { G<V>::get(p, o, v);}
  template <typename V, bool same = std::is_same<T, V>::value> struct G_;
  template <typename V> struct G
  {
    static void get(T const *p, stride_type o, V *v) { one(p, o, v, std::is_same<typename std::remove_const<T>::type, V>());}
    static void one(T const *p, stride_type o, V *v, std::true_type) { *v = p[o];}
    static void one(T const *p, stride_type o, V *v, std::false_type) { *v = V(p[2 * o], p[2 * o + 1]);}
    static void put(T *p, stride_type o, V v) { two(p, o, v, std::is_same<T, V>());}
    static void two(T *p, stride_type o, V v, std::true_type) { p[o] = v;}
    static void two(T *p, stride_type o, V v, std::false_type) { p[2 * o] = v.real(); p[2 * o + 1] = v.imag();}
  };
  template <typename V> static void put(T *p, stride_type o, V v) { G<V>::put(p, o, v);}
  static bool in(T const *p, char const *a, char const *b) { return (char const *)p >= a && (char const *)p < b;}
  static bool al(T const *p, unsigned a) { return (size_t)p % a == 0;}
};
template <typename T> struct N(Raw)<std::pair<T *, T *> >
{
  template <typename P, typename V> static void get(P const &p, stride_type o, V *v) { *v = V(p.first[o], p.second[o]);}
  template <typename P, typename V> static void put(P const &p, stride_type o, V v) { p.first[o] = v.real(); p.second[o] = v.imag();}
  template <typename P> static bool in(P const &p, char const *a, char const *b) { return N(Raw)<T *>::in(p.first, a, b) && N(Raw)<T *>::in(p.second, a, b);}
  template <typename P> static bool al(P const &p, unsigned a) { return N(Raw)<T *>::al(p.first, a) && N(Raw)<T *>::al(p.second, a);}
};
template <typename C> struct N(Raw)<ovxx::pointer<C> >
{
  typedef typename std::remove_const<C>::type V;
  typedef typename V::value_type R;
  typedef typename std::conditional<std::is_const<C>::value, R const, R>::type RC;
  template <typename P> static void get(P const &q, stride_type o, V *v)
  {
    ovxx::pointer<C> p(q);
    if (p.format() == split_complex) { std::pair<RC *, RC *> s = p.template as<split_complex>(); *v = V(s.first[o], s.second[o]);}
    else if (p.format() == interleaved_complex) { RC *s = p.template as<interleaved_complex>(); *v = V(s[2 * o], s[2 * o + 1]);}
    else *v = p.template as<array>()[o];
  }
  template <typename P> static void put(P const &q, stride_type o, V v)
  {
    ovxx::pointer<C> p(q);
    if (p.format() == split_complex) { std::pair<R *, R *> s = p.template as<split_complex>(); s.first[o] = v.real(); s.second[o] = v.imag();}
    else if (p.format() == interleaved_complex) { R *s = p.template as<interleaved_complex>(); s[2 * o] = v.real(); s[2 * o + 1] = v.imag();}
    else p.template as<array>()[o] = v;
  }
  template <typename P> static bool in(P const &, char const *, char const *) { return false;}
  template <typename P> static bool al(P const &q, unsigned a)
  {
    ovxx::pointer<C> p(q);
    if (p.format() == split_complex) { std::pair<RC *, RC *> s = p.template as<split_complex>(); return (size_t)s.first % a == 0 && (size_t)s.second % a == 0;}
    if (p.format() == interleaved_complex) return (size_t)p.template as<interleaved_complex>() % a == 0;
    return (size_t)p.template as<array>() % a == 0;
  }
};
template <typename V> struct N(Raw)<ovxx::const_pointer<V> > : N(Raw)<ovxx::pointer<V> >
{
  typedef N(Raw)<ovxx::pointer<V> > base;
  static ovxx::pointer<V> nc(ovxx::const_pointer<V> const &q) { return ovxx::const_cast_<ovxx::pointer<V> >(q);}
  static void get(ovxx::const_pointer<V> const &q, stride_type o, V *v) { base::get(nc(q), o, v);}
  static bool al(ovxx::const_pointer<V> const &q, unsigned a) { return base::al(nc(q), a);}
};
struct N(Lay) { std::string pk; ll al; Vec ord; bool split;};

// walks a data object
template <typename V, typename D>
struct N(Obj)
{
  typedef typename V::value_type T;
  V v; D &d; Out &out;
  N(Obj)(V w, D &x, Out &o) : v(w), d(x), out(o) {}
  stride_type off(index_type k) const
  {
    stride_type o = 0;
    for (int i = V::dim - 1; i >= 0; --i) { o += stride_type(k % v.size(i)) * d.stride(i); k /= v.size(i);}
    return o;
  }
  template <typename P> static Vec show(N(Obj) const &o, P const &p)
  {
    std::vector<T> x(o.v.size());
    for (index_type k = 0; k < x.size(); ++k) N(Raw)<P>::get(p, o.off(k), &x[k]);
    return enc(x);
  }
  Vec buf() const { D const &c = d; return show(*this, c.ptr());}
  Vec blk() const { std::vector<T> x; rd(v, x); return enc(x);}
  void state(Ev &e) { out(e.v("buf", buf()).v("blk", blk()));}
  template <typename P> void store(P p, index_type k, T x, std::true_type) { N(Raw)<P>::put(p, off(k), x);}
  template <typename P> void store(P, index_type, T, std::false_type) { die("store through a read-only pointer");}
  void kput(index_type k, T x, std::true_type) { At<V::dim>::put(v, k, x);}
  void kput(index_type, T, std::false_type) { die("store to an expression");}
  // ops: w k val | k k val | i | o | r, until '.'
  template <bool WR, bool KW> void program(Line &l)
  {
    for (;;)
    {
      std::string s = l.s();
      if (s == ".") return;
      int const w = Enc<T>::n;
      if (s == "w" || s == "k")
      {
        ll k = l.i(), a = l.i();
        ll c[2] = {a, -a - 1};
        T x = Enc<T>::get(c);
        if (s == "w") store(d.ptr(), k, x, std::integral_constant<bool, WR>());
        else kput(k, x, std::integral_constant<bool, KW>());
        Vec ex; Enc<T>::put(ex, x);
        Ev e(s == "w" ? "bw" : "kw");
        state(e.i("k", k).i("w", w).v("x", ex));
      }
      else if (s == "i") { d.sync_in(); Ev e("si"); state(e);}
      else if (s == "o") { d.sync_out(); Ev e("so"); state(e);}
      else die("step " + s);
    }
  }
};
template <typename V, typename D> Vec N(strides)(V const &, D const &d) { Vec r; for (dimension_type i = 0; i < V::dim; ++i) r.push_back(d.stride(i)); return r;}
template <typename V, typename D> Vec N(sizes)(V const &, D const &d) { Vec r; for (dimension_type i = 0; i < V::dim; ++i) r.push_back(d.size(i)); return r;}
template <typename P> bool N(alp)(P const &p, ll a) { return a ? N(Raw)<P>::al(p, a) : true;}
template <typename D> bool N(alg)(D const &d, ll a) { return N(alp)(d.ptr(), a);}
template <typename V> Vec N(dims)(V const &v) { Vec r; for (dimension_type i = 0; i < V::dim; ++i) r.push_back(v.size(i)); return r;}
template <typename V, typename D>
void N(opened)(V v, D &d, N(Lay) const &y, int pol, int sc, bool ub, bool own, bool pal, Out &out)
{
  typedef typename V::value_type T;
  N(Obj)<V, D> o(v, d, out);
  Vec n = o.blk();
  Ev e("open");
  e.i("pol", pol).i("cost", d.cost()).i("ct", D::ct_cost).i("sc", sc).i("ub", ub).i("own", own)
   .v("d", N(dims)(v)).v("sz", N(sizes)(v, d)).v("st", N(strides)(v, d)).i("w", Enc<T>::n).i("tot", v.size()).v("n", n)
   .s("pk", y.pk).i("al", y.al).v("ord", y.ord).i("esz", y.split ? sizeof(T) / 2 : sizeof(T)).i("pal", !pal);
  o.state(e);
}
// user-supplied buffer with guards
template <typename T, storage_format_type F> struct N(Ub)
{
  typedef typename ovxx::storage_traits<T, F>::ptr_type ptr;
  size_t n; std::vector<char> s; char *a;
  N(Ub)(size_t m) : n(m * sizeof(T)), s(n + 320, (char)0x5c) { a = &s[0] + 128; a += 64 - (size_t)a % 64;}
  ptr p() { return cv((ptr *)0);}
  template <typename Q> Q *cv(Q **) { return (Q *)a;}
  template <typename Q> std::pair<Q *, Q *> cv(std::pair<Q *, Q *> *) { return std::pair<Q *, Q *>((Q *)a, (Q *)(a + n / 2));}
  bool ok() const { for (char const *c = &s[0]; c < &s[0] + s.size(); ++c) if ((c < a || c >= a + n) && *c != 0x5c) return false; return true;}
};
template <bool E> struct N(KW) { static bool const v = !E;};
template <typename V, vsip::dda::sync_policy S, typename L, bool EXPR> void N(one)(V v, N(Lay) const &y, bool ub, Line &l, Out &out)
{
  typedef typename V::block_type B;
  typedef typename V::value_type T;
  typedef typename std::conditional<(S & vsip::dda::out) != 0, B, B const>::type CB;
  bool const wr = (S & (vsip::dda::out | vsip::dda::copy)) != 0;
  int sc = vsip::dda::cost<L>(v.block());
#if PART == 1
  // with the block's own layout a buffer is asked for exactly when there is a copy
  if ((vsip::dda::required_buffer_size(v.block()) != 0) != (vsip::dda::cost(v.block()) != 0)) sc = -1;
#endif
  bool guard = true;
  if (!ub)
  {
    typedef vsip::dda::Data<B, S, L> D;
    {
      D d(const_cast<CB &>(v.block()));
      N(opened)(v, d, y, S, sc, false, false, N(alg)((D const &)d, y.al), out);
      N(Obj)<V, D> o(v, d, out); o.template program<wr, !EXPR>(l);
    }
  }
  else
  {
    typedef vsip::dda::Data<B, S, L> D;
    N(Ub)<T, D::layout_type::storage_format> u(vsip::dda::required_buffer_size<L>(v.block(), (S & vsip::dda::copy) != 0));
    {
      D d(const_cast<CB &>(v.block()), u.p());
      bool own = N(Raw)<typename D::const_ptr_type>::in(((D const &)d).ptr(), u.a, u.a + u.n);
      N(opened)(v, d, y, S, sc, true, own, true, out);
      N(Obj)<V, D> o(v, d, out); o.template program<wr, !EXPR>(l);
    }
    guard = u.ok();
  }
  std::vector<T> x; rd(v, x);
  out(Ev("close").v("blk", enc(x)).b("guard", guard));
}
template <typename V, typename L> void N(pol)(V v, N(Lay) const &y, int pol, bool ub, Line &l, Out &out, std::false_type)
{
  using namespace vsip::dda;
  switch (pol)
  {
    case 1: N(one)<V, in, L, false>(v, y, ub, l, out); break;
    case 2: N(one)<V, vsip::dda::out, L, false>(v, y, ub, l, out); break;
    case 3: N(one)<V, inout, L, false>(v, y, ub, l, out); break;
    case 5: N(one)<V, in|copy, L, false>(v, y, ub, l, out); break;
    case 6: N(one)<V, vsip::dda::out|copy, L, false>(v, y, ub, l, out); break;
    case 7: N(one)<V, inout|copy, L, false>(v, y, ub, l, out); break;
    default: die("policy");
  }
}
template <typename V, typename L> void N(pol)(V v, N(Lay) const &y, int pol, bool ub, Line &l, Out &out, std::true_type)
{
  using namespace vsip::dda;
  switch (pol)
  {
    case 1: N(one)<V, in, L, true>(v, y, ub, l, out); break;
    case 5: N(one)<V, in|copy, L, true>(v, y, ub, l, out); break;
    default: die("policy on an expression");
  }
}
// run-time layouts
template <typename V, vsip::dda::sync_policy S, bool EXPR> void N(rone)(V v, N(Lay) const &y, ovxx::Rt_layout<V::dim> const &rt, Line &l, Out &out)
{
  typedef typename V::block_type B;
  typedef typename V::value_type T;
  typedef typename std::conditional<(S & vsip::dda::out) != 0, B, B const>::type CB;
  bool const wr = (S & vsip::dda::out) != 0;
  {
    typedef ovxx::dda::Rt_data<B, S> D;
    D d(const_cast<CB &>(v.block()), rt);
    N(opened)(v, d, y, S, d.cost(), false, false, N(alg)((D const &)d, y.al), out);
    N(Obj)<V, D> o(v, d, out); o.template program<wr, !EXPR>(l);
  }
  std::vector<T> x; rd(v, x);
  out(Ev("close").v("blk", enc(x)).b("guard", true));
}
template <typename V> void N(rpol)(V v, N(Lay) const &y, ovxx::Rt_layout<V::dim> const &rt, int pol, Line &l, Out &out, std::false_type)
{
  using namespace vsip::dda;
  switch (pol)
  {
    case 1: N(rone)<V, in, false>(v, y, rt, l, out); break;
    case 2: N(rone)<V, vsip::dda::out, false>(v, y, rt, l, out); break;
    case 3: N(rone)<V, inout, false>(v, y, rt, l, out); break;
    default: die("policy");
  }
}
template <typename V> void N(rpol)(V v, N(Lay) const &y, ovxx::Rt_layout<V::dim> const &rt, int pol, Line &l, Out &out, std::true_type)
{
  if (pol != 1) die("policy on an expression");
  N(rone)<V, vsip::dda::in, true>(v, y, rt, l, out);
}
template <typename O> Vec N(ordv)(int n) { Vec r; r.push_back(O::impl_dim0 + 1); if (n > 1) r.push_back(O::impl_dim1 + 1); if (n > 2) r.push_back(O::impl_dim2 + 1); return r;}
template <typename V, typename O, storage_format_type F, typename X> void N(pack)(V v, char pk, int pol, bool ub, Line &l, Out &out, X x)
{
  N(Lay) y; y.al = 0; y.ord = N(ordv)<O>(V::dim); y.split = F == split_complex;
#define PK(c, P, nm, a) case c: y.pk = nm; y.al = a; N(pol)<V, Layout<V::dim, O, P, F> >(v, y, pol, ub, l, out, x); break;
  switch (pk)
  {
    PK('d', dense, "dense", 0) PK('u', unit_stride, "unit", 0) PK('a', any_packing, "any", 0)
    PK('1', aligned_16, "aligned", 16)
#if PART != 6 && PART != 4 && PART != 8
    PK('3', aligned_32, "aligned", 32)
#endif
    default: die("packing");
  }
}
template <bool CX> struct N(Fmt);
template <> struct N(Fmt)<false> { template <typename V, typename O, typename X> static void run(char, V v, char pk, int pol, bool ub, Line &l, Out &out, X x) { N(pack)<V, O, array>(v, pk, pol, ub, l, out, x);}};
template <> struct N(Fmt)<true>
{
  template <typename V, typename O, typename X> static void run(char f, V v, char pk, int pol, bool ub, Line &l, Out &out, X x)
  {
    switch (f)
    {
      case 'a': N(pack)<V, O, array>(v, pk, pol, ub, l, out, x); break;
      case 'i': N(pack)<V, O, interleaved_complex>(v, pk, pol, ub, l, out, x); break;
      case 's': N(pack)<V, O, split_complex>(v, pk, pol, ub, l, out, x); break;
      default: die("format");
    }
  }
};
template <int D> struct N(Ord);
template <> struct N(Ord)<1> { template <typename V, typename X> static void run(char, char f, V v, char pk, int pol, bool ub, Line &l, Out &out, X x)
  { N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, row1_type>(f, v, pk, pol, ub, l, out, x);}};
template <> struct N(Ord)<2> { template <typename V, typename X> static void run(char o, char f, V v, char pk, int pol, bool ub, Line &l, Out &out, X x)
  { if (o == 'r') N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, row2_type>(f, v, pk, pol, ub, l, out, x);
    else N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, col2_type>(f, v, pk, pol, ub, l, out, x);}};
template <> struct N(Ord)<3> { template <typename V, typename X> static void run(char o, char f, V v, char pk, int pol, bool ub, Line &l, Out &out, X x)
  { if (o == 'r') N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, row3_type>(f, v, pk, pol, ub, l, out, x);
#if PART != 6
    else if (o == 'c') N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, col3_type>(f, v, pk, pol, ub, l, out, x);
#endif
    else N(Fmt)<Ctl<typename V::value_type>::cx>::template run<V, tuple<1, 2, 0> >(f, v, pk, pol, ub, l, out, x);}};
// a run-time layout from a description: order digits, packing, format
template <typename V, typename X> void N(rt)(V v, char o, char f, char pk, int pol, Line &l, Out &out, X x)
{
  N(Lay) y; y.al = 0; y.split = f == 's' && Ctl<typename V::value_type>::cx;
  static unsigned const p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  unsigned const *q = V::dim == 3 ? p[o - '0'] : (V::dim == 2 && o != 'r') ? p[2] : p[0];
  ovxx::Rt_layout<V::dim> rt;
  rt.order = ovxx::Rt_tuple(q[0], q[1], q[2]);
  for (dimension_type i = 0; i < V::dim; ++i) y.ord.push_back(q[i] + 1);
  rt.storage_format = !Ctl<typename V::value_type>::cx ? array : f == 'a' ? array : f == 'i' ? interleaved_complex : split_complex;
  switch (pk)
  {
    case 'd': rt.packing = dense; y.pk = "dense"; break;
    case 'u': rt.packing = unit_stride; y.pk = "unit"; break;
    case '1': rt.packing = aligned_16; y.pk = "aligned"; y.al = 16; break;
    case '3': rt.packing = aligned_32; y.pk = "aligned"; y.al = 32; break;
    default: die("run-time packing");
  }
  rt.alignment = y.al;
  N(rpol)(v, y, rt, pol, l, out, x);
}
// programs on a view: "<kind c|r> order format packing policy ub steps ." ... until ";"
template <typename V, typename X> void N(progs)(V v, Line &l, Out &out, X x)
{
  std::vector<typename V::value_type> c; rd(v, c);
  out(Ev("ses").v("blk", enc(c)));
  for (;;)
  {
    std::string k = l.s();
    if (k == ";") return;
    char o = l.s()[0], f = l.s()[0], pk = l.s()[0];
    int pol = l.i(); bool ub = l.i();
    if (k == "r") N(rt)(v, o, f, pk, pol, l, out, x);
    else N(Ord)<V::dim>::run(o, f, v, pk, pol, ub, l, out, x);
  }
}
struct N(Inner)
{
  Line *l; Out *out; char kind;
  template <typename V> void comp(V v, std::true_type) const
  {
    std::vector<typename V::value_type> a, b; rd(v, a);
#if PART == 2
    N(progs)(v.real(), *l, *out, std::false_type());
#elif PART == 4
    N(progs)(v.imag(), *l, *out, std::false_type());
#else
    die("component");
#endif
    rd(v, b);
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok = ok && (kind == 'R' ? a[i].imag() == b[i].imag() : a[i].real() == b[i].real());
    if (!ok) *bad = true;
  }
  template <typename V> void comp(V, std::false_type) const { die("component");}
  bool *bad;
  template <typename V> void operator()(V v) const
  {
    if (kind == 'w') N(progs)(v, *l, *out, std::false_type());
    else if (kind == 'R' || kind == 'I') comp(v, std::integral_constant<bool, Ctl<typename V::value_type>::cx>());
#if PART != 6 && PART != 8
    else if (kind == 'E') expr(v - v + v);
#endif
    else die("kind");
  }
  template <typename V> void expr(V v) const { N(progs)(v, *l, *out, std::true_type());}
};
template <int D> struct N(View);
template <> struct N(View)<1> { template <typename F> static bool run(char f, std::vector<TT> &x, Vec const &, F g) {
#if PART == 1
    return with_vec_all<TT>(f, x, g);
#else
    switch (f) { case 'd': return VF<TT, 'd'>::run(x, g); case 'n': return VF<TT, 'n'>::run(x, g); case 'z': return VF<TT, 'z'>::run(x, g);}
    die("form"); return false;
#endif
}};
template <> struct N(View)<2> { template <typename F> static bool run(char f, std::vector<TT> &x, Vec const &d, F g) {
#if PART == 4
    switch (f) { case 'c': return MF<TT, 'c'>::run(x, d[0], d[1], g); case 's': return MF<TT, 's'>::run(x, d[0], d[1], g); case 'z': return MF<TT, 'z'>::run(x, d[0], d[1], g);}
    die("form"); return false;
#else
    return with_mat<TT>(f, x, d[0], d[1], g);
#endif
}};
template <> struct N(View)<3> { template <typename F> static bool run(char f, std::vector<TT> &x, Vec const &d, F g)
{ switch (f) { case '3': return TF<TT, '3'>::run(x, d[0], d[1], d[2], g);
#if PART == 5
    case '0': return TF<TT, '0'>::run(x, d[0], d[1], d[2], g); case '5': return TF<TT, '5'>::run(x, d[0], d[1], d[2], g);
    case 's': return TF<TT, 's'>::run(x, d[0], d[1], d[2], g);
#endif
    case 't': return TF<TT, 't'>::run(x, d[0], d[1], d[2], g);}
  die("form"); return false;}};
#define SES CAT(ses_, PART)
void SES(Line &l, Out &out)
{
  Vec d = l.v();
  char f = l.s()[0], kind = l.s()[0];
  std::vector<TT> x = dec<TT>(l.v());
  bool bad = false;
  N(Inner) g; g.l = &l; g.out = &out; g.kind = kind; g.bad = &bad;
  bool ok = N(View)<DD>::run(f, x, d, g);
  out(Ev("fin").b("intact", ok && !bad));
}
