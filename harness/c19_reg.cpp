// One solver class and element type per PART (4 * class + type).
#include "c19.hpp"
#if PART % 4 == 0
typedef float TT;
#define TL f
#elif PART % 4 == 1
typedef double TT;
#define TL d
#elif PART % 4 == 2
typedef std::complex<float> TT;
#define TL c
#else
typedef std::complex<double> TT;
#define TL z
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace
{
bool const cx = Ctl<TT>::cx;
mat_op_type const ctrans = cx ? mat_herm : mat_trans;
typedef Ctl<TT>::real RT;

template <typename S> struct Base : Solver
{
  S s; How h;
  template <typename... A> Base(How const &w, A... a) : s(a...), h(w) {}
  Base(Base const &o) : s(o.s), h(o.h) {}
  void assign(Solver const *o) { S &r = (s = dynamic_cast<Base const *>(o)->s); if (&r != &s) die("assignment's result");}
};
// the matrix to decompose, in any kind of storage
template <typename F> void decomp(Op &o, F f)
{
  o.xr = o.xc = 1;
  dispatch_bx<TT>(o, [&](auto a, auto) { return f(a);});
  o.x.clear();
}
#if PART / 4 == 0
template <return_mechanism_type R> struct Lu : Base<lud<TT, R> >
{
  typedef Base<lud<TT, R> > B;
  Lu(How const &h) : B(h, h.n) {}
  Solver *copy() const { return new Lu(*this);}
  void info(Ev &e) const { e.i("len", this->s.length());}
  void dec(Op &o) { decomp(o, [&](auto a) { return this->s.decompose(a);});}
  template <mat_op_type tr, typename b_, typename x_> bool go(lud<TT, by_reference> &s, b_ b, x_ x) { return s.template solve<tr>(b, x);}
  template <mat_op_type tr, typename b_, typename x_> bool go(lud<TT, by_value> &s, b_ b, x_ x) { x = s.template solve<tr>(b); return true;}
  void call(Op &o)
  {
    dispatch_bx<TT>(o, [&](auto b, auto x) {
      if (o.tr == 'n') return this->template go<mat_ntrans>(this->s, b, x);
      if (o.tr == 't') return this->template go<mat_trans>(this->s, b, x);
      return this->template go<ctrans>(this->s, b, x);});
  }
};
}
Solver *CAT(make_lu_, TL)(How const &h) { return h.mode == 'r' ? (Solver *)new Lu<by_reference>(h) : new Lu<by_value>(h);}
#elif PART / 4 == 1
template <return_mechanism_type R> struct Ch : Base<chold<TT, R> >
{
  typedef Base<chold<TT, R> > B;
  Ch(How const &h) : B(h, h.p ? upper : lower, h.n) {}
  Solver *copy() const { return new Ch(*this);}
  void info(Ev &e) const { e.i("len", this->s.length()).b("up", this->s.uplo() == upper);}
  void dec(Op &o) { decomp(o, [&](auto a) { return this->s.decompose(a);});}
  template <typename b_, typename x_> bool go(chold<TT, by_reference> &s, b_ b, x_ x) { return s.solve(b, x);}
  template <typename b_, typename x_> bool go(chold<TT, by_value> &s, b_ b, x_ x) { x = s.solve(b); return true;}
  void call(Op &o) { dispatch_bx<TT>(o, [&](auto b, auto x) { return this->go(this->s, b, x);});}
};
}
Solver *CAT(make_ch_, TL)(How const &h) { return h.mode == 'r' ? (Solver *)new Ch<by_reference>(h) : new Ch<by_value>(h);}
#elif PART / 4 == 2
template <return_mechanism_type R> struct Qr : Base<qrd<TT, R> >
{
  typedef Base<qrd<TT, R> > B;
  Qr(How const &h) : B(h, h.m, h.n, h.p == 0 ? qrd_nosaveq : h.p == 1 ? qrd_saveq1 : qrd_saveq) {}
  Solver *copy() const { return new Qr(*this);}
  void info(Ev &e) const { e.i("len", this->s.columns()).i("rows", this->s.rows()).i("st", this->s.qstorage() == qrd_nosaveq ? 0 : this->s.qstorage() == qrd_saveq1 ? 1 : 2);}
  void dec(Op &o) { decomp(o, [&](auto a) { return this->s.decompose(a);});}
  template <mat_op_type tr, typename b_, typename x_> bool rs(qrd<TT, by_reference> &s, b_ b, TT al, x_ x) { return s.template rsol<tr>(b, al, x);}
  template <mat_op_type tr, typename b_, typename x_> bool rs(qrd<TT, by_value> &s, b_ b, TT al, x_ x) { x = s.template rsol<tr>(b, al); return true;}
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pq(qrd<TT, by_reference> &s, b_ b, x_ x) { return s.template prodq<tr, p>(b, x);}
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pq(qrd<TT, by_value> &s, b_ b, x_ x) { Matrix<TT> r = s.template prodq<tr, p>(b); if (r.size(0) != x.size(0) || r.size(1) != x.size(1)) die("prodq size"); x = r; return true;}
  template <typename b_, typename x_> bool cv(qrd<TT, by_reference> &s, b_ b, x_ x) { return s.covsol(b, x);}
  template <typename b_, typename x_> bool cv(qrd<TT, by_value> &s, b_ b, x_ x) { x = s.covsol(b); return true;}
  template <typename b_, typename x_> bool ls(qrd<TT, by_reference> &s, b_ b, x_ x) { return s.lsqsol(b, x);}
  template <typename b_, typename x_> bool ls(qrd<TT, by_value> &s, b_ b, x_ x) { x = s.lsqsol(b); return true;}
  void call(Op &o)
  {
    TT al = o.k.size() ? sc<TT>(o.k, 0) : TT(1);
    dispatch_bx<TT>(o, [&](auto b, auto x) -> bool {
      if (o.f == "cov") return this->cv(this->s, b, x);
      if (o.f == "lsq") return this->ls(this->s, b, x);
      if (o.f == "cov2") { Matrix<TT> y(b.size(0), b.size(1)); bool ok = this->template rs<ctrans>(this->s, b, al, y); return this->template rs<mat_ntrans>(this->s, y, TT(1), x) && ok;}
      if (o.f == "rsol") return o.tr == 'n' ? this->template rs<mat_ntrans>(this->s, b, al, x) : o.tr == 't' ? this->template rs<mat_trans>(this->s, b, al, x) : this->template rs<ctrans>(this->s, b, al, x);
      if (o.f == "prodq" && o.side == 'l') return o.tr == 'n' ? this->template pq<mat_ntrans, mat_lside>(this->s, b, x) : this->template pq<ctrans, mat_lside>(this->s, b, x);
      if (o.f == "prodq" && o.side == 'r') return o.tr == 'n' ? this->template pq<mat_ntrans, mat_rside>(this->s, b, x) : this->template pq<ctrans, mat_rside>(this->s, b, x);
      die("operation " + o.f); return false;});
  }
};
}
Solver *CAT(make_qr_, TL)(How const &h) { return h.mode == 'r' ? (Solver *)new Qr<by_reference>(h) : new Qr<by_value>(h);}
#elif PART / 4 == 3
template <return_mechanism_type R> struct Sv : Base<svd<TT, R> >
{
  typedef Base<svd<TT, R> > B;
  static storage_type st(int i) { return i == 0 ? svd_uvnos : i == 1 ? svd_uvpart : svd_uvfull;}
  static int ts(storage_type i) { return i == svd_uvnos ? 0 : i == svd_uvpart ? 1 : 2;}
  Sv(How const &h) : B(h, h.m, h.n, st(h.p), st(h.q)) {}
  Solver *copy() const { return new Sv(*this);}
  void info(Ev &e) const { e.i("len", this->s.columns()).i("rows", this->s.rows()).i("st", 3 * ts(this->s.ustorage()) + ts(this->s.vstorage()));}
  template <typename a_> bool de(svd<TT, by_reference> &s, a_ a, Op &o, bool strided)
  {
    length_type p = std::min(this->h.m, this->h.n);
    bool r;
    if (strided)
    {
      Vector<RT> w(2 * p + 2, RT(77));
      typename Vector<RT>::subview_type v = w(Domain<1>(1, 2, p));
      r = s.decompose(a, v);
      o.x = result(v, o.num);
      for (index_type i = 0; i < w.size(); ++i) if ((i % 2 == 0 || i > 2 * p) && w.get(i) != RT(77)) o.k.push_back(-1);   // outside of the destination
    }
    else { Vector<RT> v(p); r = s.decompose(a, v); o.x = result(v, o.num);}
    return r;
  }
  template <typename a_> bool de(svd<TT, by_value> &s, a_ a, Op &o, bool) { Vector<RT> v = s.decompose(a); o.x = result(v, o.num); return true;}
  void dec(Op &o)
  {
    Vec x;
    o.xr = o.xc = 1;
    dispatch_bx<TT>(o, [&](auto a, auto) { bool r = this->de(this->s, a, o, o.kb % 2); x = o.x; return r;});
    o.x = x;
    o.intact = o.intact && o.k.empty();
  }
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pu(svd<TT, by_reference> &s, b_ b, x_ x) { return s.template produ<tr, p>(b, x);}
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pu(svd<TT, by_value> &s, b_ b, x_ x) { Matrix<TT> r = s.template produ<tr, p>(b); if (r.size(0) != x.size(0) || r.size(1) != x.size(1)) die("produ size"); x = r; return true;}
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pv(svd<TT, by_reference> &s, b_ b, x_ x) { return s.template prodv<tr, p>(b, x);}
  template <mat_op_type tr, product_side_type p, typename b_, typename x_> bool pv(svd<TT, by_value> &s, b_ b, x_ x) { Matrix<TT> r = s.template prodv<tr, p>(b); if (r.size(0) != x.size(0) || r.size(1) != x.size(1)) die("prodv size"); x = r; return true;}
  template <typename x_> bool gu(svd<TT, by_reference> &s, index_type l, index_type h, x_ x) { return s.u(l, h, x);}
  template <typename x_> bool gu(svd<TT, by_value> &s, index_type l, index_type h, x_ x) { x = s.u(l, h); return true;}
  template <typename x_> bool gv(svd<TT, by_reference> &s, index_type l, index_type h, x_ x) { return s.v(l, h, x);}
  template <typename x_> bool gv(svd<TT, by_value> &s, index_type l, index_type h, x_ x) { x = s.v(l, h); return true;}
  void call(Op &o)
  {
    dispatch_bx<TT>(o, [&](auto b, auto x) -> bool {
      if (o.f == "u") return this->gu(this->s, o.k[0], o.k[1], x);
      if (o.f == "v") return this->gv(this->s, o.k[0], o.k[1], x);
      if (o.f == "produ" && o.side == 'l') return o.tr == 'n' ? this->template pu<mat_ntrans, mat_lside>(this->s, b, x) : this->template pu<ctrans, mat_lside>(this->s, b, x);
      if (o.f == "produ" && o.side == 'r') return o.tr == 'n' ? this->template pu<mat_ntrans, mat_rside>(this->s, b, x) : this->template pu<ctrans, mat_rside>(this->s, b, x);
      if (o.f == "prodv" && o.side == 'l') return o.tr == 'n' ? this->template pv<mat_ntrans, mat_lside>(this->s, b, x) : this->template pv<ctrans, mat_lside>(this->s, b, x);
      if (o.f == "prodv" && o.side == 'r') return o.tr == 'n' ? this->template pv<mat_ntrans, mat_rside>(this->s, b, x) : this->template pv<ctrans, mat_rside>(this->s, b, x);
      die("operation " + o.f); return false;});
  }
};
}
Solver *CAT(make_sv_, TL)(How const &h) { return h.mode == 'r' ? (Solver *)new Sv<by_reference>(h) : new Sv<by_value>(h);}
#else
// function forms; the matrix is in k (by rows, br by bc there), in another kind of storage
template <int K> Obj *mat(length_type r, length_type c, Shape s, Vec const &x) { Obj *p = MK<TT, K>::mk(r, c, s); p->set(x); return p;}
template <int K, typename F> void with_a(Op &o, length_type r, length_type c, F f) { std::unique_ptr<Obj> a(mat<K>(r, c, o.sb, o.k)); Vec ar = a->around(); f(M_<TT, K>(a.get())); o.intact = o.intact && a->around() == ar;}
template <int VB, int VX, int VT> void toep(Op &o)
{
  Shape s = o.sb; length_type n = o.br;
  std::unique_ptr<Obj> t(VK<TT, VT>::mk(n, s)), b(VK<TT, VB>::mk(n, s)), y(VK<TT, VX>::mk(n, s)), x(VK<TT, VB>::mk(n, s));
  t->set(o.k); b->set(o.b);
  Vec a1 = t->around(), a2 = b->around(), a3 = y->around(), a4 = x->around();
  o.ok = true;
  try
  {
    if (o.mode == 'r') { toepsol(V_<TT, VT>(t.get()), V_<TT, VB>(b.get()), V_<TT, VX>(y.get()), V_<TT, VB>(x.get())); o.x = result(V_<TT, VB>(x.get()), o.num);}
    else { const_Vector<TT> r = toepsol(V_<TT, VT>(t.get()), V_<TT, VB>(b.get()), V_<TT, VX>(y.get())); o.x = result(r, o.num);}
  }
  catch (computation_error const &) { o.ok = false; o.x.clear();}
  o.intact = t->around() == a1 && b->around() == a2 && y->around() == a3 && x->around() == a4 && t->get() == o.k && b->get() == o.b;
}
}
void CAT(fn_, TL)(Op &o)
{
  if (o.f == "toep")
  {
    switch (o.kb)
    {
      case 0: toep<VD, VD, VD>(o); break;
      case 1: toep<VS, VC, VD>(o); break;
      case 2: toep<VC, VS, VS>(o); break;
      default: toep<VD, VS, VC>(o); break;
    }
    return;
  }
  length_type m = o.f == "llsq" ? o.br : o.k.size() / (cx ? 2 : 1) / o.br, n = o.f == "llsq" ? o.xr : o.br;
  std::vector<bool> keep;
  bool const llsq = o.f == "llsq", ref = o.mode == 'r';
  bool in = true;
  dispatch_bx<TT>(o, [&](auto b, auto x) {
    auto f = [&](auto a) {
      if (llsq) { if (ref) { auto r = llsqsol(a, b, x); in = in && result(r, o.num) == result(x, o.num);} else x = llsqsol(a, b);}
      else { if (ref) { auto r = covsol(a, b, x); in = in && result(r, o.num) == result(x, o.num);} else x = covsol(a, b);}
    };
    if (o.kb % 2) with_a<S>(o, m, n, f); else with_a<C>(o, m, n, f);
    return true;});
  o.intact = o.intact && in;
}
#endif
