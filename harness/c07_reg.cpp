// C07: operations on distributed views and on the communicator.
#include "dist.hpp"
#include <ovxx/parallel/util.hpp>
#include <vsip/selgen.hpp>
#include <ovxx/parallel/assign_local.hpp>
namespace {
template <dimension_type D> struct Ix;
template <> struct Ix<1> { typedef Index<1> type; static void put(Vec &r, Index<1> const &i) { r.push_back(i[0]);}};
template <> struct Ix<2> { typedef Index<2> type; static void put(Vec &r, Index<2> const &i) { r.push_back(i[0]); r.push_back(i[1]);}};
template <> struct Ix<3> { typedef Index<3> type; static void put(Vec &r, Index<3> const &i) { for (int k = 0; k < 3; ++k) r.push_back(i[k]);}};

OPFN(Get) r.push_back(C::from(G<W::dim>::get(v, x))); OPEND
OPFN(Put_) G<W::dim>::put(v, x, C::to(x[W::dim])); OPEND
OPFN(Fill) v = C::to(x[0]); OPEND
OPFN(LFill) index_type sb = subblock(static_cast<ObjT<K> &>(d).v); if (subblock(v) != no_subblock) { typename W::local_type l = v.local(); l = C::to(x[0] + sb);} OPEND
OPFN(Sum) r.push_back(C::from(sumval(v))); OPEND
OPFN(Sumsq) r.push_back(C::from(sumsqval(v))); OPEND
OPFN(Max) typename Ix<W::dim>::type i; T m = maxval(v, i); r.push_back(C::from(m)); Ix<W::dim>::put(r, i); OPEND
OPFN(Min) typename Ix<W::dim>::type i; T m = minval(v, i); r.push_back(C::from(m)); Ix<W::dim>::put(r, i); OPEND
OPFN(All) r.push_back(alltrue(v)); OPEND
OPFN(Any) r.push_back(anytrue(v)); OPEND
OPFN(SAdd) v += C::to(x[0]); OPEND
template <dimension_type D> struct PointF
{
  Vec e;
  template <typename T> T operator()(T old, Index<D> const &, Index<D> const &g) const
  { ll p = 0; for (dimension_type d = 0; d < D; ++d) p = p * e[d] + g[d]; return T(3 * old + p);}
};
OPFN(Point) PointF<W::dim> p; for (dimension_type k = 0; k < W::dim; ++k) p.e.push_back(v.size(k)); ovxx::parallel::foreach_point(v, p); OPEND

#define EXFN(name) template <typename K, template <typename> class F, typename K1, template <typename> class F1, typename K2, template <typename> class F2, typename K3, template <typename> class F3> struct name { \
  static void run_(Obj &d, Vec const &dd, Vec const &x, std::vector<Obj *> const &o, std::vector<Vec> const &od, Vec &) { \
  typename F<typename K::view_type>::type v = F<typename K::view_type>::sel(static_cast<ObjT<K> &>(d).v, dd); typedef Cv<typename K::value_type> C; (void)x; \
  typename F1<typename K1::view_type>::type a = F1<typename K1::view_type>::sel(static_cast<ObjT<K1> &>(*o[0]).v, od[0]); \
  typename F2<typename K2::view_type>::type b = F2<typename K2::view_type>::sel(static_cast<ObjT<K2> &>(*o[o.size() > 1 ? 1 : 0]).v, od[o.size() > 1 ? 1 : 0]); \
  typename F3<typename K3::view_type>::type c = F3<typename K3::view_type>::sel(static_cast<ObjT<K3> &>(*o[o.size() > 2 ? 2 : 0]).v, od[o.size() > 2 ? 2 : 0]); (void)b; (void)c;
#define EXEND }};
EXFN(Add) v = a + b; EXEND
EXFN(Axpy) v = a * C::to(x[0]) + b; EXEND
EXFN(Acc) v += a * b; EXEND
EXFN(Neg) v = -a; EXEND
EXFN(Mix) v = a + b * c - C::to(x[0]); EXEND
struct UF1 { ll k; float operator()(float a) const { return 2 * a + k;}};
struct UF2 { ll k; float operator()(float a, float b) const { return a + 2 * b + k;}};
struct UF3 { ll k; float operator()(float a, float b, float c) const { return a + 2 * b - c + k;}};
EXFN(ClipF) typedef typename K::value_type V; v = clip(a, V(x[0]), V(x[1]), V(x[2]), V(x[3])); EXEND
EXFN(User1) UF1 f = {x[0]}; v = unary<float>(f, a); EXEND
EXFN(User2) UF2 f = {x[0]}; v = binary<float>(f, a, b); EXEND
EXFN(User3) UF3 f = {x[0]}; v = ternary<float>(f, a, b, c); EXEND
EXFN(CopyL) ovxx::parallel::assign_local(v, a); EXEND
#define OP2(T, nm, fn, k, f, k1, f1) ops()[nm ":" #k #f ":" #k1 #f1 ":" T] = &fn<K_##k, F##f, K_##k1, F##f1, K_##k1, F##f1, K_##k1, F##f1>::run_;
#define OP3(T, nm, fn, k, f, k1, f1, k2, f2) ops()[nm ":" #k #f ":" #k1 #f1 ":" #k2 #f2 ":" T] = &fn<K_##k, F##f, K_##k1, F##f1, K_##k2, F##f2, K_##k1, F##f1>::run_;
#define OP4(T, nm, fn, k, f, k1, f1, k2, f2, k3, f3) ops()[nm ":" #k #f ":" #k1 #f1 ":" #k2 #f2 ":" #k3 #f3 ":" T] = &fn<K_##k, F##f, K_##k1, F##f1, K_##k2, F##f2, K_##k3, F##f3>::run_;
#define ACCESS(T, k, f) OP1(T, "get", Get, k, f) OP1(T, "put", Put_, k, f) OP1(T, "fill", Fill, k, f)
#define REDUCE(T, k, f) OP1(T, "sum", Sum, k, f) OP1(T, "sumsq", Sumsq, k, f) OP1(T, "max", Max, k, f) OP1(T, "min", Min, k, f)
#define ELEMS(T, k, f) ACCESS(T, k, f) REDUCE(T, k, f) OP1(T, "sadd", SAdd, k, f)
#define LOCALS(T, k, f) OP1(T, "lfill", LFill, k, f) OP1(T, "point", Point, k, f)

#if PART == 1
namespace f1 { DKINDS1(float) }
using namespace f1;
struct Reg { Reg() {
  MK("f", Br) MK("f", Cr) MK("f", Wr) MK("f", R1r) MK("f", L1r)
  ELEMS("f", Br, w) ELEMS("f", Cr, w) ELEMS("f", Wr, w) ELEMS("f", R1r, w) ELEMS("f", Br, s) ELEMS("f", R1r, s)
  LOCALS("f", Br, w) LOCALS("f", Cr, w) LOCALS("f", R1r, w) LOCALS("f", Wr, w)
}} reg_;
#elif PART == 2
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
  MK("f", BBr) MK("f", BBc) MK("f", CBr) MK("f", R2r) MK("f", L2c) MK("f", BCc)
  ELEMS("f", BBr, w) ELEMS("f", BBc, w) ELEMS("f", CBr, w) ELEMS("f", R2r, w) ELEMS("f", BCc, w)
  LOCALS("f", BBr, w) LOCALS("f", BBc, w) LOCALS("f", CBr, w) LOCALS("f", BCc, w) LOCALS("f", R2r, w)
}} reg_;
#elif PART == 3
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define E_(f) ELEMS("f", BBr, f) ELEMS("f", BBc, f) ELEMS("f", R2r, f)
  E_(s) E_(r) E_(c) ELEMS("f", BBr, t)  ELEMS("f", CBr, r) ELEMS("f", CBr, c)
  LOCALS("f", BBr, s) OP1("f", "lfill", LFill, BBr, r) OP1("f", "lfill", LFill, BBc, c) OP1("f", "lfill", LFill, R2r, r) OP1("f", "lfill", LFill, CBr, c)
}} reg_;
#elif PART == 4
namespace f3 { DKINDS3(float) }
using namespace f3;
struct Reg { Reg() {
  MK("f", BBBr) MK("f", CBWx) MK("f", BBBx) MK("f", R3r)
  ELEMS("f", BBBr, w) ELEMS("f", CBWx, w) ELEMS("f", BBBx, w) ELEMS("f", R3r, w) ELEMS("f", BBBr, s) ELEMS("f", BBBr, x) ELEMS("f", BBBr, p) ELEMS("f", BBBr, q)
  LOCALS("f", BBBr, w) LOCALS("f", CBWx, w) LOCALS("f", BBBx, w)
}} reg_;
#elif PART == 5
namespace f1 { DKINDS1(float) }
using namespace f1;
struct Reg { Reg() {
#define D_(k1, k2) X_(Br, k1, k2) X_(Cr, k1, k2) X_(R1r, k1, k2)
#define X_(k, k1, k2) OP3("f", "add", Add, k, w, k1, w, k2, w) OP3("f", "axpy", Axpy, k, w, k1, w, k2, w)
  D_(Br, Br) D_(Br, Cr) D_(Cr, R1r) D_(R1r, Br)
  OP4("f", "mix", Mix, Br, w, Cr, w, R1r, w, Br, w) OP4("f", "mix", Mix, Cr, w, Br, w, Br, w, Wr, w)
#define N_(k1) OP2("f", "neg", Neg, Br, w, k1, w) OP2("f", "neg", Neg, R1r, w, k1, w) OP2("f", "neg", Neg, Cr, w, k1, w)
  N_(Br) N_(Cr) N_(R1r) N_(Wr)
}} reg_;
#elif PART == 6
namespace f1 { DKINDS1(float) }
using namespace f1;
struct Reg { Reg() {
#define C_(k, k1, k2) OP3("f", "acc", Acc, k, w, k1, w, k2, w)
  C_(Br, Br, Br) C_(Br, Cr, Br) C_(Cr, Br, R1r) C_(R1r, Br, Br)
  OP3("f", "add", Add, Br, s, Br, s, Br, w) OP3("f", "add", Add, Br, w, Br, s, Cr, w) OP3("f", "axpy", Axpy, Cr, w, Br, s, Br, s) OP2("f", "neg", Neg, Br, s, Br, s)
  OP2("f", "copyl", CopyL, Br, w, L1r, w) OP2("f", "copyl", CopyL, L1r, w, Br, w) OP2("f", "copyl", CopyL, Cr, w, L1r, w) OP2("f", "copyl", CopyL, L1r, w, Cr, w) OP2("f", "copyl", CopyL, R1r, w, L1r, w) OP2("f", "copyl", CopyL, L1r, w, R1r, w)
  OP2("f", "copyl", CopyL, Br, s, L1r, w) OP2("f", "copyl", CopyL, L1r, w, Br, s)
}} reg_;
#elif PART == 7
namespace f2 { DKINDS1(float) DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define D_(k, k1, k2) OP3("f", "add", Add, k, w, k1, w, k2, w) OP3("f", "axpy", Axpy, k, w, k1, w, k2, w) OP3("f", "acc", Acc, k, w, k1, w, k2, w)
  D_(BBr, BBr, BBr) D_(BBr, BBc, CBr) D_(BBc, BBc, BBc) D_(CBr, R2r, BBr) D_(R2r, R2r, R2r) D_(BBc, BBr, R2r)
  OP4("f", "mix", Mix, BBr, w, BBr, w, BBc, w, R2r, w)
  OP2("f", "neg", Neg, BBr, w, BBr, w) OP2("f", "neg", Neg, BBc, w, BBr, w) OP2("f", "neg", Neg, BBr, w, BBr, t) OP2("f", "neg", Neg, BBr, s, BBr, s)
  OP2("f", "copyl", CopyL, BBr, w, L2c, w) OP2("f", "copyl", CopyL, L2c, w, BBr, w) OP2("f", "copyl", CopyL, L2c, w, BBc, w) OP2("f", "copyl", CopyL, BBc, w, L2c, w)
  OP3("f", "add", Add, BBr, r, BBr, r, BBc, r) OP3("f", "add", Add, Br, w, BBr, r, BBr, c)
}} reg_;
#elif PART == 8
namespace i { DKINDS1(int) DKINDS2(int) }
using namespace i;
struct Reg1 { Reg1() {
  MK("i", Br) MK("i", Cr) MK("i", R1r) MK("i", BBr) MK("i", BBc) MK("i", L1r)
  ELEMS("i", Br, w) ELEMS("i", Cr, w) ELEMS("i", R1r, w) ELEMS("i", BBr, w) ELEMS("i", BBc, w)
  OP3("i", "add", Add, Br, w, Br, w, Cr, w) OP3("i", "acc", Acc, Br, w, Br, w, R1r, w)
}} reg1_;
namespace b { namespace B { DKINDS1(bool) DKINDS2(bool) } using namespace B;
struct Reg2 { Reg2() {
  MK("b", Br) MK("b", Cr) MK("b", R1r) MK("b", BBr)
#define L_(k) ACCESS("b", k, w) OP1("b", "all", All, k, w) OP1("b", "any", Any, k, w)
  L_(Br) L_(Cr) L_(R1r) L_(BBr)
}} reg2_; }
namespace z { namespace Z { DKINDS1(std::complex<float>) DKINDS2(std::complex<float>) } using namespace Z;
struct Reg3 { Reg3() {
  MK("z", Br) MK("z", R1r) MK("z", BBr) MK("z", BBc)
  ACCESS("z", Br, w) ACCESS("z", R1r, w) ACCESS("z", BBr, w) ACCESS("z", BBc, w) ACCESS("z", BBr, r)
}} reg3_; }
namespace d { namespace D { DKINDS1(double) } using namespace D;
struct Reg4 { Reg4() { MK("d", Br) MK("d", Cr) ELEMS("d", Br, w) OP3("d", "add", Add, Br, w, Br, w, Cr, w) }} reg4_; }
#elif PART == 9
using ovxx::parallel::Communicator;
template <typename T> void bcast(Vec const &x, Vec &r)
{
  Communicator &c = ovxx::parallel::default_communicator();
  std::vector<T> b(x[1] + 1); std::unique_ptr<T[]> p(new T[x[1] + 2]());
  bool root = c.rank() == (processor_type)x[0];
  for (ll k = 0; k < x[1]; ++k) p[k + 1] = root ? Cv<T>::to(x[2] + k) : Cv<T>::to(55);
  p[0] = p[x[1] + 1] = Cv<T>::to(1);
  c.broadcast(x[0], p.get() + 1, x[1]);
  for (ll k = 0; k < x[1]; ++k) r.push_back(Cv<T>::from(p[k + 1]));
  if (Cv<T>::from(p[0]) != 1 || Cv<T>::from(p[x[1] + 1]) != 1) r.push_back(NONINT);
}
template <typename T> void allred(Vec const &x, Vec &r)
{
  Communicator &c = ovxx::parallel::default_communicator();
  T v = T(x[1 + c.rank()]), w;
  ovxx::reduction_type k[] = { ovxx::reduce_sum, ovxx::reduce_min, ovxx::reduce_max, ovxx::reduce_all_true, ovxx::reduce_any_true };
  w = c.allreduce(k[x[0]], v);
  r.push_back(Enc<T>::n == 1 ? enc_real((double)std::real(w)) : std::imag(w) == 0 ? enc_real(std::real(w)) : NONINT);
}
void allred_b(Vec const &x, Vec &r)
{
  Communicator &c = ovxx::parallel::default_communicator();
  r.push_back(c.allreduce(x[0] == 3 ? ovxx::reduce_all_true_bool : ovxx::reduce_any_true_bool, x[1 + c.rank()] != 0));
}
// mode 0: non-blocking sends, 1: buffered sends of views, 2: views of another layout
template <typename T, int mode> void xchg(Vec const &x, Vec &r)
{
  Communicator &c = ovxx::parallel::default_communicator();
  ll me = c.rank(), n = x.size() / 3;
  std::vector<std::unique_ptr<T[]> > bs; std::vector<Communicator::request_type> rq;
  for (ll k = 0; k < n; ++k) if (x[3 * k] == me)
  {
    ll len = x[3 * k + 2];
    if (mode == 0)
    {
      bs.emplace_back(new T[len + 1]());
      for (ll i = 0; i < len; ++i) bs.back()[i] = Cv<T>::to(1000 + 100 * k + i);
      rq.push_back(Communicator::request_type());
      c.send(x[3 * k + 1], bs.back().get(), len, rq.back());
    }
    else if (mode == 1 || len % 2)
    {
      Vector<T> base(2 * len); typename Vector<T>::subview_type v = base(Domain<1>(0, 2, len));
      for (ll i = 0; i < len; ++i) v.put(i, Cv<T>::to(1000 + 100 * k + i));
      ovxx::parallel::buf_send(c, x[3 * k + 1], const_Vector<T, typename Vector<T>::subview_type::block_type>(v));
    }
    else
    {
      typedef Dense<2, T, col2_type> B;
      Matrix<T, B> m(len / 2, 2);
      for (ll i = 0; i < len; ++i) m.put(i / 2, i % 2, Cv<T>::to(1000 + 100 * k + i));
      ovxx::parallel::buf_send(c, x[3 * k + 1], const_Matrix<T, B>(m));
    }
  }
  for (ll k = 0; k < n; ++k) if (x[3 * k + 1] == me)
  {
    ll len = x[3 * k + 2];
    if (mode == 0)
    {
      std::unique_ptr<T[]> p(new T[len + 1]());
      c.recv(x[3 * k], p.get(), len);
      for (ll i = 0; i < len; ++i) r.push_back(Cv<T>::from(p[i]));
    }
    else if (mode == 1 || len % 2)
    {
      Vector<T> v(len);
      ovxx::parallel::recv(c, x[3 * k], v);
      for (ll i = 0; i < len; ++i) r.push_back(Cv<T>::from(v.get(i)));
    }
    else
    {
      Matrix<T> m(len / 2, 2);
      ovxx::parallel::recv(c, x[3 * k], m);
      for (ll i = 0; i < len; ++i) r.push_back(Cv<T>::from(m.get(i / 2, i % 2)));
    }
  }
  for (size_t k = 0; k < rq.size(); ++k) c.wait(rq[k]);
}
struct Reg { Reg() {
#define CT(n, T) comms()["bcast:" n] = &bcast<T>; comms()["xchg_s:" n] = &xchg<T, 0>; comms()["xchg_b:" n] = &xchg<T, 1>; comms()["xchg_m:" n] = &xchg<T, 2>;
  CT("i", int) CT("f", float) CT("d", double) CT("z", std::complex<float>) CT("w", std::complex<double>) CT("l", long) CT("h", short) CT("u", unsigned) CT("x", unsigned long)
#define CA(n, T) comms()["allred_a:" n] = &allred<T>;
  CA("i", int) CA("f", float) CA("d", double) CA("l", long) CA("h", short) CA("u", unsigned) CA("x", unsigned long)
  comms()["allred_z:z"] = &allred<std::complex<float> >; comms()["allred_z:w"] = &allred<std::complex<double> >;
  comms()["allred_l:i"] = &allred<int>; comms()["allred_l:b"] = &allred_b;
}} reg_;
#elif PART == 10
namespace f1 { DKINDS1(float) }
using namespace f1;
struct Reg { Reg() {
#define U_(k, k1) OP2("f", "clip", ClipF, k, w, k1, w) OP2("f", "user1", User1, k, w, k1, w) OP3("f", "user2", User2, k, w, k1, w, k, w)
  U_(Br, Br) U_(Cr, Br) U_(R1r, Br) U_(Br, Cr) U_(Br, R1r) U_(Cr, Cr)
  OP4("f", "user3", User3, Br, w, Cr, w, R1r, w, Br, w) OP4("f", "user3", User3, Br, w, Br, w, Br, w, Br, w)
}} reg_;
#elif PART == 11
namespace f2 { DKINDS1(float) DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define U_(k, k1) OP2("f", "clip", ClipF, k, w, k1, w) OP2("f", "user1", User1, k, w, k1, w) OP3("f", "user2", User2, k, w, k1, w, k, w)
  U_(BBr, BBr) U_(BBc, BBr) U_(R2r, BBr) U_(BBr, CBr)
  OP4("f", "user3", User3, BBr, w, BBr, w, BBr, w, R2r, w)
}} reg_;
#endif
}
