// One part of the functions per PART: element type and group.
#include "c20.hpp"
#define CAT_(x, p) x##p
#define CAT(x, p) CAT_(x, p)
#define N_(x) CAT(x, PART)
#if PART <= 12
#if PART % 4 == 1
typedef float TT;
#elif PART % 4 == 2
typedef double TT;
#elif PART % 4 == 3
typedef std::complex<float> TT;
#else
typedef std::complex<double> TT;
#endif
#else
typedef int TT;
#endif
namespace
{
int const NM = Ctl<TT>::cx ? 6 : 5, NV = Ctl<TT>::cx ? 4 : 3;
std::string key(std::string const &o, int a = -1, int b = -1, int r = -1, char t = TC<TT>::c)
{ std::ostringstream s; s << o << ' ' << t << ' ' << a << ' ' << b << ' ' << r; return s.str();}
template <int... I> struct Seq {};
template <int N, int... I> struct MkSeq : MkSeq<N - 1, N - 1, I...> {};
template <int... I> struct MkSeq<0, I...> { typedef Seq<I...> type;};

// --- products of two matrices: r = f(a, b)
enum { PROD, PRODT, PRODH, PRODJ, PROD3, PROD4, PSUM, PEXP, PPROD};
template <int O> struct F2;
template <> struct F2<PROD> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(a, b);}};
template <> struct F2<PRODT> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prodt(a, b);}};
template <> struct F2<PRODH> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prodh(a, b);}};
template <> struct F2<PRODJ> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prodj(a, b);}};
template <> struct F2<PROD3> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod3(a, b);}};
template <> struct F2<PROD4> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod4(a, b);}};
template <> struct F2<PSUM> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(a, b) - b;}};        // a square
template <> struct F2<PEXP> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(a + a, b - TT(1));}};
template <> struct F2<PPROD> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(prod(a, a), b);}}; // a square
char const *const names2[] = {"prod", "prodt", "prodh", "prodj", "prod3", "prod4", "psum", "pexp", "pprod"};
template <int O, int A, int B> struct G2
{
  static int const R = (A + B + O) % NM;
  static void f(Ctx &c) { F2<O>::f(M_<TT, R>(c.a[0]), M_<TT, A>(c.a[1]), M_<TT, B>(c.a[2]));}
  static int put() { reg(key(names2[O], A, B, R), f); return 0;}
};
template <int O, int... I> void all2(Seq<I...>) { int x[] = {G2<O, I / NM, I % NM>::put()...}; (void)x;}
template <int O, bool on, bool thin = false> struct A2 { static void put() { all2<O>(typename MkSeq<NM * NM>::type());}};
template <int O> struct A2<O, true, true> { template <int... I> static void go(Seq<I...>) { int x[] = {G2<O, I, (2 * I + O) % NM>::put()...}; (void)x;} static void put() { go(typename MkSeq<NM>::type());}};
template <int O, bool thin> struct A2<O, false, thin> { static void put() {}};

// --- matrix and vector
enum { MV, MV3, MV4, VM, MVX};
template <int O> struct FV;
template <> struct FV<MV> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(a, b);}};
template <> struct FV<MV3> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod3(a, b);}};
template <> struct FV<MV4> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod4(a, b);}};
template <> struct FV<VM> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(b, a);}};
template <> struct FV<MVX> { template <typename R, typename A, typename B> static void f(R r, A a, B b) { r = prod(trans(a), b) + prod(b, a);}};  // a.size(0) == b.size()
char const *const namesv[] = {"mv", "mv3", "mv4", "vm", "mvx"};
template <int O, int A, int B> struct GV
{
  static int const R = (A + B + O) % NV;
  static void f(Ctx &c) { FV<O>::f(V_<TT, R>(c.a[0]), M_<TT, A>(c.a[1]), V_<TT, B>(c.a[2]));}
  static int put() { reg(key(namesv[O], A, B, R), f); return 0;}
};
template <int O, int... I> void allv(Seq<I...>) { int x[] = {GV<O, I / NV, I % NV>::put()...}; (void)x;}

// --- vmmul
template <dimension_type W, int A, int B> struct GW
{
  static int const R = (A + B + W) % NM;
  static void f(Ctx &c) { M_<TT, R>(c.a[0]) = vmmul<W>(V_<TT, B>(c.a[2]), M_<TT, A>(c.a[1]));}
  static void fx(Ctx &c) { M_<TT, R>(c.a[0]) = vmmul<W>(V_<TT, B>(c.a[2]) + TT(1), M_<TT, A>(c.a[1])) - M_<TT, A>(c.a[1]);}
  static int put() { reg(key(W ? "vmmul1" : "vmmul0", A, B, R), f); if ((A + B) % 3 == 0) reg(key(W ? "vmmulx1" : "vmmulx0", A, B, R), fx); return 0;}
};
template <dimension_type W, int... I> void allw(Seq<I...>) { int x[] = {GW<W, I / NV, I % NV>::put()...}; (void)x;}

// --- two vectors
template <int A, int B, bool cx = Ctl<TT>::cx> struct Cj
{ static void f(Ctx &) {} static bool const on = false; static void g(Ctx &) {} static void h(Ctx &) {}};
template <int A, int B> struct Cj<A, B, true>
{
  static bool const on = true;
  static void f(Ctx &c) { Enc<TT>::put(c.y, cvjdot(V_<TT, A>(c.a[0]), V_<TT, B>(c.a[1])));}
  static void g(Ctx &c) { Enc<TT>::put(c.y, dot(conj(V_<TT, A>(c.a[0])), V_<TT, B>(c.a[1])));}
  static void h(Ctx &c) { Enc<TT>::put(c.y, dot(V_<TT, A>(c.a[0]), conj(V_<TT, B>(c.a[1]))));}
};
template <int A, int B> struct GD
{
  static int const R = (A + 2 * B) % NM;
  static void dt(Ctx &c) { Enc<TT>::put(c.y, dot(V_<TT, A>(c.a[0]), V_<TT, B>(c.a[1])));}
  static void dx(Ctx &c) { Enc<TT>::put(c.y, dot(V_<TT, A>(c.a[0]) - TT(1), V_<TT, B>(c.a[1]) + V_<TT, B>(c.a[1])));}
  static void ou(Ctx &c) { M_<TT, R>(c.a[0]) = outer(sc<TT>(c.k, 0), V_<TT, A>(c.a[1]), V_<TT, B>(c.a[2]));}
  static void kr(Ctx &c) { M_<TT, R>(c.a[0]) = kron(sc<TT>(c.k, 0), V_<TT, A>(c.a[1]), V_<TT, B>(c.a[2]));}
  static void krc(Ctx &c)
  { const_Vector<TT, typename VK<TT, A>::V::block_type> v(V_<TT, A>(c.a[1])); const_Vector<TT, typename VK<TT, B>::V::block_type> w(V_<TT, B>(c.a[2])); M_<TT, R>(c.a[0]) = kron(sc<TT>(c.k, 0), v, w);}
  static void cs(Ctx &c) { cumsum<0>(V_<TT, A>(c.a[1]), V_<TT, B>(c.a[0]));}
  static int put()
  {
    reg(key("dot", A, B), dt); reg(key("dotx", A, B), dx);
    if (Cj<A, B>::on) { reg(key("cvjdot", A, B), Cj<A, B>::f); reg(key("cdot", A, B), Cj<A, B>::g); reg(key("dotc", A, B), Cj<A, B>::h);}
    reg(key("outer", A, B, R), ou); reg(key("kronv", A, B, R), kr); reg(key("kronc", A, B, R), krc); reg(key("cumv", A, -1, B), cs);
    return 0;
  }
};
template <int... I> void alld(Seq<I...>) { int x[] = {GD<I / NV, I % NV>::put()...}; (void)x;}

// --- one matrix: transposes, sums; kron of two
template <typename T, bool cx = Ctl<T>::cx> struct Mod { template <typename A> static Matrix<T> h(A a) { Matrix<T> r(a.size(1), a.size(0)); r = trans(a); return r;} };
template <int A, int R, bool cx = Ctl<TT>::cx> struct Hm { static bool const on = false; static void f(Ctx &) {}};
template <int A, int R> struct Hm<A, R, true> { static bool const on = true; static void f(Ctx &c) { M_<TT, R>(c.a[0]) = herm(M_<TT, A>(c.a[1]));}};
template <int A, int R> struct GM
{
  static int const B = (A + R) % NM;
  static void tr(Ctx &c) { M_<TT, R>(c.a[0]) = trans(M_<TT, A>(c.a[1]));}
  static void c0(Ctx &c) { cumsum<0>(M_<TT, A>(c.a[1]), M_<TT, R>(c.a[0]));}
  static void c1(Ctx &c) { cumsum<1>(M_<TT, A>(c.a[1]), M_<TT, R>(c.a[0]));}
  static void kr(Ctx &c) { M_<TT, R>(c.a[0]) = kron(sc<TT>(c.k, 0), M_<TT, A>(c.a[1]), M_<TT, B>(c.a[2]));}
  template <mat_op_type O> static void gs(Ctx &c) { gems<O>(sc<TT>(c.k, 0), M_<TT, A>(c.a[1]), sc<TT>(c.k, 1), M_<TT, R>(c.a[0]));}
  static int put()
  {
    reg(key("trans", A, -1, R), tr); reg(key("cum0", A, -1, R), c0); reg(key("cum1", A, -1, R), c1);
    reg(key("kronm", A, B, R), kr);
    if (Hm<A, R>::on) reg(key("herm", A, -1, R), Hm<A, R>::f);
    reg(key("gems0", A, -1, R), gs<mat_ntrans>); reg(key("gems1", A, -1, R), gs<mat_trans>);
    reg(key("gems2", A, -1, R), gs<mat_herm>); reg(key("gems3", A, -1, R), gs<mat_conj>);
    return 0;
  }
};
template <int... I> void allm(Seq<I...>) { int x[] = {GM<I / NM, I % NM>::put()...}; (void)x;}

// --- generalised product
template <int OO, int A, int B, bool on> struct GG
{
  static int const OA = OO / 4, OB = OO % 4, R = (A + B + OA + OB) % NM;
  static mat_op_type const ops(int o) { return o == 0 ? mat_ntrans : o == 1 ? mat_trans : o == 2 ? mat_herm : mat_conj;}
  template <int o> struct Op { static mat_op_type const v = o == 0 ? mat_ntrans : o == 1 ? mat_trans : o == 2 ? mat_herm : mat_conj;};
  static void f(Ctx &c) { gemp<Op<OA>::v, Op<OB>::v>(sc<TT>(c.k, 0), M_<TT, A>(c.a[1]), M_<TT, B>(c.a[2]), sc<TT>(c.k, 1), M_<TT, R>(c.a[0]));}
  static int put() { std::ostringstream s; s << "gemp" << OA << OB; reg(key(s.str(), A, B, R), f); return 0;}
};
template <int OO, int A, int B> struct GG<OO, A, B, false> { static int put() { return 0;}};
template <int OO, int... I> void allg(Seq<I...>)
{ int x[] = {GG<OO, I / NM, I % NM, (OO == 0 || (I / NM + 2 * (I % NM) + OO / 4 + OO % 4) % 3 == 0)>::put()...}; (void)x;}
template <int... I> void allgg(Seq<I...>) { int x[] = {(allg<I>(typename MkSeq<NM * NM>::type()), 0)...}; (void)x;}

// --- modulate: angles in quarter turns
template <typename T, int A, int B> struct Md
{
  typedef std::complex<typename Ctl<T>::real> CT_;
  static void f(Ctx &c)
  {
    typedef typename Ctl<T>::real R;
    R q = R(std::acos(-1.) / 2), nu = R(c.k[0]) * q, phi = R(c.k[2]) * q;
    R ret = modulate(V_<T, A>(c.a[1]), nu, phi, V_<CT_, B>(c.a[0]));
    c.y.push_back(enc_round(ret / q, 1e-3));
    // the inexact results are rounded here
    auto w = V_<CT_, B>(c.a[0]);
    for (index_type i = 0; i < w.size(); ++i)
    {
      CT_ x = w.get(i);
      ll re = enc_round(x.real(), 2e-2), im = enc_round(x.imag(), 2e-2);
      w.put(i, CT_(R(re), R(im)));
    }
  }
  static void put() { reg(key("modulate", A, -1, B, TC<T>::c), f);}
};
template <typename T> struct RealOf { typedef typename Ctl<T>::real type;};
template <typename T> void mods(std::true_type)
{ Md<T, 0, 0>::put(); Md<T, 1, 1>::put(); Md<T, 2, 2>::put(); Md<T, 3, 3>::put(); Md<T, 0, 3>::put(); Md<T, 3, 1>::put();
  typedef typename Ctl<T>::real R; Md<R, 0, 1>::put(); Md<R, 1, 0>::put(); Md<R, 2, 3>::put(); Md<R, 1, 2>::put();}
template <typename T> void mods(std::false_type) {}

// --- operands of different types
#if PART == 14
typedef std::complex<float> CF;
template <int A, int B> struct X
{
  static int const R = (A + B) % 6;
  static void p1(Ctx &c) { M_<CF, R>(c.a[0]) = prod(M_<float, A>(c.a[1]), M_<CF, B>(c.a[2]));}
  static void p2(Ctx &c) { M_<CF, R>(c.a[0]) = prod(M_<CF, B>(c.a[1]), M_<float, A>(c.a[2]));}
  static void t1(Ctx &c) { M_<CF, R>(c.a[0]) = prodt(M_<float, A>(c.a[1]), M_<CF, B>(c.a[2]));}
  static void mv(Ctx &c) { V_<CF, R % 4>(c.a[0]) = prod(M_<float, A>(c.a[1]), V_<CF, B % 4>(c.a[2]));}
  static void vm(Ctx &c) { V_<CF, R % 4>(c.a[0]) = prod(V_<float, A % 3>(c.a[2]), M_<CF, B>(c.a[1]));}
  static void dt(Ctx &c) { Enc<CF>::put(c.y, dot(V_<float, A % 3>(c.a[0]), V_<CF, B % 4>(c.a[1])));}
  static void w0(Ctx &c) { M_<CF, R>(c.a[0]) = vmmul<0>(V_<float, A % 3>(c.a[2]), M_<CF, B>(c.a[1]));}
  static void w1(Ctx &c) { M_<CF, R>(c.a[0]) = vmmul<1>(V_<CF, B % 4>(c.a[2]), M_<float, A>(c.a[1]));}
  static void gs(Ctx &c) { gems<mat_trans>(float(c.k[0]), M_<CF, B>(c.a[1]), float(c.k[2]), M_<CF, R>(c.a[0]));}
  static void dd(Ctx &c) { Enc<double>::put(c.y, dot(V_<float, A % 3>(c.a[0]), V_<double, B % 3>(c.a[1])));}
  static int put()
  {
    reg(key("prod", A, B, R, '1'), p1); reg(key("prod", B, A, R, '2'), p2); reg(key("prodt", A, B, R, '1'), t1);
    reg(key("mv", A, B % 4, R % 4, '1'), mv); reg(key("vm", B, A % 3, R % 4, '3'), vm); reg(key("dot", A % 3, B % 4, -1, '1'), dt);
    reg(key("vmmul0", B, A % 3, R, '3'), w0); reg(key("vmmul1", A, B % 4, R, '1'), w1); reg(key("gems1", B, -1, R, '4'), gs);
    reg(key("dot", A % 3, B % 3, -1, '5'), dd);
    return 0;
  }
};
template <int... I> void allx(Seq<I...>) { int x[] = {X<I / 6, I % 6>::put()...}; (void)x;}
#endif
}
void N_(parts_)()
{
  bool const cx = Ctl<TT>::cx; (void)cx;
#if PART <= 4
  A2<PROD, true>::put(); A2<PRODT, true>::put(); A2<PRODH, Ctl<TT>::cx>::put(); A2<PRODJ, Ctl<TT>::cx>::put();
  A2<PROD3, true, true>::put(); A2<PROD4, true, true>::put(); A2<PSUM, true, true>::put(); A2<PEXP, true, true>::put(); A2<PPROD, true, true>::put();
#elif PART <= 8
  allgg(MkSeq<16>::type());
#elif PART <= 12
  typedef MkSeq<NM * NV>::type MVs;
  allv<MV>(MVs()); allv<VM>(MVs()); allv<MV3>(MVs()); allv<MV4>(MVs()); allv<MVX>(MVs());
  allw<0>(MVs()); allw<1>(MVs());
  alld(MkSeq<NV * NV>::type());
  allm(MkSeq<NM * NM>::type());
  mods<TT>(std::integral_constant<bool, Ctl<TT>::cx>());
#elif PART == 13
  A2<PROD, true>::put(); A2<PRODT, true>::put(); A2<PROD3, true, true>::put();
  typedef MkSeq<NM * NV>::type MVs;
  allv<MV>(MVs()); allv<VM>(MVs()); allw<0>(MVs()); allw<1>(MVs());
  alld(MkSeq<NV * NV>::type()); allm(MkSeq<NM * NM>::type());
  allg<0>(MkSeq<NM * NM>::type()); allg<1>(MkSeq<NM * NM>::type());
#else
  allx(MkSeq<30>::type());
#endif
}
#if PART == 9 || PART == 10 || PART == 11 || PART == 12 || PART == 13
template <typename T, bool cx = Ctl<T>::cx> struct Zm { static Obj *m(length_type r, length_type c, Shape s) { return MK<T, Z>::mk(r, c, s);} static Obj *v(length_type n, Shape s) { return VK<T, VZ>::mk(n, s);}};
template <typename T> struct Zm<T, false> { static Obj *m(length_type, length_type, Shape) { return 0;} static Obj *v(length_type, Shape) { return 0;}};
Obj *N_(make_)(char t, bool mat, int cls, length_type r, length_type c, Shape s)
{
  if (t != TC<TT>::c) return 0;
  Obj *o = 0;
  if (mat) switch (cls)
  {
    case D: o = MK<TT, D>::mk(r, c, s); break;
    case C: o = MK<TT, C>::mk(r, c, s); break;
    case S: o = MK<TT, S>::mk(r, c, s); break;
    case U: o = MK<TT, U>::mk(r, c, s); break;
    case Q: o = MK<TT, Q>::mk(r, c, s); break;
    case Z: o = Zm<TT>::m(r, c, s); break;
  }
  else switch (cls)
  {
    case VD: o = VK<TT, VD>::mk(r, s); break;
    case VS: o = VK<TT, VS>::mk(r, s); break;
    case VC: o = VK<TT, VC>::mk(r, s); break;
    case VZ: o = Zm<TT>::v(r, s); break;
  }
  return o;
}
#else
Obj *N_(make_)(char, bool, int, length_type, length_type, Shape) { return 0;}
#endif
