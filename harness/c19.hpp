// C19: solver objects (LU, Cholesky, QR, SVD) and the function forms, over element types and kinds of storage.
#ifndef c19_hpp_
#define c19_hpp_
#include "c20.hpp"
#include <vsip/solvers.hpp>
// what one operation got and gave
struct Op
{
  std::string f; char tr, side, mode;  // tr: n t h; side: l r; mode: r by reference, v by value
  int kb; Shape sb;                    // kind of storage of the operand; the result's follows from it
  length_type br, bc, xr, xc;
  Vec b, k; ll num;                    // operand, parameters, results are logged as multiples of 1/num
  bool ok, intact; Vec x;
};
struct Solver
{
  virtual ~Solver() {}
  virtual Solver *copy() const = 0;
  virtual void assign(Solver const *) = 0;
  virtual void info(Ev &) const = 0;
  virtual void dec(Op &) = 0;          // the matrix is the operand
  virtual void call(Op &) = 0;
};
struct How { char kind, T, mode; length_type m, n; int p, q;};
template <typename T> ll fix(T v, ll num, double tol) { return enc_round((double)v * num, tol);}
// exact results must be within 1/8 of an integer; others are rounded to the nearest multiple of 1/num
template <typename V> Vec result(V const &v, ll num)
{
  typedef typename V::value_type T;
  std::vector<T> x; rd(v, x);
  Vec r;
  double tol = num == 1 ? .125 : 1;
  for (size_t i = 0; i < x.size(); ++i)
  {
    r.push_back(fix(std::real(x[i]), num, tol));
    if (Ctl<T>::cx) r.push_back(fix(std::imag(x[i]), num, tol));
  }
  return r;
}
// f(operand, result) on views of the kinds K and (K + 2) % number of kinds
template <typename T, int K, typename F> void with_bx(Op &o, F f)
{
  int const NM = Ctl<T>::cx ? 6 : 5;
  int const X = (K + 2) % NM;
  std::unique_ptr<Obj> b(MK<T, K>::mk(o.br, o.bc, o.sb)), x(MK<T, X>::mk(o.xr, o.xc, o.sb));
  b->set(o.b);
  Vec ab = b->around(), ax = x->around(), bb = b->get();
  o.ok = f(M_<T, K>(b.get()), M_<T, X>(x.get()));
  o.intact = b->around() == ab && x->around() == ax && b->get() == bb;
  o.x = result(M_<T, X>(x.get()), o.num);
}
template <typename T, typename F, bool cx = Ctl<T>::cx> struct Zb { static void go(Op &, F) { die("kind of storage");}};
template <typename T, typename F> struct Zb<T, F, true> { static void go(Op &o, F f) { with_bx<T, Z>(o, f);}};
template <typename T, typename F> void dispatch_bx(Op &o, F f)
{
  switch (o.kb)
  {
    case D: with_bx<T, D>(o, f); break;
    case C: with_bx<T, C>(o, f); break;
    case S: with_bx<T, S>(o, f); break;
    case U: with_bx<T, U>(o, f); break;
    case Q: with_bx<T, Q>(o, f); break;
    default: Zb<T, F>::go(o, f);
  }
}
Solver *make_lu(How const &), *make_ch(How const &), *make_qr(How const &), *make_sv(How const &);
void fn_call(char T, Op &o);
#define SOLVER_(k, t) Solver *make_##k##_##t(How const &);
SOLVER_(lu, f) SOLVER_(lu, d) SOLVER_(lu, c) SOLVER_(lu, z) SOLVER_(ch, f) SOLVER_(ch, d) SOLVER_(ch, c) SOLVER_(ch, z)
SOLVER_(qr, f) SOLVER_(qr, d) SOLVER_(qr, c) SOLVER_(qr, z) SOLVER_(sv, f) SOLVER_(sv, d) SOLVER_(sv, c) SOLVER_(sv, z)
void fn_f(Op &); void fn_d(Op &); void fn_c(Op &); void fn_z(Op &);
#endif
