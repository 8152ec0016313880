// C08: element-wise expressions.
#include "forms.hpp"
#include <vsip/complex.hpp>
#include <vsip/selgen.hpp>
#include <ovxx/view/cast.hpp>
// one job: operation, operand lists, destination list; res is filled in
struct Job { int op; Vec d, a, b, c, r; std::vector<length_type> dims; std::string combo; bool ok;};
void ew1(Job &j);   // int vectors
void ew2(Job &j);   // int matrices
void ew3(Job &j);   // float vectors
void ew4(Job &j);   // float matrices
void ew5(Job &j);   // complex vectors
void ew6(Job &j);   // complex matrices
void ew7(Job &j);   // complex -> real, vectors and matrices
void ew8(Job &j);   // bool results and operands
void ew9(Job &j);   // conversions
void ew10(Job &j);  // tensors
void ew11(Job &j);  // double (generic loops; other alignment)
typedef std::vector<double> DV;
void trans(Line &l, Out &out);  // functions against their scalar counterparts
template <dimension_type D, char K> struct Form;
template <char K> struct Form<1, K> { template <typename T, typename F> static bool run(std::vector<T> &x, std::vector<length_type> const &, F f) { return VF<T, K>::run(x, f);}};
template <char K> struct Form<2, K> { template <typename T, typename F> static bool run(std::vector<T> &x, std::vector<length_type> const &d, F f) { return MF<T, K>::run(x, d[0], d[1], f);}};
template <char K> struct Form<3, K> { template <typename T, typename F> static bool run(std::vector<T> &x, std::vector<length_type> const &d, F f) { return TF<T, K>::run(x, d[0], d[1], d[2], f);}};
// run op on views of the given forms: destination of type R, operands of types A, B, C
template <dimension_type D, char KD, char KA, char KB, char KC, typename R, typename A, typename B, typename C, typename H>
void combo(Job &j, H h)
{
  std::vector<R> d = dec<R>(j.d); std::vector<A> a = dec<A>(j.a), a0 = a; std::vector<B> b = dec<B>(j.b), b0 = b; std::vector<C> c = dec<C>(j.c), c0 = c;
  bool o1 = true, o2 = true, o3 = true, o4;
  o4 = Form<D, KC>::run(c, j.dims, [&](auto vc) { o3 = Form<D, KB>::run(b, j.dims, [&](auto vb) { o2 = Form<D, KA>::run(a, j.dims, [&](auto va) {
    o1 = Form<D, KD>::run(d, j.dims, [&](auto vd) { h(j.op, vd, va, vb, vc);});});});});
  j.ok = o1 && o2 && o3 && o4 && a == a0 && b == b0 && c == c0;
  j.r = enc(d);
}
