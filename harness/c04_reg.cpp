#include "c04.hpp"
#if PART == 7
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#endif
#if PART == 0
Made make_0(char m, length_type n, ll k) { return make<Vector<int> >(m, n, k);}
#elif PART == 1
Made make_1(char m, length_type n, ll k) { return make<Vector<complex<float> > >(m, n, k);}
#elif PART == 2
Made make_2(char m, length_type n, ll k) { return make<Matrix<float> >(m, n, k);}
#elif PART == 3
typedef ovxx::Strided<2, complex<double>, Layout<2, col2_type, dense, split_complex> > split_block;
Made make_3(char m, length_type n, ll k) { return make<Matrix<complex<double>, split_block> >(m, n, k);}
#elif PART == 4
Made make_4(char m, length_type n, ll k) { return make<Tensor<int, Dense<3, int, tuple<2, 0, 1> > > >(m, n, k);}
#elif PART == 5
typedef Dense<1, float, row1_type, Map<Block_dist> > dist_block;
Made make_5(char m, length_type n, ll k)
{
  Map<Block_dist> map(1);
  typedef Vector<float, dist_block> V;
  V v = m == 'v' ? V(n, float(k), map) : V(n, map);
  if (m == 'l') v = float(k);
  Made r = {wrap<2>(v), (ll)(n * sizeof(float))};
  return r;
}
#elif PART == 6
// user storage
typedef Dense<1, complex<float> > ublock;
struct UH : VH<Vector<complex<float>, ublock>, 2>
{
  typedef Vector<complex<float>, ublock> V;
  typedef VH<V, 2> base;
  struct Mem
  {
    std::vector<complex<float> > a;
    std::vector<float> f, g;
  };
  std::shared_ptr<std::vector<std::unique_ptr<Mem> > > mem; 
  UH(V const &v, std::shared_ptr<std::vector<std::unique_ptr<Mem> > > m) : base(v), mem(m) {}
  H *copy() const { return new UH(v, mem);}
  static Mem *fresh_mem(length_type n, ll k)
  {
    Mem *m = new Mem;
    m->a.assign(n, El<complex<float> >::v(k)); m->f.assign(2 * n, 0); m->g.assign(n, k + 7);
    for (length_type i = 0; i < n; ++i) { m->f[2 * i] = k; m->f[2 * i + 1] = k + 7;}
    return m;
  }
  bool rebind(ll k)
  {
    length_type n = v.size();
    mem->emplace_back(fresh_mem(n, k));
    Mem &m = *mem->back();
    ublock &b = v.block();
    b.release(false);
    if (b.user_storage() == array_format) b.rebind(&m.a[0]);
    else if (b.user_storage() == interleaved_format) b.rebind(&m.f[0]);
    else { for (auto &x : m.f) x = k; b.rebind(&m.f[0], &m.g[0]);}
    b.admit(true);
    return true;
  }
};
Made make_6(char m, length_type n, ll k)
{
  auto mem = std::make_shared<std::vector<std::unique_ptr<UH::Mem> > >();
  kept.push_back(mem);
  mem->emplace_back(UH::fresh_mem(n, k));
  UH::Mem &x = *mem->back();
  ublock *b;
  if (m == 'v') b = new ublock(n, &x.a[0]);
  else if (m == 'l') b = new ublock(n, &x.f[0]);
  else { for (auto &y : x.f) y = k; b = new ublock(n, &x.f[0], &x.g[0]);}
  UH::V v(*b);
  b->decrement_count();
  v.block().admit(true);
  Made r = {new UH(v, mem), -1};
  return r;
}
#elif PART == 7
// objects that keep storage of their own
template <typename O, typename F> struct OH : H
{
  std::shared_ptr<O> o; F f;
  OH(O *x, F g) : o(x), f(g) {}
  OH(std::shared_ptr<O> const &x, F g) : o(x), f(g) {}
  // convolution and correlation objects declare copying but do not define it
  template <typename P> struct copies { static bool const value = std::is_copy_constructible<P>::value;};
  template <template <typename, typename> class V, symmetry_type S, support_region_type R, typename T, unsigned N, alg_hint_type A> struct copies<Convolution<V, S, R, T, N, A> > { static bool const value = false;};
  template <template <typename, typename> class V, support_region_type R, typename T, unsigned N, alg_hint_type A> struct copies<Correlation<V, R, T, N, A> > { static bool const value = false;};
  template <typename P> static typename std::enable_if<copies<P>::value, H *>::type dup(std::shared_ptr<P> const &x, F f) { return new OH(new P(*x), f);}
  template <typename P> static typename std::enable_if<!copies<P>::value, H *>::type dup(std::shared_ptr<P> const &x, F f) { return new OH(x, f);}
  H *copy() const { return dup(o, f);}
  bool use() { return f(*o);}
};
template <typename O, typename F> H *obj(O *o, F f) { return new OH<O, F>(o, f);}
template <typename T> Matrix<T> spd(length_type n) { Matrix<T> m(n, n, T(1)); m.diag() = T(n + 1); return m;}
Made make_7(char m, length_type n, ll)
{
  Made r = {0, 0};
  length_type const N = 4 * n;
  switch (m)
  {
    case 'a': r.h = obj(new Fft<const_Vector, complex<float>, complex<float>, fft_fwd, by_value>(Domain<1>(N), 1.f),
                        [N](Fft<const_Vector, complex<float>, complex<float>, fft_fwd, by_value> &f) { Vector<complex<float> > x(N, complex<float>(1)); Vector<complex<float> > y = f(x); return std::abs(y.get(0) - complex<float>(N)) < .01;}); break;
    case 'b': r.h = obj(new Fft<const_Vector, double, complex<double>, 0, by_reference>(Domain<1>(N), 1.),
                        [N](Fft<const_Vector, double, complex<double>, 0, by_reference> &f) { Vector<double> x(N, 1.); Vector<complex<double> > y(N / 2 + 1); f(x, y); return std::abs(y.get(0) - complex<double>(N)) < .01;}); break;
    case 'c': r.h = obj(new Fftm<complex<float>, complex<float>, row, fft_fwd, by_value>(Domain<2>(3, N), 1.f),
                        [N](Fftm<complex<float>, complex<float>, row, fft_fwd, by_value> &f) { Matrix<complex<float> > x(3, N, complex<float>(1)); Matrix<complex<float> > y = f(x); return std::abs(y.get(2, 0) - complex<float>(N)) < .01;}); break;
    case 'd': r.h = obj(new Fir<float, nonsym, state_save>(Vector<float>(n + 2, 1.f), 8 * n, 2),
                        [n](Fir<float, nonsym, state_save> &f) { Vector<float> x(8 * n, 1.f), y(4 * n); f(x, y); return y.get(4 * n - 1) > 0;}); break;
    case 'e': r.h = obj(new Convolution<const_Vector, nonsym, support_same, float>(Vector<float>(3, 1.f), Domain<1>(N), 1),
                        [N](Convolution<const_Vector, nonsym, support_same, float> &f) { Vector<float> x(N, 1.f), y(N); f(x, y); return y.get(1) == 3;}); break;
    case 'f': r.h = obj(new Correlation<const_Vector, support_min, float>(Domain<1>(3), Domain<1>(N)),
                        [N](Correlation<const_Vector, support_min, float> &f) { Vector<float> x(N, 1.f), k(3, 1.f), y(N - 2); f(biased, k, x, y); return y.get(0) > .99;}); break;
    case 'g': r.h = obj(new lud<float, by_value>(n), [n](lud<float, by_value> &f) { Matrix<float> a = spd<float>(n), b(n, 2, 1.f); f.decompose(a); Matrix<float> x = f.solve<mat_ntrans>(b); return x.get(0, 0) > 0;}); break;
    case 'h': r.h = obj(new qrd<double, by_value>(n + 1, n, qrd_saveq), [n](qrd<double, by_value> &f) { Matrix<double> a(n + 1, n, 1.); a.diag() = 5; f.decompose(a); Matrix<double> b(n + 1, 2, 1.), x = f.lsqsol(b); return x.size(0) == n;}); break;
    case 'i': r.h = obj(new svd<float, by_value>(n + 1, n, svd_uvpart, svd_uvfull), [n](svd<float, by_value> &f) { Matrix<float> a(n + 1, n, 1.f); a.diag() = 5; Vector<float> s = f.decompose(a); return s.size() == n;}); break;
    case 'j': r.h = obj(new chold<complex<float>, by_value>(upper, n), [n](chold<complex<float>, by_value> &f) { Matrix<complex<float> > a = spd<complex<float> >(n), b(n, 1, complex<float>(1)); f.decompose(a); Matrix<complex<float> > x = f.solve(b); return x.size(0) == n;}); break;
    case 'k': r.h = obj(new Histogram<const_Vector, float>(0.f, 8.f, n + 2), [n](Histogram<const_Vector, float> &f) { Vector<float> x(5, 1.f); Vector<int> y = f(x); return y.size() == n + 2;}); break;
    case 'l': r.h = obj(new Iir<float, state_save>(Matrix<float>(2, 3, 1.f), Matrix<float>(2, 2, 0.f), N), [N](Iir<float, state_save> &f) { Vector<float> x(N, 1.f), y(N); f(x, y); return y.get(0) >= 1;}); break;
    default: break;
  }
  return r;
}
#elif PART == 8
Made make_8(char m, length_type n, ll k) { return make<Matrix<int, Dense<2, int, col2_type> > >(m, n, k);}
#endif
