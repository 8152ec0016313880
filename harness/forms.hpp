// Views of one content in many storage forms, with guard elements around them.
#ifndef forms_hpp_
#define forms_hpp_
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/dense.hpp>
#include <vsip/math.hpp>
#include <ovxx/strided.hpp>
#include <functional>
#include <cstring>
using namespace vsip;
using namespace vh;

template <typename T> struct Sent { static T v() { return T(99);}};
template <typename T> struct Sent<std::complex<T> > { static std::complex<T> v() { return std::complex<T>(T(99), T(-98));}};
template <> struct Sent<bool> { static bool v() { return true;}};

// element access in row-major order of the view
template <dimension_type D> struct At;
template <> struct At<1>
{
  template <typename V> static typename V::value_type get(V const &v, index_type p) { return v.get(p);}
  template <typename V, typename T> static void put(V v, index_type p, T x) { v.put(p, x);}
};
template <> struct At<2>
{
  template <typename V> static typename V::value_type get(V const &v, index_type p) { return v.get(p / v.size(1), p % v.size(1));}
  template <typename V, typename T> static void put(V v, index_type p, T x) { v.put(p / v.size(1), p % v.size(1), x);}
};
template <> struct At<3>
{
  template <typename V> static typename V::value_type get(V const &v, index_type p)
  { length_type a = v.size(1), b = v.size(2); return v.get(p / (a * b), p / b % a, p % b);}
  template <typename V, typename T> static void put(V v, index_type p, T x)
  { length_type a = v.size(1), b = v.size(2); v.put(p / (a * b), p / b % a, p % b, x);}
};
template <typename V> void rd(V const &v, std::vector<typename V::value_type> &o)
{ o.resize(v.size()); for (index_type i = 0; i < v.size(); ++i) o[i] = At<V::dim>::get(v, i);}
template <typename V> void wr(V v, std::vector<typename V::value_type> const &x)
{ for (index_type i = 0; i < v.size(); ++i) At<V::dim>::put(v, i, x[i]);}

// run f on the view w of base; vals: content before, and after
template <typename B, typename W, typename F>
bool guarded(B base, W w, std::vector<typename W::value_type> &vals, F f)
{
  typedef typename B::value_type T;
  T s = Sent<T>::v();
  for (index_type i = 0; i < base.size(); ++i) At<B::dim>::put(base, i, s);
  wr(w, vals);
  f(w);
  rd(w, vals);
  std::vector<T> keep;
  rd(w, keep);
  for (index_type i = 0; i < w.size(); ++i) At<W::dim>::put(w, i, typename W::value_type(s));
  bool ok = true;
  for (index_type i = 0; i < base.size(); ++i) ok = ok && At<B::dim>::get(base, i) == s;
  wr(w, vals);
  return ok;
}
template <typename T> struct SplitV { typedef ovxx::Strided<1, T, Layout<1, row1_type, dense, split_complex> > block; typedef Vector<T, block> view;};
template <typename T> struct SplitM { typedef ovxx::Strided<2, T, Layout<2, col2_type, dense, split_complex> > block; typedef Matrix<T, block> view;};
template <typename T> struct Ctl { static bool const cx = false; typedef T real;};
template <typename T> struct Ctl<std::complex<T> > { static bool const cx = true; typedef T real;};

// vector forms: d dense, s stride 2, n stride -2, c column of a row-major matrix, r row of a column-major one,
// z split complex, u user storage
template <typename T, char K> struct VF;
template <typename T> struct VF<T, 'd'> { template <typename F> static bool run(std::vector<T> &x, F f) { Vector<T> b(x.size()); return guarded(b, b, x, f);}};
template <typename T> struct VF<T, 's'> { template <typename F> static bool run(std::vector<T> &x, F f) { Vector<T> b(2 * x.size() + 3); return guarded(b, typename Vector<T>::subview_type(b(Domain<1>(1, 2, x.size()))), x, f);}};
template <typename T> struct VF<T, 'n'> { template <typename F> static bool run(std::vector<T> &x, F f) { Vector<T> b(2 * x.size() + 3); return guarded(b, typename Vector<T>::subview_type(b(Domain<1>(2 * x.size(), -2, x.size()))), x, f);}};
template <typename T> struct VF<T, 'c'> { template <typename F> static bool run(std::vector<T> &x, F f) { Matrix<T> b(x.size(), 3); return guarded(b, typename Matrix<T>::col_type(b.col(1)), x, f);}};
template <typename T> struct VF<T, 'r'> { template <typename F> static bool run(std::vector<T> &x, F f) { typedef Matrix<T, Dense<2, T, col2_type> > M; M b(4, x.size()); return guarded(b, typename M::row_type(b.row(2)), x, f);}};
template <typename T> struct VF<T, 'z'> { template <typename F> static bool run(std::vector<T> &x, F f) { typename SplitV<T>::view b(x.size()); return guarded(b, b, x, f);}};
template <typename T> struct VF<T, 'u'>
{
  template <typename F> static bool run(std::vector<T> &x, F f)
  {
    std::unique_ptr<T[]> p(new T[x.size() + 2]); T s = Sent<T>::v();
    p[0] = p[x.size() + 1] = s;
    Dense<1, T> blk(Domain<1>(x.size()), p.get() + 1); blk.admit(false);
    Vector<T> b(blk);
    bool ok = guarded(b, b, x, f);
    blk.release(true);
    for (size_t i = 0; i < x.size(); ++i) { T v = x[i]; ok = ok && std::memcmp(&p[i + 1], &v, sizeof(T)) == 0;} // unspecified contents may be NaN
    return ok && p[0] == s && p[x.size() + 1] == s;
  }
};
// matrix forms: d row-major, c column-major, s strided part of a row-major one, t transposed strided part,
// q part of a column-major one, z split complex
template <typename T, char K> struct MF;
template <typename T> struct MF<T, 'd'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { Matrix<T> b(r, c); return guarded(b, b, x, f);}};
template <typename T> struct MF<T, 'c'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { Matrix<T, Dense<2, T, col2_type> > b(r, c); return guarded(b, b, x, f);}};
template <typename T> struct MF<T, 's'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { typedef Matrix<T> M; M b(r + 2, 2 * c + 2); return guarded(b, typename M::subview_type(b(Domain<2>(Domain<1>(1, 1, r), Domain<1>(1, 2, c)))), x, f);}};
template <typename T> struct MF<T, 'q'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { typedef Matrix<T, Dense<2, T, col2_type> > M; M b(r + 2, c + 1); return guarded(b, typename M::subview_type(b(Domain<2>(Domain<1>(1, 1, r), Domain<1>(1, 1, c)))), x, f);}};
template <typename T> struct MF<T, 't'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { typedef Matrix<T> M; M b(c + 1, 2 * r + 2); typename M::subview_type s = b(Domain<2>(Domain<1>(1, 1, c), Domain<1>(0, 2, r))); return guarded(b, typename M::subview_type::transpose_type(s.transpose()), x, f);}};
template <typename T> struct MF<T, 'z'> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { typename SplitM<T>::view b(r, c); return guarded(b, b, x, f);}};

#define VFORM(T, k, x, f) case k: return VF<T, k>::run(x, f);
// all vector forms (heavy), or some
template <typename T, bool cx = Ctl<T>::cx> struct Vz { template <typename F> static bool run(std::vector<T> &x, F f) { return VF<T, 'd'>::run(x, f);}};
template <typename T> struct Vz<T, true> { template <typename F> static bool run(std::vector<T> &x, F f) { return VF<T, 'z'>::run(x, f);}};
template <typename T, typename F> bool with_vec(char k, std::vector<T> &x, F f)
{
  switch (k) { VFORM(T, 'd', x, f) VFORM(T, 's', x, f) VFORM(T, 'n', x, f) VFORM(T, 'c', x, f) case 'z': return Vz<T>::run(x, f);}
  die("vector form"); return false;
}
template <typename T, typename F> bool with_vec_all(char k, std::vector<T> &x, F f)
{
  switch (k) { VFORM(T, 'r', x, f) VFORM(T, 'u', x, f)}
  return with_vec(k, x, f);
}
template <typename T, typename F> bool with_vec_few(char k, std::vector<T> &x, F f)
{
  switch (k) { VFORM(T, 'd', x, f) VFORM(T, 's', x, f)}
  die("vector form"); return false;
}
template <typename T, bool cx = Ctl<T>::cx> struct Mz { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { return MF<T, 'c'>::run(x, r, c, f);}};
template <typename T> struct Mz<T, true> { template <typename F> static bool run(std::vector<T> &x, length_type r, length_type c, F f) { return MF<T, 'z'>::run(x, r, c, f);}};
#define MFORM(T, k) case k: return MF<T, k>::run(x, r, c, f);
template <typename T, typename F> bool with_mat(char k, std::vector<T> &x, length_type r, length_type c, F f)
{
  switch (k) { MFORM(T, 'd') MFORM(T, 'c') MFORM(T, 's') MFORM(T, 't') case 'z': return Mz<T>::run(x, r, c, f);}
  die("matrix form"); return false;
}
template <typename T, typename F> bool with_mat_few(char k, std::vector<T> &x, length_type r, length_type c, F f)
{
  switch (k) { MFORM(T, 'd') MFORM(T, 'c') MFORM(T, 's')}
  die("matrix form"); return false;
}
// tensor forms: 0..5 dense with each dimension order, s strided part, t transposed part
template <typename T, char K> struct TF;
#define TDENSE(k, a, b, c) template <typename T> struct TF<T, k> { template <typename F> static bool run(std::vector<T> &x, length_type p, length_type q, length_type r, F f) { Tensor<T, Dense<3, T, tuple<a, b, c> > > t(p, q, r); return guarded(t, t, x, f);}};
TDENSE('0', 0, 1, 2) TDENSE('1', 0, 2, 1) TDENSE('2', 1, 0, 2) TDENSE('3', 1, 2, 0) TDENSE('4', 2, 0, 1) TDENSE('5', 2, 1, 0)
template <typename T> struct TF<T, 's'> { template <typename F> static bool run(std::vector<T> &x, length_type p, length_type q, length_type r, F f)
{ typedef Tensor<T> M; M b(p + 1, 2 * q + 1, r + 2); return guarded(b, typename M::subview_type(b(Domain<3>(Domain<1>(1, 1, p), Domain<1>(1, 2, q), Domain<1>(1, 1, r)))), x, f);}};
template <typename T> struct TF<T, 't'> { template <typename F> static bool run(std::vector<T> &x, length_type p, length_type q, length_type r, F f)
{ typedef Tensor<T> M; M b(r, p + 1, q); typename M::subview_type s = b(Domain<3>(Domain<1>(0, 1, r), Domain<1>(1, 1, p), Domain<1>(q - 1, -1, q)));
  return guarded(b, typename M::subview_type::template transpose_view<1, 2, 0>::type(s.template transpose<1, 2, 0>()), x, f);}};
#define TFORM(k) case k: return TF<T, k>::run(x, p, q, r, f);
template <typename T, typename F> bool with_ten(char k, std::vector<T> &x, length_type p, length_type q, length_type r, F f)
{
  switch (k) { TFORM('0') TFORM('1') TFORM('2') TFORM('3') TFORM('4') TFORM('5') TFORM('s') TFORM('t')}
  die("tensor form"); return false;
}
// element lists in scripts and events: one integer per real number
template <typename T> std::vector<T> dec(Vec const &v) { std::vector<T> r; for (size_t i = 0; i + Enc<T>::n <= v.size(); i += Enc<T>::n) r.push_back(Enc<T>::get(&v[i])); return r;}
template <typename T> Vec enc(std::vector<T> const &x) { Vec v; for (size_t i = 0; i < x.size(); ++i) Enc<T>::put(v, T(x[i])); return v;}
#endif
