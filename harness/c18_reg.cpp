#include "c18.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N_(x) CAT(x##_, PART)
template <dimension_type D> struct N_(Dm);
template <> struct N_(Dm)<1>
{
  static Domain<1> dom(length_type const *n) { return Domain<1>(n[0]);}
  template <typename T> struct V { typedef Vector<T> type;};
  template <typename T> static Vector<T> fresh(Domain<1> const &d) { return Vector<T>(d.size());}
  template <typename T, typename F> static bool all(char k, std::vector<T> &x, Domain<1> const &d, F f) { return with_vec_all<T>(k, x, f);}
  template <typename T, typename F> static bool few(char k, std::vector<T> &x, Domain<1> const &d, F f) { return with_vec_few<T>(k, x, f);}
};
template <> struct N_(Dm)<2>
{
  static Domain<2> dom(length_type const *n) { return Domain<2>(n[0], n[1]);}
  template <typename T> struct V { typedef Matrix<T> type;};
  template <typename T> static Matrix<T> fresh(Domain<2> const &d) { return Matrix<T>(d[0].size(), d[1].size());}
  template <typename T, typename F> static bool all(char k, std::vector<T> &x, Domain<2> const &d, F f) { return with_mat<T>(k, x, d[0].size(), d[1].size(), f);}
  template <typename T, typename F> static bool few(char k, std::vector<T> &x, Domain<2> const &d, F f) { return with_mat_few<T>(k, x, d[0].size(), d[1].size(), f);}
};
template <> struct N_(Dm)<3>
{
  static Domain<3> dom(length_type const *n) { return Domain<3>(n[0], n[1], n[2]);}
  template <typename T> struct V { typedef Tensor<T> type;};
  template <typename T> static Tensor<T> fresh(Domain<3> const &d) { return Tensor<T>(d[0].size(), d[1].size(), d[2].size());}
  template <typename T, typename F> static bool all(char k, std::vector<T> &x, Domain<3> const &d, F f)
  {
    length_type p = d[0].size(), q = d[1].size(), r = d[2].size();
    switch (k) { TFORM('0') TFORM('3') TFORM('5') TFORM('s') TFORM('t')}
    die("tensor form"); return false;
  }
  template <typename T, typename F> static bool few(char k, std::vector<T> &x, Domain<3> const &d, F f)
  {
    length_type p = d[0].size(), q = d[1].size(), r = d[2].size();
    switch (k) { TFORM('0') TFORM('4') TFORM('t')}
    die("tensor form"); return false;
  }
};
template <typename T> void N_(thou)(std::vector<T> const &y, Vec &v) { for (size_t i = 0; i < y.size(); ++i) v.push_back(enc_real(std::nearbyint(1000. * y[i])));}
template <typename T> void N_(thou)(std::vector<std::complex<T> > const &y, Vec &v)
{ for (size_t i = 0; i < y.size(); ++i) { v.push_back(enc_real(std::nearbyint(1000. * y[i].real()))); v.push_back(enc_real(std::nearbyint(1000. * y[i].imag())));}}

template <typename I, typename O> struct N_(InPlace)
{
  template <typename R, typename V> static void run(R &r, V v) { die("in place");}
  template <typename R, typename V> static void self(R &r, V v) { die("self");}
};
template <typename I> struct N_(InPlace)<I, I>
{
  template <typename R, typename V> static void run(R &r, V v) { r(v);}
  template <typename R, typename V> static void self(R &r, V v) { v = r(v);}
};
template <typename T> T N_(undef)() { return T(-77);}
template <dimension_type D, typename I, typename O, typename Val, typename Ref> struct N_(ObjT) : Obj
{
  typedef N_(Dm)<D> M;
  Val val; Ref ref; Domain<D> is, os; double sc;
  N_(ObjT)(Args const &a) : val(M::dom(a.n), a.scale), ref(M::dom(a.n), a.scale), is(ref.input_size()), os(ref.output_size()), sc(a.scale) {}
  void info(Ev &e)
  {
    Vec i, o; bool same = true;
    for (dimension_type d = 0; d < D; ++d)
    {
      i.push_back(D == 1 ? ref.input_size().size() : get(ref.input_size(), d).size());
      o.push_back(D == 1 ? ref.output_size().size() : get(ref.output_size(), d).size());
      same = same && get(val.input_size(), d) == get(ref.input_size(), d) && get(val.output_size(), d) == get(ref.output_size(), d);
      same = same && get(is, d).first() == 0 && get(is, d).stride() == 1 && get(os, d).first() == 0 && get(os, d).stride() == 1;
    }
    typedef typename Ctl<I>::real R;
    e.v("isz", i).v("osz", o).b("fwd", ref.forward()).b("fwdv", val.forward()).b("q", same && ref.scale() == R(sc) && val.scale() == R(sc));
  }
  static Domain<1> get(Domain<D> const &d, dimension_type i) { return d[i];}
  void call(char mode, char fin, char fout, Vec const &x, Vec const &x2, Ev &e)
  {
    std::vector<I> xi = dec<I>(x);
    std::vector<I> x0 = xi;
    std::vector<O> y(os.size(), N_(undef)<O>());
    bool ok = true, ok2 = true;
    if (mode == 'o') ok = M::template all<I>(fin, xi, is, [&](auto v) { ok2 = M::template few<O>(fout, y, os, [&](auto w) { ref(v, w);});});
    else if (mode == 'O') ok = M::template few<I>(fin, xi, is, [&](auto v) { ok2 = M::template all<O>(fout, y, os, [&](auto w) { ref(v, w);});});
    else if (mode == 'i')
    {
      ok = M::template all<I>(fin, xi, is, [&](auto v) { N_(InPlace)<I, O>::run(ref, v);});
      copy(xi, y); xi = x0;
    }
    else if (mode == 'v') ok = M::template all<I>(fin, xi, is, [&](auto v) { typename M::template V<O>::type w(M::template fresh<O>(os)); w = val(v); rd(w, y);});
    else if (mode == 'w') ok = M::template few<I>(fin, xi, is, [&](auto v) { auto w(val(v)); rd(w, y);});       // element by element
    else if (mode == 'a') ok = M::template few<I>(fin, xi, is, [&](auto v) { ok2 = M::template few<O>(fout, y, os, [&](auto w) { w = val(v);});});
    else if (mode == 'A')
    {
      ok = M::template few<I>(fin, xi, is, [&](auto v) { N_(InPlace)<I, O>::self(val, v);});
      copy(xi, y); xi = x0;
    }
    else if (mode == 's')
    {
      std::vector<I> xj = dec<I>(x2);
      std::vector<I> xj0 = xj;
      ok = M::template few<I>(fin, xi, is, [&](auto v) { ok2 = M::template few<I>(fin, xj, is, [&](auto u) {
        typename M::template V<O>::type w(M::template fresh<O>(os)); w = val(v) + val(u); rd(w, y);});});
      ok2 = ok2 && xj == xj0;
    }
    else if (mode == 'x') ok = M::template few<I>(fin, xi, is, [&](auto v) { ok2 = M::template few<O>(fout, y, os, [&](auto w) { ref(v + I(0), w);});});
    else if (mode == 'X') ok = M::template few<I>(fin, xi, is, [&](auto v) { ok2 = M::template few<O>(fout, y, os, [&](auto w) { w = val(I(1) * v) + O(0);});});
    else die("mode");
    Vec t; N_(thou)(y, t);
    e.b("intact", ok && ok2).b("same", xi == x0).v("y", t);
  }
  static void copy(std::vector<O> const &a, std::vector<O> &b) { b = a;}
  template <typename Z> static void copy(std::vector<Z> const &, std::vector<O> &) { die("in place");}
};
typedef ovxx::dispatcher::make_type_list<ovxx::dispatcher::be::generic>::type N_(Gen);
// NT: number-of-times argument of the reference flavour
template <template <typename, typename> class VW, typename I, typename O, int S, unsigned NT> Obj *N_(mkfft)(Args const &a)
{
  dimension_type const D = ovxx::dim_of_view<VW>::dim;
  if (a.be == 'g')
    return new N_(ObjT)<D, I, O, ovxx::signal::Fft<D, I, O, N_(Gen), S, by_value, 0>, ovxx::signal::Fft<D, I, O, N_(Gen), S, by_reference, 0> >(a);
  return new N_(ObjT)<D, I, O, Fft<VW, I, O, S, by_value, NT>, Fft<VW, I, O, S, by_reference, NT> >(a);
}
template <typename I, typename O, int A, int Dir, unsigned NT> Obj *N_(mkfftm)(Args const &a)
{
  if (a.be == 'g')
    return new N_(ObjT)<2, I, O, ovxx::signal::Fftm<I, O, N_(Gen), A, Dir, by_value, 0>, ovxx::signal::Fftm<I, O, N_(Gen), A, Dir, by_reference, 0> >(a);
  return new N_(ObjT)<2, I, O, Fftm<I, O, A, Dir, by_value, NT>, Fftm<I, O, A, Dir, by_reference, NT> >(a);
}
#define K1(name, VW, I, O, S, NT) if (a.kind == name) return N_(mkfft)<VW, I, O, S, NT>(a);
#define KM(name, I, O, A, Dr, NT) if (a.kind == name) return N_(mkfftm)<I, O, A, Dr, NT>(a);
typedef std::complex<float> CF; typedef std::complex<double> CD;
Obj *N_(make)(Args const &a)
{
#if PART == 1
  if (a.T == 'f') { K1("1rc0", const_Vector, float, CF, 0, 0) K1("1cr0", const_Vector, CF, float, 0, 0)}
#elif PART == 2
  if (a.T == 'f') { K1("1cf", const_Vector, CF, CF, fft_fwd, 0) K1("1ci", const_Vector, CF, CF, fft_inv, 0)}
#elif PART == 3
  if (a.T == 'd') { K1("1rc0", const_Vector, double, CD, 0, 15) K1("1cr0", const_Vector, CD, double, 0, 15)}
#elif PART == 4
  if (a.T == 'd') { K1("1cf", const_Vector, CD, CD, fft_fwd, 15) K1("1ci", const_Vector, CD, CD, fft_inv, 1)}
#elif PART == 5
  if (a.T == 'f') { K1("2rc0", const_Matrix, float, CF, 0, 0) K1("2rc1", const_Matrix, float, CF, 1, 0)}
#elif PART == 6
  if (a.T == 'd') { K1("2cr0", const_Matrix, CD, double, 0, 0) K1("2cr1", const_Matrix, CD, double, 1, 0)}
#elif PART == 7
  if (a.T == 'f') { K1("2cf", const_Matrix, CF, CF, fft_fwd, 0)}
  if (a.T == 'd') { K1("2ci", const_Matrix, CD, CD, fft_inv, 0)}
#elif PART == 8
  if (a.T == 'f') { KM("mrc0", float, CF, row, fft_fwd, 0) KM("mrc1", float, CF, col, fft_fwd, 0) }
#elif PART == 9
  if (a.T == 'd') { KM("mcr0", CD, double, row, fft_inv, 0) KM("mcr1", CD, double, col, fft_inv, 0) }
#elif PART == 10
  if (a.T == 'd') { KM("mcf0", CD, CD, row, fft_fwd, 0) KM("mcf1", CD, CD, col, fft_fwd, 0)}
  if (a.T == 'f') { KM("mci0", CF, CF, row, fft_inv, 0) KM("mci1", CF, CF, col, fft_inv, 0)}
#elif PART == 11
  if (a.T == 'f') { K1("3rc0", const_Tensor, float, CF, 0, 0) K1("3rc1", const_Tensor, float, CF, 1, 0) K1("3rc2", const_Tensor, float, CF, 2, 0) K1("3cf", const_Tensor, CF, CF, fft_fwd, 0)}
#elif PART == 12
  if (a.T == 'd') { K1("3cr0", const_Tensor, CD, double, 0, 0) K1("3cr1", const_Tensor, CD, double, 1, 0) K1("3cr2", const_Tensor, CD, double, 2, 0) K1("3ci", const_Tensor, CD, CD, fft_inv, 0)}
#endif
  return 0;
}
