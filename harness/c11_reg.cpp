#include "c11.hpp"
#include <vsip/impl/signal/conv.hpp>
#include <vsip/impl/signal/corr.hpp>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(x##_, PART)
// 1 float, 2 complex float, 3 int vectors; 4 float, 5 complex double matrices
#if PART == 1
typedef float TT; int const DD = 1;
#elif PART == 2
typedef std::complex<float> TT; int const DD = 1;
#elif PART == 3
typedef int TT; int const DD = 1;
#elif PART == 4
typedef float TT; int const DD = 2;
#elif PART == 5
typedef std::complex<double> TT; int const DD = 2;
#endif
template <int D> struct N(Dim);
template <> struct N(Dim)<1>
{
  static Domain<1> dom(Vec const &d) { return Domain<1>(d[0]);}
  template <typename F> static bool in(char f, std::vector<TT> &x, Vec const &, F g)
  {
#if PART == 3
    return with_vec_few<TT>(f, x, g);
#else
    return with_vec<TT>(f, x, g);
#endif
  }
  template <typename F> static bool some(char f, std::vector<TT> &x, Vec const &, F g)
  {
#if PART == 2
    switch (f) { case 'n': return VF<TT, 'n'>::run(x, g); case 'z': return VF<TT, 'z'>::run(x, g);}
    die("form"); return false;
#else
    return with_vec_few<TT>(f, x, g);
#endif
  }
};
template <> struct N(Dim)<2>
{
  static Domain<2> dom(Vec const &d) { return Domain<2>(d[0], d[1]);}
  template <typename F> static bool in(char f, std::vector<TT> &x, Vec const &d, F g)
  {
#if PART == 5
    switch (f) { case 'c': return MF<TT, 'c'>::run(x, d[0], d[1], g); case 's': return MF<TT, 's'>::run(x, d[0], d[1], g); case 'z': return MF<TT, 'z'>::run(x, d[0], d[1], g);}
    die("form"); return false;
#else
    return with_mat<TT>(f, x, d[0], d[1], g);
#endif
  }
  template <typename F> static bool some(char f, std::vector<TT> &x, Vec const &d, F g)
  { switch (f) { case 's': return MF<TT, 's'>::run(x, d[0], d[1], g); case 't': return MF<TT, 't'>::run(x, d[0], d[1], g);} die("form"); return false;}
};
template <dimension_type D> Vec N(sizes)(Domain<D> const &d) { Vec r; for (dimension_type i = 0; i < D; ++i) r.push_back(d[i].size()); return r;}
template <int D> struct N(V);
template <> struct N(V)<1> { template <typename T, typename B> struct t { typedef const_Vector<T, B> type;};};
typedef N(Dim)<DD> N(DM);
#if PART == 1 || PART == 2 || PART == 3
#define CV const_Vector
#else
#define CV const_Matrix
#endif
size_t N(total)(Vec const &d) { size_t n = 1; for (size_t i = 0; i < d.size(); ++i) n *= d[i]; return n;}
// line: sym sup dec coefdims coefs indims ncalls (inform outform values)*
template <symmetry_type S, support_region_type R> struct N(Conv)
{
  Line *l; Out *out; char const *sym, *sup;
  template <typename C> void operator()(C co) const
  {
    typedef Convolution<CV, S, R, TT> Obj;
    length_type dec = l->i();
    Vec d = l->v();
    std::vector<TT> cv; rd(co, cv);
    Vec cd; for (dimension_type i = 0; i < DD; ++i) cd.push_back(co.size(i));
    Obj obj(co, N(DM)::dom(d), dec);
    Vec od = N(sizes)(obj.output_size()), kd = N(sizes)(obj.kernel_size()), id = N(sizes)(obj.input_size());
    // the object keeps its own kernel
    for (index_type i = 0; i < co.size(); ++i) At<DD>::put(co, i, TT(77));
    int calls = l->i();
    for (int k = 0; k < calls; ++k)
    {
      char fi = l->s()[0], fo = l->s()[0];
      std::vector<TT> x = dec_(l->v()), x0 = x, y(N(total)(od), TT(5));
      bool ok2 = true;
      bool ok = N(DM)::in(fi, x, d, [&](auto in) {
        ok2 = N(DM)::some(fo, y, od, [&](auto o) { obj(in, o);});});
      (*out)(Ev("conv").s("sym", sym).s("sup", sup).i("dec", dec).i("decq", obj.decimation()).i("w", Enc<TT>::n).v("cd", cd).v("c", enc(cv)).v("d", d)
        .v("x", enc(x0)).v("xa", enc(x)).v("y", enc(y)).v("od", od).v("kd", kd).v("id", id).b("intact", ok && ok2));
    }
    for (index_type i = 0; i < co.size(); ++i) At<DD>::put(co, i, cv[i]);
  }
  static std::vector<TT> dec_(Vec const &v) { return dec<TT>(v);}
};
template <symmetry_type S, support_region_type R> void N(conv)(Line &l, Out &out, char const *sym, char const *sup, char f, Vec const &cd, std::vector<TT> &c)
{
  N(Conv)<S, R> g; g.l = &l; g.out = &out; g.sym = sym; g.sup = sup;
#if PART <= 3
  with_vec_few<TT>(f, c, g);
#else
  switch (f) { case 'd': MF<TT, 'd'>::run(c, cd[0], cd[1], g); break; case 's': MF<TT, 't'>::run(c, cd[0], cd[1], g); break; default: die("form");}
#endif
}
template <support_region_type R> void N(corr)(Line &l, Out &out, char const *sup, Vec const &rd_, std::vector<TT> const &)
{
  typedef Correlation<CV, R, TT> Obj;
  Vec d = l.v();
  Obj obj(N(DM)::dom(rd_), N(DM)::dom(d));
  Vec od = N(sizes)(obj.output_size()), kd = N(sizes)(obj.reference_size()), id = N(sizes)(obj.input_size());
  int calls = l.i();
  for (int k = 0; k < calls; ++k)
  {
    char fr = l.s()[0], fi = l.s()[0], fo = l.s()[0];
    bool unb = l.i();
    std::vector<TT> r = dec<TT>(l.v()), r0 = r, x = dec<TT>(l.v()), x0 = x, y(N(total)(od), TT(5));
    bool ok2 = true, ok3 = true;
    bool ok = N(DM)::in(fi, x, d, [&](auto in) {
      ok2 = N(DM)::some(fr, r, rd_, [&](auto ref) {
        ok3 = N(DM)::some(fo, y, od, [&](auto o) { obj(unb ? unbiased : biased, ref, in, o);});});});
    out(Ev("corr").s("sup", sup).b("unb", unb).i("w", Enc<TT>::n).v("cd", rd_).v("c", enc(r0)).v("ca", enc(r)).v("d", d)
      .v("x", enc(x0)).v("xa", enc(x)).v("y", enc(y)).v("od", od).v("kd", kd).v("id", id).b("intact", ok && ok2 && ok3));
  }
}
#define CONV CAT(conv_, PART)
#define CORR CAT(corr_, PART)
void CONV(Line &l, Out &out)
{
  std::string sym = l.s(), sup = l.s();
  char f = l.s()[0];
  Vec cd = l.v();
  std::vector<TT> c = dec<TT>(l.v());
#define SY(a, A, b, B) if (sym == a && sup == b) { N(conv)<A, B>(l, out, a, b, f, cd, c); return;}
#define SU(a, A) SY(a, A, "full", support_full) SY(a, A, "same", support_same) SY(a, A, "min", support_min)
  SU("nonsym", nonsym) SU("odd", sym_even_len_odd) SU("even", sym_even_len_even)
  die("convolution");
}
void CORR(Line &l, Out &out)
{
  std::string sup = l.s();
  Vec d = l.v();
  std::vector<TT> none;
  if (sup == "full") N(corr)<support_full>(l, out, "full", d, none);
  else if (sup == "same") N(corr)<support_same>(l, out, "same", d, none);
  else if (sup == "min") N(corr)<support_min>(l, out, "min", d, none);
  else die("correlation");
}
