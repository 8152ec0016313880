// C10: FIR filter objects.
#include "forms.hpp"
#include <vsip/signal.hpp>
struct Obj
{
  virtual ~Obj() {}
  virtual Obj *copy() = 0;
  virtual bool assign(Obj const &) = 0;
  virtual void reset() = 0;
  virtual void info(Vec &) = 0;
  virtual void call(char fi, char fo, Vec const &x, Ev &e) = 0;
};
template <typename T, symmetry_type S, obj_state C> struct ObjT : Obj
{
  typedef Fir<T, S, C> F;
  std::unique_ptr<F> f; 
  ObjT(char fk, Vec const &k, ll isz, ll dec_, bool &ok)
  {
    std::vector<T> kv = dec<T>(k), kv0 = kv;
    ok = with_vec_few<T>(fk, kv, [&](auto v) { f.reset(dec_ == 1 && isz % 2 ? new F(v, isz) : new F(v, isz, dec_));}) && kv == kv0;
  }
  ObjT(ObjT const &o) : f(new F(*o.f)) {}
  Obj *copy() { return new ObjT(*this);}
  bool assign(Obj const &o) { *f = *static_cast<ObjT const &>(o).f; return true;}
  void reset() { f->reset();}
  void info(Vec &r) { r.push_back(f->kernel_size()); r.push_back(f->filter_order()); r.push_back(f->input_size()); r.push_back(f->output_size()); r.push_back(f->decimation()); r.push_back(f->continuous_filtering() == state_save);}
  void call(char fi, char fo, Vec const &x, Ev &e)
  {
    std::vector<T> xi = dec<T>(x), x0 = xi, y(f->output_size(), Sent<T>::v());
    length_type n = 0;
    bool ok2 = true;
    bool ok1 = with_vec<T>(fi, xi, [&](auto v) { ok2 = with_vec<T>(fo, y, [&](auto w) { n = (*f)(v, w);});});
    if (n > y.size()) die("too many outputs");
    y.resize(n);
    e.i("n", n).v("y", enc(y)).b("intact", ok1 && ok2).b("same", xi == x0);
  }
};
template <typename T, obj_state C> Obj *mk2(ll s, char fk, Vec const &k, ll isz, ll d, bool &ok)
{
  switch (s) { case 0: return new ObjT<T, nonsym, C>(fk, k, isz, d, ok); case 1: return new ObjT<T, sym_even_len_odd, C>(fk, k, isz, d, ok);
  default: return new ObjT<T, sym_even_len_even, C>(fk, k, isz, d, ok);}
}
template <typename T> Obj *mk1(ll c, ll s, char fk, Vec const &k, ll isz, ll d, bool &ok)
{ return c ? mk2<T, state_save>(s, fk, k, isz, d, ok) : mk2<T, state_no_save>(s, fk, k, isz, d, ok);}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Obj> > o; std::vector<char> ty; 
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); ty.clear(); out(Ev("begin")); }
    else if (l.op == "mk")
    {
      char T = l.s()[0]; ll sym = l.i(), save = l.i(); char fk = l.s()[0]; Vec k = l.v(); ll isz = l.i(), d = l.i();
      bool ok = true; Obj *p = 0;
      switch (T)
      {
      case 'f': p = mk1<float>(save, sym, fk, k, isz, d, ok); break;
      case 'd': p = mk1<double>(save, sym, fk, k, isz, d, ok); break;
      case 'z': p = mk1<std::complex<float> >(save, sym, fk, k, isz, d, ok); break;
      default: die("type");
      }
      o.emplace_back(p);
      Vec r; p->info(r);
      out(Ev("mk").b("cx", T == 'z').i("sym", sym).i("save", save).v("k", k).i("isz", isz).i("dec", d).b("intact", ok).v("info", r));
    }
    else if (l.op == "copy") { ll a = l.i(); o.emplace_back(o[a]->copy()); out(Ev("copy").i("a", a)); }
    else if (l.op == "assign") { ll a = l.i(), b = l.i(); o[a]->assign(*o[b]); Vec r; o[a]->info(r); out(Ev("assign").i("a", a).i("b", b).v("info", r)); }
    else if (l.op == "reset") { ll a = l.i(); o[a]->reset(); out(Ev("reset").i("a", a)); }
    else if (l.op == "drop") { ll a = l.i(); o[a].reset(); out(Ev("drop").i("a", a)); }
    else if (l.op == "call")
    {
      ll a = l.i(); char fi = l.s()[0], fo = l.s()[0]; Vec x = l.v();
      Ev e("call"); e.i("a", a).v("x", x);
      o[a]->call(fi, fo, x, e);
      out(e);
    }
    else die("bad op " + l.op);
  }
}
