// C12: IIR filter objects.
#include "forms.hpp"
#include <vsip/signal.hpp>
struct Obj
{
  virtual ~Obj() {}
  virtual Obj *copy() = 0;
  virtual void assign(Obj const &) = 0;
  virtual void reset() = 0;
  virtual void info(Vec &) = 0;
  virtual void call(char fi, char fo, Vec const &x, Ev &e) = 0;
};
template <typename T, obj_state C> struct ObjT : Obj
{
  typedef Iir<T, C> F;
  std::unique_ptr<F> f;
  ObjT(char fb, char fa, Vec const &b, Vec const &a, ll isz, bool &ok)
  {
    std::vector<T> bv = dec<T>(b), b0 = bv, av = dec<T>(a), a0 = av;
    bool ok2 = true;
    ok = with_mat_few<T>(fb, bv, bv.size() / 3, 3, [&](auto v) { ok2 = with_mat_few<T>(fa, av, av.size() / 2, 2, [&](auto w) { f.reset(new F(v, w, isz));});});
    ok = ok && ok2 && bv == b0 && av == a0;
  }
  ObjT(ObjT const &o) : f(new F(*o.f)) {}
  Obj *copy() { return new ObjT(*this);}
  void assign(Obj const &o) { *f = *static_cast<ObjT const &>(o).f;}
  void reset() { f->reset();}
  void info(Vec &r) { r.push_back(f->kernel_size()); r.push_back(f->filter_order()); r.push_back(f->input_size()); r.push_back(f->output_size());}
  void call(char fi, char fo, Vec const &x, Ev &e)
  {
    std::vector<T> xi = dec<T>(x), x0 = xi, y(xi.size(), Sent<T>::v()), ret;
    bool ok1, ok2 = true;
    if (fo == '=')       // in place
    {
      ok1 = with_vec<T>(fi, xi, [&](auto v) { rd((*f)(v, v), ret);});
      y = xi; x0 = xi;
    }
    else ok1 = with_vec<T>(fi, xi, [&](auto v) { ok2 = with_vec<T>(fo, y, [&](auto w) { rd((*f)(v, w), ret);});});
    e.v("y", enc(y)).v("ret", enc(ret)).b("intact", ok1 && ok2).b("same", xi == x0);
  }
};
template <typename T> Obj *mk(ll c, char fb, char fa, Vec const &b, Vec const &a, ll isz, bool &ok)
{ return c ? (Obj *)new ObjT<T, state_save>(fb, fa, b, a, isz, ok) : new ObjT<T, state_no_save>(fb, fa, b, a, isz, ok);}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Obj> > o;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); out(Ev("begin")); }
    else if (l.op == "mk")
    {
      char T = l.s()[0]; ll save = l.i(); char fb = l.s()[0], fa = l.s()[0]; Vec b = l.v(), a = l.v(); ll isz = l.i();
      bool ok = true; Obj *p = 0;
      switch (T)
      {
      case 'f': p = mk<float>(save, fb, fa, b, a, isz, ok); break;
      case 'd': p = mk<double>(save, fb, fa, b, a, isz, ok); break;
      case 'z': p = mk<std::complex<float> >(save, fb, fa, b, a, isz, ok); break;
      default: die("type");
      }
      o.emplace_back(p);
      Vec r; p->info(r);
      out(Ev("mk").b("cx", T == 'z').i("save", save).v("b", b).v("a", a).i("isz", isz).b("intact", ok).v("info", r));
    }
    else if (l.op == "copy") { ll a = l.i(); o.emplace_back(o[a]->copy()); out(Ev("copy").i("a", a)); }
    else if (l.op == "assign") { ll a = l.i(), b = l.i(); o[a]->assign(*o[b]); Vec r; o[a]->info(r); out(Ev("assign").i("a", a).i("b", b).v("info", r)); }
    else if (l.op == "reset") { ll a = l.i(); o[a]->reset(); out(Ev("reset").i("a", a)); }
    else if (l.op == "call")
    {
      ll a = l.i(); char fi = l.s()[0], fo = l.s()[0]; Vec x = l.v();
      Ev e("call"); e.i("a", a).v("x", x);
      o[a]->call(fi, fo, x, e);
      out(e);
    }
    else die("bad op " + l.op);
  }
}
