#include "c19.hpp"
static Solver *make(How const &h)
{
#define MK_(k, c) if (h.kind == c) switch (h.T) { case 'f': return make_##k##_f(h); case 'd': return make_##k##_d(h); case 'c': return make_##k##_c(h); default: return make_##k##_z(h);}
  MK_(lu, 'l') MK_(ch, 'c') MK_(qr, 'q') MK_(sv, 's')
  die("kind"); return 0;
}
static void read_op(Line &l, Op &o)
{
  o.f = l.s(); o.tr = l.s()[0]; o.side = l.s()[0]; o.mode = l.s()[0]; o.kb = (int)l.i(); o.sb.s0 = (int)l.i(); o.sb.s1 = (int)l.i();
  o.br = l.i(); o.bc = l.i(); o.xr = l.i(); o.xc = l.i(); o.num = l.i(); o.b = l.v(); o.k = l.v();
  o.ok = true; o.intact = true;
}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Solver> > s;
  std::vector<bool> cx;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { s.clear(); cx.clear(); out(Ev("begin"));}
    else if (l.op == "mk")
    {
      How h; h.kind = l.s()[0]; h.T = l.s()[0]; h.mode = l.s()[0]; h.m = l.i(); h.n = l.i(); h.p = (int)l.i(); h.q = (int)l.i();
      s.emplace_back(make(h));
      cx.push_back(h.T == 'c' || h.T == 'z');
      Ev e("mk"); e.s("k", std::string(1, h.kind)).b("cx", cx.back()).i("m", h.m).i("n", h.n).i("p", h.p).i("q", h.q);
      s.back()->info(e); out(e);
    }
    else if (l.op == "copy") { ll a = l.i(); s.emplace_back(s[a]->copy()); cx.push_back(cx[a]); Ev e("copy"); e.i("s", a); s.back()->info(e); out(e);}
    else if (l.op == "assign") { ll a = l.i(), b = l.i(); s[a]->assign(s[b].get()); Ev e("assign"); e.i("s", a).i("from", b); s[a]->info(e); out(e);}
    else if (l.op == "free") { ll a = l.i(); s[a].reset(); out(Ev("free").i("s", a));}
    else if (l.op == "dec" || l.op == "call")
    {
      ll a = l.i(); Op o; read_op(l, o);
      if (l.op == "dec") s[a]->dec(o); else s[a]->call(o);
      out(Ev(l.op.c_str()).i("s", a).s("f", o.f).s("tr", std::string(1, o.tr)).s("side", std::string(1, o.side)).i("br", o.br).i("bc", o.bc).i("xr", o.xr).i("xc", o.xc)
          .i("num", o.num).v("b", o.b).v("k", o.k).b("ok", o.ok).b("intact", o.intact).v("x", o.x));
    }
    else if (l.op == "fn")
    {
      char T = l.s()[0]; Op o; read_op(l, o);
      switch (T) { case 'f': fn_f(o); break; case 'd': fn_d(o); break; case 'c': fn_c(o); break; default: fn_z(o);}
      out(Ev("fn").s("f", o.f).b("cx", T == 'c' || T == 'z').i("br", o.br).i("bc", o.bc).i("xr", o.xr).i("xc", o.xc).i("num", o.num).v("b", o.b).v("k", o.k).b("ok", o.ok).b("intact", o.intact).v("x", o.x));
    }
    else die("bad op " + l.op);
  }
}
