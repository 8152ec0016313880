#include "c18.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Obj> > o;
  Line l;
  Obj *(*mk[])(Args const &) = {make_1, make_2, make_3, make_4, make_5, make_6, make_7, make_8, make_9, make_10, make_11, make_12};
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); out(Ev("begin"));}
    else if (l.op == "mk")
    {
      Args a; a.kind = l.s(); a.T = l.s()[0]; a.be = l.s()[0];
      ll n[3]; for (int i = 0; i < 3; ++i) a.n[i] = n[i] = l.i();
      ll num = l.i(), den = l.i();
      a.scale = (double)num / den;
      Obj *p = 0;
      for (int i = 0; i < 12 && !p; ++i) p = mk[i](a);
      if (!p) die("kind " + a.kind);
      o.emplace_back(p);
      Ev e("mk"); e.s("k", a.kind).v("n", Vec(n, n + 3)).i("num", num).i("den", den);
      p->info(e);
      out(e);
    }
    else if (l.op == "call")
    {
      ll a = l.i(); char m = l.s()[0], f = l.s()[0], g = l.s()[0]; Vec x = l.v(), x2 = l.v();
      Ev e("call"); e.i("a", a).s("m", std::string(1, m)).v("x", x).v("x2", x2);
      o[a]->call(m, f, g, x, x2, e);
      out(e);
    }
    else die("bad op " + l.op);
  }
}
