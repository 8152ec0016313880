#include "c20.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  parts_1(); parts_2(); parts_3(); parts_4(); parts_5(); parts_6(); parts_7(); parts_8(); parts_9(); parts_10(); parts_11(); parts_12(); parts_13(); parts_14();
  if (std::string(argv[1]) == "--list")   // the registered combinations, for the generator
  {
    for (auto const &p : table()) std::printf("%s\n", p.first.c_str());
    return 0;
  }
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Obj> > o;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); out(Ev("begin"));}
    else if (l.op == "mk")
    {
      char T = l.s()[0]; bool mat = l.i(); int cls = (int)l.i(); length_type r = l.i(), c = l.i();
      Shape s; s.s0 = (int)l.i(); s.s1 = (int)l.i(); Vec x = l.v();
      Obj *p = make_9(T, mat, cls, r, c, s);
      if (!p) p = make_10(T, mat, cls, r, c, s);
      if (!p) p = make_11(T, mat, cls, r, c, s);
      if (!p) p = make_12(T, mat, cls, r, c, s);
      if (!p) p = make_13(T, mat, cls, r, c, s);
      if (!p) die("object class");
      p->T = T; p->cls = (char)cls; p->mat = mat; p->r = r; p->c = c;
      p->set(x);
      o.emplace_back(p);
      Ev e("mk"); e.b("cx", T == 'c' || T == 'z').i("r", r).i("c", c).v("x", x);
      e.b("ok", p->get() == x);
      out(e);
    }
    else if (l.op == "set")
    {
      ll a = l.i(); Vec x = l.v(); o[a]->set(x);
      out(Ev("set").i("a", a).v("x", o[a]->get()));
    }
    else if (l.op == "call")
    {
      std::string f = l.s(); char T = l.s()[0]; Vec a = l.v(), k = l.v();
      bool scalar = f.find("dot") != std::string::npos;
      Ctx c; c.k = k;
      for (ll i : a) c.a.push_back(o[i].get());
      std::ostringstream key; key << f << ' ' << T;
      int A, B = -1, R = -1;
      if (scalar) { A = c.a[0]->cls; B = c.a[1]->cls;} else { R = c.a[0]->cls; A = c.a[1]->cls; if (c.a.size() > 2) B = c.a[2]->cls;}
      key << ' ' << A << ' ' << B << ' ' << R;
      auto i = table().find(key.str());
      if (i == table().end()) die("no function " + key.str());
      std::vector<Vec> vals, ar;
      for (auto &p : o) { vals.push_back(p->get()); ar.push_back(p->around());}
      i->second(c);
      bool intact = true;
      for (size_t j = 0; j < o.size(); ++j)
      {
        intact = intact && o[j]->around() == ar[j];
        if (scalar || (ll)j != a[0]) intact = intact && o[j]->get() == vals[j];
      }
      Ev e("call"); e.s("f", f.substr(0, 4) == "gemp" ? "gemp" : f).v("a", a).v("k", k).b("intact", intact).v("s", c.y).v("y", scalar ? c.y : o[a[0]]->get());
      out(e);
    }
    else die("bad op " + l.op);
  }
}
