#include "c02.hpp"
void reg_1(Reg &); void reg_2(Reg &); void reg_3(Reg &); void reg_4(Reg &); void reg_5(Reg &); void reg_6(Reg &); void reg_7(Reg &); void reg_8(Reg &);
int main(int argc, char **argv)
{
  vsipl lib(argc, argv);
  Reg reg;
  reg_1(reg); reg_2(reg); reg_3(reg); reg_4(reg); reg_5(reg); reg_6(reg); reg_7(reg); reg_8(reg);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  std::vector<std::unique_ptr<Node> > nodes;
  while (read_line(is, l))
  {
    if (l.op == "begin")         // begin kind nd dims... v...
    {
      std::string k = l.s();
      if (!reg.count(k)) die("kind " + k);
      Vec d = l.v();
      nodes.clear();
      nodes.emplace_back(reg[k](d));
      Vec v = l.v();
      int nc = nodes[0]->nc();
      for (ll p = 0; p < nodes[0]->n(); ++p)
        nodes[0]->put(0, p, Vec(v.begin() + p * nc, v.begin() + (p + 1) * nc));
      out(Ev("begin").v("dims", nodes[0]->dims()).i("nc", nc).v("v", v).v("base", nodes[0]->read(0)));
    }
    else if (l.op == "sub")      // sub parent kind how na args...
    {
      ll p = l.i(); std::string k = l.s(); int how = (int)l.i(); Vec a = l.v(), peek;
      Node *s = nodes[p]->sub(k, a, how, peek);
      if (!s) die("no subview " + k);
      nodes.emplace_back(s);
      out(Ev("sub").i("parent", p + 1).s("kind", k).v("a", a).v("dims", s->dims()).i("nc", s->nc()).v("peek", peek));
    }
    else if (l.op == "read")
    {
      ll i = l.i(); int how = (int)l.i();
      out(Ev("read").i("id", i + 1).v("v", nodes[i]->read(how)).v("base", nodes[0]->read(0)));
    }
    else if (l.op == "put")      // put id how p nv v..
    {
      ll i = l.i(); int how = (int)l.i(); ll p = l.i(); Vec v = l.v();
      nodes[i]->put(how, p, v);
      out(Ev("put").i("id", i + 1).i("p", p).v("v", v).v("base", nodes[0]->read(0)));
    }
    else if (l.op == "fill")
    {
      ll i = l.i(); Vec v = l.v();
      nodes[i]->fill(v);
      out(Ev("fill").i("id", i + 1).v("v", v).v("base", nodes[0]->read(0)));
    }
    else if (l.op == "assign")
    {
      ll i = l.i(); int how = (int)l.i(); Vec v = l.v();
      nodes[i]->assign(how, v);
      out(Ev("assign").i("id", i + 1).v("v", v).v("base", nodes[0]->read(0)));
    }
    else die("op " + l.op);
  }
  return 0;
}
