#include "c08.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { out(Ev("begin")); continue;}
    if (l.op == "fn") { trans(l, out); continue;}
    if (l.op != "ew") die("bad op " + l.op);
    std::string g = l.s();
    Job j;
    j.op = l.i(); j.combo = l.s();
    Vec d = l.v(); j.dims.assign(d.begin(), d.end());
    j.d = l.v(); j.a = l.v(); j.b = l.v(); j.c = l.v(); j.ok = false;
    bool m = d.size() == 2;
    if (g == "T") ew10(j);
    else if (g == "i") m ? ew2(j) : ew1(j);
    else if (g == "f") m ? ew4(j) : ew3(j);
    else if (g == "z") m ? ew6(j) : ew5(j);
    else if (g == "r") ew7(j);
    else if (g == "b") ew8(j);
    else if (g == "v") ew9(j);
    else if (g == "d") ew11(j);
    else die("group " + g);
    out(Ev("ew").s("g", g).i("code", j.op).v("d", j.d).v("a", j.a).v("b", j.b).v("c", j.c).v("r", j.r).b("intact", j.ok).s("combo", j.combo));
  }
}
