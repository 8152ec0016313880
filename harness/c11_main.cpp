#include "c11.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { out(Ev("begin")); continue;}
    int p = l.i();
    if (l.op == "conv") switch (p) { case 1: conv_1(l, out); break; case 2: conv_2(l, out); break; case 3: conv_3(l, out); break; case 4: conv_4(l, out); break; case 5: conv_5(l, out); break; default: die("part");}
    else if (l.op == "corr") switch (p) { case 1: corr_1(l, out); break; case 2: corr_2(l, out); break; case 3: corr_3(l, out); break; case 4: corr_4(l, out); break; case 5: corr_5(l, out); break; default: die("part");}
    else die("op " + l.op);
  }
}
