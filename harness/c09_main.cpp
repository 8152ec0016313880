#include "c09.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { out(Ev("begin")); continue;}
    int p = l.i();
    switch (p) { case 1: ses_1(l, out); break; case 2: ses_2(l, out); break; case 3: ses_3(l, out); break; case 4: ses_4(l, out); break;
      case 5: ses_5(l, out); break; case 6: ses_6(l, out); break; case 8: ses_8(l, out); break; default: die("part");}
  }
}
