#include "c14.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { out(Ev("begin")); continue;}
    char T = l.s()[0];
    if (l.op == "red" && (T == 'b' || T == 'i')) op_a(l, T, out);
    else if (l.op == "red" && (T == 'f' || T == 'd')) op_b(l, T, out);
    else if (l.op == "red") op_c(l, T, out);
    else if (l.op == "big") op_d(l, T, out);
    else if (l.op == "ten" && (T == 'b' || T == 'i' || T == 'f')) op_e(l, T, out);
    else if (l.op == "ten") op_f(l, T, out);
    else die("bad op " + l.op);
  }
}
