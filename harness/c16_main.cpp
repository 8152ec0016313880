#include "c16.hpp"
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") out(Ev("begin"));
    else if (l.op == "ramp" || l.op == "first" || l.op == "ib") op_a(l, out);
    else if (l.op == "gather" || l.op == "scatter") op_b(l, out);
    else if (l.op == "clip") op_c(l, out);
    else if (l.op == "swap") op_d(l, out);
    else if (l.op == "fs") op_e(l, out);
    else die("bad op " + l.op);
  }
}
