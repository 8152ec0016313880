#include "c05.hpp"
std::map<std::string, Fn> &table() { static std::map<std::string, Fn> t; return t;}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  while (read_line(is, l))
  {
    Arg a; a.kind = l.s(); a.dflt = l.i(); a.ext = l.v(); a.n = l.v(); a.c = l.v(); a.pset = l.v(); a.n2 = l.v(); a.c2 = l.v(); a.pset2 = l.v(); a.sub = l.v();
    if (!table().count(a.kind)) die("kind " + a.kind);
    table()[a.kind](a, out);
  }
}
