// C06, C07: every rank interprets the same script; each writes its own trace.
#include "dist.hpp"
#include <unistd.h>
namespace mpiw { extern std::vector<long long> sent, rcvd;}
std::map<std::string, MkFn> &makers() { static std::map<std::string, MkFn> t; return t;}
std::map<std::string, AsgFn> &assigns() { static std::map<std::string, AsgFn> t; return t;}
std::map<std::string, OpFn> &ops() { static std::map<std::string, OpFn> t; return t;}
std::map<std::string, CommFn> &comms() { static std::map<std::string, CommFn> t; return t;}
int main(int argc, char **argv)
{
  if (argc > 1 && std::string(argv[1]) == "-list")
  {
    for (auto &p : assigns()) std::printf("%s\n", p.first.c_str());
    for (auto &p : ops()) std::printf("op:%s\n", p.first.c_str());
    for (auto &p : comms()) std::printf("comm:%s\n", p.first.c_str());
    return 0;
  }
  vsipl init(argc, argv);
  int me = local_processor(), np = num_processors();
  std::ifstream is(argv[1]);
  std::ostringstream on; on << argv[2] << "." << me;
  Out out(on.str());
  struct Slot { std::unique_ptr<Obj> o; std::string kind, T;};
  std::vector<Slot> a;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { a.clear(); out(Ev("begin").i("np", np)); }
    else if (l.op == "arr")
    {
      std::string k = l.s(), T = l.s();
      Vec ext = l.v(), n = l.v(), c = l.v(), p = l.v();
      ll base = l.i(), step = l.i();
      if (!makers().count(k + ":" + T)) die("no kind " + k + ":" + T);
      a.push_back(Slot());
      a.back().o.reset(makers()[k + ":" + T](ext, n, c, p)); a.back().kind = k; a.back().T = T;
      a.back().o->fill(base, step);
      out(Ev("arr").s("kind", k.substr(0, k.size() - 1)).s("T", T).v("ext", ext).v("n", n).v("c", c).v("pset", p).i("base", base).i("step", step));
    }
    else if (l.op == "asg")
    {
      ll d = l.i(); std::string df = l.s(); Vec dd = l.v(); ll s = l.i(); std::string sf = l.s(); Vec sd = l.v();
      std::string key = a[d].kind + df + ":" + a[s].kind + sf + ":" + a[d].T;
      if (!assigns().count(key)) die("no assignment " + key);
      assigns()[key](*a[d].o, dd, *a[s].o, sd);
      out(Ev("asg").i("d", d).s("df", df).v("dd", dd).i("s", s).s("sf", sf).v("sd", sd));
    }
    else if (l.op == "op")     // op <name> <d> <df> <dd> <x> (<s> <sf> <sd>)*
    {
      std::string name = l.s(); ll d = l.i(); std::string df = l.s(); Vec dd = l.v(), x = l.v(), s, r;
      std::vector<std::string> sf; std::vector<Vec> sd; std::vector<Obj *> o;
      std::string key = name + ":" + a[d].kind + df;
      while (l.more())
      {
        s.push_back(l.i()); sf.push_back(l.s()); sd.push_back(l.v());
        o.push_back(a[s.back()].o.get()); key += ":" + a[s.back()].kind + sf.back();
      }
      key += ":" + a[d].T;
      if (!ops().count(key)) die("no operation " + key);
      ops()[key](*a[d].o, dd, x, o, sd, r);
      out(Ev(name.c_str()).i("d", d).s("df", df).v("dd", dd).v("x", x).v("s", s).sv("sf", sf).vv("sd", sd).v("r", r));
    }
    else if (l.op == "comm")   // comm <name> <type> <x>
    {
      std::string name = l.s(), T = l.s(); Vec x = l.v(), r;
      if (!comms().count(name + ":" + T)) die("no comm " + name);
      comms()[name + ":" + T](x, r);
      out(Ev(name.substr(0, name.find('_')).c_str()).v("x", x).v("r", r));
    }
    else if (l.op == "delay") { Vec us = l.v(); if (me < (int)us.size() && us[me]) usleep(us[me]); }
    else if (l.op == "obs")
    {
      std::vector<Vec> m;
      for (size_t i = 0; i < a.size(); ++i) { Vec v; a[i].o->dump(v); m.push_back(v); }
      out(Ev("obs").vv("m", m));
    }
    else if (l.op == "quiet")
    {
      ovxx::parallel::default_communicator().barrier();
      std::vector<Vec> r(2);
      for (int q = 0; q < np; ++q) { r[0].push_back(mpiw::sent[q]); r[1].push_back(mpiw::rcvd[q]); mpiw::sent[q] = mpiw::rcvd[q] = 0;}
      out(Ev("quiet").vv("r", r));
    }
    else die("bad op " + l.op);
  }
}
