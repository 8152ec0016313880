#include "c04.hpp"
#include <map>
#include <mutex>
#include <thread>
#include <new>
int fail_in = 0;
ovxx::allocator *second = 0;
std::vector<std::shared_ptr<void> > kept;
static std::mutex mx;
struct Rec { ll id, bytes; int who; void *raw; bool live;};
static std::map<void *, Rec> known;                 // addresses are not used again within a scenario
static ll next_id = 0;
static std::vector<Vec> al, fr;
static bool damage = false;
class Recording : public ovxx::allocator
{
public:
  explicit Recording(int w) : who_(w) {}
private:
  enum { guard = 64};
  void *allocate(std::size_t size)
  {
    std::lock_guard<std::mutex> l(mx);
    if (fail_in && --fail_in == 0) throw std::bad_alloc();
    unsigned char *raw = (unsigned char *)aligned_alloc(64, 2 * guard + (size + 63) / 64 * 64);
    std::memset(raw, 0xA5, 2 * guard + (size + 63) / 64 * 64);
    Rec r = {next_id++, (ll)size, who_, raw, true};
    known[raw + guard] = r;
    Vec v; v.push_back(r.id); v.push_back(r.bytes); v.push_back(who_);
    al.push_back(v);
    return raw + guard;
  }
  void deallocate(void *p, std::size_t size)
  {
    std::lock_guard<std::mutex> l(mx);
    if (!p) return;
    std::map<void *, Rec>::iterator i = known.find(p);
    Vec v; v.push_back(i == known.end() ? -1 : i->second.id); v.push_back(size); v.push_back(who_);
    fr.push_back(v);
    if (i == known.end() || !i->second.live) return;
    check(i->second);
    i->second.live = false;
    std::memset(p, 0xDD, i->second.bytes);           // and kept, so that a later use shows
  }
public:
  static void check(Rec const &r)
  {
    unsigned char *raw = (unsigned char *)r.raw;
    std::size_t end = 2 * guard + (r.bytes + 63) / 64 * 64;
    for (std::size_t i = 0; i < guard; ++i) damage = damage || raw[i] != 0xA5;
    for (std::size_t i = guard + r.bytes; i < end; ++i) damage = damage || raw[i] != 0xA5;
  }
  static void clear()
  {
    for (auto &k : known) std::free(k.second.raw);
    known.clear(); next_id = 0;
  }
  // what was freed was not written to, and nothing was written around what was not
  static void inspect()
  {
    for (auto &k : known)
    {
      check(k.second);
      if (!k.second.live) for (ll i = 0; i < k.second.bytes; ++i) damage = damage || ((unsigned char *)k.first)[i] != 0xDD;
    }
  }
private:
  int who_;
};
static void finish(Ev &e, Out &out)
{
  e.vv("al", al).vv("fr", fr);
  al.clear(); fr.clear();
  out(e);
}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  ovxx::allocator *const original = ovxx::allocator::get_default();
  Recording A(0), B(1);
  second = &B;
  std::vector<H *> h;
  Line l;
  typedef Made (*maker)(char, length_type, ll);
  maker const makers[] = {make_0, make_1, make_2, make_3, make_4, make_5, make_6, make_7, make_8};
  while (read_line(is, l))
  {
    Ev e(l.op.c_str());
    if (l.op == "begin")
    {
      for (auto x : h) delete x;
      h.clear(); al.clear(); fr.clear(); Recording::clear(); kept.clear();
      ovxx::allocator::set_default(&A);
    }
    else if (l.op == "mk")
    {
      ll kind = l.i(); char mode = l.s()[0]; ll n = l.i(), k = l.i();
      Made m = makers[kind](mode, n, k);
      h.push_back(m.h);
      e.i("kind", kind).s("mode", std::string(1, mode)).i("bytes", m.bytes).i("k", k);
    }
    else if (l.op == "fail")                        // an allocation fails while a view is made
    {
      ll kind = l.i(); char mode = l.s()[0]; ll n = l.i(), at = l.i();
      bool thrown = false;
      fail_in = (int)at;
      try { Made m = makers[kind](mode, n, 1); delete m.h;} catch (std::bad_alloc const &) { thrown = true;}
      fail_in = 0;
      e.b("thrown", thrown);
    }
    else if (l.op == "default") { ll w = l.i(); ovxx::allocator::set_default(w ? &B : &A); e.i("w", w);}
    else if (l.op == "copy") { ll a = l.i(); h.push_back(h[a]->copy()); e.i("h", a);}
    else if (l.op == "der" || l.op == "fresh")
    {
      ll a = l.i(); std::string how = l.op == "der" ? l.s() : "f"; ll b = l.op == "der" ? l.i() : 0;
      H *n = l.op == "der" ? h[a]->derive(how[0], h[b]) : h[a]->fresh();
      if (!n) { if (!al.empty() || !fr.empty()) die("unsupported, but storage"); h.push_back(0); e = Ev("nop");}
      else { h.push_back(n); e.i("h", a).s("how", how).i("o", b);}
    }
    else if (l.op == "read") { ll a = l.i(); Vec x = h[a]->read(); e.i("h", a).v("x", x);}
    else if (l.op == "fill") { ll a = l.i(), k = l.i(); bool c = l.i(); bool ok = h[a]->fill(k); e.i("h", a).i("k", k).b("cx", c).b("ok", ok);}
    else if (l.op == "rebind") { ll a = l.i(), k = l.i(); bool ok = h[a]->rebind(k); e.i("h", a).i("k", k).b("ok", ok);}
    else if (l.op == "assign") { ll a = l.i(), b = l.i(); bool ok = h[a]->assign(h[b]); if (!ok) e = Ev("skip"); else e.i("h", a).i("o", b).b("ok", ok);}
    else if (l.op == "use") { ll a = l.i(); bool ok = h[a]->use(); e.i("h", a).b("ok", ok);}
    else if (l.op == "drop") { ll a = l.i(); delete h[a]; h[a] = 0; e.i("h", a);}
    else if (l.op == "race")
    {
      // threads copy, derive from, read and drop the handles; every one drops its own at the end, as this one does meanwhile
      ll n = l.i(), iters = l.i(); Vec hs = l.v();
      std::vector<std::vector<H *> > own(n);
      std::vector<Vec> want;
      for (auto x : hs) want.push_back(h[x]->read());
      for (auto &o : own) for (auto x : hs) o.push_back(h[x]->copy());
      std::vector<char> good(n, 1);
      std::atomic<int> ready(0);
      std::vector<std::thread> ts;
      for (ll t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
          ovxx::allocator::set_default(&A);
          ++ready; while (ready < (int)n + 1) std::this_thread::yield();
          for (ll i = 0; i < iters; ++i)
            for (size_t j = 0; j < hs.size(); ++j)
            {
              H *c = own[t][j]->copy(), *d = c->derive("skna"[i % 4], c);
              delete own[t][j];
              own[t][j] = c;
              if (d && i % 4 < 2 && d->read() != want[j]) good[t] = 0;
              delete d;
              if (i % 16 == 0 && c->read() != want[j]) good[t] = 0;
            }
          for (size_t j = 0; j < hs.size(); ++j) { if (own[t][(j + t) % hs.size()]->read() != want[(j + t) % hs.size()]) good[t] = 0; delete own[t][(j + t) % hs.size()];}});
      ++ready; while (ready < (int)n + 1) std::this_thread::yield();
      for (auto x : hs) { delete h[x]; h[x] = 0;}
      for (auto &t : ts) t.join();
      bool ok = true;
      for (auto g : good) ok = ok && g;
      e.v("hs", hs).b("ok", ok);
    }
    else if (l.op == "end") { Recording::inspect(); e.b("damage", damage); damage = false;}
    else die("bad op " + l.op);
    finish(e, out);
  }
  for (auto x : h) delete x;
  ovxx::allocator::set_default(original);
}
