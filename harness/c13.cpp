// C13: histogram objects.
#include "forms.hpp"
#include <vsip/signal.hpp>
#include <limits>
struct Obj { virtual ~Obj() {} virtual void call(char f, bool acc, ll r, ll c, Vec const &x, Ev &e) = 0;};
template <typename T, bool F = std::is_floating_point<T>::value> struct Val { static T get(ll v, int sh) { return (T)v;}};
template <typename T> struct Val<T, true>
{
  static T get(ll v, int sh) { return v > 1000000000 ? std::numeric_limits<T>::infinity() : v < -1000000000 ? -std::numeric_limits<T>::infinity() : (T)std::ldexp((double)v, -sh);}
};
template <typename T> struct ObjT : Obj
{
  Histogram<const_Vector, T> h;
  int sh;
  ObjT(ll mn, ll mx, ll n, int sh) : h(Val<T>::get(mn, sh), Val<T>::get(mx, sh), n), sh(sh) {}
  template <typename V> ObjT(ll mn, ll mx, V v, int sh) : h(Val<T>::get(mn, sh), Val<T>::get(mx, sh), v), sh(sh) {}
  void call(char f, bool acc, ll r, ll c, Vec const &x, Ev &e)
  {
    std::vector<T> xi;
    for (size_t i = 0; i < x.size(); ++i) xi.push_back(Val<T>::get(x[i], sh));
    std::vector<T> x0 = xi;
    std::vector<int> ret;
    bool ok;
    if (r == 0) ok = f == 'e' ? with_vec<T>('s', xi, [&](auto v) { rd(acc ? h(v + T(0), true) : h(v + T(0)), ret);}) : with_vec_all<T>(f, xi, [&](auto v) { rd(acc ? h(v, true) : h(v), ret);});
    else ok = f == 'e' ? with_mat<T>('c', xi, r, c, [&](auto v) { rd(h(v + T(0), acc), ret);}) : with_mat<T>(f, xi, r, c, [&](auto v) { rd(acc ? h(v, true) : h(v), ret);});
    e.b("intact", ok).b("same", xi == x0).v("ret", Vec(ret.begin(), ret.end()));
  }
};
template <typename T> Obj *mk(ll mn, ll mx, ll n, int sh, char f, Vec const &h)
{
  if (h.empty()) return new ObjT<T>(mn, mx, n, sh);
  std::vector<int> hv = dec<int>(h);
  Obj *o = 0;
  with_vec_all<int>(f, hv, [&](auto v) { o = new ObjT<T>(mn, mx, v, sh);});
  return o;
}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<std::unique_ptr<Obj> > o;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); out(Ev("begin")); }
    else if (l.op == "mk")
    {
      char T = l.s()[0]; ll mn = l.i(), mx = l.i(), n = l.i(), sh = l.i(); char f = l.s()[0]; Vec h = l.v();
      Obj *p = 0;
      switch (T)
      {
      case 'f': p = mk<float>(mn, mx, n, sh, f, h); break;
      case 'd': p = mk<double>(mn, mx, n, sh, f, h); break;
      case 'i': p = mk<int>(mn, mx, n, sh, f, h); break;
      case 'h': p = mk<short>(mn, mx, n, sh, f, h); break;
      default: die("type");
      }
      o.emplace_back(p);
      out(Ev("mk").i("mn", mn).i("mx", mx).i("n", n).v("h", h));
    }
    else if (l.op == "call")
    {
      ll a = l.i(), acc = l.i(); char f = l.s()[0]; ll r = l.i(), c = l.i(); Vec x = l.v();
      Ev e("call"); e.i("a", a).b("acc", acc).v("x", x);
      o[a]->call(f, acc, r, c, x, e);
      out(e);
    }
    else die("bad op " + l.op);
  }
}
