// C15: random generators.
#include "forms.hpp"
#include <vsip/random.hpp>
struct Obj { virtual ~Obj() {} virtual void draw(char k, char f, Vec const &sz, Ev &e) = 0; virtual void burn(char k, ll n) = 0;};
void put(Vec &o, double v)
{
  double V = std::ldexp(v, 32), h = std::floor(V / 65536);
  if (!(std::fabs(V) < 68719476736.) || V != std::floor(V)) { o.push_back(NONINT); o.push_back(0); return;}
  o.push_back((ll)h); o.push_back((ll)(V - h * 65536));
}
template <typename T> void put(Vec &o, std::complex<T> const &v) { put(o, (double)v.real()); put(o, (double)v.imag());}
template <typename T> struct ObjT : Obj
{
  Rand<T> g;
  ObjT(ll s, bool p) : g(s, p) {}
  ObjT(ll s, ll n, ll id, bool p) : g(s, n, id, p) {}
  void draw(char k, char f, Vec const &sz, Ev &e)
  {
    std::vector<T> r;
    bool ok = true, u = k == 'u';
    length_type m = 1;
    for (size_t d = 0; d < sz.size(); ++d) m *= sz[d];
    r.resize(m);
    if (sz.empty()) r[0] = u ? g.randu() : g.randn();
    else if (sz.size() == 1)
    {
      if (f == 'g') { if (u) { typename Rand<T>::uniform_vector_type v = g.randu(m); for (index_type i = 0; i < m; ++i) r[i] = v.get(i);} else { typename Rand<T>::normal_vector_type v = g.randn(m); for (index_type i = 0; i < m; ++i) r[i] = v.get(i);}}
      else if (f == 'i') { if (u) { Vector<T> v(g.randu(m)); rd(v, r);} else { Vector<T> v(g.randn(m)); rd(v, r);}}   // constructed from the request
      else ok = with_vec<T>(f, r, [&](auto v) { if (u) v = g.randu(m); else v = g.randn(m);});
    }
    else if (sz.size() == 2)
    {
      length_type a = sz[0], b = sz[1];
      std::vector<T> y(m);
      if (f == 'g') { if (u) { typename Rand<T>::uniform_matrix_type v = g.randu(a, b); rd(v, y);} else { typename Rand<T>::normal_matrix_type v = g.randn(a, b); rd(v, y);}}
      else ok = with_mat<T>(f, y, a, b, [&](auto v) { if (u) v = g.randu(a, b); else v = g.randn(a, b);});
      bool col = f == 'c' || f == 't' || f == 'z';
      for (index_type i = 0; i < m; ++i) r[i] = col ? y[i % a * b + i / a] : y[i];
    }
    else
    {
      length_type a = sz[0], b = sz[1], c = sz[2];
      if (f == 'c')
      {
	Tensor<T, Dense<3, T, col3_type> > t(a, b, c);
	if (u) t = g.randu(a, b, c); else t = g.randn(a, b, c);
	for (index_type i = 0; i < m; ++i) r[i] = t.get(i % a, i / a % b, i / (a * b));
      }
      else
      {
	Tensor<T> t(a, b, c);
	if (u) t = g.randu(a, b, c); else t = g.randn(a, b, c);
	rd(t, r);
      }
    }
    Vec o;
    for (index_type i = 0; i < m; ++i) put(o, r[i]);
    e.i("n", m).b("intact", ok).v("v", o);
  }
  void burn(char k, ll n)
  {
    T s = T();
    if (k == 'u') while (n-- > 0) s += g.randu(); else while (n-- > 0) s += g.randn();
    volatile double keep = std::abs(s); (void)keep;
  }
};
template <typename T> Obj *mk(ll s, ll n, ll id, bool p, bool full) { return full ? (Obj *)new ObjT<T>(s, n, id, p) : new ObjT<T>(s, p);}
struct Ent { std::unique_ptr<Obj> o; char T;};
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  std::vector<Ent> o;
  Line l;
  while (read_line(is, l))
  {
    if (l.op == "begin") { o.clear(); out(Ev("begin")); }
    else if (l.op == "mk")
    {
      char T = l.s()[0]; ll s = l.i(), n = l.i(), id = l.i(), p = l.i(), full = l.i();
      Obj *x = 0;
      switch (T)
      {
      case 'f': x = mk<float>(s, n, id, p, full); break;
      case 'd': x = mk<double>(s, n, id, p, full); break;
      case 'z': x = mk<std::complex<float> >(s, n, id, p, full); break;
      case 'w': x = mk<std::complex<double> >(s, n, id, p, full); break;
      default: die("type");
      }
      Ent t; t.o.reset(x); t.T = T; o.push_back(std::move(t));
      out(Ev("mk").i("sh", (s >> 16) & 0xffff).i("sl", s & 0xffff).i("n", n).i("id", id).b("p", p));
    }
    else if (l.op == "draw" || l.op == "burn")
    {
      ll a = l.i(); char k = l.s()[0];
      char T = o[a].T;
      bool cx = T == 'z' || T == 'w';
      Ev e(l.op.c_str());
      e.i("a", a).s("kind", k == 'u' ? "u" : "n").b("cx", cx).i("tol", T == 'd' || T == 'w' ? 0 : k == 'u' ? 128 : 30000);
      if (l.op == "draw") { char f = l.s()[0]; Vec sz = l.v(); o[a].o->draw(k, f, sz, e);}
      else { ll n = l.i(); o[a].o->burn(k, n); e.i("nh", n >> 16).i("nl", n & 0xffff);}
      out(e);
    }
    else die("bad op " + l.op);
  }
}
