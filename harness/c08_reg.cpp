#include "c08.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(x##_, PART)
#define VCOMBOS(R, A, B, C, H) \
  X(1, "dddd", 'd', 'd', 'd', 'd', R, A, B, C, H) X(1, "dsnd", 'd', 's', 'n', 'd', R, A, B, C, H) X(1, "sdcs", 's', 'd', 'c', 's', R, A, B, C, H) \
  X(1, "nrdn", 'n', 'r', 'd', 'n', R, A, B, C, H) X(1, "cuss", 'c', 'u', 's', 's', R, A, B, C, H) X(1, "ucrd", 'u', 'c', 'r', 'd', R, A, B, C, H) \
  X(1, "rnnc", 'r', 'n', 'n', 'c', R, A, B, C, H) X(1, "uddu", 'u', 'd', 'd', 'u', R, A, B, C, H)
#define MCOMBOS(R, A, B, C, H) \
  X(2, "dddd", 'd', 'd', 'd', 'd', R, A, B, C, H) X(2, "dcds", 'd', 'c', 'd', 's', R, A, B, C, H) X(2, "cdct", 'c', 'd', 'c', 't', R, A, B, C, H) \
  X(2, "sdtd", 's', 'd', 't', 'd', R, A, B, C, H) X(2, "ttst", 't', 't', 's', 't', R, A, B, C, H) X(2, "cccc", 'c', 'c', 'c', 'c', R, A, B, C, H) \
  X(2, "qsqc", 'q', 's', 'q', 'c', R, A, B, C, H) X(2, "tqdd", 't', 'q', 'd', 'd', R, A, B, C, H)
#define ZVCOMBOS(R, A, B, C, H) \
  X(1, "zddd", 'z', 'd', 'd', 'd', R, A, B, C, H) X(1, "dzzd", 'd', 'z', 'z', 'd', R, A, B, C, H) X(1, "zzsz", 'z', 'z', 's', 'z', R, A, B, C, H)
#define ZMCOMBOS(R, A, B, C, H) \
  X(2, "zddd", 'z', 'd', 'd', 'd', R, A, B, C, H) X(2, "dzzs", 'd', 'z', 'z', 's', R, A, B, C, H) X(2, "zzsz", 'z', 'z', 's', 'z', R, A, B, C, H)
#define X(D, s, kd, ka, kb, kc, R, A, B, C, H) if (j.dims.size() == D && j.combo == s) return combo<D, kd, ka, kb, kc, R, A, B, C>(j, H);
template <typename T> T twice1(T x) { return x + x + T(1);}
template <typename T> T weird(T a, T b) { return a + a - b;}
template <typename T> T three(T a, T b, T c) { return a - b + c + c;}
// functors with state
template <typename T> struct Shift { typedef T argument_type; typedef T result_type; T s; explicit Shift(T v) : s(v) {} T operator()(T x) const { return x + s;}};
template <typename T> struct Shift2 { typedef T first_argument_type; typedef T second_argument_type; typedef T result_type; T s; explicit Shift2(T v) : s(v) {} T operator()(T x, T y) const { return x - y + s;}};
template <typename T> struct Shift3 { typedef T first_argument_type; typedef T second_argument_type; typedef T third_argument_type; typedef T result_type; T s; explicit Shift3(T v) : s(v) {} T operator()(T x, T y, T z) const { return x - y + z + s;}};
#define ACOMMON \
    case 0: d = a + b; break; case 1: d = a - b; break; case 2: d = a * b; break; case 3: d = a * b + c; break; case 4: d = a + b * c; break; \
    case 5: d = a * b + c * a; break; case 6: d = (a + b) * (a - b); break; case 7: d = -a; break; case 8: d = sq(a); break; case 9: d = am(a, b, c); break; \
    case 10: d = msb(a, b, c); break; case 11: d = sbm(a, b, c); break; case 12: d = ma(a, b, c); break; case 13: d = a + s; break; case 14: d = s - a; break; \
    case 15: d = a * s; break; case 16: d = s * a + b; break; case 17: d += a; break; case 18: d -= a; break; case 19: d *= a; break; case 20: d += s; break; \
    case 21: d *= s; break; case 22: d -= s; break; case 23: d = d * a + d; break; case 24: d = expoavg(s, a, b); break; case 25: d = a; break; case 26: d = s; break; \
    case 27: d += a * b; break; case 28: d = a - b * c; break; case 29: d = +a - (-b); break; case 30: d = vsip::unary(twice1<T>, a); break; \
    case 31: d = vsip::binary(weird<T>, a, b); break; case 32: d = vsip::ternary(three<T>, a, b, c); break; \
    case 34: d = vsip::binary(Shift2<T>(s), a, b); break; case 35: d = vsip::ternary<T>(Shift3<T>(s), a, b, c); break; \
    case 36: d = ma(a, s, c); break; case 37: d = am(s, a, b); break; case 38: d = (a + b) - (c * s) + (a - c) * b; break; case 39: d = d; break; \
    case 50: d = add(a, b); break; case 51: d = sub(a, s); break; case 52: d = mul(s, a); break; case 53: d = neg(a) + neg(b); break; \
    case 54: d = vsip::unary<T>(Shift<T>(s), a); break; case 33: d = vsip::unary(Shift<T>(s), a); break; case 55: d = a * a + a; break; case 56: d *= a - b; break; case 57: d -= s * a; break;
// arithmetic common to all types
template <typename T> struct N(Arith)
{
  template <typename D, typename A, typename B, typename C> bool operator()(int op, D d, A a, B b, C c) const
  {
    T s = At<B::dim>::get(b, 0);
    switch (op) { ACOMMON default: return false;}
    return true;
  }
};
template <typename T> struct N(Real)
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    if (N(Arith)<T>()(op, d, a, b, c)) return;
    T s = At<B::dim>::get(b, 0);
    switch (op)
    {
    case 60: d = min(a, b); break; case 61: d = max(a, b); break; case 62: d = mag(a); break; case 63: d = ite(a > b, a, c); break;
    case 64: d = a / b; break; case 65: d /= b; break; case 66: d /= s; break; case 67: d = a / s; break; case 68: d = maxmg(a, b); break; case 69: d = minmg(a, b); break;
    case 70: d = maxmgsq(a, b); break; case 71: d = minmgsq(a, b); break; case 72: d = magsq(a); break; case 73: d = ite(a == b, c, -c); break;
    case 74: d = max(a, s); break; case 75: d = min(a * b, c + a); break;
    default: die("op");
    }
  }
};
struct N(Ints)
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    int s = At<B::dim>::get(b, 0);
    switch (op)
    {
    case 80: d = a & b; break; case 81: d = a | b; break; case 82: d = a ^ b; break; case 83: d = bnot(a); break; case 84: d = band(a, s); break; case 85: d = a | s; break;
    case 86: d &= a; break; case 87: d |= a; break; case 88: d ^= a; break; case 89: d = bxor(a, b) & c; break;
    default: N(Real)<int>()(op, d, a, b, c);
    }
  }
};
template <typename T> struct N(Cx)
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    if (N(Arith)<T>()(op, d, a, b, c)) return;
    typedef typename Ctl<T>::real R;
    R s = At<B::dim>::get(b, 0).real();
    switch (op)
    {
    case 90: d = conj(a); break; case 91: d = jmul(a, b); break; case 92: d = a * conj(b); break; case 93: d = a * s; break; case 94: d = a * real(b); break;
    case 95: d = cmplx(real(a), imag(b)); break; case 96: d = s + a; break; case 97: d = conj(a * b) + c; break; case 98: d.real() = b.real(); d.imag() = a.real(); break;
    case 99: d *= s; break; case 100: d.imag() += a.real(); break; case 101: d = real(a); break; case 102: d = s; break;
    default: die("op");
    }
  }
};
#if PART == 1
void ew1(Job &j) { VCOMBOS(int, int, int, int, N(Ints)()) die("combo");}
#elif PART == 2
void ew2(Job &j) { MCOMBOS(int, int, int, int, N(Ints)()) die("combo");}
#elif PART == 3
void ew3(Job &j) { VCOMBOS(float, float, float, float, N(Real)<float>()) die("combo");}
#elif PART == 4
void ew4(Job &j) { MCOMBOS(float, float, float, float, N(Real)<float>()) die("combo");}
#elif PART == 5
typedef std::complex<float> cf;
void ew5(Job &j) { VCOMBOS(cf, cf, cf, cf, N(Cx)<cf>()) ZVCOMBOS(cf, cf, cf, cf, N(Cx)<cf>()) die("combo");}
#elif PART == 6
typedef std::complex<float> cf;
void ew6(Job &j) { MCOMBOS(cf, cf, cf, cf, N(Cx)<cf>()) ZMCOMBOS(cf, cf, cf, cf, N(Cx)<cf>()) die("combo");}
#elif PART == 7
typedef std::complex<float> cf;
struct CR
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    switch (op)
    {
    case 110: d = magsq(a); break; case 111: d = real(a); break; case 112: d = imag(a) + c; break; case 113: d = maxmgsq(a, b); break; case 114: d = minmgsq(a, b); break;
    case 115: d = mag(a) * mag(a); break; case 116: d = maxmg(a, b) * mag(a) / mag(a) ; d = d * d; break; case 117: d = minmg(a, b); d *= d; break;
    case 118: d += magsq(a) - c; break; case 119: d = a.real() * b.imag(); break; case 120: d = c * a.imag(); break; case 121: d = real(a * b) - imag(a); break;
    default: die("op");
    }
    // magnitudes are rounded roots
    if (op >= 115 && op <= 117) for (index_type i = 0; i < d.size(); ++i) { float x = At<D::dim>::get(d, i); ll n = enc_round(x, .05); At<D::dim>::put(d, i, n == enc_round(1e30, .05) ? -1.f : float(n));}
  }
};
void ew7(Job &j) { VCOMBOS(float, cf, cf, float, CR()) X(1, "dzzd", 'd', 'z', 'z', 'd', float, cf, cf, float, CR()) X(1, "szds", 's', 'z', 'd', 's', float, cf, cf, float, CR()) MCOMBOS(float, cf, cf, float, CR()) X(2, "dzzs", 'd', 'z', 'z', 's', float, cf, cf, float, CR()) X(2, "czdc", 'c', 'z', 'd', 'c', float, cf, cf, float, CR()) die("combo");}
#elif PART == 8
struct BB
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    int s = At<B::dim>::get(b, 0);
    switch (op)
    {
    case 130: d = a == b; break; case 131: d = a != b; break; case 132: d = a < b; break; case 133: d = a <= b; break; case 134: d = a > b; break; case 135: d = a >= b; break;
    case 136: d = a < s; break; case 137: d = s <= a; break; case 138: d = (a > b) && (b > c); break; case 139: d = (a > b) || (b == c); break; case 140: d = lnot(a > b); break;
    case 141: d = lxor(a > b, b > c); break; case 142: d = (a > b) ^ d; break; case 143: d = land(d, a < c); break; case 144: d = lor(d, eq(a, b)); break; case 145: d = lnot(d); break;
    case 146: d = ne(a, c); break; case 147: d = d; break; case 148: d = ge(a, s) && le(a, 3); break; case 149: d = lnot(a); break;
    default: die("op");
    }
  }
};
void ew8(Job &j) { VCOMBOS(bool, int, float, int, BB()) MCOMBOS(bool, int, float, int, BB()) die("combo");}
#elif PART == 9
typedef std::complex<float> cf;
inline int halfint(float x) { return int(x * .5f) + 1000;}
struct HalfInt { int operator()(float x, double y) const { return int(x * .5f) + int(y * .5);}};
struct CvI   // int <- float operands in halves
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    switch (op)
    {
    case 160: d = a * .5f; break; case 161: d = ovxx::view_cast<int>(a * .5f) + c; break; case 162: d = a * .5 + b * .25; break; case 163: d = a * .5f + c; break;
    case 164: d = floor(a * .5f); break; case 165: d = ceil(a * .5f); break; case 166: d += a * .5f; break; case 167: d = c * b; break; case 168: d = vsip::unary(halfint, a); break; case 169: d = vsip::binary<int>(HalfInt(), a, b); break; default: die("op");
    }
  }
};
struct CvC   // complex<double> <- float, double, int
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    switch (op)
    {
    case 170: d = a; break; case 171: d = a * b; break; case 172: d = a + std::complex<double>(1, -2); break; case 173: d = c * b; break; case 174: d = b - c; break; case 175: d *= a; break; case 176: d = cmplx(b, b); break;
    case 177: d += b; break; case 178: d = b * d + b; break; default: die("op");
    }
  }
};
void ew9(Job &j)
{
  if (j.op < 170) { VCOMBOS(int, float, double, int, CvI()) MCOMBOS(int, float, double, int, CvI())}
  else { VCOMBOS(std::complex<double>, double, double, int, CvC()) MCOMBOS(std::complex<double>, double, double, int, CvC())}
  die("combo");
}
#elif PART == 10
template <typename T> struct Ten
{
  template <typename D, typename A, typename B, typename C> void operator()(int op, D d, A a, B b, C c) const
  {
    T s = At<B::dim>::get(b, 0);
    switch (op)
    {
    case 0: d = a + b; break; case 3: d = a * b + c; break; case 6: d = (a + b) * (a - b); break; case 7: d = -a; break; case 16: d = s * a + b; break; case 17: d += a; break; case 21: d *= s; break;
    case 25: d = a; break; case 26: d = s; break; case 30: d = vsip::unary(twice1<T>, a); break; case 19: d *= a; break; case 28: d = a - b * c; break; default: die("op");
    }
  }
};
#define XT(s, kd, ka, kb, kc) if (j.combo == s) return combo<3, kd, ka, kb, kc, int, int, int, int>(j, Ten<int>());
void ew10(Job &j)
{
  XT("0123", '0', '1', '2', '3') XT("1450", '1', '4', '5', '0') XT("2s00", '2', 's', '0', '0') XT("3t40", '3', 't', '4', '0') XT("4235", '4', '2', '3', '5') XT("5501", '5', '5', '0', '1')
  XT("s0ts", 's', '0', 't', 's') XT("t30t", 't', '3', '0', 't') XT("0000", '0', '0', '0', '0') XT("3333", '3', '3', '3', '3') XT("s555", 's', '5', '5', '5')
  die("combo");
}
#elif PART == 11
void ew11(Job &j) { VCOMBOS(double, double, double, double, N(Real)<double>()) die("combo");}
#elif PART == 12
// fn <name> <T> <form> <form> values (in tenths) ...: element-wise functions agree with the scalar mathematics
#define RU(n, e) if (fn == #n) { d = n(a); for (size_t i = 0; i < x.size(); ++i) { double v = x[i]; (void)v; want.push_back(e);}}
#define RB(n, e) if (fn == #n) { d = n(a, b); for (size_t i = 0; i < x.size(); ++i) { double v = x[i], w = y[i]; (void)v; (void)w; want.push_back(e);}}
template <typename T> void real_fn(std::string const &fn, std::vector<T> &x, std::vector<T> &y, std::vector<T> &z, char f, char g, DV &want, bool &ok)
{
  bool o1 = true, o2 = true, o3 = true;
  o1 = with_vec_few<T>('d', y, [&](auto b) { o2 = with_vec<T>(f, x, [&](auto a) { o3 = with_vec<T>(g, z, [&](auto d) {
    RU(acos, std::acos(v)) RU(asin, std::asin(v)) RU(atan, std::atan(v)) RU(cos, std::cos(v)) RU(cosh, std::cosh(v)) RU(exp, std::exp(v)) RU(exp10, std::pow(10., v))
    RU(log, std::log(v)) RU(log10, std::log10(v)) RU(recip, 1 / v) RU(rsqrt, 1 / std::sqrt(v)) RU(sin, std::sin(v)) RU(sinh, std::sinh(v)) RU(sqrt, std::sqrt(v)) RU(tan, std::tan(v))
    RU(tanh, std::tanh(v)) RU(ceil, std::ceil(v)) RU(floor, std::floor(v)) RU(mag, std::fabs(v)) RU(sq, v * v)
    RB(atan2, std::atan2(v, w)) RB(fmod, std::fmod(v, w)) RB(hypot, std::hypot(v, w)) RB(pow, std::pow(v, w)) RB(div, v / w)
  });});});
  ok = o1 && o2 && o3;
}
#define CU(n, e) if (fn == #n) { d = n(a); for (size_t i = 0; i < x.size(); ++i) { std::complex<double> v = x[i]; std::complex<double> r = e; want.push_back(r.real()); want.push_back(r.imag());}}
void trans(Line &l, Out &out)
{
  std::string fn = l.s(); char T = l.s()[0], f = l.s()[0], g = l.s()[0];
  Vec xs = l.v(), ys = l.v();
  DV got, want; bool ok = false;
  auto tenth = [](Vec const &v, auto &o) { for (size_t i = 0; i < v.size(); ++i) o.push_back(v[i] / 10.);};
  if (T == 'f') { std::vector<float> x, y, z; tenth(xs, x); tenth(ys, y); z.assign(x.size(), 0); real_fn(fn, x, y, z, f, g, want, ok); got.assign(z.begin(), z.end());}
  else if (T == 'd') { std::vector<double> x, y, z; tenth(xs, x); tenth(ys, y); z.assign(x.size(), 0); real_fn(fn, x, y, z, f, g, want, ok); got.assign(z.begin(), z.end());}
  else if (T == 'e')   // real argument, complex result
  {
    std::vector<float> x; tenth(xs, x); std::vector<std::complex<float> > z(x.size()); bool o2 = true;
    ok = with_vec<float>(f, x, [&](auto a) { o2 = with_vec<std::complex<float> >(g, z, [&](auto d) { d = euler(a);});}) && o2;
    for (size_t i = 0; i < x.size(); ++i) { want.push_back(std::cos((double)x[i])); want.push_back(std::sin((double)x[i])); got.push_back(z[i].real()); got.push_back(z[i].imag());}
  }
  else if (T == 'a')   // complex argument, real result
  {
    std::vector<std::complex<float> > x; for (size_t i = 0; i + 1 < xs.size(); i += 2) x.push_back(std::complex<float>(xs[i] / 10.f, xs[i + 1] / 10.f));
    std::vector<float> z(x.size()); bool o2 = true;
    ok = with_vec<std::complex<float> >(f, x, [&](auto a) { o2 = with_vec<float>(g, z, [&](auto d) { if (fn == "arg") d = arg(a); else d = mag(a);});}) && o2;
    for (size_t i = 0; i < x.size(); ++i) { want.push_back(fn == "arg" ? std::arg(std::complex<double>(x[i])) : std::abs(std::complex<double>(x[i]))); got.push_back(z[i]);}
  }
  else
  {
    std::vector<std::complex<float> > x; for (size_t i = 0; i + 1 < xs.size(); i += 2) x.push_back(std::complex<float>(xs[i] / 10.f, xs[i + 1] / 10.f));
    std::vector<std::complex<float> > z(x.size()); bool o2 = true;
    ok = with_vec<std::complex<float> >(f, x, [&](auto a) { o2 = with_vec<std::complex<float> >(g, z, [&](auto d) {
      CU(cos, std::cos(v)) CU(cosh, std::cosh(v)) CU(exp, std::exp(v)) CU(log, std::log(v)) CU(log10, std::log10(v)) CU(recip, 1. / v) CU(sin, std::sin(v)) CU(sinh, std::sinh(v))
      CU(sqrt, std::sqrt(v)) CU(sq, v * v) CU(conj, std::conj(v))
    });}) && o2;
    for (size_t i = 0; i < x.size(); ++i) { got.push_back(z[i].real()); got.push_back(z[i].imag());}
  }
  // relative to the magnitude of the value, in units of 1e-4
  Vec w, r;
  for (size_t i = 0; i < want.size(); ++i)
  {
    double m = std::max(1., std::fabs(want[i])), s = std::pow(10., std::ceil(std::log10(m)));
    w.push_back((ll)std::floor(want[i] / s * 1e4 + .5)); r.push_back(i < got.size() && std::fabs(got[i] / s) < 2 ? (ll)std::floor(got[i] / s * 1e4 + .5) : 777777);
  }
  out(Ev("fn").s("fn", fn).s("t", std::string(1, T)).v("x", xs).v("y", ys).v("want", w).v("r", r).b("intact", ok));
}
#endif
