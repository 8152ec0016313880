// C20: matrix-vector functions over a store of matrices and vectors held in different kinds of storage.
#ifndef c20_hpp_
#define c20_hpp_
#include "forms.hpp"
#include <vsip/domain.hpp>
#include <map>
// a matrix or vector of the store: content, and everything else that its storage holds
struct Obj
{
  char T, cls; bool mat; length_type r, c;
  virtual ~Obj() {}
  virtual Vec get() const = 0;      // the view's content
  virtual void set(Vec const &) = 0;
  virtual Vec around() const = 0;   // elements of the underlying storage that are not part of the view
};
struct Ctx { std::vector<Obj *> a; Vec k; Vec y;};   // operands (destination first), parameters, scalar result
typedef void (*Fn)(Ctx &);
inline std::map<std::string, Fn> &table() { static std::map<std::string, Fn> t; return t;}
inline void reg(std::string const &k, Fn f) { table()[k] = f;}

// shape of a strided part: offset, stride per dimension (negative: reversed), guard
struct Shape { int s0, s1;};
template <typename V, typename B> struct Held : Obj
{
  typedef typename V::value_type T_;
  B base; V v;
  std::vector<bool> in;
  Held(B b, V w) : base(b), v(w)
  {
    T_ s = Sent<T_>::v(), m = T_(-77);
    for (index_type i = 0; i < base.size(); ++i) At<B::dim>::put(base, i, s);
    for (index_type i = 0; i < v.size(); ++i) At<V::dim>::put(v, i, m);
    for (index_type i = 0; i < base.size(); ++i) in.push_back(At<B::dim>::get(base, i) == m);
  }
  Vec get() const { std::vector<T_> x; rd(v, x); return enc(x);}
  void set(Vec const &x) { std::vector<T_> y = dec<T_>(x); wr(v, y);}
  Vec around() const
  {
    std::vector<T_> x;
    for (index_type i = 0; i < base.size(); ++i) if (!in[i]) x.push_back(At<B::dim>::get(base, i));
    return enc(x);
  }
};
inline Domain<1> dom(int s, length_type n) { length_type a = s < 0 ? -s : s; return s < 0 ? Domain<1>(1 + a * (n - 1), s, n) : Domain<1>(1, s, n);}
inline length_type room(int s, length_type n) { length_type a = s < 0 ? -s : s; return a * (n - 1) + 3;}
enum { D, C, S, U, Q, Z};   // matrices: dense by rows, by columns, part, transposed part, part of one held by columns, split
template <typename T, int K> struct MK;
template <typename T> struct MK<T, D> { typedef Matrix<T> V; typedef V B; static Obj *mk(length_type r, length_type c, Shape) { V b(r, c); return new Held<V, B>(b, b);}};
template <typename T> struct MK<T, C> { typedef Matrix<T, Dense<2, T, col2_type> > V; typedef V B; static Obj *mk(length_type r, length_type c, Shape) { V b(r, c); return new Held<V, B>(b, b);}};
template <typename T> struct MK<T, S>
{ typedef Matrix<T> B; typedef typename B::subview_type V;
  static Obj *mk(length_type r, length_type c, Shape s) { B b(room(s.s0, r), room(s.s1, c)); return new Held<V, B>(b, b(Domain<2>(dom(s.s0, r), dom(s.s1, c))));}};
template <typename T> struct MK<T, U>
{ typedef Matrix<T> B; typedef typename B::subview_type::transpose_type V;
  static Obj *mk(length_type r, length_type c, Shape s) { B b(room(s.s1, c), room(s.s0, r)); typename B::subview_type w = b(Domain<2>(dom(s.s1, c), dom(s.s0, r))); return new Held<V, B>(b, w.transpose());}};
template <typename T> struct MK<T, Q>
{ typedef Matrix<T, Dense<2, T, col2_type> > B; typedef typename B::subview_type V;
  static Obj *mk(length_type r, length_type c, Shape s) { B b(room(s.s0, r), room(s.s1, c)); return new Held<V, B>(b, b(Domain<2>(dom(s.s0, r), dom(s.s1, c))));}};
template <typename T> struct MK<T, Z> { typedef typename SplitM<T>::view V; typedef V B; static Obj *mk(length_type r, length_type c, Shape) { V b(r, c); return new Held<V, B>(b, b);}};
enum { VD, VS, VC, VZ};      // vectors: dense, part, column of a matrix, split
template <typename T, int K> struct VK;
template <typename T> struct VK<T, VD> { typedef Vector<T> V; typedef V B; static Obj *mk(length_type n, Shape) { V b(n); return new Held<V, B>(b, b);}};
template <typename T> struct VK<T, VS> { typedef Vector<T> B; typedef typename B::subview_type V; static Obj *mk(length_type n, Shape s) { B b(room(s.s0, n)); return new Held<V, B>(b, b(dom(s.s0, n)));}};
template <typename T> struct VK<T, VC> { typedef Matrix<T> B; typedef typename B::col_type V; static Obj *mk(length_type n, Shape) { B b(n, 3); return new Held<V, B>(b, b.col(1));}};
template <typename T> struct VK<T, VZ> { typedef typename SplitV<T>::view V; typedef V B; static Obj *mk(length_type n, Shape) { V b(n); return new Held<V, B>(b, b);}};
template <typename T, int K> typename MK<T, K>::V &M_(Obj *o)
{ typedef Held<typename MK<T, K>::V, typename MK<T, K>::B> H; H *h = dynamic_cast<H *>(o); if (!h) die("operand class"); return h->v;}
template <typename T, int K> typename VK<T, K>::V &V_(Obj *o)
{ typedef Held<typename VK<T, K>::V, typename VK<T, K>::B> H; H *h = dynamic_cast<H *>(o); if (!h) die("operand class"); return h->v;}
template <typename T> struct TC; // letters
template <> struct TC<float> { static char const c = 'f';};
template <> struct TC<double> { static char const c = 'd';};
template <> struct TC<std::complex<float> > { static char const c = 'c';};
template <> struct TC<std::complex<double> > { static char const c = 'z';};
template <> struct TC<int> { static char const c = 'i';};
template <typename T> T sc(Vec const &k, int i) { ll p[2] = {k[2 * i], k[2 * i + 1]}; return Enc<T>::get(p);}
#define DECL(p) void parts_##p(); Obj *make_##p(char T, bool mat, int cls, length_type r, length_type c, Shape s);
DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9) DECL(10) DECL(11) DECL(12) DECL(13) DECL(14)
#undef DECL
#endif
