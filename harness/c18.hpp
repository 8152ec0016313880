// C18: Fft and Fftm objects over every kind, element type, backend, view form and way of calling.
#ifndef c18_hpp_
#define c18_hpp_
#include "forms.hpp"
#include <vsip/domain.hpp>
#include <vsip/math.hpp>
#include <vsip/impl/signal/fft.hpp>
#include <ovxx/signal/fft/dft.hpp>
struct Obj
{
  virtual ~Obj() {}
  virtual void info(Ev &e) = 0;
  // mode: o out of place, i in place, v by value, a by value assigned to a view, s sum of two by value, x expression argument
  virtual void call(char mode, char fin, char fout, Vec const &x, Vec const &x2, Ev &e) = 0;
};
struct Args { std::string kind; char T, be; int N; length_type n[3]; double scale;};
// one registry per part; returns 0 when the part does not have that kind
#define DECL(p) Obj *make_##p(Args const &);
DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9) DECL(10) DECL(11) DECL(12)
#undef DECL
#endif
