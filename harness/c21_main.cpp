#include "c21.hpp"
template <typename T, dimension_type D, typename O> void one(Vec &v, ser::Descriptor const &d)
{
  bool a = ser::is_compatible<Dense<D, T, O> >(d), b = ser::is_compatible<ovxx::Strided<D, T, Layout<D, O, dense, F<T>::cx ? split_complex : array> > >(d);
  v.push_back(a == b ? a : 2);
}
template <typename T> void type(Vec &v, ser::Descriptor const &d)
{
  one<T, 1, tuple<0, 1, 2> >(v, d);
  one<T, 2, tuple<0, 1, 2> >(v, d); one<T, 2, tuple<1, 0, 2> >(v, d);
  one<T, 3, tuple<0, 1, 2> >(v, d); one<T, 3, tuple<0, 2, 1> >(v, d); one<T, 3, tuple<1, 0, 2> >(v, d);
  one<T, 3, tuple<1, 2, 0> >(v, d); one<T, 3, tuple<2, 0, 1> >(v, d); one<T, 3, tuple<2, 1, 0> >(v, d);
}
Vec compat(ser::Descriptor const &d)
{
  Vec v;
  type<bool>(v, d); type<char>(v, d); type<float>(v, d); type<complex<float> >(v, d); type<double>(v, d); type<complex<double> >(v, d);
  type<std::int8_t>(v, d); type<std::uint8_t>(v, d); type<std::int16_t>(v, d); type<std::uint16_t>(v, d);
  type<std::int32_t>(v, d); type<std::uint32_t>(v, d); type<std::int64_t>(v, d); type<std::uint64_t>(v, d); type<Pixel>(v, d);
  Vec s;                                             // the places of the compatible ones (-1 - place if two kinds of block disagree)
  for (size_t i = 0; i < v.size(); ++i) if (v[i]) s.push_back(v[i] == 1 ? i : -1 - (ll)i);
  return s;
}
int main(int argc, char **argv)
{
  vsipl init(argc, argv);
  std::ifstream is(argv[1]);
  Out out(argv[2]);
  Line l;
  typedef void (*fn)(Out &, Line &, Ev);
  fn const runs[] = {run_0, run_1, run_2, run_3, run_4, run_5, run_6, run_7};
  while (read_line(is, l))
  {
    if (l.op == "begin") out(Ev("begin"));
    else if (l.op == "src") { ll t = l.i(); Ev e("src"); runs[t](out, l, e.i("t", t));}
    else if (l.op == "desc")
    {
      Vec h = l.v(), s = l.v(), t = l.v();
      ser::Descriptor d;
      d.value_type = h[0]; d.dimensions = h[1]; d.storage_format = h[2]; d.storage_size = h[3];
      for (int i = 0; i < 3; ++i) { d.size[i] = s[i]; d.stride[i] = t[i];}
      Ev e("desc");
      put_desc(e, d, 3);
      out(e.v("ok", compat(d)));
    }
    else die("bad op " + l.op);
  }
}
