// One translation unit per PART; registers base block kinds (kind -> factory).
#include "c02.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(reg_, PART)(Reg &r)
{
#if PART == 1
  r["v_f"] = mk1<Dense<1, float>, 3>;
  r["v_c"] = mk1<Dense<1, cf>, 3>;
  r["v_s"] = mk1<Strided<1, cf, Layout<1, row1_type, dense, split_complex> >, 3>;
  r["v_i"] = mk1<Dense<1, int>, 2>;
#elif PART == 2
  r["m_fr"] = mk2<Dense<2, float, row2_type>, 3>;
  r["m_bool"] = mk2<Dense<2, int, col2_type>, 2>;
#elif PART == 3
  r["m_fc"] = mk2<Dense<2, double, col2_type>, 3>;
#elif PART == 4
  r["m_cr"] = mk2<Dense<2, cf, row2_type>, 2>;
  r["m_s"] = mk2<Strided<2, cf, Layout<2, col2_type, aligned_16, split_complex> >, 2>;
#elif PART == 5
  r["t_f012"] = mk3<Dense<3, float, tuple<0,1,2> >, 2>;
#elif PART == 6
  r["t_f201"] = mk3<Dense<3, float, tuple<2,0,1> >, 2>;
#elif PART == 7
  r["t_c120"] = mk3<Dense<3, cf, tuple<1,2,0> >, 2>;
#elif PART == 8
  r["t_s021"] = mk3<Strided<3, cf, Layout<3, tuple<0,2,1>, aligned_8, split_complex> >, 2>;
#endif
}
