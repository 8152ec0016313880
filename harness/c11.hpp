// C11: convolution and correlation.
#include "forms.hpp"
void conv_1(Line &l, Out &out); void conv_2(Line &l, Out &out); void conv_3(Line &l, Out &out); void conv_4(Line &l, Out &out); void conv_5(Line &l, Out &out);
void corr_1(Line &l, Out &out); void corr_2(Line &l, Out &out); void corr_3(Line &l, Out &out); void corr_4(Line &l, Out &out); void corr_5(Line &l, Out &out);
