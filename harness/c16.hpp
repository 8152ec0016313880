// C16: selection, generation and manipulation functions.
#include "forms.hpp"
#include <vsip/selgen.hpp>
#include <vsip/impl/signal/freqswap.hpp>
void op_a(Line &l, Out &out);   // ramp, first, indexbool
void op_b(Line &l, Out &out);   // gather, scatter
void op_c(Line &l, Out &out);   // clip, invclip
void op_d(Line &l, Out &out);   // swap
void op_e(Line &l, Out &out);   // freqswap
