// C14: reductions.
#include "forms.hpp"
void op_a(Line &l, char T, Out &out);   // bool, int
void op_b(Line &l, char T, Out &out);   // float, double
void op_c(Line &l, char T, Out &out);   // complex
void op_d(Line &l, char T, Out &out);   // long vectors
void op_e(Line &l, char T, Out &out);   // float tensors, int tensors
void op_f(Line &l, char T, Out &out);   // complex tensors
