// C09: direct data access.
#include "forms.hpp"
#include <vsip/dda.hpp>
#include <ovxx/dda/runtime.hpp>
// a session: type, dims, form, inner view kind, values, then programs of data objects
void ses_1(Line &l, Out &out); void ses_2(Line &l, Out &out); void ses_3(Line &l, Out &out); void ses_4(Line &l, Out &out);
void ses_5(Line &l, Out &out); void ses_6(Line &l, Out &out); void ses_7(Line &l, Out &out); void ses_8(Line &l, Out &out);
