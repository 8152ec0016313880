#include "c21.hpp"
#define GO2(n, T) void run_##n(Out &o, Line &l, Ev e) { run<T >(o, l, e);}
#if PART == 0
GO2(0, float)
#elif PART == 1
GO2(1, complex<float>)
#elif PART == 2
GO2(2, int)
#elif PART == 3
GO2(3, std::uint8_t)
#elif PART == 4
GO2(4, std::int64_t)
#elif PART == 5
GO2(5, complex<double>)
#elif PART == 6
GO2(6, bool)
#elif PART == 7
GO2(7, double)
#endif
