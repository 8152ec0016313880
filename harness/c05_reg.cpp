#include "c05.hpp"
#define M3(a, b, c) Map<a##_dist, b##_dist, c##_dist>
#define R(key, D, ...) { table()[key] = &run<D, __VA_ARGS__ >; }
namespace { struct Reg { Reg() {
#if PART == 1
  R("B", 1, Map<>) R("C", 1, Map<Cyclic_dist>) R("W", 1, Map<Whole_dist>) R("R1", 1, Replicated_map<1>)
  R("BB", 2, Map<>) R("BC", 2, Map<Block_dist, Cyclic_dist>) R("BW", 2, Map<Block_dist, Whole_dist>)
#elif PART == 2
  R("CB", 2, Map<Cyclic_dist, Block_dist>) R("CC", 2, Map<Cyclic_dist, Cyclic_dist>) R("CW", 2, Map<Cyclic_dist, Whole_dist>)
  R("WB", 2, Map<Whole_dist, Block_dist>) R("WC", 2, Map<Whole_dist, Cyclic_dist>) R("WW", 2, Map<Whole_dist, Whole_dist>) R("R2", 2, Replicated_map<2>)
#elif PART == 3
  R("BBB", 3, Map<>) R("CCC", 3, M3(Cyclic, Cyclic, Cyclic)) R("BWC", 3, M3(Block, Whole, Cyclic)) R("WCB", 3, M3(Whole, Cyclic, Block))
#elif PART == 4
  R("CBW", 3, M3(Cyclic, Block, Whole)) R("BCB", 3, M3(Block, Cyclic, Block)) R("CWC", 3, M3(Cyclic, Whole, Cyclic)) R("R3", 3, Replicated_map<3>)
#endif
}} reg_; }
