#include "dist.hpp"
namespace {
#if PART == 1
namespace f1 { DKINDS1(float) }
using namespace f1;
struct Reg { Reg() {
  MK("f", Br) MK("f", Cr) MK("f", Wr) MK("f", R1r)
#define P(d, fd) AS("f", d, fd, Br, w) AS("f", d, fd, Cr, w) AS("f", d, fd, R1r, w) AS("f", d, fd, Wr, w) AS("f", d, fd, Br, s)
  P(Br, w) P(Br, s) P(Cr, w) P(R1r, w) P(Wr, w)
}} reg_;
#elif PART == 2
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
  MK("f", BBr) MK("f", BBc) MK("f", CBr) MK("f", BCc) MK("f", CCr) MK("f", WBr) MK("f", R2r) MK("f", R2c)
#define P(d, fd) AS("f", d, fd, BBr, w) AS("f", d, fd, BBc, w) AS("f", d, fd, CBr, w) AS("f", d, fd, BCc, w) AS("f", d, fd, CCr, w) AS("f", d, fd, R2r, w)
  P(BBr, w) P(BBc, w) P(BCc, w)
}} reg_;
#elif PART == 3
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBr, w) AS("f", d, fd, BBc, w) AS("f", d, fd, CBr, w) AS("f", d, fd, BCc, w) AS("f", d, fd, WBr, w) AS("f", d, fd, R2c, w)
  P(CCr, w) P(R2r, w) P(WBr, w)
}} reg_;
#elif PART == 4
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBr, s) AS("f", d, fd, BBc, s) AS("f", d, fd, BBr, w) AS("f", d, fd, CBr, w) AS("f", d, fd, R2r, w) AS("f", d, fd, R2r, s)
  P(BBr, s) P(BBc, s) P(R2r, s)
}} reg_;
#elif PART == 5
namespace f2 { DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBr, s) AS("f", d, fd, BBr, t) AS("f", d, fd, BBc, t)
  P(BBr, w) P(CBr, w) P(R2c, w) P(BBc, w) P(BBr, t) P(BBc, t)
}} reg_;
#elif PART == 6
namespace f2 { DKINDS1(float) DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBr, r) AS("f", d, fd, BBr, c) AS("f", d, fd, BBc, r) AS("f", d, fd, BBc, c) AS("f", d, fd, R2r, r)
  P(Br, w) P(R1r, w) P(Cr, w) P(BBr, r) P(BBr, c) P(BBc, r)
#undef P
#define P(d, fd) AS("f", d, fd, Br, w) AS("f", d, fd, Cr, w) AS("f", d, fd, R1r, w)
  P(BBr, r) P(BBr, c) P(BBc, c) P(R2r, c)
}} reg_;
#elif PART == 7
namespace f3 { DKINDS3(float) }
using namespace f3;
struct Reg { Reg() {
  MK("f", BBBr) MK("f", BBBc) MK("f", CBWx) MK("f", BBBx) MK("f", R3r)
#define P(d, fd) AS("f", d, fd, BBBr, w) AS("f", d, fd, BBBc, w) AS("f", d, fd, CBWx, w) AS("f", d, fd, BBBx, w) AS("f", d, fd, R3r, w)
  P(BBBr, w) P(CBWx, w) P(BBBx, w) P(R3r, w)
  AS("f", BBBr, s, BBBr, s) AS("f", BBBr, s, BBBc, w) AS("f", BBBx, w, BBBr, s)
}} reg_;
#elif PART == 8
namespace z { DKINDS1(std::complex<float>) DKINDS2(std::complex<float>) }
using namespace z;
struct Reg { Reg() {
  MK("z", Br) MK("z", Cr) MK("z", R1r) MK("z", BBr) MK("z", BBc) MK("z", BCc)
  AS("z", Br, w, Br, w) AS("z", Br, w, Cr, w) AS("z", Cr, w, Br, s) AS("z", R1r, w, Cr, w) AS("z", Br, s, Br, w)
  AS("z", BBr, w, BBc, w) AS("z", BBc, s, BBr, w) AS("z", BCc, w, BBr, w) AS("z", BBr, w, BCc, w)
}} reg_;
#elif PART == 9
namespace i { DKINDS1(int) DKINDS2(int) }
using namespace i;
struct Reg1 { Reg1() {
  MK("i", Br) MK("i", Cr) MK("i", BBr) MK("i", BBc)
  AS("i", Br, w, Br, w) AS("i", Cr, w, Br, w) AS("i", BBr, w, BBc, w) AS("i", BBc, w, BBr, s)
}} reg1_;
namespace d { namespace D { DKINDS1(double) DKINDS2(double) } using namespace D;
struct Reg2 { Reg2() {
  MK("d", Br) MK("d", R1r) MK("d", BBr) MK("d", BBc)
  AS("d", Br, w, Br, w) AS("d", R1r, w, Br, w) AS("d", BBr, w, BBc, w) AS("d", BBc, w, BBr, s)
}} reg2_; }
#elif PART == 10
namespace f2 { DKINDS1(float) DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, CBr, r) AS("f", d, fd, CBr, c) AS("f", d, fd, BCc, c) AS("f", d, fd, CCr, r) AS("f", d, fd, WBr, c)
  P(Br, w) P(R1r, w) P(Cr, w) P(CBr, r) P(CBr, c) P(CCr, c) P(WBr, r)
}} reg_;
#elif PART == 11
namespace f2 { DKINDS1(float) DKINDS2(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, R1r, s)  AS("f", d, fd, Wr, w)
  P(Br, w) P(R1r, w) P(Br, s) P(R1r, s) P(BBr, r)
  AS("f", R2r, t, BBr, w) AS("f", R2r, t, CBr, w) AS("f", R2r, w, R2r, t) AS("f", BBc, w, R2r, t) AS("f", BCc, t, BBr, w) AS("f", CCr, t, BCc, w) AS("f", CCr, w, CCr, t) AS("f", R2r, w, WBr, t)
}} reg_;
#elif PART == 12
namespace f2 { DKINDS2(float) DKINDS3(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBBr, x) AS("f", d, fd, BBBr, y) AS("f", d, fd, BBBr, z) AS("f", d, fd, CBWx, x) AS("f", d, fd, CBWx, z) AS("f", d, fd, BBBx, y)  AS("f", d, fd, R3r, y)
  P(BBr, w) P(BBc, w) P(CBr, w) P(R2r, w) P(BBBr, y)
#undef P
#define P(d, fd) AS("f", d, fd, BBr, w) AS("f", d, fd, BBc, w)
  P(BBBr, x) P(BBBr, y) P(BBBr, z) P(BBBx, x) P(BBBx, y) P(BBBc, z) P(CBWx, y) P(CBWx, z) P(R3r, z)
}} reg_;
#elif PART == 13
namespace f2 { DKINDS1(float) DKINDS3(float) }
using namespace f2;
struct Reg { Reg() {
#define P(d, fd) AS("f", d, fd, BBBr, p) AS("f", d, fd, BBBr, q) AS("f", d, fd, BBBr, u) AS("f", d, fd, BBBx, p) AS("f", d, fd, CBWx, q) AS("f", d, fd, BBBx, u) AS("f", d, fd, R3r, p) AS("f", d, fd, R3r, u)
  P(Br, w) P(Cr, w) P(R1r, w) P(BBBr, q)
#undef P
#define P(d, fd) AS("f", d, fd, Br, w) AS("f", d, fd, R1r, w)
  P(BBBr, p) P(BBBr, q) P(BBBr, u) P(BBBx, p) P(BBBx, u) P(CBWx, q) P(CBWx, u) P(R3r, u)
}} reg_;
#endif
}
