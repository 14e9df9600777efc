// Entry points for the mask arithmetic of DivMask.
#include "shadow.h"
extern "C" {
  int vpra_exp_E(const void* e, size_t var, const void* conf) VPN;
  bool vpra_divides_EE(const void* a, const void* b, const void* conf) VPN;
  size_t vpp_varcount(const void* conf) VPN;
}
struct E {void* h;};
struct Conf {
  typedef E Entry;
  typedef E Monomial;
  typedef int Exponent;
  static const bool UseDivMask = true;
  static const bool UseTreeDivMask = true;
  int getExponent(const E& e, size_t v) const {return vpra_exp_E(&e, v, this);}
  bool divides(const E& a, const E& b) const {return vpra_divides_EE(&a, &b, this);}
  size_t getVarCount() const {return vpp_varcount(this);}
};
#include "mathic/DivMask.h"
typedef mathic::DivMask DM;
typedef DM::Calculator<Conf> Calc;
typedef DM::HasDivMask<true> H;
typedef DM::Extender<E, true> X;
typedef DM::Extender<const E&, true> XR;
static_assert(sizeof(DM) == sizeof(unsigned), "a mask is one word");
#define R extern "C" __attribute__((used))
// masks of t
R unsigned vp_root_compute(const E& t, const Calc& calc, const Conf& c) {return calc.compute(t, c);}
R unsigned vp_root_maskof(const E& t, const Calc& calc, const Conf& c) {DM m(t, calc, c); return *(unsigned*)&m;}
R unsigned vp_root_recalc(const E& t, const Calc& calc, const Conf& c) {DM m; m.recalculate(t, calc, c); return *(unsigned*)&m;}
R unsigned vp_root_hasof(const E& t, const Calc& calc, const Conf& c) {H m(t, calc, c); return *(unsigned*)&m.getDivMask();}
R unsigned vp_root_extof(const E& t, const Calc& calc, const Conf& c) {X m(t, calc, c); return *(unsigned*)&m.getDivMask();}
R unsigned vp_root_refof(const E& t, const Calc& calc, const Conf& c) {XR m(t, calc, c); return *(unsigned*)&m.getDivMask();}
R unsigned vp_root_extrecalc(const E& t, const Calc& calc, const Conf& c) {
  X m(t, calc, c); m.resetDivMask(); m.recalculateDivMask(calc, c); return *(unsigned*)&m.getDivMask();
}
// comparisons
R bool vp_root_candivide(const DM& a, const DM& b) {return a.canDivide(b);}
R bool vp_root_hascandivide(const H& a, const H& b) {return a.canDivide(b);}
R bool vp_root_extcandivide(const X& a, const X& b) {return a.canDivide(b);}
R bool vp_root_extdivides(const X& a, const X& b, const Conf& c) {return a.divides(b, c);}
R bool vp_root_refdivides(const XR& a, const X& b, const Conf& c) {return a.divides(b, c);}
R bool vp_root_dividesref(const X& a, const XR& b, const Conf& c) {return a.divides(b, c);}
// bounds
R void vp_root_and(DM& a, const DM& b) {a.combineAnd(b);}
R void vp_root_lower(H& a, const H& b) {a.updateToLowerBound(b);}
R void vp_root_lowerext(H& a, const X& b) {a.updateToLowerBound(b);}
R void vp_root_reset(H& a) {a.resetDivMask();}
R void vp_root_init(H& a) {new (&a) H();}
R unsigned vp_root_max() {DM m = DM::getMaxMask(); return *(unsigned*)&m;}
R unsigned vp_acc_dm(const DM& a) {return *(const unsigned*)&a;}
R unsigned vp_acc_has(const H& a) {return *(const unsigned*)&a.getDivMask();}
R unsigned vp_acc_ext(const X& a) {return *(const unsigned*)&a.getDivMask();}
R unsigned vp_acc_ref(const XR& a) {return *(const unsigned*)&a.getDivMask();}
