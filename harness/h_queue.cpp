// Entry points for Heap (KIND 0) and TourTree (KIND 1).
// Macros: KIND, DEDUP, FAST
#include "shadow.h"
extern "C" {
  void vpa_E_copy(void* d, const void* s) VPN;
  void vpa_E_assign(void* d, const void* s) VPN;
  char* vpra_compare_EE(const void* a, const void* b, const void* conf) VPN;
  bool vpra_cmplt(const void* r, const void* conf) VPN;
  bool vpra_cmpeq(const void* r, const void* conf) VPN;
  void vpi_dedup(void* res, const void* a, const void* b, const void* conf) VPN;
  bool vpi_proceed(void* out, const void* e) VPN;
  void vpa_conf_copy(void* d, const void* s) VPN;
}
struct E {
  E() = default;
  E(const E& e) {vpa_E_copy(this, &e);}
  E& operator=(const E& e) {vpa_E_assign(this, &e); return *this;}
  void* h;
};
struct Conf {
  Conf(const Conf& c) {vpa_conf_copy(this, &c);}
  typedef E Entry;
  struct CompareResult {char* h;};
  static const bool supportDeduplication = DEDUP;
  static const bool fastIndex = FAST;
  CompareResult compare(const E& a, const E& b) const {
    CompareResult r;
    r.h = vpra_compare_EE(&a, &b, this);
    return r;
  }
  bool cmpLessThan(CompareResult r) const {return vpra_cmplt(r.h, this);}
  bool cmpEqual(CompareResult r) const {return vpra_cmpeq(r.h, this);}
  E deduplicate(const E& a, const E& b) const {
    E r;
    vpi_dedup(&r, &a, &b, this);
    return r;
  }
  void* h;
};
struct Out {
  bool proceed(const E& e) {return vpi_proceed(this, &e);}
  void* h;
};
#include "mathic/ComTree.h"
#if KIND == 0
#include "mathic/Heap.h"
typedef mathic::Heap<Conf> T;
#else
#include "mathic/TourTree.h"
typedef mathic::TourTree<Conf> T;
#endif

#define R extern "C" __attribute__((used))
R void vp_root_push(T& t, const E& e) {t.push(e);}
R void vp_root_pop(T& t, E* out) {new (out) E(t.pop());}
R void vp_root_top(T& t, E* out) {new (out) E(t.top());}
R void vp_root_decreasetop(T& t, const E& e) {t.decreaseTop(e);}
R bool vp_root_empty(const T& t) {return t.empty();}
R void vp_root_clear(T& t) {t.clear();}
R void vp_root_forall(T& t, Out& o) {t.forAll(o);}
R size_t vp_root_memuse(const T& t) {return t.getMemoryUse();}
#if KIND == 0
R size_t vp_root_size(const T& t) {return t.size();}
#endif
typedef mathic::ComTree<E, FAST> CT;
R void vp_root_ctcopy(void* mem, const CT& t, size_t cap) {new (mem) CT(t, cap);}
R void vp_root_ctpushback(CT& t, const E& e) {t.pushBack(e);}
R void vp_root_ctincrease(CT& t) {t.increaseCapacity();}
