// Entry points for the divisor finders (KDTree, DivList).
// Macros: KIND 0 DivList, 1 KDTree; MASK, TREEMASK, PACKED, LEAF, REMOVALS, LINKED
#include "shadow.h"
extern "C" {
  void vpa_E_init(void* d) VPN;
  void vpa_E_copy(void* d, const void* s) VPN;
  void vpa_E_assign(void* d, const void* s) VPN;
  void vpa_E_dtor(void* d) VPN;
  bool vpra_divides_EM(const void* e, const void* m, const void* conf) VPN;
  bool vpra_divides_ME(const void* m, const void* e, const void* conf) VPN;
  bool vpra_divides_EE(const void* a, const void* b, const void* conf) VPN;
  bool vpra_less_EM(const void* e, const void* m, const void* conf) VPN;
  bool vpra_less_ME(const void* m, const void* e, const void* conf) VPN;
  bool vpra_less_EE(const void* a, const void* b, const void* conf) VPN;
  int vpra_exp_E(const void* e, size_t var, const void* conf) VPN;
  int vpra_exp_M(const void* m, size_t var, const void* conf) VPN;
  size_t vpp_varcount(const void* conf) VPN;
  bool vpp_sortoninsert(const void* conf) VPN;
  bool vpp_dorebuild(const void* conf) VPN;
  double vpp_rebuildratio(const void* conf) VPN;
  size_t vpp_rebuildmin(const void* conf) VPN;
  bool vpp_usecache(const void* conf) VPN;
  void vpa_conf_copy(void* d, const void* s) VPN;
  void vpa_conf_dtor(void* d) VPN;
  bool vpi_proceed(void* out, const void* e) VPN;
  void vpi_pushback(void* out, const void* e) VPN;
}
struct E {
  E() {vpa_E_init(this);}
  E(const E& e) {vpa_E_copy(this, &e);}
  E& operator=(const E& e) {vpa_E_assign(this, &e); return *this;}
  ~E() {vpa_E_dtor(this);}
  void* h;
};
struct M {void* h;};

struct Conf {
  Conf(const Conf& c) {vpa_conf_copy(this, &c);}
  ~Conf() {vpa_conf_dtor(this);}
  typedef E Entry;
  typedef M Monomial;
  typedef int Exponent;
  static const bool UseDivMask = MASK;
  static const bool UseTreeDivMask = TREEMASK;
  static const bool PackedTree = PACKED;
  static const size_t LeafSize = LEAF;
  static const bool AllowRemovals = REMOVALS;
  static const bool UseLinkedList = LINKED;
  int getExponent(const E& e, size_t v) const {return vpra_exp_E(&e, v, this);}
  int getExponent(const M& m, size_t v) const {return vpra_exp_M(m.h, v, this);}
  bool divides(const E& a, const M& b) const {return vpra_divides_EM(&a, b.h, this);}
  bool divides(const M& a, const E& b) const {return vpra_divides_ME(a.h, &b, this);}
  bool divides(const E& a, const E& b) const {return vpra_divides_EE(&a, &b, this);}
  bool isLessThan(const E& a, const M& b) const {return vpra_less_EM(&a, b.h, this);}
  bool isLessThan(const M& a, const E& b) const {return vpra_less_ME(a.h, &b, this);}
  bool isLessThan(const E& a, const E& b) const {return vpra_less_EE(&a, &b, this);}
  size_t getVarCount() const {return vpp_varcount(this);}
  bool getSortOnInsert() const {return vpp_sortoninsert(this);}
#ifdef NOREBUILD
  bool getDoAutomaticRebuilds() const {return false;}
#else
  bool getDoAutomaticRebuilds() const {return vpp_dorebuild(this);}
#endif
  double getRebuildRatio() const {return vpp_rebuildratio(this);}
  size_t getRebuildMin() const {return vpp_rebuildmin(this);}
  bool getUseDivisorCache() const {return vpp_usecache(this);}
  size_t getLeafSize() const {return LEAF;}
  void* h;
};
struct Out {
  bool proceed(const E& e) {return vpi_proceed(this, &e);}
  void push_back(const E& e) {vpi_pushback(this, &e);}
  void* h;
};

#if KIND == 0
#include "mathic/DivList.h"
typedef mathic::DivList<Conf> T;
#else
#include "mathic/KDTree.h"
typedef mathic::KDTree<Conf> T;
#endif

#define R extern "C" __attribute__((used))
R void vp_root_ctor(void* mem, const Conf& c) {new (mem) T(c);}
R void vp_root_dtor(T& t) {t.~T();}
R E* vp_root_find(T& t, const M& m) {return t.findDivisor(m);}
R const E* vp_root_findconst(const T& t, const M& m) {return t.findDivisor(m);}
R void vp_root_alldiv(T& t, const M& m, Out& o) {t.findAllDivisors(m, o);}
R void vp_root_alldivconst(const T& t, const M& m, Out& o) {t.findAllDivisors(m, o);}
R void vp_root_allmul(T& t, const M& m, Out& o) {t.findAllMultiples(m, o);}
R void vp_root_allmulconst(const T& t, const M& m, Out& o) {t.findAllMultiples(m, o);}
R void vp_root_forall(T& t, Out& o) {t.forAll(o);}
R void vp_root_forallconst(const T& t, Out& o) {t.forAll(o);}
R void vp_root_insert(T& t, const E& e) {t.insert(e);}
R void vp_root_insertrange(T& t, E* b, E* e) {t.insert(b, e);}
#if REMOVALS || KIND == 0
R bool vp_root_removemul(T& t, const M& m, Out& o) {return t.removeMultiples(m, o);}
R bool vp_root_removemulquiet(T& t, const M& m) {return t.removeMultiples(m);}
R bool vp_root_removeelem(T& t, const M& m) {return t.removeElement(m);}
#endif
R void vp_root_rebuild(T& t) {t.rebuild();}
R size_t vp_root_size(const T& t) {return t.size();}
R bool vp_root_empty(const T& t) {return t.empty();}
R size_t vp_root_memuse(const T& t) {return t.getMemoryUse();}
R const Conf* vp_root_conf(T& t) {return &t.getConfiguration();}
#if KIND == 0
R const E* vp_root_findit(T& t, const M& m) {
  T::iterator it = t.findDivisorIterator(m);
  T::iterator e = t.end();
  return it == e ? 0 : &*it;
}
R void vp_root_movetofront(T& t, T::iterator it) {t.moveToFront(it);}
#else
R void vp_root_clear(T& t) {t.clear();}
#endif
// where things are kept; analysed, never run
typedef T::ExtEntry VpExt;
#define A extern "C" __attribute__((used))
A size_t vp_acc_entrysize() {return sizeof(VpExt);}
A const void* vp_acc_entry(VpExt& e) {return &e.get();}
#if MASK
A unsigned vp_acc_entrymask(VpExt& e) {auto m = e.getDivMask(); return *(unsigned*)&m;}
#endif
#if KIND == 0
A const void* vp_acc_list(T& t) {return &t._list;}
#else
A void* vp_acc_root(T& t) {return t._tree._root;}
#if !PACKED
typedef T::Tree::Interior VpI;
typedef T::Tree::Leaf VpL;
A bool vp_acc_leaf(T::Tree::Node& n) {return n.isLeaf();}
A const void* vp_acc_le(VpI& n) {return &n.getEqualOrLess();}
A const void* vp_acc_gt(VpI& n) {return &n.getStrictlyGreater();}
A int vp_acc_exp(VpI& n) {return n.getExponent();}
A size_t vp_acc_var(VpI& n) {return n.getVar();}
#if TREEMASK
A unsigned vp_acc_nodemask(VpI& n) {auto m = n.getDivMask(); return *(unsigned*)&m;}
#endif
#else
typedef T::Tree::Node VpL;
typedef T::Tree::Node::Child VpC;
A size_t vp_acc_childsize() {return sizeof(VpC);}
A const void* vp_acc_cbegin(VpL& n) {return n.childBegin();}
A const void* vp_acc_cend(VpL& n) {return n.childEnd();}
A const void* vp_acc_link(VpC& n) {return n.node;}
A int vp_acc_exp(VpC& n) {return n.exponent;}
A size_t vp_acc_var(VpC& n) {return n.var;}
#if TREEMASK
A unsigned vp_acc_nodemask(VpC& n) {auto m = n.getDivMask(); return *(unsigned*)&m;}
#endif
#endif
A const void* vp_acc_begin(VpL& n) {return n.entries().begin();}
A const void* vp_acc_end(VpL& n) {return n.entries().end();}
#if TREEMASK
A unsigned vp_acc_entriesmask(VpL& n) {auto m = n.entries().getDivMask(); return *(unsigned*)&m;}
#endif
#endif
