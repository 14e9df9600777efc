// Entry points for HashTable.
// Macros: THROWS (allocation and the copies of keys and values may throw)
#ifdef THROWS
#define VPNA
#define VPT
#else
#define VPT noexcept
#endif
#include "shadow.h"
extern "C" {
  void vpa_E_copy(void* d, const void* s) VPT;
  void vpa_E_assign(void* d, const void* s) VPT;
  void vpa_E_dtor(void* d) VPN;
  size_t vpra_hash_E(const void* k, const void* conf) VPN;
  bool vpra_keq(const void* a, const void* b, const void* conf) VPN;
  void vpa_conf_copy(void* d, const void* s) VPN;
  void vpi_inserted(bool fresh, const void* h) VPN;
}
struct K {
  K(const K& e) {vpa_E_copy(this, &e);}
  K& operator=(const K& e) {vpa_E_assign(this, &e); return *this;}
  ~K() {vpa_E_dtor(this);}
  void* h;
};
struct V {
  V(const V& e) {vpa_E_copy(this, &e);}
  V& operator=(const V& e) {vpa_E_assign(this, &e); return *this;}
  ~V() {vpa_E_dtor(this);}
  void* h;
};
struct Conf {
  Conf(const Conf& c) {vpa_conf_copy(this, &c);}
  typedef K Key;
  typedef V Value;
  size_t hash(const K& k) const {return vpra_hash_E(&k, this);}
  bool keysEqual(const K& a, const K& b) const {return vpra_keq(&a, &b, this);}
  void* h;
};
#include "mathic/HashTable.h"
typedef mathic::HashTable<Conf> T;
typedef T::Handle H;

#define R extern "C" __attribute__((used))
R void vp_root_create(void* mem, const Conf& c, unsigned bits) {new (mem) T(c, bits);}
R H* vp_root_lookup(T& t, const K& k) {return t.lookup(k);}
R void vp_root_insert(T& t, const K& k, const V& v) {
  ::std::pair<bool, H*> r = t.insert(k, v);
  vpi_inserted(r.first, r.second);
}
R void vp_root_remove(T& t, H* h) {t.remove(h);}
R void vp_root_hardreset(T& t) {t.hardReset();}
R void vp_root_reset(T& t) {t.reset();}
R const K* vp_root_key(const H& h) {return &h.key();}
R const V* vp_root_value(const H& h) {return &h.value();}
R size_t vp_root_memuse(const T& t) {return t.memoryUse();}
