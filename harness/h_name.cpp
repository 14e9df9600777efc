// Entry points for NameFactory.
// Macro OPAQUE: uniqueNameWithPrefix is an opaque function
#include "shadow_str.h"
extern "C" {
  void vpi_found(const void* p) VPN;
  void vpi_answer(const char* name) VPN;
  void vpi_arg(const char* text) VPN;
  void vpa_prod_dtor(const void* p) VPN;
  void* vpi_prod_new() VPN;
  const char* vpi_resolve(const void* f, const char* prefix);
}
#include "mathic/error.cpp"
#include "mathic/NameFactory.h"
namespace mathic {
struct Prod {
  ~Prod() {vpa_prod_dtor(this);}
};
typedef std::string S;
typedef NameFactory<Prod> F;
#ifdef OPAQUE
template<> std::string uniqueNameWithPrefix<Prod>(const F& f, const std::string& p) {
  return std::string::Raw{vpi_resolve(&f, p.v)};
}
#endif
#define R extern "C" __attribute__((used))
#ifdef OPAQUE
R void vp_root_withprefix(const F& f, const S& p) {
  vpi_arg(p.v);
  vpi_found(createWithPrefix(f, p).release());
}
#else
R void vp_root_lookup(const F& f, const S& n) {
  vpi_arg(n.v);
  vpi_found(f.createNullOnUnknown(n).release());
}
R void vp_root_create(const F& f, const S& n) {
  vpi_arg(n.v);
  vpi_found(f.create(n).release());
}
R void vp_root_names(const F& f, const S& p, std::vector<S>& names) {vpi_arg(p.v); f.namesWithPrefix(p, names);}
R void vp_root_unique(const F& f, const S& p) {
  vpi_arg(p.v);
  S r = uniqueNameWithPrefix(f, p);
  vpi_answer(r.v);
}
R void vp_root_register(F& f, const S& n, F::FactoryFunction c) {vpi_arg(n.v); f.registerProduct(n, c);}
#endif
}
