// Entry points for the command line parameters.
#include "shadow_str.h"
#include "mathic/error.cpp"
#include "mathic/CliParameter.cpp"
#include "mathic/IntegerParameter.cpp"
#include "mathic/BoolParameter.cpp"
#include "mathic/StringParameter.cpp"
extern "C" {
  void vpi_rejected_int(unsigned before, unsigned after, const char* arg) VPN;
  void vpi_accepted_int(unsigned after, const char* arg) VPN;
  void vpi_rejected_bool(bool before, bool after, const char* arg) VPN;
  void vpi_accepted_bool(bool after, const char* arg) VPN;
  void vpi_rejected_str(const char* before, const char* after, const char* arg) VPN;
  void vpi_accepted_str(const char* after, const char* arg) VPN;
  void vpi_same_int(unsigned a, unsigned b) VPN;
  void vpi_same_bool(bool a, bool b) VPN;
  void vpi_same_str(const char* a, const char* b) VPN;
  void vpi_shown_int(const char* s, unsigned v) VPN;
  void vpi_shown_bool(const char* s, bool v) VPN;
  void vpi_shown_str(const char* s, const char* v) VPN;
  void vpi_name_kept(const char* n, const char* m) VPN;
}
namespace mathic {
typedef std::string S;
#define R extern "C" __attribute__((used))
#define PARAM(P, k, T, VAL, X) \
  R void vp_root_##k##process(P& p, const S& a) { \
    const char* arg = a.v; \
    X before = VAL(p.value()); \
    try {p.P::processArgument(a);} \
    catch (...) {vpi_rejected_##k(before, VAL(p.value()), arg); return;} \
    vpi_accepted_##k(VAL(p.value()), arg); \
  } \
  R void vp_root_##k##show(const P& p) {S s = p.P::valueAsString(); vpi_shown_##k(s.v, VAL(p.value()));} \
  R void vp_root_##k##set(P& p, T x) {X y = VAL(x); p.setValue(x); vpi_same_##k(VAL(p.value()), y);} \
  R void vp_root_##k##assign(P& p, T x) {X y = VAL(x); p = x; vpi_same_##k(VAL(p.value()), y);} \
  R void vp_root_##k##convert(const P& p) {T x = p; vpi_same_##k(VAL(p.value()), VAL(x));} \
  R void vp_root_##k##ctor(const S& n, const S& d, T x) { \
    P p(n, d, x); \
    vpi_same_##k(VAL(p.value()), VAL(x)); \
    vpi_same_str(p.name().v, n.v); \
    vpi_same_str(p.description().v, d.v); \
  } \
  R void vp_root_##k##append(P& p, const S& s) { \
    const char* n = p.name().v; const char* d = p.description().v; X y = VAL(p.value()); const char* t = s.v; \
    p.appendToDescription(s); \
    vpi_same_str(p.name().v, n); \
    vpi_same_str(p.description().v, vpp_str_cat(d, t)); \
    vpi_same_##k(VAL(p.value()), y); \
  }
#define ID(x) (x)
#define CHARS(x) ((x).v)
PARAM(IntegerParameter, int, unsigned, ID, unsigned)
PARAM(BoolParameter, bool, bool, ID, bool)
PARAM(StringParameter, str, const S&, CHARS, const char*)
R void vp_root_strequal(const StringParameter& p, const S& s) {vpi_same_bool(p == s, p.value() == s);}
}
