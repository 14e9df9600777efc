// Entry point for CliParser::parse. Names, actions and parameters are opaque.
#include "shadow_str.h"
extern "C" {
  void vpi_action_dtor(void* a) VPN;
  void vpi_direct(void* a, const void* tokens, void* parser);
  void vpi_params(void* a, void* v) VPN;
  void vpi_process(void* p, const char* arg);
  const char* vpp_param_name(const void* p) VPN;
  const char* vpp_param_desc(const void* p) VPN;
  const char* vpp_action_name(const void* p) VPN;
  void vpi_factory_init(void* f, const char* n) VPN;
  void vpi_factory_copy(void* f, const void* g) VPN;
  void vpi_register(void* f, const char* n) VPN;
  void vpi_names(const void* f, const char* p, void* v) VPN;
  void* vpi_create(const void* f, const char* n);
  const char* vpi_resolve(const void* f, const char* n);
  void vpi_parsed(const void* a) VPN;
}
#include "mathic/error.cpp"
#define MATHIC_NAME_FACTORY_GUARD
#define MATHIC_ACTION_GUARD
#define MATHIC_PARAMETER_GUARD
#define MATHIC_HELP_ACTION_GUARD
namespace mathic {
  typedef std::string S;
  class CliParser;
  class CliParameter {
  public:
    S name() const {return S::Raw{vpp_param_name(this)};}
    S description() const {return S::Raw{vpp_param_desc(this)};}
    void processArgument(const S& a) {vpi_process(this, a.v);}
  };
  class Action {
  public:
    ~Action() {vpi_action_dtor(this);}
    void directOptions(std::vector<S> tokens, CliParser& p) {vpi_direct(this, &tokens, &p);}
    void pushBackParameters(std::vector<CliParameter*>& v) {vpi_params(this, &v);}
    const char* name() const {return vpp_action_name(this);}
  };
  class HelpAction: public Action {
  public:
    static const char* staticName() {return "help";}
  };
  template<class P> class NameFactory {
  public:
    typedef std::unique_ptr<P> (*FactoryFunction)();
    NameFactory(const char* n) {vpi_factory_init(this, n);}
    NameFactory(const NameFactory& f) {vpi_factory_copy(this, &f);}
    void registerProduct(const S& n, FactoryFunction) {vpi_register(this, n.v);}
    void namesWithPrefix(const S& p, std::vector<S>& v) const {vpi_names(this, p.v, &v);}
    char anchor[32];
  };
  template<class C, class P> void nameFactoryRegister(NameFactory<P>& f, const S& n) {vpi_register(&f, n.v);}
  template<class C, class P> void nameFactoryRegister(NameFactory<P>& f) {vpi_register(&f, S(C::staticName()).v);}
  template<class P> std::unique_ptr<P> createWithPrefix(const NameFactory<P>& f, const S& n) {
    return std::unique_ptr<P>((P*)vpi_create(&f, n.v));
  }
  template<class P> S uniqueNameWithPrefix(const NameFactory<P>& f, const S& n) {
    return S::Raw{vpi_resolve(&f, n.v)};
  }
}
#include "mathic/CliParser.cpp"
namespace mathic {
#define R extern "C" __attribute__((used))
R void vp_root_parse(CliParser& p, const std::vector<S>& c) {vpi_parsed(p.parse(c).release());}
R void vp_root_create(CliParser& p, const S& s) {vpi_parsed(p.createActionWithPrefix(s).release());}
}
