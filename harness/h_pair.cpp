// Entry points for PairQueue. The tournament tree underneath is replaced by an
// opaque priority queue of pointers.
// Macros: RETIRE (support for retirement), CUSTOM (construction and
// destruction of pair data specialised), THROWS (calls that may fail may throw)
#ifdef THROWS
#define VPNA
#endif
#include "shadow.h"
#ifdef THROWS
#define VPT
#else
#define VPT noexcept
#endif
extern "C" {
  void vpi_pd_init(void* pd) VPT;
  void vpi_pd_dtor(void* pd) VPN;
  void vpi_pd_compute(unsigned col, unsigned row, void* pd, const void* conf) VPT;
  void vpi_pd_construct(void* mem, unsigned col, unsigned row, const void* conf) VPT;
  void vpi_pd_destruct(void* pd, unsigned col, unsigned row, const void* conf) VPN;
  char* vpra_triples(unsigned ca, unsigned ra, const void* pa, unsigned cb, unsigned rb, const void* pb,
    const void* conf) VPT;
  bool vpra_cmplt(const void* r, const void* conf) VPN;
  void vpa_conf_copy(void* d, const void* s) VPN;
  void vpi_q_init(void* q) VPN;
  void vpi_q_push(void* q, const void* c) VPT;
  void vpi_q_pop(void* q) VPT;
  void vpi_q_decrease(void* q, const void* c) VPT;
  char* vpr_q_top(const void* q) VPN;
  bool vpr_q_empty(const void* q) VPN;
  char* vpr_q_elem(const void* q, size_t i) VPN;
  size_t vpr_q_size(const void* q) VPN;
  size_t vpr_q_memuse(const void* q) VPN;
  void vpi_q_visited(const void* q, const void* c) VPN;
  void vpi_q_walked(const void* q) VPN;
  void vpi_q_dtor(void* q) VPN;
  void vpi_q_compared(const void* a, const void* b, const void* r, bool less) VPN;
}
struct PD {
  PD() {vpi_pd_init(this);}
  ~PD() {vpi_pd_dtor(this);}
  void* h[2];
};
struct Conf {
  Conf(const Conf& c) {vpa_conf_copy(this, &c);}
  typedef PD PairData;
  struct CompareResult {char* h;};
  void computePairData(size_t col, size_t row, PD& pd) const {
    vpi_pd_compute((unsigned)col, (unsigned)row, &pd, this);
  }
  CompareResult compare(unsigned ca, unsigned ra, const PD& pa, unsigned cb, unsigned rb, const PD& pb) const {
    CompareResult r;
    r.h = vpra_triples(ca, ra, &pa, cb, rb, &pb, this);
    return r;
  }
  bool cmpLessThan(CompareResult r) const {return vpra_cmplt(r.h, this);}
  void* h;
};
#define MATHIC_TOUR_TREE_GUARD
#include "mathic/stdinc.h"
namespace mathic {
  struct TourTreeSuggestedOptions {static const bool fastIndex = false;};
  template<class C>
  class TourTree {
  public:
    typedef typename C::Entry Entry;
    typedef C Configuration;
    TourTree(const C& c): mConf(c) {vpi_q_init(this);}
    ~TourTree() {vpi_q_dtor(this);}
    C& getConfiguration() {return mConf;}
    const C& getConfiguration() const {return mConf;}
    void push(const Entry& e) {vpi_q_push(this, e);}
    template<class It> void push(It b, It e) {for (; b != e; ++b) push(*b);}
    Entry pop() {Entry e = top(); vpi_q_pop(this); return e;}
    Entry top() const {return (Entry)vpr_q_top(this);}
    void decreaseTop(const Entry& e) {vpi_q_decrease(this, e);}
    bool empty() const {
#ifdef COMPARE
      const Entry a = (Entry)vpr_q_elem(this, 0);
      const Entry b = (Entry)vpr_q_elem(this, 1);
      typename C::CompareResult r = mConf.compare(a, b);
      vpi_q_compared(a, b, r.h, mConf.cmpLessThan(r));
#endif
      return vpr_q_empty(this);
    }
    template<class T> void forAll(T& t) {
      for (size_t i = 0, n = vpr_q_size(this); i < n; ++i) {
        Entry e = (Entry)vpr_q_elem(this, i);
        if (!t.proceed(e))
          return;
        vpi_q_visited(this, e);
      }
      vpi_q_walked(this);
    }
    template<class T> void forAll(T& t) const {
      for (size_t i = 0, n = vpr_q_size(this); i < n; ++i) {
        Entry e = (Entry)vpr_q_elem(this, i);
        if (!t.proceed(e))
          return;
        vpi_q_visited(this, e);
      }
      vpi_q_walked(this);
    }
    size_t getMemoryUse() const {return vpr_q_memuse(this);}
    std::string getName() const {return "q";}
  private:
    C mConf;
  };
}
#include "mathic/PairQueue.h"
#if CUSTOM || !RETIRE
namespace mathic {
  namespace PairQueueNamespace {
#if CUSTOM
    template<> struct ConstructPairDataFunction<Conf> {
      static void function(void* mem, Index col, Index row, Conf& conf) {
        vpi_pd_construct(mem, col, row, &conf);
      }
    };
    template<> struct DestructPairDataFunction<Conf> {
      static void function(PD* pd, Index col, Index row, Conf& conf) {
        vpi_pd_destruct(pd, col, row, &conf);
      }
    };
#endif
#if !RETIRE
    template<> struct SupportRetirement<Conf> {static bool const value = false;};
#endif
  }
}
#endif
typedef mathic::PairQueue<Conf> T;
#define R extern "C" __attribute__((used))
R void vp_root_add(T& t, const unsigned* b, const unsigned* e) {t.addColumnDescending(b, e);}
R void vp_root_pop(T& t) {t.pop();}
R bool vp_root_empty(const T& t) {return t.empty();}
R size_t vp_root_columns(const T& t) {return t.columnCount();}
R size_t vp_root_pairs(const T& t) {return t.pairCount();}
R void vp_root_toppair(const T& t, size_t* out) {
  ::std::pair<size_t, size_t> p = t.topPair();
  out[0] = p.first;
  out[1] = p.second;
}
R const void* vp_root_topdata(const T& t) {return &t.topPairData();}
R size_t vp_root_memuse(const T& t) {return t.getMemoryUse();}
R void vp_root_construct(void* mem, const Conf& c) {new (mem) T(c);}
R void vp_root_destroy(T& t) {t.~T();}
#if RETIRE
R void vp_root_retire(T& t, size_t i) {t.retireIndex(i);}
#endif
R bool vp_root_retired(const T& t, size_t i) {return t.retired(i);}
