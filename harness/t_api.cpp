// Uses every public operation of mathic with configurations that have exactly
// the documented members. Compiled (never run) in many variants:
//   PART: which structure; S1..S5: its template switches.
#include <vector>
#include <list>
#include <string>
#include <sstream>
#include <utility>
#include <memory>
#include <cstdio>
#ifndef PART
#define PART 0
#endif
#ifndef S1
#define S1 0
#endif
#ifndef S2
#define S2 0
#endif
#ifndef S3
#define S3 0
#endif
#ifndef S4
#define S4 0
#endif
#ifndef S5
#define S5 0
#endif
#ifndef S6
#define S6 0
#endif
#ifndef LEAF
#define LEAF 1
#endif
#ifndef EXPO
#define EXPO int
#endif

extern "C" bool vpt_bool(); // an unknown truth value, so that nothing is decided here
extern "C" size_t vpt_size();
extern "C" void vpt_use(const void*);
template<class T> void use(const T& t) {vpt_use(&t);}
#ifdef CONSTCHECK
#define CONST_ASSERT(...) static_assert(__VA_ARGS__)
#else
#define CONST_ASSERT(...) static_assert(true, "")
#endif
template<class A, class B> struct Same {static const bool value = false;};
template<class A> struct Same<A, A> {static const bool value = true;};

#if PART == 1 || PART == 2
#include "mathic/DivFinder.h"
#if PART == 1
#include "mathic/DivList.h"
#else
#include "mathic/KDTree.h"
#endif
struct Mono { // what Monomial and Entry are documented to be: opaque
  Mono();
  Mono(const Mono&);
  Mono& operator=(const Mono&);
  ~Mono();
  int i;
};
#if S6
struct Ent {
  Ent();
  Ent(const Ent&);
  Ent& operator=(const Ent&);
  ~Ent();
  int i;
};
#else
typedef Mono Ent;
#endif
struct Conf {
  typedef Mono Monomial;
  typedef Ent Entry;
  typedef EXPO Exponent;
  Conf(const Conf&);
  ~Conf();
  Exponent getExponent(const Monomial&, size_t) const;
  bool divides(const Monomial&, const Monomial&) const;
  bool isLessThan(const Monomial&, const Monomial&) const;
#if S6
  Exponent getExponent(const Entry&, size_t) const;
  bool divides(const Entry&, const Monomial&) const;
  bool divides(const Monomial&, const Entry&) const;
  bool divides(const Entry&, const Entry&) const;
  bool isLessThan(const Entry&, const Monomial&) const;
  bool isLessThan(const Monomial&, const Entry&) const;
  bool isLessThan(const Entry&, const Entry&) const;
#endif
  size_t getVarCount() const;
  bool getSortOnInsert() const;
  bool getUseDivisorCache() const;
  bool getDoAutomaticRebuilds() const;
  size_t getUseAutomaticRebuild() const;
  double getRebuildRatio() const;
  size_t getRebuildMin() const;
  size_t getLeafSize() const;
  static const bool UseDivMask = S1;
  static const bool UseTreeDivMask = S2;
  static const bool PackedTree = S3;
  static const bool AllowRemovals = S4;
  static const bool UseLinkedList = S5;
  static const size_t LeafSize = LEAF;
};
#if PART == 1
typedef mathic::DivList<Conf> F;
#else
typedef mathic::KDTree<Conf> F;
#endif
struct Out { bool proceed(const Ent&); };
struct MOut { bool proceed(Ent&); };
struct Push { void push_back(const Ent&); };
void api(const Conf& c, const Mono& m, const Ent& e, std::vector<Ent>& es, std::list<Ent>& el, Ent* pa) {
  F f(c);
  const F& cf = f;
  Out out; MOut mout; Push push;
  f.insert(e);
  f.insert(es.begin(), es.end());
#if PART == 2
  f.insert(pa, pa + vpt_size());
#endif
#if PART == 1 && !S1
  f.insert(el.begin(), el.end());
#endif
  use(f.removeElement(m));
  use(f.removeMultiples(m));
  use(f.removeMultiples(m, push));
  Ent* p = f.findDivisor(m); use(p);
  const Ent* q = cf.findDivisor(m); use(q);
  CONST_ASSERT(Same<decltype(cf.findDivisor(m)), const Ent*>::value, "a const finder hands out a non-const entry");
  f.findAllDivisors(m, out); f.findAllDivisors(m, mout); cf.findAllDivisors(m, out);
  f.findAllMultiples(m, out); f.findAllMultiples(m, mout); cf.findAllMultiples(m, out);
  f.forAll(out); f.forAll(mout); cf.forAll(out);
  use(cf.empty()); use(cf.size()); use(cf.getName()); use(cf.getMemoryUse());
  f.rebuild();
  Conf& cc = f.getConfiguration(); use(cc);
  const Conf& ccc = cf.getConfiguration(); use(ccc);
  CONST_ASSERT(Same<decltype(cf.getConfiguration()), const Conf&>::value, "a const finder hands out a non-const configuration");
#if PART == 2
  f.clear();
  use(F::UseDivMask);
  typedef F::Monomial TM; typedef F::Entry TE; typedef F::Exponent TX; typedef F::Configuration TC;
#else
  F::iterator it = f.findDivisorIterator(m);
  F::const_iterator cit = cf.begin();
  use(it == f.end()); use(it != f.end()); use(cit == cf.end()); use(cit != cf.end());
  use(it == cit); use(it != cit); use(cit == it); use(cit != it);
  ++it; it++; --it; it--; ++cit; cit++; --cit; cit--;
  use(*it); use(it->i); use(*cit); use(cit->i);
  f.moveToFront(f.begin());
  CONST_ASSERT(Same<decltype(*cf.begin()), const Ent&>::value, "a const finder's iterator hands out a non-const entry");
#endif
}
#ifdef BAD
// each of these must be rejected by the compiler
void bad(const F& cf, const Mono& m, const Ent& e) {
  MOut mout; Push push; Out out; (void)mout; (void)push; (void)out;
#if BAD == 1
  *cf.findDivisor(m) = e;
#elif BAD == 2
  cf.findAllDivisors(m, mout);
#elif BAD == 3
  cf.findAllMultiples(m, mout);
#elif BAD == 4
  cf.forAll(mout);
#elif BAD == 5
  cf.insert(e);
#elif BAD == 6
  cf.removeMultiples(m);
#elif BAD == 7
  cf.removeElement(m);
#elif BAD == 8
  cf.rebuild();
#elif BAD == 9
  F g(cf);
#elif BAD == 10
  const_cast<F&>(cf) = cf;
#elif BAD == 11
  use<Conf&>(cf.getConfiguration()); Conf& c = cf.getConfiguration(); (void)c;
#elif BAD == 12 && PART == 1
  *cf.begin() = e;
#elif BAD == 13 && PART == 1
  const_cast<F&>(cf).moveToFront(cf.begin());
#else
  error here;
#endif
}
#endif
#endif

#if PART == 3 || PART == 4 || PART == 5 || PART == 6
// the queues. Entry: copyable; the result of compare: copyable
#if PART == 3
#include "mathic/Heap.h"
#elif PART == 4
#include "mathic/TourTree.h"
#elif PART == 5
#include "mathic/Geobucket.h"
#else
#include "mathic/StlSet.h"
#endif
struct Ent { // copyable, printable; a size that is a power of two
  Ent();
  Ent(const Ent&);
  Ent& operator=(const Ent&);
  ~Ent();
  long i;
};
std::ostream& operator<<(std::ostream&, const Ent&);
struct Res {
  Res(const Res&);
  ~Res();
  int i;
private:
  Res& operator=(const Res&);
  Res();
};
struct Conf {
  typedef Ent Entry;
  typedef Res CompareResult;
  Conf(const Conf&);
  Conf& operator=(const Conf&);
  ~Conf();
  CompareResult compare(const Entry&, const Entry&) const;
  bool cmpLessThan(CompareResult) const;
  bool cmpEqual(CompareResult) const;
  static const bool supportDeduplication = S1;
  Entry deduplicate(Entry, Entry) const;
#if PART == 3 || PART == 4
  static const bool fastIndex = S2;
#endif
#if PART == 5
  size_t minBucketSize;
  size_t geoBase;
  static const size_t insertFactor = 2;
  static const bool minBucketBinarySearch = S2;
  static const bool trackFront = S3;
  static const bool premerge = S4;
  static const bool collectMax = S5;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)(S6);
#endif
};
#if PART == 3
typedef mathic::Heap<Conf> Q;
#elif PART == 4
typedef mathic::TourTree<Conf> Q;
#elif PART == 5
typedef mathic::Geobucket<Conf> Q;
#else
typedef mathic::StlSet<Conf> Q;
#endif
struct Out { bool proceed(const Ent&); };
void api(const Conf& c, const Ent& e, std::vector<Ent>& es, const Ent* pa, std::ostream& os) {
  Q q(c);
  const Q& cq = q;
  Out out;
  q.push(e);
#if PART != 6
  q.push(es.begin(), es.end());
#endif
  q.push(pa, pa + vpt_size());
  use(q.top()); use(q.pop());
  use(cq.empty()); use(cq.getName()); use(cq.getMemoryUse());
  cq.print(os);
#if PART != 6
  q.decreaseTop(e);
  cq.forAll(out);
  use(cq.top());
  q.clear();
#endif
#if PART == 4
  q.forAll(out);
  Q r(cq); use(r);
#endif
#if PART == 3
  Q r(std::move(q)); use(r); use(cq.size());
#endif
#if PART == 5
  use(cq.size());
#endif
#if PART == 6
  Q r(cq); use(r); r = cq;
#endif
  Conf& cc = q.getConfiguration(); use(cc);
  CONST_ASSERT(Same<decltype(cq.getConfiguration()), const Conf&>::value, "a const queue hands out a non-const configuration");
}
#ifdef BAD
struct MOut { bool proceed(Ent&); };
void bad(const Q& cq, Q& q, const Ent& e) {
  MOut mout; (void)mout;
#if BAD == 1
  cq.push(e);
#elif BAD == 2
  cq.pop();
#elif BAD == 3 && PART != 6
  cq.decreaseTop(e);
#elif BAD == 4 && PART != 6
  cq.forAll(mout);
#elif BAD == 5
  Conf& c = cq.getConfiguration(); (void)c;
#elif BAD == 6 && PART == 5
  Q r(cq);
#elif BAD == 7 && PART != 6
  q = cq;
#elif BAD == 8 && PART == 3
  Q r(cq);
#elif BAD == 9 && PART != 6
  cq.clear();
#else
  error here;
#endif
}
#endif
#endif

#if PART == 7
#include "mathic/PairQueue.h"
struct PD {
#if !S2
  PD();
#else
private:
  PD();
public:
#endif
  ~PD();
  int i;
private:
  PD(const PD&);
  PD& operator=(const PD&);
};
struct Res {
  Res(const Res&);
  ~Res();
private:
  Res& operator=(const Res&);
};
struct Conf {
  Conf(const Conf&);
  ~Conf();
  typedef PD PairData;
  typedef Res CompareResult;
  void computePairData(size_t col, size_t row, PairData& pd) const;
  CompareResult compare(size_t colA, size_t rowA, const PairData& a, size_t colB, size_t rowB, const PairData& b) const;
  bool cmpLessThan(CompareResult) const;
private:
  Conf& operator=(const Conf&);
};
namespace mathic { namespace PairQueueNamespace {
#if S2
  template<> struct ConstructPairDataFunction<Conf> {
    static void function(void* memory, Index col, Index row, Conf& conf);
  };
  template<> struct DestructPairDataFunction<Conf> {
    static void function(PD* pd, Index col, Index row, Conf& conf);
  };
#endif
#if !S1
  template<> struct SupportRetirement<Conf> {static bool const value = false;};
#endif
} }
typedef mathic::PairQueue<Conf> Q;
void api(const Conf& c, std::vector<size_t>& rows, std::list<unsigned>& rl, const int* pa) {
  Q q(c);
  const Q& cq = q;
  q.addColumnDescending(rows.begin(), rows.end());
  q.addColumnDescending(rl.begin(), rl.end());
  q.addColumnDescending(pa, pa + vpt_size());
  std::pair<size_t, size_t> p = cq.topPair(); use(p);
  const PD& pd = cq.topPairData(); use(pd);
  q.pop();
  use(cq.columnCount()); use(cq.pairCount()); use(cq.empty()); use(cq.getMemoryUse()); use(cq.name());
  use(cq.retired(vpt_size()));
#if S1
  q.retireIndex(vpt_size());
#endif
  static_assert(Q::SupportRetirement == (S1 != 0), "the retirement switch is not honoured");
  Conf& cc = q.configuration(); use(cc);
  CONST_ASSERT(Same<decltype(cq.configuration()), const Conf&>::value, "a const queue hands out a non-const configuration");
  CONST_ASSERT(Same<decltype(cq.topPairData()), const PD&>::value, "pair data is handed out non-const");
}
#ifdef BAD
void bad(const Q& cq, Q& q, std::vector<size_t>& rows) {
#if BAD == 1
  cq.pop();
#elif BAD == 2
  cq.addColumnDescending(rows.begin(), rows.end());
#elif BAD == 3
  Q r(cq);
#elif BAD == 4
  q = cq;
#elif BAD == 5
  Conf& c = cq.configuration(); (void)c;
#elif BAD == 6
  cq.topPairData().i = 3;
#else
  error here;
#endif
}
#endif
#endif

#if PART == 8
#include "mathic/HashTable.h"
struct Key { Key(const Key&); Key& operator=(const Key&); ~Key(); int i; };
struct Val { Val(const Val&); ~Val(); int i; private: Val& operator=(const Val&); };
struct Conf {
  Conf(const Conf&);
  ~Conf();
  typedef ::Key Key;
  typedef Val Value;
  size_t hash(Key k) const;
  bool keysEqual(Key a, Key b) const;
};
typedef mathic::HashTable<Conf> H;
void api(const Conf& c, Key& k, const Val& v) {
  H h(c); H g(c, 4);
  const H& ch = h;
  std::pair<bool, H::Handle*> p = h.insert(k, v);
  H::Handle* e = h.lookup(k);
  const H::Handle* ce = e;
  use(e->key()); use(e->value()); use(ce->value()); use(ce->key()); use(p);
  h.remove(e);
  e->setKeyButOnlyDoSoIfThisHandleIsNotInHashTable(k);
  h.reset(); h.hardReset();
  use(ch.memoryUse()); use(ch.name());
  Conf& cc = h.configuration(); use(cc);
  CONST_ASSERT(Same<decltype(ch.configuration()), const Conf&>::value, "a const table hands out a non-const configuration");
  CONST_ASSERT(Same<decltype(e->key()), const Key&>::value, "a key can be changed in the table");
  CONST_ASSERT(Same<decltype(ce->value()), const Val&>::value, "a const handle hands out a non-const value");
}
#ifdef BAD
void bad(const H& ch, H& h, H::Handle* e, const Key& k, const Val& v) {
#if BAD == 1
  ch.insert(k, v);
#elif BAD == 2
  ch.remove(e);
#elif BAD == 3
  e->key() = k;
#elif BAD == 4
  Conf& c = ch.configuration(); (void)c;
#elif BAD == 5
  ch.hardReset();
#elif BAD == 6
  H g(ch);
#elif BAD == 7
  h = ch;
#else
  error here;
#endif
}
#endif
#endif

#if PART == 9
#include "mathic.h"
struct Act : public mathic::Action {
  Act();
  static const char* staticName();
  virtual const char* name() const;
  virtual const char* description() const;
  virtual const char* shortDescription() const;
  virtual void pushBackParameters(std::vector<mathic::CliParameter*>&);
  virtual void performAction();
};
struct Thing { static const char* staticName(); };
void api(std::ostream& out, FILE* f, int argc, char** argv) {
  using namespace mathic;
  CliParser p;
  p.registerAction<Act>(); p.registerAction<Act>("x"); p.registerHelpAction("a", "b");
  std::vector<std::string> names; p.pushBackRegisteredActionNames(names);
  use(p.helpPreMessage()); use(p.helpPostMessage());
  std::unique_ptr<Action> a = p.parse(argc, argv);
  a = p.parse(names); a = p.createActionWithPrefix("x");
  a->directOptions(names, p); a->performAction(); use(a->isHelpAction());
  HelpAction h; h.performAction(); h.directOptions(names, p); use(HelpAction::staticName());
  use(h.name()); use(h.description()); use(h.shortDescription());
  BoolParameter b("b", "d", true); IntegerParameter i("i", "d", 4u); StringParameter s("s", "d", "v");
  use(b.value()); b.setValue(false); b = true; use((bool)b); use(b.argumentType()); use(b.valueAsString()); b.processArgument("on");
  use(i.value()); i.setValue(3); i = 4; use((unsigned)i); use(i.argumentType()); use(i.valueAsString()); i.processArgument("3");
  use(s.value()); s.setValue("x"); use(s.argumentType()); use(s.valueAsString()); s.processArgument("3");
  s.appendToDescription("d"); use(s.name()); use(s.description());
  ColumnPrinter pr; ColumnPrinter pr2(3); use(pr2.getColumnCount());
  pr.setPrefix("x"); pr.addColumn() << 1; pr.addColumn(false, " ", " "); pr[0] << "x"; pr.repeatToEndOfLine('-'); pr.repeatToEndOfLine('-', 0);
  pr.print(out); out << pr; print(f, pr);
  use(ColumnPrinter::commafy(1)); use(ColumnPrinter::withSIPrefix(1)); use(ColumnPrinter::percentInteger(1, 2)); use(ColumnPrinter::percentDouble(1, 2));
  use(ColumnPrinter::percentIntegerFixed(1, 2)); use(ColumnPrinter::percentDouble(1)); use(ColumnPrinter::ratioInteger(1, 2)); use(ColumnPrinter::ratioDouble(1, 2));
  use(ColumnPrinter::oneDecimal(1)); use(ColumnPrinter::bytesInUnit(1));
  Timer t; t.reset(); t.print(out); t.print(f); out << t; use(t.getMilliseconds());
  display("x"); display("x", "y"); displayNote("x"); displayError("x"); displayInternalError("x"); displayException(std::runtime_error("x"));
  NameFactory<Thing> nf("thing");
  nameFactoryRegister<Thing>(nf); nameFactoryRegister<Thing>(nf, "y");
  use(createWithPrefix(nf, "t").get()); use(uniqueNameWithPrefix(nf, "t")); nf.namesWithPrefix("t", names); use(nf.empty());
  use(nf.create("x").get()); use(nf.createNullOnUnknown("x").get()); use(nf.abstractProductName());
  BitTriangle bt; const BitTriangle& cbt = bt; use(cbt.columnCount()); use(cbt.empty()); bt.addColumn(); use(cbt.bit(1, 0)); use(cbt.bitUnordered(1, 0));
  bt.setBit(1, 0, true); bt.setBitUnordered(0, 1, true); use(cbt.getMemoryUse()); BitTriangle bt2(cbt); bt2 = bt;
  try {throwError<UnknownNameException>("x");} catch (const MathicException&) {}
  reportError("x"); reportInternalError("x"); reportInternalError("x", "f", 3);
  throwError<AmbiguousNameException>("x"); throwError<UnsupportedException>("x"); throwError<InternalMathicException>("x");
}
#endif
