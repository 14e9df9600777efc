// Opaque models of the library classes that mathic's containers are built on.
//
// Inside namespace mathic the names std and memt find the namespaces declared
// here before the global ones, so the code of /repo is analysed as written
// with std::vector, std::list, std::sort, memt::Arena, ... replaced by
// classes whose operations are calls of undefined functions. The analysis
// gives these calls the meaning the standard library documents for them.
// Everything not declared here is the real library.
#ifndef VP_SHADOW_H
#define VP_SHADOW_H
#include <vector>
#include <list>
#include <set>
#include <string>
#include <algorithm>
#include <iterator>
#include <sstream>
#include <iostream>
#include <memory>
#include <utility>
#include <stdexcept>
#include <limits>
#include <new>
#include <cmath>
#include <cassert>
#include <cstring>
#include <cctype>
#include <cstddef>
#include <type_traits>
#include <memtailor.h>

#define VPN noexcept
// operations that allocate
#ifndef VPNA
#define VPNA VPN
#endif
extern "C" {
  // vector-like sequences; v identifies the sequence
  char* vpr_vec_begin(const void* v) VPN;
  char* vpr_vec_end(const void* v) VPN;
  size_t vpr_vec_capacity(const void* v) VPN;
  void vpi_vec_pushp(void* v, const void* p) VPNA; // push_back of a pointer
  char* vpi_vec_emplace(void* v) VPNA;         // push_back: the slot to fill
  void vpi_vec_pop(void* v) VPN;
  void vpi_vec_clear(void* v) VPN;
  void vpi_vec_resize(void* v, size_t n) VPNA;
  void vpi_vec_reserve(void* v, size_t n) VPNA;
  void vpi_vec_swap(void* v, void* w) VPN;
  void vpi_vec_move(void* v, void* from) VPN;
  void vpi_vec_copy(void* v, const void* from) VPNA;
  void vpi_vec_assign(void* v, const void* from) VPNA;
  void vpi_vec_init(void* v, size_t n) VPN;    // n is 0
  void vpi_vec_initn(void* v, size_t n) VPNA;
  void vpi_vec_dtor(void* v) VPN;
  char* vpi_vec_erase(void* v, const void* it) VPN;
  char* vpi_vec_erase_range(void* v, const void* it, const void* e) VPN;
  char* vpi_vec_insert(void* v, const void* it) VPN;
  // linked lists; nodes are opaque
  char* vpr_list_begin(const void* l) VPN;
  char* vpp_list_end(const void* l) VPN;
  char* vpr_list_next(const void* n) VPN;
  char* vpr_list_prev(const void* n) VPN;
  char* vpp_list_elem(const void* n) VPN;
  bool vpr_list_empty(const void* l) VPN;
  size_t vpr_list_size(const void* l) VPN;
  char* vpi_list_insert(void* l, const void* before) VPNA; // new node
  char* vpi_list_erase(void* l, const void* n) VPN;       // next node
  char* vpi_list_erase_range(void* l, const void* n, const void* e) VPN;
  void vpi_list_splice(void* l, const void* before, void* from, const void* n) VPN;
  void vpi_list_sort(void* l, const void* x, const void* y, bool less) VPN;
  void vpi_list_clear(void* l) VPN;
  void vpi_list_dtor(void* l) VPN;
  void vpi_list_init(void* l) VPN;
  // algorithms; x, y are arbitrary elements of the range and the bool is what
  // the comparison/predicate says about them
  char* vpr_alg_witness(const void* b, const void* e, int k) VPN;
  char* vpi_alg_partition(const void* b, const void* e, const void* x, bool p) VPN;
  void vpi_alg_sort(const void* b, const void* e, const void* x, const void* y, bool less) VPN;
  char* vpr_alg_upper(const void* b, const void* e, const void* x, bool less) VPN;
  char* vpr_alg_lower(const void* b, const void* e, const void* x, bool less) VPN;
  // memtailor
  char* vpi_arena_alloc(void* a, size_t n) VPNA __attribute__((malloc));
  char* vpi_arena_alloc_array(void* a, size_t elem, size_t n) VPNA __attribute__((malloc));
  void vpi_arena_free(void* a, const void* p) VPN;
  void vpi_arena_free_all(void* a) VPN;
  void vpi_arena_free_after(void* a, const void* p) VPN;
  size_t vpr_arena_memuse(const void* a) VPN;
  void vpi_arena_init(void* a) VPN;
  void vpi_arena_dtor(void* a) VPN;
  char* vpp_arena_global() VPN;
  void vpi_guard_open(void* g, void* a) VPN;
  void vpi_guard_release(void* g) VPN;
  void vpi_guard_close(void* g) VPN;
  char* vpi_pool_alloc(void* p) VPNA __attribute__((malloc));
  void vpi_pool_free_all(void* p) VPN;
  void vpi_pool_free(void* p, const void* q) VPN;
  void vpi_pool_init(void* p, size_t n) VPN;
  size_t vpr_pool_memuse(const void* p) VPN;
}

namespace vpshadow {
  template<class T, bool P = std::is_pointer<T>::value>
  struct Push {
    static void push(void* v, const T& x) {new (vpi_vec_emplace(v)) T(x);}
  };
  template<class T>
  struct Push<T, true> {
    static void push(void* v, const T& x) {vpi_vec_pushp(v, x);}
  };

  // offset 0 member so that the object has an address of its own
  template<class T>
  class Vec {
  public:
    typedef T value_type;
    typedef T* iterator;
    typedef const T* const_iterator;
    typedef T& reference;
    typedef const T& const_reference;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    typedef ::std::reverse_iterator<iterator> reverse_iterator;
    typedef ::std::reverse_iterator<const_iterator> const_reverse_iterator;

    Vec() {vpi_vec_init(this, 0);}
    explicit Vec(size_t n) {vpi_vec_initn(this, n);}
    Vec(size_t n, const T&) {vpi_vec_initn(this, n);}
    template<class It, class = typename ::std::iterator_traits<It>::iterator_category>
    Vec(It b, It e) {vpi_vec_init(this, 0); for (; b != e; ++b) push_back(*b);}
    Vec(const Vec& v) {vpi_vec_copy(this, &v);}
    Vec(Vec&& v) {vpi_vec_move(this, &v);}
    Vec& operator=(const Vec& v) {vpi_vec_assign(this, &v); return *this;}
    Vec& operator=(Vec&& v) {vpi_vec_move(this, &v); return *this;}
    ~Vec() {vpi_vec_dtor(this);}

    iterator begin() {return (T*)vpr_vec_begin(this);}
    const_iterator begin() const {return (const T*)vpr_vec_begin(this);}
    const_iterator cbegin() const {return (const T*)vpr_vec_begin(this);}
    iterator end() {return (T*)vpr_vec_end(this);}
    const_iterator end() const {return (const T*)vpr_vec_end(this);}
    const_iterator cend() const {return (const T*)vpr_vec_end(this);}
    reverse_iterator rbegin() {return reverse_iterator(end());}
    reverse_iterator rend() {return reverse_iterator(begin());}
    const_reverse_iterator rbegin() const {return const_reverse_iterator(end());}
    const_reverse_iterator rend() const {return const_reverse_iterator(begin());}
    T& operator[](size_t i) {return begin()[i];}
    const T& operator[](size_t i) const {return begin()[i];}
    T& at(size_t i) {return begin()[i];}
    const T& at(size_t i) const {return begin()[i];}
    T* data() {return begin();}
    const T* data() const {return begin();}
    T& front() {return *begin();}
    const T& front() const {return *begin();}
    T& back() {return *(end() - 1);}
    const T& back() const {return *(end() - 1);}
    bool empty() const {return begin() == end();}
    size_t size() const {return end() - begin();}
    size_t capacity() const {return vpr_vec_capacity(this);}
    void reserve(size_t n) {vpi_vec_reserve(this, n);}
    void resize(size_t n) {vpi_vec_resize(this, n);}
    void resize(size_t n, const T&) {vpi_vec_resize(this, n);}
    void assign(size_t n, const T&) {vpi_vec_clear(this); vpi_vec_resize(this, n);}
    template<class It, class = typename ::std::iterator_traits<It>::iterator_category>
    void assign(It b, It e) {vpi_vec_clear(this); for (; b != e; ++b) push_back(*b);}
    void push_back(const T& x) {Push<T>::push(this, x);}
    template<class... A>
    void emplace_back(A&&... a) {push_back(T(static_cast<A&&>(a)...));}
    void pop_back() {vpi_vec_pop(this);}
    void clear() {vpi_vec_clear(this);}
    void swap(Vec& v) {vpi_vec_swap(this, &v);}
    iterator erase(const_iterator it) {return (T*)vpi_vec_erase(this, it);}
    iterator erase(const_iterator it, const_iterator e) {
      return (T*)vpi_vec_erase_range(this, it, e);
    }
    iterator insert(const_iterator it, const T& x) {
      T* slot = (T*)vpi_vec_insert(this, it);
      new (slot) T(x);
      return slot;
    }
    template<class It>
    void insert(const_iterator, It b, It e) {
      for (; b != e; ++b) push_back(*b);
    }
  private:
    char _anchor[24];
  };

  template<class T>
  class List {
  public:
    typedef T value_type;
    typedef T& reference;
    typedef const T& const_reference;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    template<class V>
    struct It {
      typedef ::std::bidirectional_iterator_tag iterator_category;
      typedef T value_type;
      typedef V& reference;
      typedef V* pointer;
      typedef ptrdiff_t difference_type;
      It(): n(0) {}
      explicit It(char* n): n(n) {}
      template<class W, class = typename ::std::enable_if
        < ::std::is_convertible<W*, V*>::value>::type>
      It(const It<W>& i): n(i.n) {}
      V& operator*() const {return *(V*)vpp_list_elem(n);}
      V* operator->() const {return (V*)vpp_list_elem(n);}
      It& operator++() {n = vpr_list_next(n); return *this;}
      It& operator--() {n = vpr_list_prev(n); return *this;}
      It operator++(int) {It o(*this); ++*this; return o;}
      It operator--(int) {It o(*this); --*this; return o;}
      template<class W> bool operator==(const It<W>& i) const {return n == i.n;}
      template<class W> bool operator!=(const It<W>& i) const {return n != i.n;}
      char* n;
    };
    typedef It<T> iterator;
    typedef It<const T> const_iterator;
    typedef ::std::reverse_iterator<iterator> reverse_iterator;
    typedef ::std::reverse_iterator<const_iterator> const_reverse_iterator;

    List() {vpi_list_init(this);}
    ~List() {vpi_list_dtor(this);}
    iterator begin() {return iterator(vpr_list_begin(this));}
    const_iterator begin() const {return const_iterator(vpr_list_begin(this));}
    iterator end() {return iterator(vpp_list_end(this));}
    const_iterator end() const {return const_iterator(vpp_list_end(this));}
    bool empty() const {return vpr_list_empty(this);}
    size_t size() const {return vpr_list_size(this);}
    T& front() {return *begin();}
    T& back() {return *--end();}
    const T& front() const {return *begin();}
    const T& back() const {return *--end();}
    void pop_front() {erase(begin());}
    void pop_back() {erase(--end());}
    const_iterator cbegin() const {return begin();}
    const_iterator cend() const {return end();}
    void push_back(const T& x) {insert(end(), x);}
    void push_front(const T& x) {insert(begin(), x);}
    iterator insert(const_iterator at, const T& x) {
      char* n = vpi_list_insert(this, at.n);
      new (vpp_list_elem(n)) T(x);
      return iterator(n);
    }
    iterator erase(const_iterator at) {return iterator(vpi_list_erase(this, at.n));}
    iterator erase(const_iterator at, const_iterator e) {
      return iterator(vpi_list_erase_range(this, at.n, e.n));
    }
    void splice(const_iterator before, List& from, const_iterator at) {
      vpi_list_splice(this, before.n, &from, at.n);
    }
    void clear() {vpi_list_clear(this);}
    template<class C> void sort(C c) {
      T* x = (T*)vpr_alg_witness(this, this, 0);
      T* y = (T*)vpr_alg_witness(this, this, 1);
      vpi_list_sort(this, x, y, c(*x, *y));
    }
  private:
    List(const List&);
    void operator=(const List&);
    char _anchor[24];
  };
}

namespace mathic {
  namespace std {
    using namespace ::std;
    template<class T, class A = void> class vector: public vpshadow::Vec<T> {
      using B = vpshadow::Vec<T>;
    public:
      using B::B;
      vector() {}
      vector(const vector& v): B(v) {}
      vector(vector&& v): B(static_cast<B&&>(v)) {}
      vector& operator=(const vector& v) {B::operator=(v); return *this;}
      vector& operator=(vector&& v) {B::operator=(static_cast<B&&>(v)); return *this;}
    };
    template<class T, class A = void> class list: public vpshadow::List<T> {};
    template<class T> void swap(vector<T>& a, vector<T>& b) {a.swap(b);}
    template<class T> void swap(T& a, T& b) {::std::swap(a, b);}

    template<class It, class C> void sort(It b, It e, C c) {
      typedef typename ::std::iterator_traits<It>::value_type T;
      T* x = (T*)vpr_alg_witness(&*b, &*e, 0);
      T* y = (T*)vpr_alg_witness(&*b, &*e, 1);
      vpi_alg_sort(&*b, &*e, x, y, c(*x, *y));
    }
    template<class It> void sort(It b, It e) {
      typedef typename ::std::iterator_traits<It>::value_type T;
      T* x = (T*)vpr_alg_witness(&*b, &*e, 0);
      T* y = (T*)vpr_alg_witness(&*b, &*e, 1);
      vpi_alg_sort(&*b, &*e, x, y, *x < *y);
    }
    template<class It, class C> void stable_sort(It b, It e, C c) {mathic::std::sort(b, e, c);}
    template<class It> void stable_sort(It b, It e) {mathic::std::sort(b, e);}
    template<class It, class P> It partition(It b, It e, P p) {
      typedef typename ::std::iterator_traits<It>::value_type T;
      T* x = (T*)vpr_alg_witness(&*b, &*e, 0);
      return (It)vpi_alg_partition(&*b, &*e, x, p(*x));
    }
    template<class It, class P> It stable_partition(It b, It e, P p) {
      return mathic::std::partition(b, e, p);
    }
    template<class It, class V, class C>
    It upper_bound(It b, It e, const V& v, C c) {
      typedef typename ::std::iterator_traits<It>::value_type T;
      T* x = (T*)vpr_alg_witness(&*b, &*e, 0);
      return (It)vpr_alg_upper(&*b, &*e, x, c(v, *x));
    }
    template<class It, class V, class C>
    It lower_bound(It b, It e, const V& v, C c) {
      typedef typename ::std::iterator_traits<It>::value_type T;
      T* x = (T*)vpr_alg_witness(&*b, &*e, 0);
      return (It)vpr_alg_lower(&*b, &*e, x, c(*x, v));
    }
    template<class It, class P> It find_if(It b, It e, P p) {
      for (; b != e; ++b) if (p(*b)) break;
      return b;
    }
    template<class It, class P> It find_if_not(It b, It e, P p) {
      for (; b != e; ++b) if (!p(*b)) break;
      return b;
    }
    template<class It, class P> bool any_of(It b, It e, P p) {
      for (; b != e; ++b) if (p(*b)) return true;
      return false;
    }
    template<class It, class P> bool all_of(It b, It e, P p) {
      for (; b != e; ++b) if (!p(*b)) return false;
      return true;
    }
    template<class It, class P> bool none_of(It b, It e, P p) {
      for (; b != e; ++b) if (p(*b)) return false;
      return true;
    }
    template<class It, class P> P for_each(It b, It e, P p) {
      for (; b != e; ++b) p(*b);
      return p;
    }
    template<class It, class P> ptrdiff_t count_if(It b, It e, P p) {
      ptrdiff_t n = 0;
      for (; b != e; ++b) if (p(*b)) ++n;
      return n;
    }
    template<class It, class P> It remove_if(It b, It e, P p) {
      It o = b;
      for (; b != e; ++b)
        if (!p(*b)) {
          if (o != b) *o = *b;
          ++o;
        }
      return o;
    }
    template<class It, class Out> Out copy_backward(It b, It e, Out o) {
      while (e != b) *--o = *--e;
      return o;
    }
    template<class It, class Out> Out move_backward(It b, It e, Out o) {
      while (e != b) *--o = *--e;
      return o;
    }
    template<class It, class Out> Out copy(It b, It e, Out o) {
      for (; b != e; ++b) {*o = *b; ++o;}
      return o;
    }
  }

  namespace memt {
    using ::memt::MemoryBlocks;
    class Arena {
    public:
      Arena() {vpi_arena_init(this);}
      ~Arena() {vpi_arena_dtor(this);}
      void* alloc(size_t n) {return vpi_arena_alloc(this, n);}
      void freeTop(void* p) {vpi_arena_free(this, p);}
      void freeAndAllAfter(void* p) {vpi_arena_free_after(this, p);}
      void freeAllAllocs() {vpi_arena_free_all(this);}
      template<class T> T* allocObjectNoCon() {return (T*)vpi_arena_alloc(this, sizeof(T));}
      template<class T> T* allocObject() {return new (vpi_arena_alloc(this, sizeof(T))) T();}
      template<class T> ::std::pair<T*, T*> allocArrayNoCon(size_t n) {
        T* p = (T*)vpi_arena_alloc_array(this, sizeof(T), n);
        return ::std::make_pair(p, p + n);
      }
      template<class T> void freeTopArray(T* p, T*) {vpi_arena_free(this, p);}
      size_t getMemoryUse() const {return vpr_arena_memuse(this);}
      static Arena& getArena() {return *(Arena*)vpp_arena_global();}
      template<class T> class PtrNoConNoDecon {
      public:
        PtrNoConNoDecon(Arena& a): _a(a), _p(a.template allocObjectNoCon<T>()) {}
        ~PtrNoConNoDecon() {_a.freeTop(_p);}
        T* get() {return _p;}
        T& operator*() {return *_p;}
        T* operator->() {return _p;}
      private:
        Arena& _a;
        T* _p;
      };
      class Guard {
      public:
        Guard(Arena& a) {vpi_guard_open(this, &a);}
        Guard() {vpi_guard_open(this, vpp_arena_global());}
        ~Guard() {vpi_guard_close(this);}
        void release() {vpi_guard_release(this);}
      private:
        char _anchor[16];
      };
    private:
      Arena(const Arena&);
      void operator=(const Arena&);
      char _anchor[32];
    };
    class BufferPool {
    public:
      BufferPool(size_t n) {vpi_pool_init(this, n);}
      void* alloc() {return vpi_pool_alloc(this);}
      void free(void* p) {vpi_pool_free(this, p);}
      void freeAllBuffers() {vpi_pool_free_all(this);}
      size_t getMemoryUse() const {return vpr_pool_memuse(this);}
    private:
      BufferPool(const BufferPool&);
      void operator=(const BufferPool&);
      char _anchor[32];
    };
    template<class T, bool Decon = true>
    class ArenaVector: public vpshadow::Vec<T> {
    public:
      ArenaVector(Arena&, size_t n) {vpshadow::Vec<T>::reserve(n);}
      explicit ArenaVector(size_t n) {vpshadow::Vec<T>::reserve(n);}
      size_t memoryUse() const {return this->capacity() * sizeof(T);}
    private:
      ArenaVector(const ArenaVector&);
      void operator=(const ArenaVector&);
    };
  }
}
#endif
