// Opaque strings and string streams for the analysis of mathic's text code:
// a string is a value, named by the term of pure functions that made it.
#ifndef VP_SHADOW_STR_H
#define VP_SHADOW_STR_H
#include "shadow.h"
extern "C" {
  const char* vpp_str_lit(const char* p) VPN;      // the characters at p up to 0
  const char* vpp_str_char(char c) VPN;            // one character
  const char* vpp_str_fill(size_t n, char c) VPN;
  const char* vpp_str_cat(const char* v, const char* w) VPN;
  const char* vpp_str_begin(const char* v) VPN;
  size_t vpp_str_size(const char* v) VPN;
  const char* vpp_str_range(const char* b, const char* e) VPN; // the characters [b, e)
  const char* vpp_str_sub(const char* v, size_t i, size_t n) VPN;
  int vpp_str_compare(const char* v, const char* w) VPN;
  bool vpp_str_eq(const char* v, const char* w) VPN;
  bool vpp_str_less(const char* v, const char* w) VPN;
  size_t vpp_str_find(const char* v, const char* w, size_t at) VPN;
  const char* vpp_str_of_uint(unsigned n) VPN;
  const char* vpp_str_of_ulong(unsigned long n) VPN;
  const char* vpp_str_of_long(long n) VPN;
  const char* vpp_str_of_double(double n) VPN;
  unsigned vpp_in_uint(const char* v, const char* p) VPN;
  unsigned long vpp_in_ulong(const char* v, const char* p) VPN;
  long vpp_in_long(const char* v, const char* p) VPN;
  bool vpr_in_ok(const void* s) VPN;
  const char* vpp_str_ulong(const char* v) VPN;
  void vpi_throw_note(const char* what) VPN;
}
namespace mathic {
  namespace std {
    class string {
    public:
      const char* v;
      struct Raw {const char* v;};
      static const size_t npos = -1;
      typedef const char* const_iterator;
      typedef const char* iterator;
      typedef const char& const_reference;
      typedef char value_type;
      typedef size_t size_type;
      string(Raw r): v(r.v) {}
      string(): v(vpp_str_lit("")) {}
      string(const char* p): v(vpp_str_lit(p)) {}
      string(const char* b, const char* e): v(vpp_str_range(b, e)) {}
      string(size_t n, char c): v(vpp_str_fill(n, c)) {}
      string(const string& s, size_t i, size_t n = npos): v(vpp_str_sub(s.v, i, n)) {}
      string(const string& s): v(s.v) {}
      string& operator=(const string& s) {v = s.v; return *this;}
      string& operator=(const char* p) {v = vpp_str_lit(p); return *this;}
      string& assign(const string& s) {v = s.v; return *this;}
      string& assign(const char* b, const char* e) {v = vpp_str_range(b, e); return *this;}
      const char* begin() const {return vpp_str_begin(v);}
      const char* end() const {return vpp_str_begin(v) + vpp_str_size(v);}
      const char* cbegin() const {return begin();}
      const char* cend() const {return end();}
      const char* data() const {return begin();}
      const char* c_str() const {return begin();}
      const char& operator[](size_t i) const {return begin()[i];}
      const char& at(size_t i) const {return begin()[i];}
      const char& front() const {return begin()[0];}
      const char& back() const {return begin()[size() - 1];}
      size_t size() const {return vpp_str_size(v);}
      size_t length() const {return vpp_str_size(v);}
      bool empty() const {return vpp_str_eq(v, vpp_str_lit(""));}
      void clear() {v = vpp_str_lit("");}
      string& operator+=(const string& s) {v = vpp_str_cat(v, s.v); return *this;}
      string& operator+=(char c) {v = vpp_str_cat(v, vpp_str_char(c)); return *this;}
      string& append(const string& s) {return *this += s;}
      string& append(size_t n, char c) {v = vpp_str_cat(v, vpp_str_fill(n, c)); return *this;}
      void push_back(char c) {*this += c;}
      string substr(size_t i = 0, size_t n = npos) const {return Raw{vpp_str_sub(v, i, n)};}
      int compare(const string& s) const {return vpp_str_eq(v, s.v) ? 0 : vpp_str_compare(v, s.v);}
      int compare(size_t i, size_t n, const string& s) const {return substr(i, n).compare(s);}
      size_t find(const string& s, size_t at = 0) const {return vpp_str_find(v, s.v, at);}
      size_t find(char c, size_t at = 0) const {return vpp_str_find(v, vpp_str_char(c), at);}
      void swap(string& s) {const char* x = v; v = s.v; s.v = x;}
      void reserve(size_t) {}
    };
    inline bool operator==(const string& a, const string& b) {return vpp_str_eq(a.v, b.v);}
    inline bool operator!=(const string& a, const string& b) {return !vpp_str_eq(a.v, b.v);}
    inline bool operator<(const string& a, const string& b) {return vpp_str_less(a.v, b.v);}
    inline bool operator>(const string& a, const string& b) {return vpp_str_less(b.v, a.v);}
    inline string operator+(const string& a, const string& b) {return string::Raw{vpp_str_cat(a.v, b.v)};}
    inline string operator+(const string& a, char b) {return string::Raw{vpp_str_cat(a.v, vpp_str_char(b))};}
    inline string operator+(char a, const string& b) {return string::Raw{vpp_str_cat(vpp_str_char(a), b.v)};}
    inline string to_string(unsigned n) {return string::Raw{vpp_str_of_uint(n)};}
    inline string to_string(unsigned long n) {return string::Raw{vpp_str_of_ulong(n)};}
    inline string to_string(int n) {return string::Raw{vpp_str_of_long(n)};}
    inline string to_string(long n) {return string::Raw{vpp_str_of_long(n)};}
    inline void swap(string& a, string& b) {a.swap(b);}

    class ostringstream {
    public:
      const char* v;
      ostringstream(): v(vpp_str_lit("")) {}
      string str() const {return string::Raw{v};}
      ostringstream& add(const char* w) {v = vpp_str_cat(v, w); return *this;}
      ostringstream& operator<<(const string& s) {return add(s.v);}
      ostringstream& operator<<(const char* s) {return add(vpp_str_lit(s));}
      ostringstream& operator<<(char c) {return add(vpp_str_char(c));}
      ostringstream& operator<<(unsigned n) {return add(vpp_str_of_uint(n));}
      ostringstream& operator<<(unsigned long n) {return add(vpp_str_of_ulong(n));}
      ostringstream& operator<<(int n) {return add(vpp_str_of_long(n));}
      ostringstream& operator<<(long n) {return add(vpp_str_of_long(n));}
      ostringstream& operator<<(double n) {return add(vpp_str_of_double(n));}
    private:
      ostringstream(const ostringstream&);
    };
    typedef ostringstream ostream;
    class istringstream {
    public:
      const char* v;
      const char* p; // what has been read already
      explicit istringstream(const string& s): v(s.v), p(vpp_str_lit("")) {}
      istringstream& operator>>(unsigned& n) {n = vpp_in_uint(v, p); p = vpp_str_cat(p, vpp_str_of_uint(n)); return *this;}
      istringstream& operator>>(unsigned long& n) {n = vpp_in_ulong(v, p); p = vpp_str_cat(p, vpp_str_of_ulong(n)); return *this;}
      istringstream& operator>>(int& n) {n = vpp_in_long(v, p); p = vpp_str_cat(p, vpp_str_of_long(n)); return *this;}
      istringstream& operator>>(long& n) {n = vpp_in_long(v, p); p = vpp_str_cat(p, vpp_str_of_long(n)); return *this;}
      bool good() const {return vpr_in_ok(this);}
      bool fail() const {return !vpr_in_ok(this);}
      bool eof() const {return vpr_in_ok((const char*)this + 1);}
      bool operator!() const {return fail();}
      explicit operator bool() const {return good();}
    };
    typedef istringstream stringstream;

    class exception {};
    class runtime_error: public exception {
    public:
      string text;
      runtime_error(const string& s): text(s) {}
      const char* what() const {return text.c_str();}
    };
    class logic_error: public exception {
    public:
      string text;
      logic_error(const string& s): text(s) {}
      const char* what() const {return text.c_str();}
    };
    template<class It, class V> It find(It b, It e, const V& x) {
      for (; b != e; ++b)
        if (*b == x)
          break;
      return b;
    }
    template<class It, class V> ptrdiff_t count(It b, It e, const V& x) {
      ptrdiff_t n = 0;
      for (; b != e; ++b)
        if (*b == x)
          ++n;
      return n;
    }
  }
}
#endif
