// Text output: when emitting IR for symbolic execution, the stream and string used by gal/format.hpp are replaced by ones that
// record tokens (a number, symbolic or not, or a character); when compiled by g++ (replay) the real text is compared.
#pragma once
#include <iomanip>
#include <sstream>
#include <string>
#include <tuple>
#ifdef __clang__
namespace std
{
struct vp_text
{
    double tok[128];
    int num[128];
    int n = 0;
    constexpr vp_text() : tok{}, num{} {}
    vp_text(char const* s) : vp_text() { add(s); }
    vp_text(unsigned long k, char c) : vp_text() { while (k--) ch(c); }
    void add(char const* s) { while (*s) ch(*s++); }
    void ch(char c) { tok[n] = c; num[n++] = 0; }
    void val(double v, int width) { tok[n] = v; num[n++] = width; }
    void dec(unsigned long v) { if (v > 9) dec(v / 10); ch(static_cast<char>('0' + v % 10)); }
    void add(vp_text const& o) { for (int i = 0; i != o.n; ++i) { tok[n] = o.tok[i]; num[n++] = o.num[i]; } }
    vp_text& operator+=(char const* s) { add(s); return *this; }
    vp_text& operator+=(char c) { ch(c); return *this; }
    vp_text& operator+=(vp_text const& o) { add(o); return *this; }
    void push_back(char c) { ch(c); }
    bool empty() const { return n == 0; }
    unsigned long size() const { return static_cast<unsigned long>(n); }
    unsigned long length() const { return size(); }
    void clear() { n = 0; }
    void reserve(unsigned long) {}
    vp_text& append(char const* s) { add(s); return *this; }
    vp_text& append(vp_text const& o) { add(o); return *this; }
    vp_text& append(unsigned long k, char c) { while (k--) ch(c); return *this; }
    friend vp_text operator+(vp_text a, vp_text const& b) { a.add(b); return a; }
    friend vp_text operator+(vp_text a, char const* b) { a.add(b); return a; }
    friend vp_text operator+(vp_text a, char b) { a.ch(b); return a; }
    friend vp_text operator+(char const* a, vp_text const& b) { vp_text r{a}; r.add(b); return r; }
};
struct vp_stream
{
    vp_text x;
    vp_stream& operator<<(char const* s) { x.add(s); return *this; }
    vp_stream& operator<<(char c) { x.ch(c); return *this; }
    vp_stream& operator<<(double v) { x.val(v, 1); return *this; }
    vp_stream& operator<<(float v) { x.val(v, 2); return *this; }
    vp_stream& operator<<(int v) { if (v < 0) { x.ch('-'); v = -v; } x.dec(static_cast<unsigned long>(v)); return *this; }
    vp_stream& operator<<(unsigned v) { x.dec(v); return *this; }
    vp_stream& operator<<(unsigned long v) { x.dec(v); return *this; }
    vp_stream& operator<<(long v) { if (v < 0) { x.ch('-'); v = -v; } x.dec(static_cast<unsigned long>(v)); return *this; }
    vp_stream& operator<<(bool v) { x.ch(v ? '1' : '0'); return *this; }
    vp_stream& operator<<(unsigned char v) { x.ch(static_cast<char>(v)); return *this; }
    vp_stream& put(char c) { x.ch(c); return *this; }
    vp_stream& write(char const* s, long k) { while (k-- > 0) x.ch(*s++); return *this; }
    // anything that may change how numbers are printed shows up as a token no text has; the replay decides whether it matters
    template <typename X> vp_stream& operator<<(X const&) { x.ch('\1'); return *this; }
    vp_stream& operator<<(std::ios_base& (*)(std::ios_base&)) { x.ch('\1'); return *this; }
    vp_stream& operator<<(std::ostream& (*)(std::ostream&)) { x.ch('\1'); return *this; }
    template <typename... X> long precision(X...) { x.ch('\1'); return 6; }
    template <typename... X> long width(X...) { x.ch('\1'); return 0; }
    template <typename... X> char fill(X...) { x.ch('\1'); return ' '; }
    template <typename... X> long setf(X...) { x.ch('\1'); return 0; }
    vp_stream& operator<<(vp_text const& t) { x.add(t); return *this; }
    vp_text str() const { return x; }
};
} // namespace std
#define stringstream vp_stream
#define ostringstream vp_stream
#define string vp_text
#include <gal/format.hpp>
#undef stringstream
#undef ostringstream
#undef string
namespace vp
{
inline void text(std::vp_text const& t, std::initializer_list<std::pair<int, double>>)
{
    vp_res(0, 0, t.n);
    for (int i = 0; i != t.n; ++i) { vp_res(0, 1 + 2 * i, t.num[i]); vp_res(0, 2 + 2 * i, t.tok[i]); }
}
} // namespace vp
#else
#include <gal/format.hpp>
#include <initializer_list>
namespace vp
{
inline void text(std::string const& t, std::initializer_list<std::pair<int, double>> want)
{
    std::ostringstream s;
    for (auto [num, v] : want) { if (num) s << v; else s << static_cast<char>(v); }
    bool const same = s.str() == t;
    vp_res(0, 0, same ? static_cast<double>(want.size()) : -1);
    int i = 0;
    for (auto [num, v] : want) { vp_res(0, 1 + 2 * i, same ? num : -1); vp_res(0, 2 + 2 * i, same ? v : -1); ++i; }
}
} // namespace vp
#endif
