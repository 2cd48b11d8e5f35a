// Stand-in for the vendor's arbitrary precision integers: unsigned, up to 512 bits, simulation semantics.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
extern "C" void shim_bad(const char *what, long a, long b); // an operation real hardware gives no meaning to

struct ap_bits { // plain value of a given width
	static const int NW = 10; uint64_t w[NW]; int width;
	ap_bits() : width(64) { for (auto &x : w) x = 0; }
	explicit ap_bits(uint64_t v, int n = 64) : ap_bits() { w[0] = v; width = n; trim(); }
	bool bit(int i) const { return i >= 0 && i < NW * 64 && (w[i / 64] >> (i % 64) & 1); }
	void setbit(int i, bool v) { if (i < 0 || i >= NW * 64) return; if (v) w[i / 64] |= 1ull << (i % 64); else w[i / 64] &= ~(1ull << (i % 64)); }
	void trim() { for (int i = 0; i < NW; i++) { int lo = i * 64; if (lo >= width) w[i] = 0; else if (lo + 64 > width) w[i] &= ~0ull >> (64 - (width - lo)); } }
	ap_bits shl(long n) const { ap_bits r; r.width = width; if (n < 0) return shr(-n); for (int i = 0; i < NW; i++) { long s = i - n / 64; uint64_t v = 0; if (s >= 0) { v = w[s] << (n % 64); if (n % 64 && s >= 1) v |= w[s - 1] >> (64 - n % 64); } r.w[i] = v; } r.trim(); return r; }
	ap_bits shr(long n) const { ap_bits r; r.width = width; if (n < 0) return shl(-n); for (int i = 0; i < NW; i++) { long s = i + n / 64; uint64_t v = 0; if (s < NW) { v = w[s] >> (n % 64); if (n % 64 && s + 1 < NW) v |= w[s + 1] << (64 - n % 64); } r.w[i] = v; } return r; }
	int cmp(const ap_bits &o) const { for (int i = NW; i-- > 0;) if (w[i] != o.w[i]) return w[i] < o.w[i] ? -1 : 1; return 0; }
};
template <int W> struct ap_uint;
struct ap_range { // reference to bits hi..lo of an integer
	ap_bits *p; int hi, lo;
	ap_bits get() const { ap_bits r = p->shr(lo); r.width = hi - lo + 1; r.trim(); return r; }
	void set(const ap_bits &v) { for (int i = lo; i <= hi; i++) p->setbit(i, v.bit(i - lo)); }
	template <class T, class = std::enable_if_t<std::is_integral<T>::value>> ap_range &operator=(T v) { ap_bits b; b.w[0] = (uint64_t)v; if (std::is_signed<T>::value && v < 0) for (int i = 1; i < ap_bits::NW; i++) b.w[i] = ~0ull; b.width = 64 * ap_bits::NW; set(b); return *this; }
	ap_range &operator=(const ap_range &o) { set(o.get()); return *this; }
	ap_range(const ap_range &) = default;
	ap_range(ap_bits *p_, int h, int l) : p(p_), hi(h), lo(l) {}
	template <int W> ap_range &operator=(const ap_uint<W> &v) { set(v.b); return *this; }
	ap_range &operator=(const ap_bits &v) { set(v); return *this; }
	operator unsigned long long() const { return get().w[0]; }
	uint64_t to_uint64() const { return get().w[0]; } unsigned to_uint() const { return (unsigned)get().w[0]; } int to_int() const { return (int)get().w[0]; }
	int length() const { return hi - lo + 1; }
};
template <int W> struct ap_uint {
	static_assert(W >= 1 && W <= 576, "width");
	static const int width = W;
	ap_bits b;
	ap_uint() { b.width = W; }
	ap_uint(const ap_uint &) = default;
	template <class T, class = std::enable_if_t<std::is_integral<T>::value>> ap_uint(T v) { b.width = W; b.w[0] = (uint64_t)v; if (std::is_signed<T>::value && v < 0) for (int i = 1; i < ap_bits::NW; i++) b.w[i] = ~0ull; b.trim(); }
	ap_uint(const ap_bits &v) { b = v; b.width = W; b.trim(); }
	ap_uint(const ap_range &r) : ap_uint(r.get()) {}
	template <int M> ap_uint(const ap_uint<M> &o) : ap_uint(o.b) {}
	ap_uint &operator=(const ap_uint &) = default;
	// small values behave like built-in integers, wide ones have operators of their own
	operator unsigned long long() const { return b.w[0]; }
	unsigned char to_uchar() const { return (unsigned char)b.w[0]; } unsigned to_uint() const { return (unsigned)b.w[0]; } int to_int() const { return (int)b.w[0]; }
	uint64_t to_uint64() const { return b.w[0]; } unsigned long to_ulong() const { return b.w[0]; } unsigned short to_ushort() const { return (unsigned short)b.w[0]; } bool to_bool() const { return b.cmp(ap_bits()) != 0; }
	int length() const { return W; }
	ap_range operator()(long hi, long lo) { if (hi < lo || lo < 0 || hi >= W) { shim_bad("bit range outside the integer", hi, lo); } return ap_range(&b, (int)hi, (int)lo); }
	ap_bits operator()(long hi, long lo) const { if (hi < lo || lo < 0 || hi >= W) shim_bad("bit range outside the integer", hi, lo); return ap_range(const_cast<ap_bits *>(&b), (int)hi, (int)lo).get(); }
	ap_range range(long hi, long lo) { return (*this)(hi, lo); } ap_bits range(long hi, long lo) const { return (*this)(hi, lo); }
	ap_range range() { return (*this)(W - 1, 0); }
	ap_range operator[](long i) { return (*this)(i, i); } bool operator[](long i) const { return b.bit((int)i); }
	bool get_bit(int i) const { return b.bit(i); } void set_bit(int i, bool v) { if (i < W) b.setbit(i, v); } bool test(int i) const { return b.bit(i); }
	ap_uint &operator<<=(long n) { b = b.shl(n); return *this; }
	ap_uint &operator>>=(long n) { b = b.shr(n); return *this; }
	ap_uint operator<<(long n) const { return ap_uint(b.shl(n)); } ap_uint operator<<(int n) const { return ap_uint(b.shl(n)); } ap_uint operator<<(unsigned n) const { return ap_uint(b.shl(n)); } ap_uint operator<<(unsigned long n) const { return ap_uint(b.shl((long)n)); }
	ap_uint operator>>(long n) const { return ap_uint(b.shr(n)); } ap_uint operator>>(int n) const { return ap_uint(b.shr(n)); } ap_uint operator>>(unsigned n) const { return ap_uint(b.shr(n)); } ap_uint operator>>(unsigned long n) const { return ap_uint(b.shr((long)n)); }
	template <int M> ap_uint operator<<(const ap_uint<M> &n) const { return ap_uint(b.shl((long)n.b.w[0])); } template <int M> ap_uint operator>>(const ap_uint<M> &n) const { return ap_uint(b.shr((long)n.b.w[0])); }
	ap_uint &add(const ap_bits &o) { unsigned __int128 c = 0; for (int i = 0; i < ap_bits::NW; i++) { c += (unsigned __int128)b.w[i] + o.w[i]; b.w[i] = (uint64_t)c; c >>= 64; } b.trim(); return *this; }
	ap_uint &sub(const ap_bits &o) { unsigned br = 0; for (int i = 0; i < ap_bits::NW; i++) { unsigned __int128 d = (unsigned __int128)b.w[i] - o.w[i] - br; b.w[i] = (uint64_t)d; br = (d >> 64) != 0; } b.trim(); return *this; }
	template <class T> ap_uint &operator+=(const T &v) { return add(wide(v)); } template <class T> ap_uint &operator-=(const T &v) { return sub(wide(v)); }
	template <class T> ap_uint &operator|=(const T &v) { ap_bits o = wide(v); for (int i = 0; i < ap_bits::NW; i++) b.w[i] |= o.w[i]; b.trim(); return *this; }
	template <class T> ap_uint &operator&=(const T &v) { ap_bits o = wide(v); for (int i = 0; i < ap_bits::NW; i++) b.w[i] &= o.w[i]; b.trim(); return *this; }
	template <class T> ap_uint &operator^=(const T &v) { ap_bits o = wide(v); for (int i = 0; i < ap_bits::NW; i++) b.w[i] ^= o.w[i]; b.trim(); return *this; }
	ap_uint &operator++() { return add(ap_bits(1)); } ap_uint &operator--() { return sub(ap_bits(1)); } ap_uint operator++(int) { ap_uint o = *this; add(ap_bits(1)); return o; } ap_uint operator--(int) { ap_uint o = *this; sub(ap_bits(1)); return o; }
	static ap_bits wide(const ap_bits &v) { return v; } static ap_bits wide(const ap_range &v) { return v.get(); } template <int M> static ap_bits wide(const ap_uint<M> &v) { return v.b; }
	template <class T, class = std::enable_if_t<std::is_integral<T>::value>> static ap_bits wide(T v) { return ap_uint<576>(v).b; }
};
// operations on wide integers (narrow ones convert to built-in integers)
#define SHIM_WIDE(A, B) class = std::enable_if_t<((A) > 64) || ((B) > 64)>
#define SHIM_CMP(OP) template <int A, int B, SHIM_WIDE(A, B)> bool operator OP(const ap_uint<A> &x, const ap_uint<B> &y) { return x.b.cmp(y.b) OP 0; } \
	template <int A, class T, class = std::enable_if_t<(A > 64) && std::is_integral<T>::value>> bool operator OP(const ap_uint<A> &x, T y) { return x.b.cmp(ap_uint<A>::wide(y)) OP 0; }
SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(>) SHIM_CMP(<=) SHIM_CMP(>=)
#define SHIM_BIN(OP) template <int A, int B, SHIM_WIDE(A, B)> ap_uint<((A) > (B) ? (A) : (B))> operator OP(const ap_uint<A> &x, const ap_uint<B> &y) { ap_uint<((A) > (B) ? (A) : (B))> r(x); r OP##= y; return r; } \
	template <int A, class T, class = std::enable_if_t<(A > 64) && std::is_integral<T>::value>> ap_uint<A> operator OP(const ap_uint<A> &x, T y) { ap_uint<A> r(x); r OP##= y; return r; }
SHIM_BIN(|) SHIM_BIN(&) SHIM_BIN(^) SHIM_BIN(+) SHIM_BIN(-)
template <int A> ap_uint<A> operator~(const ap_uint<A> &x) { ap_uint<A> r; for (int i = 0; i < ap_bits::NW; i++) r.b.w[i] = ~x.b.w[i]; r.b.trim(); return r; }
// concatenation
inline ap_bits ap_cat(const ap_bits &x, int wx, const ap_bits &y, int wy) { ap_bits r = x; r.width = wx + wy; r = r.shl(wy); for (int i = 0; i < wy; i++) r.setbit(i, y.bit(i)); return r; }
template <int A, int B> ap_uint<A + B> operator,(const ap_uint<A> &x, const ap_uint<B> &y) { return ap_uint<A + B>(ap_cat(x.b, A, y.b, B)); }
inline ap_bits operator,(const ap_range &x, const ap_range &y) { return ap_cat(x.get(), x.length(), y.get(), y.length()); }
inline ap_bits operator,(const ap_bits &x, const ap_range &y) { return ap_cat(x, x.width, y.get(), y.length()); }
inline ap_bits operator,(const ap_bits &x, const ap_bits &y) { return ap_cat(x, x.width, y, y.width); }
inline ap_bits operator,(const ap_range &x, const ap_bits &y) { return ap_cat(x.get(), x.length(), y, y.width); }
template <int A> ap_bits operator,(const ap_uint<A> &x, const ap_range &y) { return ap_cat(x.b, A, y.get(), y.length()); }
template <int A> ap_bits operator,(const ap_range &x, const ap_uint<A> &y) { return ap_cat(x.get(), x.length(), y.b, A); }
template <int A> ap_bits operator,(const ap_bits &x, const ap_uint<A> &y) { return ap_cat(x, x.width, y.b, A); }
template <int W> using ap_int = ap_uint<W>;
