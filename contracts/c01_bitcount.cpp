//@ property C01
//@ variant ce -D__builtin_is_constant_evaluated()=1
//@ entry pop_u128 cost=50
//@ opt unwind=130
#include "vp.h"
#include <muu/bit.h>
// Contracts: the result r is pinned by the definition "r top/bottom bits are clear and the next one is set",
// which has exactly one solution for every x.
enum class e8 : uint8_t {}; enum class e16 : uint16_t {}; enum class e32 : uint32_t {}; enum class e64 : uint64_t {};
template <typename T> static constexpr int W = (int)sizeof(T) * 8;
template <typename U> static bool leading(U x, int r) { return r >= 0 && r <= W<U> && (r == W<U> ? x == U{} : (U)(x >> (W<U> - 1 - r)) == U{ 1 }); }
template <typename U> static bool trailing(U x, int r) { return r >= 0 && r <= W<U> && (r == W<U> ? x == U{} : (U)(x << (W<U> - 1 - r)) == (U)(U{ 1 } << (W<U> - 1))); }
template <typename T> static void clz()
{
	T v = vp::any<T>(); auto x = vp::bits(v); using U = decltype(x);
	ENSURESM("countl_zero is the number of leading zeros", leading<U>(x, muu::countl_zero(v)));
	ENSURESM("countl_one is the number of leading ones", leading<U>((U)~x, muu::countl_one(v)));
}
template <typename T> static void ctz()
{
	T v = vp::any<T>(); auto x = vp::bits(v); using U = decltype(x);
	ENSURESM("countr_zero is the number of trailing zeros", trailing<U>(x, muu::countr_zero(v)));
	ENSURESM("countr_one is the number of trailing ones", trailing<U>((U)~x, muu::countr_one(v)));
}
template <typename T> static void pop()
{
	T v = vp::any<T>(); auto x = vp::bits(v); using U = decltype(x);
	int n = 0; // counted byte by byte
	for (int b = 0; b < W<U>; b += 8)
	{
		const unsigned y = (unsigned)(x >> b) & 0xFFu;
		n += (int)((y & 1) + (y >> 1 & 1) + (y >> 2 & 1) + (y >> 3 & 1) + (y >> 4 & 1) + (y >> 5 & 1) + (y >> 6 & 1) + (y >> 7 & 1));
	}
	ENSURESM("popcount is the number of set bits", muu::popcount(v) == n);
	ENSURESM("has_single_bit iff exactly one bit is set", muu::has_single_bit(v) == (n == 1));
}
template <typename T> static void width()
{
	T v = vp::any<T>(); auto x = vp::bits(v); using U = decltype(x);
	const U w = vp::bits(muu::bit_width(v));
	ENSURESM("bit_width is the position after the highest set bit", w <= (U)W<U> && (w == 0 ? x == 0 : (U)(x >> (int)(w - 1)) == 1));
	const U f = vp::bits(muu::bit_floor(v));
	ENSURESM("bit_floor is the greatest power of two not above (0 for 0)", x == 0 ? f == 0 : (f != 0 && (f & (f - 1)) == 0 && f <= x && (U)(x - f) < f));
}
template <typename T> static void ceil_()
{
	T v = vp::any<T>(); auto x = vp::bits(v); using U = decltype(x);
	REQUIRES(x <= (U)(U{ 1 } << (W<U> - 1))); // the result must be representable
	const U c = vp::bits(muu::bit_ceil(v));
	ENSURESM("bit_ceil is the least power of two not below", c != 0 && (c & (c - 1)) == 0 && c >= x && (x <= 1 ? c == 1 : (U)(c >> 1) < x));
}
#define ALL(F) \
	VP_CONTRACT(F##_u8) { F<uint8_t>(); } VP_CONTRACT(F##_u16) { F<uint16_t>(); } VP_CONTRACT(F##_u32) { F<uint32_t>(); } \
	VP_CONTRACT(F##_ul) { F<unsigned long>(); } VP_CONTRACT(F##_ull) { F<unsigned long long>(); } VP_CONTRACT(F##_u128) { F<muu::uint128_t>(); } \
	VP_CONTRACT(F##_e8) { F<e8>(); } VP_CONTRACT(F##_e16) { F<e16>(); } VP_CONTRACT(F##_e32) { F<e32>(); } VP_CONTRACT(F##_e64) { F<e64>(); }
ALL(clz) ALL(ctz) ALL(pop) ALL(width) ALL(ceil_)
