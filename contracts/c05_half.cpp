//@ property C05
//@ variant ce -D__builtin_is_constant_evaluated()=1
//@ opt unwind=30 variants=none
//@ entry ^ct_(floor_ceil|unary|to_float|from_float|compare) variants=ce
//@ entry ^ct_(add|sub|mul|div|fn) fpuf=1
#include "vp.h"
#include <muu/half.h>
using muu::half;

// reference: binary32 -> binary16, round to nearest even, written on the bit pattern
static constexpr uint16_t f2h(uint32_t b)
{
	const uint16_t s = (uint16_t)((b >> 16) & 0x8000u);
	const uint32_t a = b & 0x7FFFFFFFu;
	if (a > 0x7F800000u) return (uint16_t)(s | 0x7E00u);	   // NaN
	if (a >= 0x47800000u) return (uint16_t)(s | 0x7C00u);	   // >= 65536, or infinity
	if (a < 0x33000000u) return s;							   // < 2^-25
	const int e = (int)(a >> 23) - 127;
	const uint32_t m = (a & 0x7FFFFFu) | 0x800000u;
	const int shift = e >= -14 ? 13 : 13 + (-14 - e);		   // bits dropped from the 24-bit significand
	uint32_t q = m >> shift;
	const uint32_t r = m & ((1u << shift) - 1u), half_ulp = 1u << (shift - 1);
	if (r > half_ulp || (r == half_ulp && (q & 1))) q++;
	if (e >= -14) q += (uint32_t)(e + 14) << 10; // the leading one of q carries into the exponent field
	return (uint16_t)(s | q);
}
static bool same(uint16_t a, uint16_t b) // equal, where every NaN counts as the same value
{
	return a == b || ((a & 0x7FFF) > 0x7C00 && (b & 0x7FFF) > 0x7C00);
}
static float val(uint16_t h) // the value of a binary16 pattern, from its definition
{
	const int e = (h >> 10) & 31; const unsigned f = h & 1023u;
	uint32_t b;
	if (e == 31) b = 0x7F800000u | (f << 13);
	else if (e) b = ((uint32_t)(e - 15 + 127) << 23) | (f << 13);
	else { float d = (float)f * 5.9604644775390625e-08f; return (h & 0x8000) ? -d : d; }
	b |= (uint32_t)(h & 0x8000) << 16;
	float r; __builtin_memcpy(&r, &b, 4); return r;
}
static uint16_t hb(half h) { return vp::bits(h); }
static half any() { return half::from_bits(vp::any<uint16_t>()); }
VP_CONTRACT(to_float)
{
	const uint16_t b = vp::any<uint16_t>();
	const half h = half::from_bits(b);
	ENSURESM("from_bits keeps the bit pattern", hb(h) == b);
	const float f = h, w = val(b); const double d = h;
	ENSURESM("half to float is exact", w != w ? f != f : vp::bits(f) == vp::bits(w));
	ENSURESM("half to double is exact", w != w ? d != d : vp::bits(d) == vp::bits((double)w));
	ENSURESM("half to bool is x != 0", static_cast<bool>(h) == (w != 0.0f));
}
VP_CONTRACT(from_float)
{
	const float f = vp::any<float>();
	ENSURESM("float to half rounds to nearest even", same(hb(half{ f }), f2h(vp::bits(f))));
}
VP_CONTRACT(from_double)
{
	const double d = vp::any<double>();
	const half h{ d };
	const float v = val(hb(h));
	if (d != d) ENSURESM("NaN converts to NaN", v != v);
	else
	{
		// nearest: between the two neighbours' midpoints
		const uint16_t b = (uint16_t)(hb(h) & 0x7FFF);
		const double a = d < 0 ? -d : d;
		ENSURESM("double to half keeps the sign", ((hb(h) & 0x8000) != 0) == ((vp::bits(d) >> 63) != 0));
		ENSURESM("double to half is not NaN", b <= 0x7C00);
		const double lo = b == 0 ? 0.0 : ((double)val((uint16_t)(b - 1)) + (b == 0x7C00 ? 65536.0 : (double)val(b))) * 0.5;
		const double hi = b >= 0x7C00 ? (double)INFINITY : ((double)val(b) + (b + 1 == 0x7C00 ? 65536.0 : (double)val((uint16_t)(b + 1)))) * 0.5;
		ENSURESM("double to half rounds to nearest", (b & 1) ? (lo < a && a < hi) : (lo <= a && a <= hi));
	}
}
template <typename I> static void from_int()
{
	const I i = vp::any<I>();
	const half h{ i };
	const float v = val(hb(h));
	using W = __int128;
	const W w = (W)i; const W a = w < 0 ? -w : w;
	const uint16_t b = (uint16_t)(hb(h) & 0x7FFF);
	ENSURESM("integer to half is not NaN and keeps the sign", v == v && (a == 0 ? hb(h) == 0 : ((hb(h) >> 15) != 0) == (w < 0)));
	if (a <= 2048) ENSURESM("small integers convert exactly", v == (float)(int)w);
	else if (a >= 65520) ENSURESM("integers beyond the range become infinity", b == 0x7C00);
	else
	{
		const int32_t n = (int32_t)(v < 0 ? -v : v), d = n - (int32_t)a;
		const int32_t ulp = a < 4096 ? 2 : a < 8192 ? 4 : a < 16384 ? 8 : a < 32768 ? 16 : 32;
		if (b == 0x7C00) ENSURESM("integers below the range do not become infinity", false);
		ENSURESM("integer to half is within half an ulp", (d < 0 ? -d : d) * 2 <= ulp);
	}
}
VP_CONTRACT(from_i8) { from_int<signed char>(); }
VP_CONTRACT(from_u8) { from_int<unsigned char>(); }
VP_CONTRACT(from_c) { from_int<char>(); }
VP_CONTRACT(from_i16) { from_int<short>(); }
VP_CONTRACT(from_u16) { from_int<unsigned short>(); }
VP_CONTRACT(from_i32) { from_int<int>(); }
VP_CONTRACT(from_u32) { from_int<unsigned>(); }
VP_CONTRACT(from_i64) { from_int<long>(); }
VP_CONTRACT(from_u64) { from_int<unsigned long>(); }
template <typename I> static void to_int()
{
	const half h = any(); const float v = val(hb(h));
	REQUIRES(v == v && v > -60000.f && v < 60000.f);
	const int t = (int)v;
	if constexpr (sizeof(I) >= 4) { if constexpr (I(-1) > I(0)) REQUIRES(t >= 0); }
	else REQUIRES(t >= (int)std::numeric_limits<I>::min() && t <= (int)std::numeric_limits<I>::max());
	ENSURESM("half to integer truncates toward zero", static_cast<I>(h) == static_cast<I>(t));
}
VP_CONTRACT(to_i8) { to_int<signed char>(); }
VP_CONTRACT(to_u8) { to_int<unsigned char>(); }
VP_CONTRACT(to_i16) { to_int<short>(); }
VP_CONTRACT(to_u16) { to_int<unsigned short>(); }
VP_CONTRACT(to_i32) { to_int<int>(); }
VP_CONTRACT(to_u32) { to_int<unsigned>(); }
VP_CONTRACT(to_i64) { to_int<long>(); }
VP_CONTRACT(to_u64) { to_int<unsigned long>(); }
VP_CONTRACT(compare)
{
	const half a = any(), b = any(); const float x = val(hb(a)), y = val(hb(b));
	ENSURES((a == b) == (x == y)); ENSURES((a != b) == (x != y)); ENSURES((a < b) == (x < y));
	ENSURES((a <= b) == (x <= y)); ENSURES((a > b) == (x > y)); ENSURES((a >= b) == (x >= y));
}
template <typename T> static void cmp_mixed()
{
	const half a = any(); const T y = vp::any<T>();
	using C = std::conditional_t<std::is_same_v<T, double>, double, float>;
	const C x = val(hb(a)), z = static_cast<C>(y);
	ENSURES((a == y) == (x == z)); ENSURES((a != y) == (x != z)); ENSURES((a < y) == (x < z));
	ENSURES((a <= y) == (x <= z)); ENSURES((a > y) == (x > z)); ENSURES((a >= y) == (x >= z));
	ENSURES((y == a) == (z == x)); ENSURES((y != a) == (z != x)); ENSURES((y < a) == (z < x));
	ENSURES((y <= a) == (z <= x)); ENSURES((y > a) == (z > x)); ENSURES((y >= a) == (z >= x));
}
VP_CONTRACT(cmp_float) { cmp_mixed<float>(); }
VP_CONTRACT(cmp_double) { cmp_mixed<double>(); }
VP_CONTRACT(cmp_i32) { cmp_mixed<int>(); }
VP_CONTRACT(cmp_u64) { cmp_mixed<unsigned long>(); }
VP_CONTRACT(cmp_i8) { cmp_mixed<signed char>(); }
VP_CONTRACT(unary)
{
	const half a = any(); const uint16_t b = hb(a); const float x = val(b);
	ENSURESM("negation flips the sign", same(hb(-a), (uint16_t)(b ^ 0x8000)));
	ENSURESM("unary plus is the identity", hb(+a) == b);
	ENSURESM("infinity_or_nan", muu::infinity_or_nan(a) == ((b & 0x7C00) == 0x7C00));
	ENSURESM("abs clears the sign", x != x || x == 0 || hb(muu::abs(a)) == (b & 0x7FFF));
}
VP_CONTRACT(unary_zero) { const half z = half::from_bits((uint16_t)(vp::any<bool>() ? 0x8000 : 0)); ENSURES(static_cast<float>(muu::abs(z)) == 0.0f); }
VP_CONTRACT(floor_ceil)
{
	const half a = any(); const float x = val(hb(a));
	REQUIRES(x == x && (hb(a) & 0x7FFF) != 0x7C00);
	const float f = muu::floor(a), c = muu::ceil(a);
	ENSURESM("floor is the greatest integer not above", f == (float)(int)f && f <= x && x < f + 1.0f);
	ENSURESM("ceil is the least integer not below", c == (float)(int)c && c >= x && x > c - 1.0f);
}
#define ARITH(n, op) \
	VP_CONTRACT(n) { const half a = any(), b = any(); const float x = a, y = b; \
		ENSURESM("half " #op " half is the float operation rounded to half", same(hb(a op b), f2h(vp::bits(x op y)))); \
		half c = a; half& r = (c op##= b); \
		ENSURESM(#op "= gives the same", same(hb(c), f2h(vp::bits(x op y))) && &r == &c); } \
	VP_CONTRACT(n##_f) { const half a = any(); const float y = vp::any<float>(); const float x = a; \
		const float r = a op y, q = y op a; const float wr = x op y, wq = y op x; \
		ENSURESM("half " #op " float is the float operation", (wr != wr ? r != r : vp::bits(r) == vp::bits(wr)) && (wq != wq ? q != q : vp::bits(q) == vp::bits(wq))); \
		half c = a; c op##= y; ENSURESM(#op "= float rounds the float result", same(hb(c), f2h(vp::bits(wr)))); } \
	VP_CONTRACT(n##_i) { const half a = any(); const int y = vp::any<int>(); const float x = a; const float wr = x op (float)y; \
		ENSURESM("half " #op " int is the float operation rounded to half", same(hb(a op y), f2h(vp::bits(wr))) && same(hb(y op a), f2h(vp::bits((float)y op x)))); \
		half c = a; c op##= y; ENSURESM(#op "= int rounds the float result", same(hb(c), f2h(vp::bits(wr)))); }
ARITH(add, +) ARITH(sub, -) ARITH(mul, *) ARITH(div, /)
VP_CONTRACT(incdec)
{
	const half a = any(); const float x = a;
	half b = a; ++b; ENSURESM("++ adds one", same(hb(b), f2h(vp::bits(x + 1.0f))));
	b = a; --b; ENSURESM("-- subtracts one", same(hb(b), f2h(vp::bits(x - 1.0f))));
	b = a; half p = b++; ENSURESM("post-increment returns the old value", hb(p) == hb(a) && same(hb(b), f2h(vp::bits(x + 1.0f))));
	b = a; p = b--; ENSURESM("post-decrement returns the old value", hb(p) == hb(a) && same(hb(b), f2h(vp::bits(x - 1.0f))));
}

#define FN1(n) VP_CONTRACT(fn_##n) { const half a = any(); ENSURESM(#n "(half) is " #n "(float) rounded to half", same(hb(muu::n(a)), hb(half{ muu::n(static_cast<float>(a)) }))); }
FN1(sqrt) FN1(sin) FN1(cos) FN1(tan) FN1(asin) FN1(acos) FN1(atan)
VP_CONTRACT(fn_atan2)
{
	const half y = any(), x = any();
	ENSURESM("atan2(half y, half x) is atan2(float y, float x) rounded to half", same(hb(muu::atan2(y, x)), hb(half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) })));
}
VP_CONTRACT(fn_lerp)
{
	const half a = any(), b = any(), t = any();
	ENSURESM("lerp of halfs is lerp of floats rounded to half", same(hb(muu::lerp(a, b, t)), hb(half{ muu::lerp(static_cast<float>(a), static_cast<float>(b), static_cast<float>(t)) })));
}
