//@ property C29
//@ opt unwind=12 timeout=200
#include "vp.h"
#include <muu/core.h>
#include <muu/half.h>
#include <muu/math.h>
using vp::any;
using u128 = unsigned __int128; using i128 = __int128;
template <typename T> static bool ordered(T v) { if constexpr (std::is_floating_point_v<T>) return v == v; else if constexpr (std::is_same_v<T, muu::half>) return !muu::infinity_or_nan(v) || static_cast<float>(v) == static_cast<float>(v); else return true; }
template <typename T> static bool le(T a, T b) { if constexpr (std::is_same_v<T, muu::half>) return static_cast<float>(a) <= static_cast<float>(b); else return a <= b; }
template <typename T> static bool eq(T a, T b) { return le(a, b) && le(b, a); }
template <typename T> static T get() { const T v = any<T>(); REQUIRES(ordered(v)); return v; }
template <typename T> static void extremes()
{
	const T a = get<T>(), b = get<T>(), c = get<T>(), d = get<T>(), e = get<T>();
	const T& lo = muu::min(a, b);
	const T& hi = muu::max(a, b);
	ENSURESM("min/max of two return one of the arguments", (&lo == &a || &lo == &b) && (&hi == &a || &hi == &b));
	ENSURESM("min of two", le(lo, a) && le(lo, b) && (eq(lo, a) || eq(lo, b)));
	ENSURESM("max of two", le(a, hi) && le(b, hi) && (eq(hi, a) || eq(hi, b)));
	const T lo3 = muu::min(a, b, c), hi3 = muu::max(a, b, c);
	ENSURESM("min of three", le(lo3, a) && le(lo3, b) && le(lo3, c) && (eq(lo3, a) || eq(lo3, b) || eq(lo3, c)));
	ENSURESM("max of three", le(a, hi3) && le(b, hi3) && le(c, hi3) && (eq(hi3, a) || eq(hi3, b) || eq(hi3, c)));
	const T lo4 = muu::min(a, b, c, d), hi4 = muu::max(a, b, c, d);
	ENSURESM("min of four", le(lo4, lo3) && le(lo4, d) && (eq(lo4, lo3) || eq(lo4, d)));
	ENSURESM("max of four", le(hi3, hi4) && le(d, hi4) && (eq(hi4, hi3) || eq(hi4, d)));
	const T lo5 = muu::min(a, b, c, d, e), hi5 = muu::max(a, b, c, d, e);
	ENSURESM("min of five", le(lo5, lo4) && le(lo5, e) && (eq(lo5, lo4) || eq(lo5, e)));
	ENSURESM("max of five", le(hi4, hi5) && le(e, hi5) && (eq(hi5, hi4) || eq(hi5, e)));
}
template <typename T> static void clamped()
{
	const T v = get<T>(), lo = get<T>(), hi = get<T>();
	REQUIRES(le(lo, hi));
	const T r = muu::clamp(v, lo, hi);
	ENSURESM("clamp is within the bounds", le(lo, r) && le(r, hi));
	ENSURESM("clamp keeps a value within the bounds and otherwise gives the nearer bound", (le(lo, v) && le(v, hi)) ? eq(r, v) : le(v, lo) ? eq(r, lo) : eq(r, hi));
	ENSURESM("between: inclusive", muu::between(v, lo, hi) == (le(lo, v) && le(v, hi)));
	const T p = get<T>(), q = get<T>(); // bounds in any order
	ENSURESM("between with arbitrary bounds", muu::between(v, p, q) == (le(p, v) && le(v, q)));
}
#define MM(n, T) VP_CONTRACT(extremes_##n) { extremes<T>(); } VP_CONTRACT(clamp_##n) { clamped<T>(); }
MM(u8, uint8_t) MM(i8, int8_t) MM(u16, uint16_t) MM(i16, int16_t) MM(u32, uint32_t) MM(i32, int32_t) MM(u64, uint64_t) MM(i64, int64_t) MM(u128, u128) MM(i128, i128)
MM(float, float) MM(double, double) MM(half, muu::half) MM(c16, char16_t) MM(c32, char32_t)
// between with a value of one integer type and bounds of another: compared as mathematical integers
template <typename T> static i128 w(T v) { if constexpr (std::is_enum_v<T>) return static_cast<i128>(static_cast<std::underlying_type_t<T>>(v)); else return static_cast<i128>(v); }
template <typename T, typename U> static void mixed_one()
{
	const T v = any<T>();
	const U lo = any<U>(), hi = any<U>();
	ENSURESM("between with mixed integer types", muu::between(v, lo, hi) == (w(lo) <= w(v) && w(v) <= w(hi)));
}
template <typename T> static void mixed() { mixed_one<T, uint8_t>(); mixed_one<T, int8_t>(); mixed_one<T, uint16_t>(); mixed_one<T, int16_t>(); mixed_one<T, uint32_t>(); mixed_one<T, int32_t>(); mixed_one<T, uint64_t>(); mixed_one<T, int64_t>(); }
VP_CONTRACT(mixed_u8) { mixed<uint8_t>(); }
VP_CONTRACT(mixed_i8) { mixed<int8_t>(); }
VP_CONTRACT(mixed_u16) { mixed<uint16_t>(); }
VP_CONTRACT(mixed_i16) { mixed<int16_t>(); }
VP_CONTRACT(mixed_u32) { mixed<uint32_t>(); }
VP_CONTRACT(mixed_i32) { mixed<int32_t>(); }
VP_CONTRACT(mixed_u64) { mixed<uint64_t>(); }
VP_CONTRACT(mixed_i64) { mixed<int64_t>(); }
enum class eu : uint32_t {}; enum class ei : int32_t {};
VP_CONTRACT(mixed_enum) { mixed_one<eu, uint32_t>(); mixed_one<eu, eu>(); mixed_one<eu, int32_t>(); mixed_one<ei, ei>(); mixed_one<ei, uint32_t>(); mixed_one<uint64_t, ei>(); mixed_one<int64_t, eu>(); mixed_one<eu, ei>(); }
VP_CONTRACT(mixed_float)
{
	const float v = any<float>(); const double lo = any<double>(), hi = any<double>();
	ENSURESM("between: float value, double bounds", muu::between(v, lo, hi) == (lo <= static_cast<double>(v) && static_cast<double>(v) <= hi));
	const double d = any<double>(); const float a = any<float>(), b = any<float>();
	ENSURESM("between: double value, float bounds", muu::between(d, a, b) == (static_cast<double>(a) <= d && d <= static_cast<double>(b)));
}
