//@ property C02
//@ variant ce -D__builtin_is_constant_evaluated()=1
//@ opt unwind=20
#include "vp.h"
#include <muu/bit.h>
enum class e8 : uint8_t {}; enum class e32 : uint32_t {}; enum class e64 : uint64_t {};
template <typename T> static constexpr size_t W = sizeof(T) * 8;
template <typename T> static void fill()
{
	const size_t n = vp::any<uint64_t>();
	const unsigned i = vp::any<uint8_t>();
	REQUIRES(i < W<T>);
	const auto r = vp::bits(muu::bit_fill_right<T>(n));
	const auto l = vp::bits(muu::bit_fill_left<T>(n));
	ENSURESM("bit i of bit_fill_right(n) is set iff i < n", (((r >> i) & 1) != 0) == (i < n));
	ENSURESM("bit i of bit_fill_left(n) is set iff i is among the n top bits", (((l >> i) & 1) != 0) == (W<T> - 1 - i < n));
}
template <typename T> static void select()
{
	const T v = vp::any<T>();
	const size_t i = vp::any<uint64_t>();
	const auto x = vp::bits(v);
	const uint8_t want = i >= sizeof(T) ? 0 : (uint8_t)(x >> (i * 8));
	ENSURESM("byte_select(v, i) is byte i, zero when out of range", muu::byte_select(v, i) == want);
}
#define ALL(F) \
	VP_CONTRACT(F##_u8) { F<uint8_t>(); } VP_CONTRACT(F##_u16) { F<uint16_t>(); } VP_CONTRACT(F##_u32) { F<uint32_t>(); } \
	VP_CONTRACT(F##_ul) { F<unsigned long>(); } VP_CONTRACT(F##_ull) { F<unsigned long long>(); } VP_CONTRACT(F##_u128) { F<muu::uint128_t>(); } \
	VP_CONTRACT(F##_e8) { F<e8>(); } VP_CONTRACT(F##_e32) { F<e32>(); } VP_CONTRACT(F##_e64) { F<e64>(); }
ALL(fill) ALL(select)
VP_CONTRACT(select_i8) { select<int8_t>(); }
VP_CONTRACT(select_i16) { select<int16_t>(); }
VP_CONTRACT(select_i32) { select<int32_t>(); }
VP_CONTRACT(select_i64) { select<int64_t>(); }
VP_CONTRACT(select_i128) { select<muu::int128_t>(); }
template <typename T, size_t... I> static void sel_all(std::index_sequence<I...>)
{
	const T v = vp::any<T>(); const auto x = vp::bits(v);
	(void)std::initializer_list<int>{ (ENSURESM("byte_select<I>(v) is byte I", muu::byte_select<I>(v) == (uint8_t)(x >> (I * 8))), 0)... };
}
template <typename T> static void sel() { sel_all<T>(std::make_index_sequence<sizeof(T)>{}); }
VP_CONTRACT(sel_u8) { sel<uint8_t>(); }
VP_CONTRACT(sel_u16) { sel<uint16_t>(); }
VP_CONTRACT(sel_u32) { sel<uint32_t>(); }
VP_CONTRACT(sel_u64) { sel<uint64_t>(); }
VP_CONTRACT(sel_u128) { sel<muu::uint128_t>(); }
VP_CONTRACT(sel_i8) { sel<int8_t>(); }
VP_CONTRACT(sel_i32) { sel<int32_t>(); }
VP_CONTRACT(sel_i64) { sel<int64_t>(); }
VP_CONTRACT(sel_e32) { sel<e32>(); }
template <size_t... I, typename T> static void swz(T v)
{
	const auto x = vp::bits(v);
	const auto r = muu::swizzle<I...>(v);
	const auto rx = vp::bits(r);
	constexpr size_t n = sizeof...(I);
	const size_t idx[] = { I... };
	bool ok = true;
	for (size_t k = 0; k < n; k++) ok = ok && (uint8_t)(rx >> ((n - 1 - k) * 8)) == (uint8_t)(x >> (idx[k] * 8));
	ENSURESM("swizzle places the selected bytes most significant first", ok);
	if constexpr (n < sizeof(r)) ENSURESM("swizzle leaves the remaining bytes zero", (rx >> (n * 8)) == 0);
}
VP_CONTRACT(swz_u32)
{
	const auto v = vp::any<uint32_t>();
	swz<0, 1, 2, 3>(v); swz<3, 2, 1, 0>(v); swz<1>(v); swz<2, 2>(v); swz<3, 0, 1>(v); swz<0, 0, 1, 1, 2, 2, 3, 3>(v); swz<0, 1, 2, 3, 3>(v);
}
VP_CONTRACT(swz_u64)
{
	const auto v = vp::any<uint64_t>();
	swz<7, 6, 5, 4, 3, 2, 1, 0>(v); swz<0, 1, 2, 3, 4, 5, 6, 7>(v); swz<7>(v); swz<4, 1>(v); swz<7, 0, 3>(v); swz<5, 5, 5, 5, 5>(v); swz<0, 1, 2, 3, 4, 5, 6, 7, 7, 6, 5, 4, 3, 2, 1, 0>(v);
}
VP_CONTRACT(swz_u16) { const auto v = vp::any<uint16_t>(); swz<1, 0>(v); swz<0, 1>(v); swz<1>(v); swz<0, 1, 0, 1>(v); }
VP_CONTRACT(swz_u8) { const auto v = vp::any<uint8_t>(); swz<0>(v); swz<0, 0>(v); }
VP_CONTRACT(swz_u128)
{
	const auto v = vp::any<muu::uint128_t>();
	swz<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>(v); swz<15>(v); swz<8, 7>(v); swz<12, 3, 9>(v); swz<0, 2, 4, 6, 8, 10, 12, 14>(v);
}
VP_CONTRACT(swz_i32) { const auto v = vp::any<int32_t>(); swz<0, 1, 2, 3>(v); swz<3, 1>(v); swz<2>(v); }
VP_CONTRACT(swz_i64) { const auto v = vp::any<int64_t>(); swz<0, 1, 2, 3, 4, 5, 6, 7>(v); swz<3, 7>(v); }
VP_CONTRACT(swz_e32) { const auto v = vp::any<e32>(); swz<0, 1, 2, 3>(v); swz<3, 1>(v); }
