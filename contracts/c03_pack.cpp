//@ property C03
//@ variant ce -D__builtin_is_constant_evaluated()=1
//@ opt unwind=20
#include "vp.h"
#include <muu/bit.h>
enum class e8 : uint8_t {}; enum class e16 : uint16_t {}; enum class e32 : uint32_t {}; enum class e64 : uint64_t {}; enum class s16 : int16_t {};
template <typename R, typename... T> static void check(R r, T... v)
{
	// argument k, counted from the last, occupies the bits above all later ones
	typename vp::uint_of<sizeof(R)>::type x = vp::bits(r);
	constexpr size_t total = (0 + ... + sizeof(T));
	size_t pos = total * 8;
	bool ok = true;
	auto one = [&](auto a) {
		pos -= sizeof(a) * 8;
		using U = typename vp::uint_of<sizeof(a)>::type;
		ok = ok && (U)(x >> pos) == vp::bits(a);
	};
	(void)std::initializer_list<int>{ (one(v), 0)... };
	ENSURESM("every packed argument reads back from its position", ok);
	if constexpr (total < sizeof(R)) ENSURESM("bits above the packed arguments are zero", (x >> (total * 8)) == 0);
}
template <typename... T> static void pack2(T... v) { check(muu::bit_pack(v...), v...); }
template <typename... T> static void pack() { pack2(vp::any<T>()...); }
template <typename R, typename... T> static void packr2(T... v) { check(muu::bit_pack<R>(v...), v...); }
template <typename R, typename... T> static void packr() { packr2<R>(vp::any<T>()...); }
VP_CONTRACT(p_8_8) { pack<uint8_t, uint8_t>(); }
VP_CONTRACT(p_16_16) { pack<uint16_t, uint16_t>(); }
VP_CONTRACT(p_32_32) { pack<uint32_t, uint32_t>(); }
VP_CONTRACT(p_64_64) { pack<uint64_t, uint64_t>(); }
VP_CONTRACT(p_8_16) { pack<uint8_t, uint16_t>(); }
VP_CONTRACT(p_16_8) { pack<uint16_t, uint8_t>(); }
VP_CONTRACT(p_8_8_8) { pack<uint8_t, uint8_t, uint8_t>(); }
VP_CONTRACT(p_8x4) { pack<uint8_t, uint8_t, uint8_t, uint8_t>(); }
VP_CONTRACT(p_8x8) { pack<uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t>(); }
VP_CONTRACT(p_8_32_16) { pack<uint8_t, uint32_t, uint16_t>(); }
VP_CONTRACT(p_32_8_8_16) { pack<uint32_t, uint8_t, uint8_t, uint16_t>(); }
VP_CONTRACT(p_64_32_16_8) { pack<uint64_t, uint32_t, uint16_t, uint8_t>(); }
VP_CONTRACT(p_8_64) { pack<uint8_t, uint64_t>(); }
VP_CONTRACT(p_16x8) { pack<uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t>(); }
VP_CONTRACT(p_i8_i8) { pack<int8_t, int8_t>(); }
VP_CONTRACT(p_i32_i32) { pack<int32_t, int32_t>(); }
VP_CONTRACT(p_u8_i16_u32) { pack<uint8_t, int16_t, uint32_t>(); }
VP_CONTRACT(p_i64_i64) { pack<int64_t, int64_t>(); }
VP_CONTRACT(p_u64_i8) { pack<uint64_t, int8_t>(); }
VP_CONTRACT(p_i8x3) { pack<int8_t, int8_t, int8_t>(); }
VP_CONTRACT(p_e8_e16) { pack<e8, e16>(); }

VP_CONTRACT(r_u64_8_8) { packr<uint64_t, uint8_t, uint8_t>(); }
VP_CONTRACT(r_i64_i8_i8) { packr<int64_t, int8_t, int8_t>(); }
VP_CONTRACT(r_i32_u16_u16) { packr<int32_t, uint16_t, uint16_t>(); }
VP_CONTRACT(r_u128_i32_u8) { packr<muu::uint128_t, int32_t, uint8_t>(); }
VP_CONTRACT(r_e64_u32_s16) { packr<e64, e32, e16>(); }
template <typename T> static void rev()
{
	const T v = vp::any<T>(); const auto x = vp::bits(v);
	const T r = muu::byte_reverse(v); const auto y = vp::bits(r);
	bool ok = true;
	for (size_t i = 0; i < sizeof(T); i++) ok = ok && (uint8_t)(y >> (i * 8)) == (uint8_t)(x >> ((sizeof(T) - 1 - i) * 8));
	ENSURESM("byte_reverse reverses the order of the bytes", ok);
	ENSURESM("byte_reverse is an involution", vp::bits(muu::byte_reverse(r)) == x);
}
VP_CONTRACT(rev_u16) { rev<uint16_t>(); }
VP_CONTRACT(rev_u32) { rev<uint32_t>(); }
VP_CONTRACT(rev_u64) { rev<uint64_t>(); }
VP_CONTRACT(rev_u128) { rev<muu::uint128_t>(); }
VP_CONTRACT(rev_e16) { rev<e16>(); }
VP_CONTRACT(rev_e32) { rev<e32>(); }
VP_CONTRACT(rev_e64) { rev<e64>(); }
