//@ property C19
//@ opt unwind=10 timeout=200
#include "vp.h"
#include <muu/core.h>
#include <muu/bit.h>
#include <muu/apply_alignment.h>
#include <muu/aligned_alloc.h>
using vp::any;
using u128 = unsigned __int128;
enum class e8 : uint8_t {}; enum class e16 : uint16_t {}; enum class e32 : uint32_t {}; enum class e64 : uint64_t {};
template <typename T> static u128 wide(T v) { if constexpr (std::is_enum_v<T>) return static_cast<u128>(static_cast<std::underlying_type_t<T>>(v)); else return static_cast<u128>(v); }
// the least multiple of the power of two a that is not below v, provided T can represent it
template <typename T> static void least(T v, T r, u128 a, T again)
{
	const u128 x = wide(v), y = wide(r);
	ENSURESM("apply_alignment: a multiple of the alignment", (y & (a - 1)) == 0);
	ENSURESM("apply_alignment: not below the argument and less than one alignment above it", y >= x && y - x < a);
	ENSURESM("apply_alignment: idempotent", wide(again) == y);
}
template <typename T> static bool fits(T v, u128 a) { const u128 top = sizeof(T) == 16 ? ~u128(0) : (u128(1) << (8 * (sizeof(T) & 15))) - 1; return wide(v) <= top - (a - 1) || ((wide(v) + (a - 1)) & ~(a - 1)) <= top && wide(v) + (a - 1) >= wide(v); }
template <typename T, size_t A> static void fixed_one()
{
	const T v = any<T>();
	REQUIRES(fits(v, A));
	const T r = muu::apply_alignment<A>(v);
	least(v, r, A, muu::apply_alignment<A>(r));
	ENSURESM("compile-time and run-time alignment agree", muu::apply_alignment(v, A) == r);
}
template <typename T> static void fixed() { fixed_one<T, 1>(); fixed_one<T, 2>(); fixed_one<T, 4>(); fixed_one<T, 8>(); fixed_one<T, 16>(); fixed_one<T, 32>(); fixed_one<T, 64>(); fixed_one<T, 128>();
	if constexpr (sizeof(T) > 1) { fixed_one<T, 256>(); fixed_one<T, 4096>(); } }
template <typename T> static void runtime()
{
	const T v = any<T>();
	const unsigned k = any<uint8_t>();
	REQUIRES(k < 64 && k < sizeof(T) * 8);
	const size_t a = size_t(1) << k;
	REQUIRES(fits(v, a));
	const T r = muu::apply_alignment(v, a);
	least(v, r, a, muu::apply_alignment(r, a));
}
#define ALIGN(n, T) VP_CONTRACT(fixed_##n) { fixed<T>(); } VP_CONTRACT(runtime_##n) { runtime<T>(); }
ALIGN(u8, uint8_t) ALIGN(u16, uint16_t) ALIGN(u32, uint32_t) ALIGN(u64, uint64_t) ALIGN(ull, unsigned long long) ALIGN(u128, u128)
ALIGN(e8, e8) ALIGN(e16, e16) ALIGN(e32, e32) ALIGN(e64, e64)
// pointers: the address is rounded like an integer
template <typename T> static void pointers()
{
	const uintptr_t v = any<uint64_t>();
	const unsigned k = any<uint8_t>();
	REQUIRES(k < 64 && v != 0);
	const uintptr_t a = uintptr_t(1) << k;
	if constexpr (!std::is_void_v<T>) REQUIRES(a >= alignof(T));
	REQUIRES(fits(v, a));
	const uintptr_t r = reinterpret_cast<uintptr_t>(muu::apply_alignment(reinterpret_cast<T*>(v), a));
	least(v, r, a, muu::apply_alignment(r, a));
	if (a == 64) ENSURESM("pointers: compile-time and run-time alignment agree", reinterpret_cast<uintptr_t>(muu::apply_alignment<64>(reinterpret_cast<T*>(v))) == r);
}
VP_CONTRACT(pointers_byte) { pointers<unsigned char>(); }
VP_CONTRACT(pointers_const_int) { pointers<const int>(); }
VP_CONTRACT(pointers_void) { pointers<void>(); }
// aligned_alloc: std::aligned_alloc is represented by its contract; it may return a block aligned as requested and no better
static void alloc_one(size_t n, size_t a)
{
	vp_place();
	const size_t i = any<uint64_t>() ;
	REQUIRES(i < n);
	const uint64_t before = vp_live();
	void* p = muu::aligned_alloc(n, a);
	if (!p)
	{
		ENSURESM("aligned_alloc fails only when the size cannot be provided", n > 0x7fffffff || a > 0x7fffffff);
		ENSURESM("a failed aligned_alloc holds no memory", vp_live() == before);
		return;
	}
	const uintptr_t v = reinterpret_cast<uintptr_t>(p);
	ENSURESM("aligned_alloc: the address is a multiple of the alignment", (v & (a - 1)) == 0);
	ENSURESM("aligned_alloc: one block", vp_live() == before + 1);
	auto c = static_cast<volatile unsigned char*>(p);
	c[i] = 0xA5; // every requested byte is usable
	c[0] = 0x5A;
	ENSURESM("aligned_alloc: the bytes hold what is written", c[0] == 0x5A && (i == 0 || c[i] == 0xA5));
	muu::aligned_free(p);
	ENSURESM("aligned_free releases the block", vp_live() == before);
}
VP_CONTRACT(alloc)
{
	const size_t n = any<uint64_t>();
	const unsigned k = any<uint8_t>();
	REQUIRES(n != 0 && k < 48);
	alloc_one(n, size_t(1) << k);
}
VP_CONTRACT(alloc_small)
{
	const size_t n = any<uint16_t>();
	const unsigned k = any<uint8_t>();
	REQUIRES(n != 0 && k < 13);
	alloc_one(n, size_t(1) << k);
}
VP_CONTRACT(free_null) { const uint64_t before = vp_live(); muu::aligned_free(nullptr); ENSURESM("freeing null does nothing", vp_live() == before); }
