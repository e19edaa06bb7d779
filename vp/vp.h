// Contract vocabulary shared by every /verif/contracts/*.cpp file.
//
// A contract is written once, in C++, against the real functions of /repo:
//     VP_CONTRACT(name) { auto x = vp::any<T>(); REQUIRES(pre); auto r = muu::f(x); ENSURES(post); }
// clang compiles the file together with the real headers/sources to LLVM IR, vp/ translates that IR to C and
// CBMC decides every ENSURES for all values of every any<>().  Compiled natively with -DVP_REPLAY the same
// contract runs on the real code with the values of a counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
extern "C" {
	uint8_t vp_u8() noexcept;
	uint16_t vp_u16() noexcept;
	uint32_t vp_u32() noexcept;
	uint64_t vp_u64() noexcept;
	double vp_real() noexcept;
	void* vp_buf(uint64_t n) noexcept; // fresh object of n arbitrary bytes
	uint64_t vp_live() noexcept;	// heap blocks allocated and not yet freed
	uint64_t vp_allocs() noexcept;	// blocks obtained from aligned_alloc so far
	void vp_place() noexcept;		// let aligned_alloc return blocks that are aligned as requested and no better
	void vp_watch(uint64_t) noexcept; // the byte offset tracked through block copies (opt bulk=1)
	void vp_requires_(bool) noexcept;
	void vp_ensures_(bool, const char*) noexcept;
	void vp_ensures_eq_(double, double, const char*) noexcept;
	void vp_reached_() noexcept;
}
namespace vp
{
	template <size_t N>
	struct uint_of;
	template <>
	struct uint_of<1> { using type = uint8_t; static type get() noexcept { return vp_u8(); } };
	template <>
	struct uint_of<2> { using type = uint16_t; static type get() noexcept { return vp_u16(); } };
	template <>
	struct uint_of<4> { using type = uint32_t; static type get() noexcept { return vp_u32(); } };
	template <>
	struct uint_of<8> { using type = uint64_t; static type get() noexcept { return vp_u64(); } };
	template <>
	struct uint_of<16>
	{
		using type = unsigned __int128;
		static type get() noexcept
		{
			type hi = vp_u64();
			type lo = vp_u64();
			return (hi << 64) | lo;
		}
	};
	// an arbitrary value of a scalar type: every bit pattern
	template <typename T>
	inline T any() noexcept
	{
		if constexpr (std::is_same_v<T, bool>)
			return (vp_u8() & 1) != 0;
		else
		{
			auto u = uint_of<sizeof(T)>::get();
			T t;
			__builtin_memcpy(&t, &u, sizeof(T));
			return t;
		}
	}
	// an arbitrary string of at most N elements in an object of exactly that size
	template <typename T, size_t N>
	struct arr
	{
		T* p;
		size_t n;
		arr(const arr&) = delete;
		arr() noexcept : arr(0, N) {}
		arr(size_t lo, size_t hi) noexcept
		{
			n = hi;
			if (lo != hi)
			{
				n = any<uint8_t>();
				vp_requires_(n >= lo && n <= hi);
			}
			p = static_cast<T*>(vp_buf(n * sizeof(T)));
			for (size_t i = 0; i < N; i++)
				if (i < n) p[i] = any<T>();
		}
	};
	template <typename T>
	inline typename uint_of<sizeof(T)>::type bits(const T& v) noexcept
	{
		typename uint_of<sizeof(T)>::type u;
		__builtin_memcpy(&u, &v, sizeof(T));
		return u;
	}
}
#define REQUIRES(...) vp_requires_(static_cast<bool>(__VA_ARGS__))
#define ENSURES(...) vp_ensures_(static_cast<bool>(__VA_ARGS__), #__VA_ARGS__)
#define ENSURESM(msg, ...) vp_ensures_(static_cast<bool>(__VA_ARGS__), msg)
#define ENSURES_EQ(a, b) vp_ensures_eq_(a, b, #a " == " #b)
#define VP_CONTRACT(n)                                                                                                 \
	static void body_##n() noexcept;                                                                                   \
	extern "C" void ct_##n() noexcept                                                                                  \
	{                                                                                                                  \
		body_##n();                                                                                                    \
		vp_reached_();                                                                                                 \
	}                                                                                                                  \
	static void body_##n() noexcept
