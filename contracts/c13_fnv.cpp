//@ property C13
//@ opt unwind=12 timeout=200
//@ entry ^ct_all_ loops=1
//@ entry ^ct_all_32_raw$ twin=ct_upto_32_raw
//@ entry ^ct_all_32_c$ twin=ct_upto_32_c
//@ entry ^ct_all_32_u8$ twin=ct_upto_32_u8
//@ entry ^ct_all_64_raw$ twin=ct_upto_64_raw
//@ entry ^ct_all_64_c$ twin=ct_upto_64_c
//@ entry ^ct_all_64_u8$ twin=ct_upto_64_u8
//@ entry ^ct_all_128_raw$ twin=ct_upto_128_raw
//@ entry ^ct_all_128_c$ twin=ct_upto_128_c
//@ entry ^ct_all_128_u8$ twin=ct_upto_128_u8
//@ entry ^ct_upto_ bounded=up_to_3_bytes
//@ entry ^ct_char_ fpuf=mul unwind=5
//@ entry ^ct_wide_u16_3 tier=thorough
//@ entry ^ct_wide_ bounded=strings_of_up_to_3_code_units unwind=14 cost=5
//@ entry _128 cost=9
//@ entry _64 cost=7
//@ loop set=1 fn=^muu::fnv1a<32ul>::operator\(\)\(void.const inv=inv_32 havoc=hv_32 args=phi0
//@ loop set=1 fn=^muu::fnv1a<64ul>::operator\(\)\(void.const inv=inv_64 havoc=hv_64 args=phi0
//@ loop set=1 fn=^muu::fnv1a<128ul>::operator\(\)\(void.const inv=inv_128 havoc=hv_128 args=phi0
//@ loop set=1 fn=muu::fnv1a<32ul>::hash_string_view<char(8_t)?> inv=inv_32 havoc=hv_32 args=phi0
//@ loop set=1 fn=muu::fnv1a<64ul>::hash_string_view<char(8_t)?> inv=inv_64 havoc=hv_64 args=phi0
//@ loop set=1 fn=muu::fnv1a<128ul>::hash_string_view<char(8_t)?> inv=inv_128 havoc=hv_128 args=phi0
#include "vp.h"
#include <muu/core.h>
#include <muu/hashing.h>
#include <string_view>
#include "utf_ref.h"
using vp::any;
typedef unsigned __int128 u128;
// the published FNV-1a parameters
template <size_t B> struct P;
template <> struct P<32> { using T = uint32_t; static constexpr T prime = 16777619u, basis = 2166136261u; };
template <> struct P<64> { using T = uint64_t; static constexpr T prime = 1099511628211ull, basis = 14695981039346656037ull; };
template <> struct P<128> { using T = u128; static constexpr T prime = (T(1) << 88) + (T(1) << 8) + 0x3b, basis = (T(0x6c62272e07bb0142ull) << 64) | 0x62b821756295c58dull; };
template <size_t B> static typename P<B>::T step(typename P<B>::T h, uint8_t b) { return (h ^ b) * P<B>::prime; }
#define BASIC(B)                                                                                                        \
	VP_CONTRACT(step_##B)                                                                                               \
	{                                                                                                                   \
		muu::fnv1a<B> h;                                                                                                \
		ENSURESM("an empty input hashes to the offset basis", h.value() == P<B>::basis);                                \
		const auto v = any<P<B>::T>();                                                                                  \
		h.value_ = v;                                                                                                   \
		const uint8_t b = any<uint8_t>();                                                                               \
		auto& r = h(b);                                                                                                 \
		ENSURESM("a byte advances the recurrence", h.value() == step<B>(v, b) && &r == &h);                             \
		muu::fnv1a<B> g;                                                                                                \
		g.value_ = v;                                                                                                   \
		g(std::byte{ b });                                                                                              \
		ENSURESM("a std::byte advances the recurrence", g.value() == step<B>(v, b));                                    \
	}                                                                                                                   \
	template <typename F> static void upto_##B(F f)                                                                     \
	{                                                                                                                   \
		muu::fnv1a<B> a;                                                                                                \
		const auto v = any<P<B>::T>();                                                                                  \
		a.value_ = v;                                                                                                   \
		vp::arr<char, 3> d(0, 3);                                                                                       \
		auto ref = v;                                                                                                   \
		for (size_t i = 0; i < d.n; i++) ref = step<B>(ref, uint8_t(d.p[i]));                                           \
		f(a, d.p, d.n);                                                                                                 \
		ENSURESM("data hashes by the recurrence", a.value() == ref);                                                    \
	}                                                                                                                   \
	VP_CONTRACT(upto_##B##_raw) { upto_##B([](auto& h, auto d, size_t n) { h(static_cast<const void*>(d), n); }); }     \
	VP_CONTRACT(upto_##B##_c) { upto_##B([](auto& h, auto d, size_t n) { h(std::string_view{ d, n }); }); }             \
	VP_CONTRACT(upto_##B##_u8) { upto_##B([](auto& h, auto d, size_t n) { h(std::u8string_view{ reinterpret_cast<const char8_t*>(d), n }); }); }
BASIC(32) BASIC(64) BASIC(128)

// ---- unbounded: fold(k) is the recurrence after k bytes; the definition is instantiated where the proof needs it
static const uint8_t* g_data;
static uint64_t g_n;
static void* g_h;
extern "C" void vp_mod(const void*, uint64_t) noexcept;
extern "C" uint32_t vp_fold32(uint64_t) noexcept;
extern "C" uint64_t vp_fold64(uint64_t) noexcept;
#ifdef VP_REPLAY
static u128 vp_fold128(uint64_t) noexcept;
#else
extern "C" uint64_t vp_fold128l(uint64_t) noexcept;
extern "C" uint64_t vp_fold128h(uint64_t) noexcept;
static u128 vp_fold128(uint64_t k) noexcept { return (u128(vp_fold128h(k)) << 64) | vp_fold128l(k); }
#endif
#ifdef VP_REPLAY
extern "C" void vp_mod(const void*, uint64_t) noexcept {}
template <size_t B> static typename P<B>::T refold(uint64_t k);
static u128 g_v0;
extern "C" uint32_t vp_fold32(uint64_t k) noexcept { uint32_t h = uint32_t(g_v0); for (uint64_t i = 0; i < k; i++) h = step<32>(h, g_data[i]); return h; }
extern "C" uint64_t vp_fold64(uint64_t k) noexcept { uint64_t h = uint64_t(g_v0); for (uint64_t i = 0; i < k; i++) h = step<64>(h, g_data[i]); return h; }
static u128 vp_fold128(uint64_t k) noexcept { u128 h = g_v0; for (uint64_t i = 0; i < k; i++) h = step<128>(h, g_data[i]); return h; }
#endif
#define UNB(B)                                                                                                          \
	extern "C" bool inv_##B(const uint8_t* p) noexcept                                                                  \
	{                                                                                                                   \
		const uint64_t k = uint64_t(p - g_data);                                                                        \
		return k <= g_n && static_cast<muu::fnv1a<B>*>(g_h)->value_ == vp_fold##B(k);                                   \
	}                                                                                                                   \
	extern "C" const uint8_t* hv_##B(const uint8_t*) noexcept                                                           \
	{                                                                                                                   \
		auto h = static_cast<muu::fnv1a<B>*>(g_h);                                                                      \
		vp_mod(&h->value_, sizeof(h->value_));                                                                          \
		h->value_ = any<P<B>::T>();                                                                                     \
		const uint64_t k = any<uint64_t>();                                                                             \
		REQUIRES(k <= g_n);                                                                                             \
		if (k < g_n) REQUIRES(vp_fold##B(k + 1) == step<B>(vp_fold##B(k), g_data[k]));                                  \
		return g_data + k;                                                                                              \
	}                                                                                                                   \
	template <typename F> static void unb_##B(F f)                                                                      \
	{                                                                                                                   \
		const uint64_t n = any<uint64_t>();                                                                             \
		REQUIRES(n < (1ull << 40));                                                                                     \
		auto d = static_cast<const uint8_t*>(vp_buf(n));                                                                \
		muu::fnv1a<B> h;                                                                                                \
		const auto v = any<P<B>::T>();                                                                                  \
		h.value_ = v;                                                                                                   \
		g_data = d; g_n = n; g_h = &h;                                                                                  \
		SETV0(v);                                                                                                       \
		REQUIRES(vp_fold##B(0) == v);                                                                                   \
		f(h, d, n);                                                                                                     \
		ENSURESM("data of any length hashes by the recurrence", h.value() == vp_fold##B(n));                            \
	}                                                                                                                   \
	VP_CONTRACT(all_##B##_raw) { unb_##B([](auto& h, auto d, size_t n) { h(static_cast<const void*>(d), n); }); }             \
	VP_CONTRACT(all_##B##_c) { unb_##B([](auto& h, auto d, size_t n) { h(std::string_view{ reinterpret_cast<const char*>(d), n }); }); } \
	VP_CONTRACT(all_##B##_u8) { unb_##B([](auto& h, auto d, size_t n) { h(std::u8string_view{ reinterpret_cast<const char8_t*>(d), n }); }); }
#ifdef VP_REPLAY
#define SETV0(v) g_v0 = v
#else
#define SETV0(v) (void)0
#endif
UNB(32) UNB(64) UNB(128)
// ---- strings of wider characters are hashed as their UTF-8 form
struct recorder
{
	uint8_t d[16];
	size_t n = 0;
	recorder& operator()(uint8_t b) noexcept { if (n < 16) d[n] = b; n++; return *this; }
	recorder& operator()(std::string_view s) noexcept { for (char c : s) (*this)(uint8_t(c)); return *this; }
};
template <typename C> struct W { using U = typename vp::uint_of<sizeof(C)>::type; };
template <typename C, size_t N> static void wide_rec()
{
	using U = typename W<C>::U;
	vp::arr<U, N> s(N, N);
	REQUIRES(ref::native<U, N>(s.p, s.n) && !ref::bom(s.p, s.n));
	uint32_t e[4 * N + 4];
	size_t m = 0;
	for (size_t i = 0; i < N;)
	{
		const auto c = ref::at(s.p + i, N - i);
		REQUIRES(c.len != 0);
		m += ref::encode<1>(c.value, e + m);
		i += c.len;
	}
	recorder r;
	muu::impl::add_to_hasher_as_utf8(r, std::basic_string_view<C>{ reinterpret_cast<const C*>(s.p), N });
	bool ok = r.n == m;
	for (size_t i = 0; i < 4 * N; i++) ok = ok && (i >= m || r.d[i] == e[i]);
	ENSURESM("the hasher is fed the UTF-8 form", ok);
}
template <typename C, size_t B> static void wide_one()
{
	const C c = any<C>();
	REQUIRES(uint32_t(c) < (sizeof(C) == 2 ? 0x80u : 0xD800u));
	muu::fnv1a<B> h, g;
	const auto v = any<typename P<B>::T>();
	h.value_ = g.value_ = v;
	h(std::basic_string_view<C>{ &c, 1 });
	uint32_t e[4];
	const size_t m = ref::encode<1>(c, e);
	for (size_t i = 0; i < 3; i++) if (i < m) g(uint8_t(e[i]));
	ENSURESM("a wide character hashes as its UTF-8 bytes", h.value() == g.value());
}
#define WD(n, C) VP_CONTRACT(wide_##n##_1) { wide_rec<C, 1>(); } VP_CONTRACT(wide_##n##_2) { wide_rec<C, 2>(); } VP_CONTRACT(wide_##n##_3) { wide_rec<C, 3>(); } \
	VP_CONTRACT(char_##n##_32) { wide_one<C, 32>(); } VP_CONTRACT(char_##n##_64) { wide_one<C, 64>(); }
WD(u16, char16_t) WD(u32, char32_t) WD(w, wchar_t)
