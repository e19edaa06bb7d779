//@ property C17
//@ opt unwind=70 timeout=200
//@ src uuid.cpp
//@ entry ^ct_named_ bounded=names_of_up_to_12_bytes
//@ entry ^ct_named_any$ bounded= twin=ct_named_raw
//@ replace _ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEclEv gh_draw
//@ replace _ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE4seedEm gh_seed
//@ replace _ZNSt13random_deviceC2Ev gh_rdev
//@ replace _ZNSt13random_deviceD2Ev gh_rdev
//@ replace _ZNSt13random_deviceclEv gh_rdraw
//@ extern __cxa_thread_atexit return 0;
// The entropy source is the environment: any 32-bit values at all.  SHA-1 is replaced by its contract (C14): it
// consumes the bytes it is fed and yields some 20 bytes.
#include "vp.h"
#include <muu/core.h>
#include <muu/uuid.h>
#include <random>
using vp::any;
extern "C" uint64_t gh_draw(void*) noexcept { return any<uint32_t>(); }
extern "C" void gh_seed(void*, uint64_t) noexcept {}
extern "C" void gh_rdev(void*) noexcept {}
extern "C" uint32_t gh_rdraw(void*) noexcept { return any<uint32_t>(); }
static unsigned by(const muu::uuid& id, int i) { return (unsigned)id.bytes.value[i]; }
VP_CONTRACT(generate)
{
	const muu::uuid id = muu::uuid::generate();
	ENSURESM("the version nibble is 4 (random)", (by(id, 6) >> 4) == 4 && id.version() == muu::uuid_version::random);
	ENSURESM("the variant bits are 10 (RFC 4122)", (by(id, 8) >> 6) == 2 && id.variant() == muu::uuid_variant::standard);
	ENSURESM("a generated uuid is not null", static_cast<bool>(id));
}
// ---- the contract of sha1 as recorded here
static uint8_t g_fed[64];
static size_t g_n, g_size;
static const void* g_name;
static const void* g_ns;
static unsigned g_calls, g_fin;
static uint8_t g_hash[20];
static bool g_abs; // abstract mode: names of any length, the name is one opaque piece
#ifndef VP_NATIVE_SHA
namespace muu
{
	sha1::sha1() noexcept { g_n = g_calls = g_fin = 0; finished_ = false; }
	sha1& sha1::operator()(uint8_t b) noexcept { ENSURESM("nothing is hashed after finish()", !g_fin); if (g_n < 64) g_fed[g_n] = b; g_n++; return *this; }
	sha1& sha1::operator()(const void* p, size_t n) noexcept
	{
		ENSURESM("nothing is hashed after finish()", !g_fin);
		if (g_abs)
		{
			if (g_calls == 0) { ENSURESM("the namespace is hashed first", n == 16); memcpy(g_fed, p, 16); g_n = 16; }
			else { ENSURESM("the whole name is hashed once, after the namespace", g_calls == 1 && p == g_name && n == g_size); g_n += n; }
			g_calls++;
			return *this;
		}
		for (size_t i = 0; i < n; i++) (*this)(static_cast<const uint8_t*>(p)[i]);
		return *this;
	}
	sha1& sha1::finish() noexcept
	{
		g_fin++;
		for (int i = 0; i < 20; i++) { g_hash[i] = any<uint8_t>(); state.hash.value[i] = std::byte{ g_hash[i] }; }
		return *this;
	}
}
#endif
static muu::uuid any_uuid()
{
	muu::uuid id;
	for (int i = 0; i < 16; i++) id.bytes.value[i] = std::byte{ any<uint8_t>() };
	return id;
}
static void check(const muu::uuid& id)
{
	ENSURESM("the hash is finished once", g_fin == 1);
	bool ok = true;
	for (int i = 0; i < 16; i++)
		ok = ok && by(id, i) == (i == 6 ? (g_hash[i] & 0x0fu) | 0x50u : i == 8 ? (g_hash[i] & 0x3fu) | 0x80u : g_hash[i]);
	ENSURESM("the uuid is the hash truncated, with version 5 and the RFC 4122 variant", ok);
	ENSURESM("version() and variant() agree", id.version() == muu::uuid_version::name_sha1 && id.variant() == muu::uuid_variant::standard);
}
VP_CONTRACT(named_any)
{
	const muu::uuid ns = any_uuid();
	const size_t n = any<size_t>();
	REQUIRES(n > 0 && n < (size_t(1) << 40));
	const auto p = vp_buf(n);
	g_abs = true; g_name = p; g_size = n; g_ns = &ns;
	const muu::uuid id{ ns, p, n };
	bool ok = g_n == 16 + n;
	for (int i = 0; i < 16; i++) ok = ok && g_fed[i] == by(ns, i);
	ENSURESM("namespace then name is hashed, nothing else", ok);
	check(id);
}
template <typename F> static void named(F f)
{
	g_abs = false;
	const muu::uuid ns = any_uuid();
	vp::arr<char, 12> s(0, 12);
	const muu::uuid id = f(ns, s.p, s.n);
	bool ok = g_n == 16 + s.n;
	for (size_t i = 0; i < 16 + 12; i++) ok = ok && (i >= 16 + s.n || g_fed[i] == (i < 16 ? by(ns, int(i)) : uint8_t(s.p[i < 16 ? 0 : i - 16])));
	ENSURESM("namespace then name is hashed, nothing else", ok);
	check(id);
}
VP_CONTRACT(named_raw) { named([](auto& ns, auto p, size_t n) { return muu::uuid{ ns, static_cast<const void*>(p), n }; }); }
VP_CONTRACT(named_str) { named([](auto& ns, auto p, size_t n) { return muu::uuid{ ns, std::string_view{ p, n } }; }); }
VP_CONTRACT(named_u8) { named([](auto& ns, auto p, size_t n) { return muu::uuid{ ns, std::u8string_view{ reinterpret_cast<const char8_t*>(p), n } }; }); }
