//@ property C15
//@ opt unwind=20 timeout=200
//@ variant ce -D__builtin_is_constant_evaluated()=1
#include "vp.h"
#include <muu/core.h>
#include <muu/uuid.h>
using vp::any;
typedef unsigned __int128 u128;
static muu::uuid any_uuid()
{
	muu::uuid id;
	for (int i = 0; i < 16; i++) id.bytes[size_t(i)] = std::byte{ any<uint8_t>() };
	return id;
}
static unsigned at(const muu::uuid& id, int i) { return (unsigned)id.bytes.value[i]; }
static uint64_t be(const muu::uuid& id, int first, int n)
{
	uint64_t v = 0;
	for (int i = 0; i < n; i++) v = (v << 8) | at(id, first + i);
	return v;
}
VP_CONTRACT(layout5)
{
	const uint32_t tl = any<uint32_t>();
	const uint16_t tm = any<uint16_t>(), th = any<uint16_t>(), cs = any<uint16_t>();
	const uint64_t nd = any<uint64_t>();
	const muu::uuid id{ tl, tm, th, cs, nd };
	ENSURESM("bytes 0-3 are time_low, most significant first", be(id, 0, 4) == tl);
	ENSURESM("bytes 4-5 are time_mid", be(id, 4, 2) == tm);
	ENSURESM("bytes 6-7 are time_high_and_version", be(id, 6, 2) == th);
	ENSURESM("bytes 8-9 are clock_seq", be(id, 8, 2) == cs);
	ENSURESM("bytes 10-15 are the low 48 bits of node", be(id, 10, 6) == (nd & 0xFFFFFFFFFFFFull));
}
VP_CONTRACT(layout6)
{
	const uint32_t tl = any<uint32_t>();
	const uint16_t tm = any<uint16_t>(), th = any<uint16_t>();
	const uint8_t ch = any<uint8_t>(), cl = any<uint8_t>();
	const uint64_t nd = any<uint64_t>();
	const muu::uuid id{ tl, tm, th, ch, cl, nd };
	ENSURESM("bytes 0-3 are time_low, most significant first", be(id, 0, 4) == tl);
	ENSURESM("bytes 4-5 are time_mid", be(id, 4, 2) == tm);
	ENSURESM("bytes 6-7 are time_high_and_version", be(id, 6, 2) == th);
	ENSURESM("bytes 8 and 9 are the clock_seq bytes", at(id, 8) == ch && at(id, 9) == cl);
	ENSURESM("bytes 10-15 are the low 48 bits of node", be(id, 10, 6) == (nd & 0xFFFFFFFFFFFFull));
}
VP_CONTRACT(int128)
{
	const u128 v = any<u128>();
	const muu::uuid id{ v };
	ENSURESM("built from a 128-bit integer, most significant byte first", be(id, 0, 8) == uint64_t(v >> 64) && be(id, 8, 8) == uint64_t(v));
	const muu::uuid r = any_uuid();
	ENSURESM("converted to a 128-bit integer, most significant byte first", static_cast<u128>(r) == ((u128(be(r, 0, 8)) << 64) | be(r, 8, 8)));
	ENSURESM("the round trip is the identity", static_cast<u128>(id) == v);
}
VP_CONTRACT(accessors)
{
	const muu::uuid id = any_uuid();
	ENSURESM("time_low", id.time_low() == be(id, 0, 4));
	ENSURESM("time_mid", id.time_mid() == be(id, 4, 2));
	ENSURESM("time_high_and_version", id.time_high_and_version() == be(id, 6, 2));
	ENSURESM("clock_seq_high_and_reserved", id.clock_seq_high_and_reserved() == at(id, 8));
	ENSURESM("clock_seq_low", id.clock_seq_low() == at(id, 9));
	ENSURESM("node", id.node() == be(id, 10, 6));
	const muu::uuid b{ id.time_low(), id.time_mid(), id.time_high_and_version(), id.clock_seq_high_and_reserved(), id.clock_seq_low(), id.node() };
	ENSURESM("rebuilding from the fields gives the same uuid", b == id);
}
VP_CONTRACT(version_variant)
{
	const muu::uuid id = any_uuid();
	const unsigned v = at(id, 6) >> 4, r = at(id, 8) >> 5;
	using ve = muu::uuid_version;
	using va = muu::uuid_variant;
	ENSURESM("version is the high nibble of byte 6", id.version() == (v == 0 ? ve::none : v == 1 ? ve::time : v == 2 ? ve::dce : v == 3 ? ve::name_md5 : v == 4 ? ve::random : v == 5 ? ve::name_sha1 : ve::unknown));
	ENSURESM("variant is the top bits of byte 8", id.variant() == (r == 0 ? va::none : r < 4 ? va::reserved_ncs : r < 6 ? va::standard : r == 6 ? va::reserved_microsoft : va::reserved_future));
}
VP_CONTRACT(null)
{
	const muu::uuid id = any_uuid(), z{ nullptr };
	bool nz = false;
	for (int i = 0; i < 16; i++) nz = nz || at(id, i) != 0;
	ENSURESM("operator bool is true exactly for a non-zero uuid", static_cast<bool>(id) == nz);
	ENSURESM("uuid(nullptr) is zero", be(z, 0, 8) == 0 && be(z, 8, 8) == 0 && !z);
	ENSURESM("the nil constant is zero", !muu::constants<muu::uuid>::nil);
}
VP_CONTRACT(order)
{
	const muu::uuid a = any_uuid(), b = any_uuid();
	bool eq = true;
	int c = 0;
	for (int i = 0; i < 16; i++)
	{
		if (c == 0 && at(a, i) != at(b, i)) c = at(a, i) < at(b, i) ? -1 : 1;
		eq = eq && at(a, i) == at(b, i);
	}
	ENSURESM("equality is equality of all bytes", (a == b) == eq && (a != b) == !eq);
	const int r = muu::uuid::compare(a, b);
	ENSURESM("compare is the lexicographic order", (r < 0) == (c < 0) && (r > 0) == (c > 0));
	ENSURESM("relational operators follow the lexicographic order", (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0));
	ENSURESM("a uuid equals itself", a == a && !(a != a) && !(a < a) && a <= a && a >= a && !(a > a) && muu::uuid::compare(a, a) == 0);
	if (eq) ENSURESM("equal uuids have equal hashes", std::hash<muu::uuid>{}(a) == std::hash<muu::uuid>{}(b));
}
static bool is(const muu::uuid& id, uint64_t hi, uint64_t lo) { return be(id, 0, 8) == hi && be(id, 8, 8) == lo; }
VP_CONTRACT(namespaces)
{
	using c = muu::constants<muu::uuid>;
	ENSURESM("the RFC 4122 namespaces", is(c::namespace_dns, 0x6ba7b8109dad11d1, 0x80b400c04fd430c8) && is(c::namespace_url, 0x6ba7b8119dad11d1, 0x80b400c04fd430c8)
		&& is(c::namespace_oid, 0x6ba7b8129dad11d1, 0x80b400c04fd430c8) && is(c::namespace_x500, 0x6ba7b8149dad11d1, 0x80b400c04fd430c8));
}
