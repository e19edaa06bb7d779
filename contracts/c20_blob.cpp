//@ property C20
//@ opt unwind=6 timeout=300 bulk=1
#include "vp.h"
#include <muu/core.h>
#include <muu/blob.h>
#include <utility>
using vp::any;
using muu::blob;
// Contents are tracked at one byte offset that is chosen arbitrarily beforehand, so what holds for it holds for every byte.
#ifdef VP_REPLAY
static size_t size_any() { return any<uint32_t>() & 0xFFFFF; } // what a native run can allocate quickly
#else
static size_t size_any() { return any<uint32_t>(); }
#endif
static size_t align_any() { const unsigned k = any<uint8_t>() & 15; return k < 13 ? size_t(1) << k : 0; }
struct bytes // a source of n arbitrary bytes
{
	unsigned char* p; size_t n, i; unsigned char v;
	bytes(size_t n, size_t i) : p{ static_cast<unsigned char*>(vp_buf(n)) }, n{ n }, i{ i }, v{ any<uint8_t>() } { if (i < n) p[i] = v; }
};
static bool power(size_t a) { return a && (a & (a - 1)) == 0; }
// size n, some alignment not below a, and the address honours it
static bool shape(const blob& b, size_t n, size_t a)
{
	return b.size() == n && static_cast<bool>(b) == (n != 0) && (b.data() != nullptr) == (n != 0) && const_cast<blob&>(b).data() == b.data()
		&& power(b.alignment()) && b.alignment() >= a && b.alignment() >= __STDCPP_DEFAULT_NEW_ALIGNMENT__ && (reinterpret_cast<uintptr_t>(b.data()) & (b.alignment() - 1)) == 0;
}
static bool holds(const blob& b, size_t i, unsigned char v) { return i >= b.size() || b.data()[i] == std::byte{ v }; }
// An arbitrary reachable blob: any size, any alignment it can have after construction at another size and a resize, any contents.
struct state
{
	blob b; size_t n, i; unsigned char v;
	state(size_t i) : b{ size_any(), nullptr, align_any() }, n{ size_any() }, i{ i }, v{ any<uint8_t>() } { b.resize(n); if (i < n) b.data()[i] = std::byte{ v }; }
};
static void poke(blob& b) { if (b.size()) { b.data()[0] = std::byte{ 1 }; b.data()[b.size() - 1] = std::byte{ 2 }; } } // every byte is usable
#define WATCH const size_t i = size_any(); vp_watch(i); const uint64_t live = vp_live()
#define PLACE if (any<bool>()) vp_place()
VP_CONTRACT(construct)
{
	WATCH; PLACE;
	{
		const blob e;
		ENSURESM("a default blob is empty and holds no memory", shape(e, 0, 0) && vp_live() == live);
		const bytes s{ size_any(), i }; const size_t a = align_any();
		blob b{ s.n, s.p, a };
		ENSURESM("a blob has the size and alignment asked for", shape(b, s.n, a));
		ENSURESM("a blob holds the bytes it was given", holds(b, i, s.v));
		if (i < s.n) { s.p[i] = static_cast<unsigned char>(~s.v); ENSURESM("the bytes are its own", holds(b, i, s.v)); }
		poke(b);
		blob u{ size_any(), nullptr, a }; poke(u);
		ENSURESM("a blob without a source has the size and alignment asked for", shape(u, u.size(), a));
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(copy)
{
	WATCH;
	{
		state s{ i };
		ENSURESM("one block per non-empty blob", vp_live() == live + (s.n != 0));
		PLACE;
		const size_t a = align_any();
		blob c{ s.b }, d{ s.b, a };
		ENSURESM("a copy has the same size and alignment", shape(c, s.n, s.b.alignment()) && shape(d, s.n, a ? a : s.b.alignment()));
		ENSURESM("a copy has the same bytes", holds(c, i, s.v) && holds(d, i, s.v));
		ENSURESM("copying leaves the original alone", shape(s.b, s.n, 0) && holds(s.b, i, s.v));
		if (i < s.n) { c.data()[i] = std::byte{ static_cast<unsigned char>(~s.v) }; ENSURESM("copies are independent", holds(s.b, i, s.v) && holds(d, i, s.v)); }
		poke(c); poke(d);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(move)
{
	WATCH;
	{
		state s{ i }, t{ i };
		const size_t a = s.b.alignment(); const auto p = s.b.data();
		const uint64_t n0 = vp_allocs();
		blob m{ std::move(s.b) };
		ENSURESM("moving transfers the contents", shape(m, s.n, a) && m.alignment() == a && m.data() == p && holds(m, i, s.v));
		ENSURESM("a moved-from blob is as a new one", shape(s.b, 0, 0) && s.b.alignment() == blob{}.alignment());
		t.b = std::move(m);
		ENSURESM("move-assignment transfers the contents", shape(t.b, s.n, a) && t.b.alignment() == a && t.b.data() == p && holds(t.b, i, s.v));
		ENSURESM("a moved-from blob is as a new one", shape(m, 0, 0) && m.alignment() == blob{}.alignment());
		ENSURESM("moving allocates nothing", vp_allocs() == n0);
		blob& self = t.b; t.b = std::move(self);
		ENSURESM("self-move keeps the contents", shape(t.b, s.n, a) && t.b.data() == p && holds(t.b, i, s.v));
		ENSURESM("no block is lost", vp_live() == live + (s.n != 0));
		m.resize(s.n); ENSURESM("a moved-from blob can be used again", shape(m, s.n, 0)); poke(m);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(assign)
{
	WATCH;
	{
		state s{ i };
		const bytes src{ size_any(), i }; const size_t a = align_any(), had = s.b.alignment();
		PLACE;
		blob& r = s.b.assign(src.n, src.p, a);
		ENSURESM("assign returns the blob", &r == &s.b);
		ENSURESM("assign gives the size and at least the alignment asked for", shape(s.b, src.n, a) && (src.n == 0 || s.b.alignment() >= had || s.b.alignment() >= a));
		ENSURESM("assign gives the bytes", holds(s.b, i, src.v));
		ENSURESM("one block per non-empty blob", vp_live() == live + (src.n != 0));
		poke(s.b);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(assign_own_bytes) // assign from a part of the blob itself
{
	const size_t i = size_any(), k = size_any(), m = size_any(); const uint64_t live = vp_live();
	{
		state s{ k + i };
		REQUIRES(k <= s.n && m <= s.n - k);
		vp_watch(i);
		s.b.assign(m, s.b.data() + k, align_any());
		ENSURESM("assigning a part of the blob keeps that part", s.b.size() == m && holds(s.b, i, s.v));
		poke(s.b);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(copy_assign)
{
	WATCH;
	{
		state s{ i }, t{ i };
		const size_t a = t.b.alignment();
		PLACE;
		s.b = t.b;
		ENSURESM("a copy has the same size and at least the alignment", shape(s.b, t.n, a));
		ENSURESM("a copy has the same bytes", holds(s.b, i, t.v));
		ENSURESM("copying leaves the original alone", shape(t.b, t.n, a) && holds(t.b, i, t.v));
		if (i < t.n) { s.b.data()[i] = std::byte{ static_cast<unsigned char>(~t.v) }; ENSURESM("copies are independent", holds(t.b, i, t.v)); }
		poke(s.b);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(self_assign)
{
	WATCH;
	{
		state s{ i };
		blob& self = s.b; s.b = self;
		ENSURESM("self-assignment keeps the contents", shape(s.b, s.n, 0) && holds(s.b, i, s.v));
		poke(s.b);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
VP_CONTRACT(resize)
{
	WATCH;
	{
		state s{ i };
		const size_t a = s.b.alignment(), n = size_any();
		PLACE;
		blob& r = s.b.resize(n);
		ENSURESM("resize returns the blob, with the size asked for and its alignment", &r == &s.b && shape(s.b, n, a) && s.b.alignment() == a);
		ENSURESM("resize keeps the common prefix", i >= s.n || holds(s.b, i, s.v));
		ENSURESM("one block per non-empty blob", vp_live() == live + (n != 0));
		poke(s.b);
	}
	ENSURESM("destruction releases everything once", vp_live() == live);
}
