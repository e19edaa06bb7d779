//@ property C21
//@ opt unwind=10 timeout=300
//@ entry .* bounded=capacity_up_to_3_elements
#include "vp.h"
#include <muu/core.h>
#include <muu/emplacement_array.h>
#include <utility>
using vp::any;
using muu::emplacement_array;
static constexpr unsigned CAP = 3, IDS = 2 * CAP + 2;
static unsigned next_id, born[IDS], died[IDS];
static bool moved_or_copied;
// an element that knows where it was built and counts constructions and destructions
template <size_t A, bool Throws> struct alignas(A) el
{
	uint32_t v; unsigned id; el* self;
	el(uint32_t x, const uint32_t& y) noexcept(!Throws) : v{ x ^ y }, id{ next_id++ }, self{ this } { born[id]++; }
	el(const el& o) noexcept : v{ o.v }, id{ o.id }, self{ this } { moved_or_copied = true; }
	~el() noexcept { if (self != this) moved_or_copied = true; died[id]++; v = 0; }
};
template <typename T> struct model { unsigned cap, n; unsigned id[CAP]; uint32_t v[CAP]; const T* at; };
template <typename T> static void add(emplacement_array<T>& a, model<T>& m)
{
	const uint32_t x = any<uint32_t>(); const unsigned id = next_id;
	T* r;
	if (any<bool>()) r = &a.emplace_back(x, 5u);
	else r = &a.emplace_back_with([x](void* p) noexcept(noexcept(T{ 1u, 1u })) { return ::new (p) T{ x, 5u }; });
	ENSURESM("emplacing constructs one element and returns it", next_id == id + 1 && r->id == id && r->v == (x ^ 5u) && r == a.data() + m.n);
	m.id[m.n] = id; m.v[m.n] = x ^ 5u; m.n++; m.at = a.data();
}
template <typename T> static void check(emplacement_array<T>& a, const model<T>& m)
{
	const emplacement_array<T>& c = a;
	ENSURESM("size, capacity and emptiness are exact", c.size() == m.n && c.capacity() == m.cap && c.empty() == (m.n == 0));
	ENSURESM("begin and end enclose the elements", a.end() - a.begin() == static_cast<ptrdiff_t>(m.n) && c.end() - c.begin() == static_cast<ptrdiff_t>(m.n) && c.cend() - c.cbegin() == static_cast<ptrdiff_t>(m.n) && end(a) - begin(a) == static_cast<ptrdiff_t>(m.n) && end(c) - begin(c) == static_cast<ptrdiff_t>(m.n) && cend(c) - cbegin(c) == static_cast<ptrdiff_t>(m.n));
	if (m.cap) ENSURESM("elements stay where they were built", (m.n == 0 || m.at == c.data()) && a.data() == c.data() && a.begin() == c.data() && c.begin() == c.data() && c.cbegin() == c.data() && begin(a) == c.data() && begin(c) == c.data() && cbegin(c) == c.data() && reinterpret_cast<uintptr_t>(c.data()) % alignof(T) == 0);
	for (unsigned i = 0; i < CAP; i++)
		if (i < m.n)
		{
			ENSURESM("an element is found unchanged at its index", c[i].id == m.id[i] && c[i].v == m.v[i] && &a[i] == c.data() + i && c[i].self == &c[i]);
			ENSURESM("a contained element is alive", born[m.id[i]] == 1 && died[m.id[i]] == 0);
		}
	if (m.n) ENSURESM("front and back", &a.front() == c.data() && &c.front() == c.data() && &a.back() == c.data() + (m.n - 1) && &c.back() == c.data() + (m.n - 1));
}
template <typename T> static void gone(const model<T>& m) { for (unsigned i = 0; i < CAP; i++) if (i < m.n) ENSURESM("a removed element is destroyed exactly once", born[m.id[i]] == 1 && died[m.id[i]] == 1); }
template <typename T> static void fill(emplacement_array<T>& a, model<T>& m) { const unsigned k = any<uint8_t>(); REQUIRES(k <= m.cap); for (unsigned i = 0; i < CAP; i++) if (i < k) add(a, m); }
#define STATE(x, c) model<T> m##x{}; m##x.cap = c; emplacement_array<T> x{ c }; fill(x, m##x)
static void start() { next_id = 0; moved_or_copied = false; for (unsigned i = 0; i < IDS; i++) born[i] = died[i] = 0; }
#define FINISH ENSURESM("destruction destroys every element exactly once", [] { bool ok = !moved_or_copied; for (unsigned i = 0; i < IDS; i++) ok = ok && born[i] == died[i] && born[i] == (i < next_id); return ok; }()); ENSURESM("the memory is released once", vp_live() == live)
// whatever happened before: the state is any capacity and any elements; afterwards the array works on
template <typename T> static void more(emplacement_array<T>& a, model<T>& m) { if (m.n < m.cap && any<bool>()) add(a, m); check(a, m); }
template <typename T, unsigned C> static void emplace_clear()
{
	start(); const uint64_t live = vp_live();
	if (any<bool>()) vp_place();
	{
		STATE(a, C);
		check(a, ma);
		if (any<bool>()) { const auto old = ma; a.clear(); ma.n = 0; gone(old); check(a, ma); more(a, ma); }
	}
	FINISH;
}
template <typename T, unsigned C> static void move_construct()
{
	start(); const uint64_t live = vp_live();
	{
		STATE(a, C);
		emplacement_array<T> b{ std::move(a) };
		check(b, ma);
		model<T> none{}; check(a, none);
		more(b, ma);
		if (any<bool>()) { a = emplacement_array<T>{ 2 }; none.cap = 2; check(a, none); more(a, none); }
	}
	FINISH;
}
template <typename T, unsigned C, unsigned D> static void move_assign()
{
	start(); const uint64_t live = vp_live();
	{
		STATE(a, C); STATE(b, D);
		auto& r = (a = std::move(b));
		ENSURESM("assignment returns the array", &r == &a);
		gone(ma); check(a, mb);
		model<T> none{}; check(b, none);
		more(a, mb);
	}
	FINISH;
}
using quiet = el<8, false>; using loud = el<8, true>; using aligned = el<64, false>;
#define EACH(n, T) \
	VP_CONTRACT(emplace_clear_##n##_0) { emplace_clear<T, 0>(); } VP_CONTRACT(emplace_clear_##n##_1) { emplace_clear<T, 1>(); } VP_CONTRACT(emplace_clear_##n##_3) { emplace_clear<T, 3>(); } \
	VP_CONTRACT(move_construct_##n##_0) { move_construct<T, 0>(); } VP_CONTRACT(move_construct_##n##_2) { move_construct<T, 2>(); } \
	VP_CONTRACT(move_assign_##n##_02) { move_assign<T, 0, 2>(); } VP_CONTRACT(move_assign_##n##_20) { move_assign<T, 2, 0>(); } VP_CONTRACT(move_assign_##n##_23) { move_assign<T, 2, 3>(); }
EACH(quiet, quiet) EACH(loud, loud) EACH(aligned, aligned)
template <size_t cap> static void trivial() // trivially destructible elements
{
	const uint64_t live = vp_live();
	{
		emplacement_array<uint16_t> a{ cap };
		ENSURESM("a new array is empty", a.empty() && a.size() == 0 && a.capacity() == cap && a.begin() == a.end());
		uint16_t v[4]; const size_t n = any<uint8_t>(); REQUIRES(n <= cap);
		for (size_t i = 0; i < 4; i++) if (i < n) { v[i] = any<uint16_t>(); a.emplace_back(v[i]); }
		for (size_t i = 0; i < 4; i++) if (i < n) ENSURESM("elements are found unchanged", a[i] == v[i]);
		size_t k = 0; for (auto& x : a) { ENSURESM("iteration visits each once in order", k < n && x == v[k]); k++; }
		ENSURESM("iteration visits all", k == n && a.size() == n);
		a.clear(); ENSURESM("clear empties", a.empty() && a.size() == 0 && a.capacity() == cap && a.begin() == a.end());
		if (cap) { a.emplace_back(v[0] = any<uint16_t>()); ENSURESM("and the array can be filled again", a.size() == 1 && a[0] == v[0]); }
	}
	ENSURESM("the memory is released once", vp_live() == live);
}
VP_CONTRACT(trivial) { trivial<0>(); trivial<1>(); trivial<4>(); }
