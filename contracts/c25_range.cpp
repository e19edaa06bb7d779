//@ property C25
//@ opt unwind=12 timeout=200
//@ entry ^ct_walk bounded=at_most_5_elements
#include "vp.h"
#include <muu/core.h>
#include <muu/integral_range.h>
using vp::any;
using u128 = unsigned __int128; using i128 = __int128;
// the mathematical value, offset so that order is kept and unsigned 128-bit arithmetic is exact for every type
template <typename T> static u128 m(T v) { if constexpr (muu::is_signed<T>) return static_cast<u128>(static_cast<i128>(v)) ^ (u128(1) << 127); else return static_cast<u128>(v); }
template <typename T> static auto make() { struct { T a, b; } r{ any<T>(), any<T>() }; REQUIRES(m(r.a) <= m(r.b)); return r; }
template <typename T> static void range()
{
	using R = muu::integral_range<T>;
	const auto [a, b] = make<T>();
	const R r{ a, b };
	const u128 len = m(b) - m(a);
	ENSURESM("size() is the number of integers", static_cast<u128>(r.size()) == len);
	ENSURESM("empty and operator bool", r.empty() == (len == 0) && static_cast<bool>(r) == (len != 0));
	ENSURESM("first() is a", r.first() == a);
	if (len) ENSURESM("last() is b - 1", m(r.last()) == m(b) - 1);
	const T x = any<T>();
	ENSURESM("contains(x) exactly when a <= x < b", r.contains(x) == (m(a) <= m(x) && m(x) < m(b)));
	if (m(a) >= m(T{})) { const R z{ a }; ENSURESM("range(n) is [0, n)", z.s == T{} && z.e == a); }
	const auto [c, d] = make<T>();
	const R o{ c, d };
	ENSURESM("equality", (r == o) == (a == c && b == d) && (r != o) == !(a == c && b == d));
	if (len && c < d)
	{
		ENSURESM("contains(range)", r.contains(o) == (m(a) <= m(c) && m(d) <= m(b)));
		ENSURESM("intersects exactly when some integer is in both", r.intersects(o) == (m(a) < m(d) && m(c) < m(b)));
		ENSURESM("adjacent exactly when one starts where the other ends", r.adjacent(o) == (b == c || d == a));
		ENSURESM("intersects_or_adjacent is their disjunction", r.intersects_or_adjacent(o) == (r.intersects(o) || r.adjacent(o)));
	}
	const R un = r.union_with(o);
	ENSURESM("union_with is the least range holding both", m(un.s) == (m(a) < m(c) ? m(a) : m(c)) && m(un.e) == (m(b) > m(d) ? m(b) : m(d)));
}
// iteration by induction: begin() is a, ++ goes to the next integer, the end is reached exactly at b
template <typename T> static void iter()
{
	using R = muu::integral_range<T>;
	using I = typename R::iterator;
	const auto [a, b] = make<T>();
	const R r{ a, b };
	ENSURESM("begin() denotes a and end() denotes b", *r.begin() == a && *r.end() == b && *begin(r) == a && *end(r) == b);
	const T v = any<T>();
	REQUIRES(m(a) <= m(v) && m(v) <= m(b));
	I i = r.begin();
	i += static_cast<typename R::size_type>(m(v) - m(a));
	ENSURESM("begin() + n denotes a + n", *i == v);
	ENSURESM("the end is reached exactly at b", (i == r.end()) == (v == b) && (i != r.end()) == (v != b));
	if (v != b)
	{
		I j = i;
		const I k = j++;
		ENSURESM("post-increment", m(*j) == m(v) + 1 && *k == v);
		I l = i;
		I& q = ++l;
		ENSURESM("pre-increment goes to the next integer", m(*l) == m(v) + 1 && &q == &l && l == j && l != i);
	}
	if (v != a)
	{
		I j = i;
		const I k = j--;
		ENSURESM("post-decrement", m(*j) == m(v) - 1 && *k == v);
		I l = i;
		I& q = --l;
		ENSURESM("pre-decrement goes to the previous integer", m(*l) == m(v) - 1 && &q == &l);
	}
	// arithmetic between two positions of the range
	const T w = any<T>();
	REQUIRES(m(a) <= m(w) && m(w) <= m(b));
	I f = r.begin();
	f += static_cast<typename R::size_type>(m(w) - m(a));
	using D = typename I::difference_type;
	const u128 up = m(v) - m(w); // modular
	const bool neg = m(v) < m(w);
	const u128 mag = neg ? m(w) - m(v) : up;
	if (mag <= (~u128(0) >> (129 - 8 * sizeof(D))))
	{
		const D diff = i - f;
		ENSURESM("the difference of two iterators is the distance between them", neg ? (diff < 0 && static_cast<u128>(-static_cast<i128>(diff)) == mag) : (diff >= 0 && static_cast<u128>(diff) == mag));
		I g = f;
		g += diff;
		ENSURESM("f + (i - f) == i", g == i && *g == v);
		g -= diff;
		ENSURESM("i - (i - f) == f", g == f && *g == w);
	}
	if (!neg)
	{
		I g = i;
		g -= static_cast<typename R::size_type>(mag);
		ENSURESM("i - n with an unsigned distance", g == f && *g == w);
	}
}
template <typename T> static void walk()
{
	const auto [a, b] = make<T>();
	REQUIRES(m(b) - m(a) <= 5);
	size_t n = 0;
	for (auto x : muu::integral_range<T>{ a, b })
	{
		ENSURESM("iteration visits a, a + 1, ... in order", m(x) == m(a) + n && m(x) < m(b));
		n++;
	}
	ENSURESM("iteration visits every integer", n == m(b) - m(a));
}
#define RANGE(n, T) VP_CONTRACT(range_##n) { range<T>(); } VP_CONTRACT(iter_##n) { iter<T>(); } VP_CONTRACT(walk_##n) { walk<T>(); }
RANGE(u8, uint8_t) RANGE(i8, int8_t) RANGE(u16, uint16_t) RANGE(i16, int16_t) RANGE(u32, uint32_t) RANGE(i32, int32_t) RANGE(u64, uint64_t) RANGE(i64, int64_t)
RANGE(ull, unsigned long long) RANGE(ll, long long)
RANGE(u128, u128) RANGE(i128, i128)
// pointers into one array
template <typename T> static void pointers()
{
	const size_t n = any<uint8_t>();
	auto base = static_cast<T*>(vp_buf((n ? n : 1) * sizeof(T)));
	const size_t a = any<uint8_t>(), b = any<uint8_t>(), v = any<uint8_t>(), w = any<uint8_t>();
	REQUIRES(a <= b && b <= n && a <= v && v <= b && a <= w && w <= b);
	using R = muu::integral_range<T*>;
	const R r{ base + a, base + b };
	ENSURESM("pointer range: size in elements", r.size() == b - a && r.empty() == (a == b) && static_cast<bool>(r) == (a != b));
	ENSURESM("pointer range: first and last", r.first() == base + a && (a == b || r.last() == base + (b - 1)));
	ENSURESM("pointer range: contains", r.contains(base + v) == (v < b));
	auto i = r.begin(), f = r.begin();
	i += v - a;
	f += static_cast<ptrdiff_t>(w - a);
	ENSURESM("pointer range: iterators", *i == base + v && *f == base + w && i - f == static_cast<ptrdiff_t>(v) - static_cast<ptrdiff_t>(w) && (i == f) == (v == w) && (i != r.end()) == (v != b));
	if (v != b) { ++i; ENSURESM("pointer range: next element", *i == base + v + 1); --i; }
	i -= v - a;
	f -= static_cast<ptrdiff_t>(w - a);
	ENSURESM("pointer range: back to the first", i == r.begin() && f == i);
}
VP_CONTRACT(pointers_byte) { pointers<std::byte>(); }
VP_CONTRACT(pointers_int) { pointers<int>(); }
VP_CONTRACT(pointers_const) { pointers<const uint64_t>(); }
