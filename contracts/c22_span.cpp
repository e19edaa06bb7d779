//@ property C22
//@ opt unwind=10 timeout=400
#include "vp.h"
#include <array>
#include <vector>
#include <muu/span.h>
using vp::any;
using muu::span;
using muu::dynamic_extent;
struct el { uint32_t a; uint8_t b[8]; };
struct alignas(16) wide_el { uint64_t a[4]; };
// Views of any length: any address and any number of elements that fit in the (47-bit) user address space.  Nothing is dereferenced.
static constexpr uintptr_t user = uintptr_t(1) << 47;
template <typename T> struct block
{
	uintptr_t at; size_t n; T* p;
	explicit block(size_t align = alignof(T)) noexcept
	{
		at = any<uint64_t>(); n = any<uint64_t>();
		REQUIRES(at != 0 && at % align == 0 && at <= user && n <= user && at + n * sizeof(T) <= user);
		p = reinterpret_cast<T*>(at);
	}
};
template <typename T> static uintptr_t adr(const volatile T* p) { return reinterpret_cast<uintptr_t>(p); }
template <typename S> static bool full(const S& s, uintptr_t at, size_t n)
{
	constexpr size_t z = sizeof(typename S::element_type);
	return adr(s.data()) == at && s.size() == n && s.size_bytes() == n * z && s.empty() == (n == 0)
		&& adr(s.begin()) == at && adr(s.end()) == at + n * z && adr(begin(s)) == at && adr(end(s)) == at + n * z
		&& adr(s.rbegin().base()) == at + n * z && adr(s.rend().base()) == at && adr(rbegin(s).base()) == at + n * z && adr(rend(s).base()) == at;
}
// the views denote these elements (the accessors of every kind of span are checked by full())
template <typename S> static bool is(const S& s, uintptr_t at, size_t n) { return adr(s.data()) == at && s.size() == n; }
template <typename S, typename T> static void views(const S& s, const block<T>& b)
{
	constexpr size_t z = sizeof(T);
	ENSURESM("a span is exactly the elements it was built from", full(s, b.at, b.n));
	const size_t i = any<uint64_t>(), k = any<uint64_t>();
	if (i < b.n)
	{
		ENSURESM("s[i] is the i-th element", adr(&s[i]) == b.at + i * z);
		ENSURESM("front and back are the first and the last element", adr(&s.front()) == b.at && adr(&s.back()) == b.at + (b.n - 1) * z);
		ENSURESM("subspan(i) is everything from element i", is(s.subspan(i), b.at + i * z, b.n - i));
		if (k <= b.n - i) ENSURESM("subspan(i, k) is k elements from element i", is(s.subspan(i, k), b.at + i * z, k));
	}
	if (k <= b.n)
	{
		ENSURESM("first(k) is the first k elements", is(s.first(k), b.at, k));
		ENSURESM("last(k) is the last k elements", is(s.last(k), b.at + (b.n - k) * z, k));
		if (k) { const auto l = s.last(k).first(1); ENSURESM("a view of a view", is(l, b.at + (b.n - k) * z, 1)); }
	}
	if (b.n >= 3)
	{
		ENSURESM("first<3>", is(s.template first<3>(), b.at, 3));
		ENSURESM("last<3>", is(s.template last<3>(), b.at + (b.n - 3) * z, 3));
		ENSURESM("subspan<2>", is(s.template subspan<2>(), b.at + 2 * z, b.n - 2));
		ENSURESM("subspan<1, 2>", is(s.template subspan<1, 2>(), b.at + z, 2));
		ENSURESM("subspan<2, 1>", is(s.template subspan<2, 1>(), b.at + 2 * z, 1));
		ENSURESM("first<0>, last<0>, subspan<1, 0>", is(s.template first<0>(), b.at, 0) && is(s.template last<0>(), b.at + b.n * z, 0) && is(s.template subspan<1, 0>(), b.at + z, 0));
	}
	ENSURESM("as_bytes covers the bytes of the elements", full(as_bytes(s), b.at, b.n * z));
	if constexpr (!std::is_const_v<typename S::element_type>) ENSURESM("as_writable_bytes covers the bytes of the elements", is(as_writable_bytes(s), b.at, b.n * z));
}
template <typename T> static void dynamic()
{
	block<T> b;
	ENSURESM("a default span is empty", full(span<T>{}, 0, 0));
	const span<T> s{ b.p, b.n };
	views(s, b);
	ENSURESM("a span of two iterators is the elements between them", is(span<T>{ b.p, b.p + b.n }, b.at, b.n));
	const span<const T> c = s;
	ENSURESM("converting to a span of const denotes the same elements", is(c, b.at, b.n));
	span<T> t; t = s; const span<T> u{ t };
	ENSURESM("copies denote the same elements", is(t, b.at, b.n) && is(u, b.at, b.n));
	const span<volatile T> v = s; const span<const volatile T> w = c;
	ENSURESM("adding qualifiers denotes the same elements", adr(v.data()) == b.at && v.size() == b.n && adr(w.data()) == b.at && w.size() == b.n);
	if (b.n >= 5) { const span<T, 5> f{ b.p, 5 }; const span<T> d{ f }; const span<const T, 5> fc{ f };
		ENSURESM("a static span converts to a dynamic one and to const", is(f, b.at, 5) && is(d, b.at, 5) && is(fc, b.at, 5)); }
	if (b.n == 5) { const span<T, 5> f{ s }; ENSURESM("a dynamic span of the right length converts to a static one", is(f, b.at, 5)); }
}
template <typename T> static void constant() { block<T> b; views(span<const T>{ b.p, b.n }, b); }
#define DYN(n, T) VP_CONTRACT(dynamic_##n) { dynamic<T>(); } VP_CONTRACT(dynamic_const_##n) { constant<T>(); }
DYN(byte, std::byte) DYN(u16, uint16_t) DYN(int, int) DYN(u64, uint64_t) DYN(struct, el) DYN(wide, wide_el) DYN(ptr, const char*)
template <typename T, size_t A> static void aligned()
{
	block<T> b{ A };
	const span<T, dynamic_extent, A> s{ b.p, b.n };
	views(s, b);
	const span<T> n{ s };
	ENSURESM("dropping the alignment denotes the same elements", is(n, b.at, b.n));
	const span<T, dynamic_extent, A> back{ n };
	ENSURESM("restoring the alignment denotes the same elements", is(back, b.at, b.n));
	if (b.n >= 4) { const span<T, 4, A> f{ b.p, 4 }; ENSURESM("an aligned static span", full(f, b.at, 4) && is(f.template first<2>(), b.at, 2) && is(f.template last<1>(), b.at + 3 * sizeof(T), 1)); }
}
VP_CONTRACT(aligned_byte) { aligned<std::byte, 64>(); }
VP_CONTRACT(aligned_int) { aligned<int, 32>(); }
VP_CONTRACT(aligned_wide) { aligned<wide_el, 128>(); }
template <typename T, size_t N> static void fixed()
{
	constexpr size_t z = sizeof(T);
	block<T> b;
	REQUIRES(b.n >= N);
	const span<T, N> s{ b.p, N };
	ENSURESM("a static span is exactly its elements", full(s, b.at, N));
	{ const span<T, N> t{ b.p, b.p + N }; ENSURESM("also from two iterators", is(t, b.at, N)); }
	ENSURESM("as_bytes of a static span", full(as_bytes(s), b.at, N * z) && is(as_writable_bytes(s), b.at, N * z));
	ENSURESM("whole views of a static span", is(s.template first<N>(), b.at, N) && is(s.template last<N>(), b.at, N) && is(s.first(N), b.at, N) && is(s.last(N), b.at, N));
	if constexpr (N > 1)
	{
		const size_t i = any<uint64_t>(), k = any<uint64_t>();
		if (i < N) ENSURESM("indexing a static span", adr(&s[i]) == b.at + i * z && adr(&s.front()) == b.at && adr(&s.back()) == b.at + (N - 1) * z);
		if (i < N && k <= N - i) ENSURESM("run-time sub-views of a static span", is(s.subspan(i), b.at + i * z, N - i) && is(s.subspan(i, k), b.at + i * z, k));
		if (k <= N) ENSURESM("run-time ends of a static span", is(s.first(k), b.at, k) && is(s.last(k), b.at + (N - k) * z, k));
		ENSURESM("compile-time sub-views of a static span", is(s.template subspan<0>(), b.at, N) && is(s.template subspan<N - 1>(), b.at + (N - 1) * z, 1) && is(s.template subspan<1, N - 1>(), b.at + z, N - 1)
			&& is(s.template subspan<1, N - 2>(), b.at + z, N - 2) && is(s.template subspan<0, N>(), b.at, N) && is(s.template first<1>(), b.at, 1) && is(s.template last<N - 1>(), b.at + z, N - 1));
	}
}
VP_CONTRACT(fixed_byte_7) { fixed<std::byte, 7>(); }
VP_CONTRACT(fixed_int_4) { fixed<int, 4>(); }
VP_CONTRACT(fixed_u16_1) { fixed<uint16_t, 1>(); }
VP_CONTRACT(fixed_struct_3) { fixed<el, 3>(); }
VP_CONTRACT(fixed_wide_2) { fixed<wide_el, 2>(); }
VP_CONTRACT(fixed_big) { fixed<uint64_t, (size_t(1) << 40)>(); }
VP_CONTRACT(fixed_0)
{
	block<int> b;
	ENSURESM("an empty static span", full(span<int, 0>{}, 0, 0) && is(span<int, 0>{ b.p, size_t{} }, b.at, 0) && is(span<const int, 0>{ span<int>{ b.p, size_t{} } }, b.at, 0));
	const span<int, 0> s{ b.p, size_t{} };
	ENSURESM("views of an empty static span", is(s.first<0>(), b.at, 0) && is(s.last(0), b.at, 0) && is(as_bytes(s), b.at, 0));
}
// Views of real objects: what is read and written through them is the object, and nothing else.
VP_CONTRACT(elements)
{
	int a[6], old[6];
	for (int i = 0; i < 6; i++) old[i] = a[i] = any<int>();
	span<int> s{ a };
	const span<int, 6> f{ a };
	const span<const int> c{ a };
	const size_t i = any<uint8_t>(), j = any<uint8_t>(); REQUIRES(i < 6 && j < 6);
	ENSURESM("reads are the elements of the array", s[i] == a[i] && f[i] == a[i] && c[i] == a[i] && s.front() == a[0] && f.back() == a[5] && *(s.begin() + i) == a[i] && *(s.rbegin() + i) == a[5 - i] && s.rbegin()[i] == f[5 - i]);
	const int v = any<int>();
	f.subspan(i)[0] = v;
	ENSURESM("a write through a view writes that element only", a[i] == v && (j == i || a[j] == old[j]) && s[i] == v && c[i] == v);
	size_t k = 0; bool same = true;
	for (int& x : s) { same = same && &x == a + k; k++; }
	ENSURESM("range-for visits every element once in order", same && k == 6);
	k = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) { same = same && &*it == a + 5 - k; k++; }
	ENSURESM("reverse iteration visits every element once in reverse", same && k == 6);
	const auto bytes = as_writable_bytes(f);
	for (auto& x : bytes.subspan<4, 4>()) x = std::byte{ 0xAA };
	ENSURESM("byte views alias the elements", a[1] == static_cast<int>(0xAAAAAAAAu) && (j == 1 || j == i || a[j] == old[j]));
}
VP_CONTRACT(sources)
{
	uint16_t c[5]; std::array<uint16_t, 5> a;
	for (int i = 0; i < 5; i++) a[i] = c[i] = any<uint16_t>();
	const std::array<uint16_t, 5>& ca = a; const uint16_t (&cc)[5] = c;
	ENSURESM("span of an array", is(span<uint16_t>{ c }, adr(c), 5) && is(span<uint16_t, 5>{ c }, adr(c), 5) && is(span<const uint16_t>{ cc }, adr(c), 5) && is(span<const uint16_t, 5>{ c }, adr(c), 5));
	ENSURESM("span of a std::array", is(span<uint16_t>{ a }, adr(a.data()), 5) && is(span<uint16_t, 5>{ a }, adr(a.data()), 5) && is(span<const uint16_t>{ a }, adr(a.data()), 5) && is(span<const uint16_t>{ ca }, adr(a.data()), 5) && is(span<const uint16_t, 5>{ ca }, adr(a.data()), 5));
	{ span d{ c }; static_assert(std::is_same_v<decltype(d), span<uint16_t, 5>>); ENSURESM("deduced from an array", is(d, adr(c), 5)); }
	{ span d{ a }; static_assert(std::is_same_v<decltype(d), span<uint16_t, 5>>); ENSURESM("deduced from a std::array", is(d, adr(a.data()), 5)); }
	{ span d{ ca }; static_assert(std::is_same_v<decltype(d), span<const uint16_t, 5>>); ENSURESM("deduced from a const std::array", is(d, adr(a.data()), 5)); }
	const size_t n = any<uint8_t>(); REQUIRES(n <= 5);
	{ span d{ static_cast<uint16_t*>(c), n }; ENSURESM("deduced from a pointer and a count", is(d, adr(c), n)); }
	{ span d{ c + 0, c + n }; ENSURESM("deduced from two pointers", is(d, adr(c), n)); }
	{ span<const uint16_t> d{ ca.begin(), n }, e{ ca.begin(), ca.begin() + n }; ENSURESM("from iterators", is(d, adr(a.data()), n) && is(e, adr(a.data()), n)); }
	{ using it = std::vector<uint16_t>::iterator; const it i{ c }; span d{ i, n }; span e{ i, i + static_cast<ptrdiff_t>(n) }; ENSURESM("from class-type contiguous iterators", is(d, adr(c), n) && is(e, adr(c), n)); }
}
