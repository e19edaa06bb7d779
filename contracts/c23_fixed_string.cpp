//@ property C23
//@ opt unwind=14 timeout=300
#include "vp.h"
#include <muu/core.h>
#include <muu/fixed_string.h>
using vp::any;
using muu::fixed_string;
template <typename C, size_t N> struct src { C c[N + 1]; src() { for (size_t i = 0; i < N; i++) c[i] = any<C>(); c[N] = C{}; } };
// exactly these n characters and then a null
template <typename C, size_t N, typename F> static bool is(const fixed_string<C, N>& s, F ch)
{
	for (size_t i = 0; i < N; i++) if (!(s.data()[i] == ch(i))) return false;
	return s.data()[N] == C{} && s.c_str() == s.data();
}
template <typename S> struct len_of; template <typename C, size_t N> struct len_of<fixed_string<C, N>> { static constexpr size_t value = N; };
template <typename C, size_t N> static void one()
{
	src<C, N> a;
	const C* const p = a.c;
	auto at = [p](size_t i) { return p[i]; };
	fixed_string<C, N> s{ a.c };
	const fixed_string<C, N>& c = s;
	ENSURESM("built from an array: the characters and a null", is(s, at));
	ENSURESM("length", s.size() == N && s.length() == N && s.empty() == (N == 0) && static_cast<bool>(s) == (N != 0) && fixed_string<C, N>::string_length == N);
	ENSURESM("begin and end enclose the characters", s.begin() == s.data() && s.end() == s.data() + N && c.begin() == c.data() && c.end() == c.data() + N && c.cbegin() == c.data() && c.cend() == c.data() + N
		&& begin(s) == s.data() && end(s) == s.data() + N && begin(c) == c.data() && end(c) == c.data() + N && cbegin(c) == c.data() && cend(c) == c.data() + N);
	ENSURESM("reverse iteration covers the same characters", s.rbegin().base() == s.end() && s.rend().base() == s.begin() && c.rbegin().base() == c.end() && c.rend().base() == c.begin() && c.crbegin().base() == c.end() && c.crend().base() == c.begin()
		&& rbegin(s).base() == s.end() && rend(s).base() == s.begin() && rbegin(c).base() == c.end() && rend(c).base() == c.begin() && crbegin(c).base() == c.end() && crend(c).base() == c.begin());
	const std::basic_string_view<C> v = c;
	ENSURESM("the view is the characters", v.data() == c.data() && v.size() == N && c.view().data() == c.data() && c.view().size() == N);
	const fixed_string<C, N> k{ c }; fixed_string<C, N> m{ C('x') }; ENSURESM("fill", is(m, [](size_t) { return C('x'); })); m = c;
	ENSURESM("copies have the same characters", is(k, at) && is(m, at));
	ENSURESM("a value-initialised string is nulls", is(fixed_string<C, N>{}, [](size_t) { return C{}; }));
	if constexpr (N > 0)
	{
		const size_t i = any<uint8_t>(), j = any<uint8_t>(); REQUIRES(i < N && j < N);
		ENSURESM("indexing", &s[i] == s.data() + i && &c[i] == c.data() + i && &s.front() == s.data() && &c.front() == c.data() && &s.back() == s.data() + N - 1 && &c.back() == c.data() + N - 1 && &s.template get<N - 1>() == &s.back() && &c.template get<0>() == &c.front());
		const C x = any<C>(); s[i] = x;
		ENSURESM("a write changes that character only", s[i] == x && (i == j || s[j] == a.c[j]) && s.data()[N] == C{} && is(k, at));
	}
}
// different lengths: truncation, padding, concatenation
template <typename C, size_t N, size_t M> static void two()
{
	src<C, N> a; src<C, M> b;
	const C* const p = a.c; const C* const q = b.c;
	const fixed_string<C, N> s{ a.c }; const fixed_string<C, M> t{ b.c };
	auto cut = [p](size_t i) { return i < N ? p[i] : C{}; };
	ENSURESM("another length truncates or pads with nulls", is(fixed_string<C, M>{ s }, cut) && is(fixed_string<C, M>{ a.c }, cut) && is(fixed_string<C, M>{ p, muu::index_tag<N>{} }, cut));
	const fixed_string<C, N + M> r = s + t;
	ENSURESM("concatenation", is(r, [p, q](size_t i) { return i < N ? p[i] : q[i - N]; }));
	const C x = any<C>();
	const fixed_string<C, N + 1> u = s + x, w = x + s;
	ENSURESM("appending and prepending a character", is(u, [p, x](size_t i) { return i < N ? p[i] : x; }) && is(w, [p, x](size_t i) { return i ? p[i - 1] : x; }));
}
// from a string_view of any length: exactly its characters, padded or cut
template <typename C, size_t N> static void from_view()
{
	vp::arr<char, 6> v;
	const size_t n = v.n; const char* const p = v.p;
	ENSURESM("built from a view", is(fixed_string<C, N>{ std::string_view{ p, n } }, [p, n](size_t i) { return i < n ? static_cast<C>(p[i]) : C{}; }));
}
template <typename C, auto... A, size_t N, typename F> static bool sub(const fixed_string<C, N>& s, size_t from, size_t n, const F& r)
{
	const C* const p = s.data();
	return len_of<F>::value == n && is(r, [p, from](size_t i) { return p[from + i]; });
}
template <typename C> static void parts()
{
	src<C, 5> a; const fixed_string<C, 5> s{ a.c };
	ENSURESM("substr", sub<C>(s, 0, 5, s.template substr<0>()) && sub<C>(s, 2, 3, s.template substr<2>()) && sub<C>(s, 1, 2, s.template substr<1, 2>()) && sub<C>(s, 0, 4, s.template substr<0, 4>()) && sub<C>(s, 0, 0, s.template substr<0, 0>())
		&& sub<C>(s, 4, 1, s.template substr<4, 9>()) && sub<C>(s, 5, 0, s.template substr<5>()) && sub<C>(s, 5, 0, s.template substr<70u, 3>()) && sub<C>(s, 3, 1, s.template substr<3, 1>()));
	ENSURESM("substr counts a negative start from the end", sub<C>(s, 4, 1, s.template substr<-1>()) && sub<C>(s, 2, 3, s.template substr<-3>()) && sub<C>(s, 2, 1, s.template substr<-3, 1>()) && sub<C>(s, 0, 5, s.template substr<-5>()) && sub<C>(s, 0, 2, s.template substr<-9, 2>()) && sub<C>(s, 0, 5, s.template substr<(signed char)(-128)>()));
	ENSURESM("slice", sub<C>(s, 0, 5, s.template slice<0>()) && sub<C>(s, 1, 2, s.template slice<1, 3>()) && sub<C>(s, 3, 2, s.template slice<3>()) && sub<C>(s, 3, 2, s.template slice<3, 50>()) && sub<C>(s, 0, 0, s.template slice<3, 3>()) && sub<C>(s, 0, 0, s.template slice<3, 1>()) && sub<C>(s, 0, 3, s.template slice<0, 3>()));
	ENSURESM("slice counts negative ends from the end", sub<C>(s, 1, 3, s.template slice<1, -1>()) && sub<C>(s, 2, 2, s.template slice<-3, -1>()) && sub<C>(s, 0, 1, s.template slice<-5, -4>()) && sub<C>(s, 3, 2, s.template slice<-2>()) && sub<C>(s, 0, 0, s.template slice<-2, -3>()));
	const fixed_string<C, 0> e{};
	ENSURESM("parts of an empty string are empty", len_of<decltype(e.template substr<0>())>::value == 0 && len_of<decltype(e.template slice<0, 3>())>::value == 0 && len_of<decltype(e.template substr<-1>())>::value == 0);
}
// comparison is the lexicographic comparison of the characters as unsigned values, the shorter of two equal prefixes first
template <typename C> static auto rank(C c) { if constexpr (std::is_same_v<C, char>) return static_cast<unsigned char>(c); else return c; }
template <typename C, size_t N, size_t M> static void order(const fixed_string<C, N>& s, const fixed_string<C, M>& t, const C* a, const C* b)
{
	int o = 0;
	for (size_t i = 0; i < N && i < M && !o; i++) o = rank(a[i]) < rank(b[i]) ? -1 : rank(b[i]) < rank(a[i]) ? 1 : 0;
	if (!o) o = N < M ? -1 : N > M ? 1 : 0;
	ENSURESM("equality is equality of the characters", (s == t) == (o == 0) && (s != t) == (o != 0));
	ENSURESM("order is the lexicographic order", (s < t) == (o < 0) && (s <= t) == (o <= 0) && (s > t) == (o > 0) && (s >= t) == (o >= 0));
	const int k = fixed_string<C, N>::compare(s, t);
	ENSURESM("compare() has the sign of the lexicographic order", (k < 0) == (o < 0) && (k > 0) == (o > 0));
	fixed_string<C, N> w{ s };
	const int l = w.compare(t);
	ENSURESM("the member compare() agrees", (l < 0) == (o < 0) && (l > 0) == (o > 0));
}
template <typename C, size_t N, size_t M> static void cmp()
{
	src<C, N> a; src<C, M> b;
	const fixed_string<C, N> s{ a.c }; const fixed_string<C, M> t{ b.c };
	order(s, t, a.c, b.c);
	order(t, s, b.c, a.c);
	order(s, s, a.c, a.c);
}
#define ALL(n, C) \
	VP_CONTRACT(one_##n) { one<C, 0>(); one<C, 1>(); one<C, 2>(); one<C, 7>(); } \
	VP_CONTRACT(two_##n) { two<C, 0, 0>(); two<C, 0, 3>(); two<C, 3, 0>(); two<C, 1, 1>(); two<C, 4, 2>(); two<C, 2, 5>(); } \
	VP_CONTRACT(parts_##n) { parts<C>(); } \
	VP_CONTRACT(compare_##n) { cmp<C, 0, 0>(); cmp<C, 0, 2>(); cmp<C, 1, 1>(); cmp<C, 3, 3>(); cmp<C, 4, 2>(); cmp<C, 6, 6>(); }
ALL(char, char) ALL(wchar, wchar_t) ALL(char8, char8_t) ALL(char16, char16_t) ALL(char32, char32_t)
// (building a string of another character type from a std::string_view is not offered at run time: it narrows)
VP_CONTRACT(view) { from_view<char, 0>(); from_view<char, 1>(); from_view<char, 3>(); from_view<char, 8>(); }
