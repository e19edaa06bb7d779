//@ property C09
//@ opt unwind=9 timeout=600 bounded=strings_of_at_most_5_code_units_(6_in_the_thorough_tier)
//@ entry _6$ tier=thorough
//@ entry _c_[45]$ tier=thorough
#include "utf_ref.h"
#include <muu/strings.h>
template <typename T> using U = std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>>>;
template <size_t N> struct rec
{
	char32_t cp[N]; size_t at[N], len[N]; size_t n = 0; bool over = false; size_t stop_after = 99;
};
template <typename T, size_t N> static void walk(const T* p, size_t n, bool reverse, rec<N>& r)
{
	muu::utf_decode(std::basic_string_view<T>{ p, n }, reverse, [&](char32_t cp, size_t at, size_t len) noexcept -> bool {
		if (r.n < N) { r.cp[r.n] = cp; r.at[r.n] = at; r.len[r.n] = len; }
		else r.over = true;
		r.n++;
		return r.n < r.stop_after;
	});
}
// well-formed text: exactly its code points, in order / in reverse
template <typename T, size_t N> static void wellformed(bool reverse)
{
	vp::arr<U<T>, N> s(N, N);
	char32_t cp[N]; size_t at[N], len[N], k = 0, i = 0;
	REQUIRES(s.n == 0 || (ref::native<U<T>, N>(s.p, s.n)));
	if (ref::bom(s.p, s.n)) i = sizeof(T) == 1 ? 3 : 1;
	for (size_t j = 0; j < N; j++)
		if (i < s.n)
		{
			const auto c = ref::at(s.p + i, s.n - i);
			REQUIRES(c.len > 0);
			cp[k] = c.value; at[k] = i; len[k] = c.len; k++;
			i += c.len;
		}
	rec<N> r;
	walk<T, N>(reinterpret_cast<const T*>(s.p), s.n, reverse, r);
	ENSURESM("one visit per code point", !r.over && r.n == k);
	bool v = true, a = true;
	for (size_t j = 0; j < N; j++)
		if (j < k)
		{
			const size_t q = reverse ? k - 1 - j : j;
			v = v && r.cp[j] == cp[q];
			a = a && r.at[j] == at[q] && r.len[j] == len[q];
		}
	ENSURESM("the visitor gets the code points in order", v);
	ENSURESM("the visitor gets the position and length of each code point", a);
}
// any text at all: the visited ranges partition the string (after a byte-order mark)
template <typename T, size_t N> static void partition(bool reverse)
{
	vp::arr<U<T>, N> s(N, N);
	rec<N> r;
	walk<T, N>(reinterpret_cast<const T*>(s.p), s.n, reverse, r);
	size_t b = 0;
	if (ref::bom(s.p, s.n)) b = sizeof(T) == 1 ? 3 : 1;
	if (sizeof(T) == 2 && s.n && s.p[0] == (U<T>)0xFFFE) b = 1;
	if (sizeof(T) == 4 && s.n && s.p[0] == (U<T>)0xFFFE0000u) b = 1;
	ENSURESM("no more visits than code units", !r.over);
	unsigned cover[N] = {};
	bool in = true;
	for (size_t j = 0; j < N; j++)
		if (j < r.n)
		{
			in = in && r.len[j] >= 1 && r.at[j] >= b && r.at[j] < s.n && r.len[j] <= s.n - r.at[j];
			for (size_t q = 0; q < N; q++)
				if (q >= r.at[j] && q < r.at[j] + r.len[j]) cover[q]++;
		}
	ENSURESM("every visited range lies in the string", in);
	bool once = true;
	for (size_t q = 0; q < N; q++) once = once && cover[q] == (q >= b && q < s.n ? 1u : 0u);
	ENSURESM("every code unit is visited exactly once", once);
}
template <typename T, size_t N> static void stops(bool reverse)
{
	vp::arr<U<T>, N> s(N, N);
	rec<N> full, cut;
	walk<T, N>(reinterpret_cast<const T*>(s.p), s.n, reverse, full);
	cut.stop_after = vp::any<uint8_t>();
	REQUIRES(cut.stop_after >= 1);
	walk<T, N>(reinterpret_cast<const T*>(s.p), s.n, reverse, cut);
	ENSURESM("the walk stops when the visitor returns false", cut.n == (full.n < cut.stop_after ? full.n : cut.stop_after));
	bool same = true;
	for (size_t j = 0; j < N; j++)
		if (j < cut.n && j < full.n) same = same && cut.cp[j] == full.cp[j] && cut.at[j] == full.at[j];
	ENSURESM("up to there it visits the same code points", same);
}
#define E1(n, T, N) \
	VP_CONTRACT(wf_##n##_##N) { wellformed<T, N>(false); } VP_CONTRACT(wfr_##n##_##N) { wellformed<T, N>(true); } \
	VP_CONTRACT(part_##n##_##N) { partition<T, N>(false); } VP_CONTRACT(partr_##n##_##N) { partition<T, N>(true); }
#define E2(n, T, N) \
	VP_CONTRACT(stop_##n##_##N) { stops<T, N>(false); } VP_CONTRACT(stopr_##n##_##N) { stops<T, N>(true); }
#define E(n, T) E1(n, T, 1) E1(n, T, 2) E1(n, T, 3) E1(n, T, 4) E1(n, T, 5) E1(n, T, 6) E2(n, T, 1) E2(n, T, 2) E2(n, T, 3) E2(n, T, 4)
E(c, char) E(u8, char8_t) E(u16, char16_t) E(u32, char32_t) E(w, wchar_t)
