//@ property C24
//@ opt unwind=9 timeout=300
//@ entry .* bounded=texts_of_3_or_6_code_units_(18_for_the_heap_strings_of_char)
//@ entry (_18|trim_heap_u8|trim_heap_c)$ unwind=22
//@ entry trim_heap_u16$ unwind=12
//@ src string_param.cpp
// The calls of string_param to transcode() and trim() are checked against contracts of these functions (properties C08 and C10),
// not their bodies: text of ASCII characters is transcoded unit by unit and trimmed of its ASCII white space; malformed text may become
// an empty string.
//@ replace _ZN3muu4trimESt17basic_string_viewIDiSt11char_traitsIDiEE g_trim_Di
//@ replace _ZN3muu4trimESt17basic_string_viewIDsSt11char_traitsIDsEE g_trim_Ds
//@ replace _ZN3muu4trimESt17basic_string_viewIDuSt11char_traitsIDuEE g_trim_Du
//@ replace _ZN3muu4trimESt17basic_string_viewIcSt11char_traitsIcEE g_trim_c
//@ replace _ZN3muu4trimESt17basic_string_viewIwSt11char_traitsIwEE g_trim_w
//@ replace _ZN3muu9transcodeIDiEENSt11conditionalIXsr3stdE9is_same_vIT_DsEESt17basic_string_viewIDsSt11char_traitsIDsEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Di_Ds
//@ replace _ZN3muu9transcodeIDiEENSt11conditionalIXsr3stdE9is_same_vIT_DuEESt17basic_string_viewIDuSt11char_traitsIDuEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Di_Du
//@ replace _ZN3muu9transcodeIDiEENSt11conditionalIXsr3stdE9is_same_vIT_cEESt17basic_string_viewIcSt11char_traitsIcEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Di_c
//@ replace _ZN3muu9transcodeIDiEENSt11conditionalIXsr3stdE9is_same_vIT_wEESt17basic_string_viewIwSt11char_traitsIwEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Di_w
//@ replace _ZN3muu9transcodeIDsEENSt11conditionalIXsr3stdE9is_same_vIT_DiEESt17basic_string_viewIDiSt11char_traitsIDiEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Ds_Di
//@ replace _ZN3muu9transcodeIDsEENSt11conditionalIXsr3stdE9is_same_vIT_DuEESt17basic_string_viewIDuSt11char_traitsIDuEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Ds_Du
//@ replace _ZN3muu9transcodeIDsEENSt11conditionalIXsr3stdE9is_same_vIT_cEESt17basic_string_viewIcSt11char_traitsIcEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Ds_c
//@ replace _ZN3muu9transcodeIDsEENSt11conditionalIXsr3stdE9is_same_vIT_wEESt17basic_string_viewIwSt11char_traitsIwEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Ds_w
//@ replace _ZN3muu9transcodeIDuEENSt11conditionalIXsr3stdE9is_same_vIT_DiEESt17basic_string_viewIDiSt11char_traitsIDiEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Du_Di
//@ replace _ZN3muu9transcodeIDuEENSt11conditionalIXsr3stdE9is_same_vIT_DsEESt17basic_string_viewIDsSt11char_traitsIDsEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Du_Ds
//@ replace _ZN3muu9transcodeIDuEENSt11conditionalIXsr3stdE9is_same_vIT_cEESt17basic_string_viewIcSt11char_traitsIcEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Du_c
//@ replace _ZN3muu9transcodeIDuEENSt11conditionalIXsr3stdE9is_same_vIT_wEESt17basic_string_viewIwSt11char_traitsIwEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_Du_w
//@ replace _ZN3muu9transcodeIcEENSt11conditionalIXsr3stdE9is_same_vIT_DiEESt17basic_string_viewIDiSt11char_traitsIDiEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_c_Di
//@ replace _ZN3muu9transcodeIcEENSt11conditionalIXsr3stdE9is_same_vIT_DsEESt17basic_string_viewIDsSt11char_traitsIDsEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_c_Ds
//@ replace _ZN3muu9transcodeIcEENSt11conditionalIXsr3stdE9is_same_vIT_DuEESt17basic_string_viewIDuSt11char_traitsIDuEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_c_Du
//@ replace _ZN3muu9transcodeIcEENSt11conditionalIXsr3stdE9is_same_vIT_wEESt17basic_string_viewIwSt11char_traitsIwEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_c_w
//@ replace _ZN3muu9transcodeIwEENSt11conditionalIXsr3stdE9is_same_vIT_DiEESt17basic_string_viewIDiSt11char_traitsIDiEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_w_Di
//@ replace _ZN3muu9transcodeIwEENSt11conditionalIXsr3stdE9is_same_vIT_DsEESt17basic_string_viewIDsSt11char_traitsIDsEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_w_Ds
//@ replace _ZN3muu9transcodeIwEENSt11conditionalIXsr3stdE9is_same_vIT_DuEESt17basic_string_viewIDuSt11char_traitsIDuEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_w_Du
//@ replace _ZN3muu9transcodeIwEENSt11conditionalIXsr3stdE9is_same_vIT_cEESt17basic_string_viewIcSt11char_traitsIcEENSt7__cxx1112basic_stringIS2_S4_IS2_ESaIS2_EEEE4typeES6_ g_tc_w_c
#include "vp.h"
#include <muu/core.h>
#include <muu/strings.h>
#include <muu/string_param.h>
#include <utility>
using vp::any;
using muu::string_param;
template <typename C> using view = std::basic_string_view<C>;
template <typename C> using str = std::basic_string<C>;
static constexpr size_t MAX = 18;
template <typename C> static bool ascii(C c) { return c > C{} && static_cast<uint32_t>(c) < 0x80u; }
template <typename C> static bool space(C c) { return (c >= C(9) && c <= C(13)) || c == C(32); }
static bool g_plain = true; // the contract at hand only has ASCII text
static size_t g_bad = 0, g_front = 0, g_back = 0; // the length of what malformed text is transcoded to, the white space trim() finds
template <typename To, typename From> static str<To> g_tc(view<From> v)
{
	To b[MAX]; const size_t n = v.length(); bool ok = true;
	for (size_t i = 0; i < n; i++) { ok = ok && ascii(v[i]); b[i] = static_cast<To>(v[i]); }
	if (g_plain) { ENSURESM("the text reaches transcode() unchanged", ok); return str<To>(b, n); }
	b[0] = To('?');
	return str<To>(b, g_bad);
}
template <typename C> static view<C> g_trim(view<C> v)
{
	bool ok = v.length() >= g_front + g_back;
	const size_t b = v.length() - g_back;
	for (size_t i = 0; i < v.length(); i++)
		if (ok) ok = ascii(v[i]) && (space(v[i]) ? i < g_front || i >= b || (i > g_front && i + 1 < b) : i >= g_front && i < b);
	ENSURESM("the text reaches trim() unchanged", ok);
	return view<C>{ v.data() + g_front, b - g_front };
}
#define TC(t, T, f, F) extern "C" str<T> g_tc_##t##_##f(view<F> v) { return g_tc<T, F>(v); }
#define TRIM(f, F) extern "C" view<F> g_trim_##f(view<F> v) { return g_trim<F>(v); }
TC(c, char, w, wchar_t) TC(c, char, Du, char8_t) TC(c, char, Ds, char16_t) TC(c, char, Di, char32_t)
TC(w, wchar_t, c, char) TC(w, wchar_t, Du, char8_t) TC(w, wchar_t, Ds, char16_t) TC(w, wchar_t, Di, char32_t)
TC(Du, char8_t, c, char) TC(Du, char8_t, w, wchar_t) TC(Du, char8_t, Ds, char16_t) TC(Du, char8_t, Di, char32_t)
TC(Ds, char16_t, c, char) TC(Ds, char16_t, w, wchar_t) TC(Ds, char16_t, Du, char8_t) TC(Ds, char16_t, Di, char32_t)
TC(Di, char32_t, c, char) TC(Di, char32_t, w, wchar_t) TC(Di, char32_t, Du, char8_t) TC(Di, char32_t, Ds, char16_t)
TRIM(c, char) TRIM(w, wchar_t) TRIM(Du, char8_t) TRIM(Ds, char16_t) TRIM(Di, char32_t)
template <typename C, size_t N> struct text
{
	C c[N + 1];
	text() { for (size_t i = 0; i < N; i++) { c[i] = any<C>(); REQUIRES(ascii(c[i])); } c[N] = C{}; }
	view<C> v() const { return { c, N }; }
	template <typename T> bool is(view<T> s) const { bool ok = s.length() == N; for (size_t i = 0; i < N; i++) if (ok) ok = s[i] == static_cast<T>(c[i]); return ok; }
};
static bool blank(const string_param& s)
{
	return s.empty() && !s && !s.owning() && view<char>{ s }.empty() && view<wchar_t>{ s }.empty() && view<char8_t>{ s }.empty() && view<char16_t>{ s }.empty() && view<char32_t>{ s }.empty();
}
template <typename C> static void blank_strings(string_param&& s) { const str<C> a = std::move(s); ENSURESM("an empty parameter moves into an empty string", a.empty()); }
VP_CONTRACT(empty)
{
	const uint64_t live = vp_live();
	{
		string_param a;
		ENSURESM("a default parameter is an empty string", blank(a));
		string_param b{ std::move(a) };
		ENSURESM("moving an empty parameter gives an empty one", blank(b) && blank(a));
		a = std::move(b);
		ENSURESM("assigning an empty parameter gives an empty one", blank(a) && blank(b));
		a.trim();
		ENSURESM("trimming an empty parameter leaves it empty", blank(a) && blank(string_param{}.trim()));
		blank_strings<char>(string_param{}); blank_strings<wchar_t>(string_param{}); blank_strings<char8_t>(string_param{}); blank_strings<char16_t>(string_param{}); blank_strings<char32_t>(string_param{});
	}
	ENSURESM("nothing is leaked", vp_live() == live);
}
template <typename C> static void sources()
{
	const uint64_t live = vp_live();
	{
		const text<C, 3> t; const str<C> own{ t.c, 3 }; str<C> gone{ t.c, 3 };
		const string_param a{ t.v() }, b{ t.c, size_t(3) }, d{ own }, e{ std::move(gone) };
		ENSURESM("non-empty", !a.empty() && a && !b.empty() && !d.empty() && !e.empty() && e);
		ENSURESM("owns exactly what was moved in", !a.owning() && !b.owning() && !d.owning() && e.owning());
		ENSURESM("yields the characters it was built from", t.is(view<C>{ a }) && t.is(view<C>{ b }) && t.is(view<C>{ d }) && t.is(view<C>{ e }));
		ENSURESM("a view stays a view", view<C>{ a }.data() == t.c && view<C>{ b }.data() == t.c && view<C>{ d }.data() == own.data());
	}
	ENSURESM("nothing is leaked", vp_live() == live);
}
template <typename C> static void nulls()
{
	const uint64_t live = vp_live();
	{
		const C c[2] = { C('x'), C{} };
		const C z[2] = { C{}, C('x') };
		ENSURESM("empty and null sources give an empty parameter", blank(string_param{ view<C>{} }) && blank(string_param{ static_cast<const C*>(nullptr) }) && blank(string_param{ static_cast<const C*>(nullptr), size_t(3) }) && blank(string_param{ z }) && blank(string_param{ c, size_t{} }) && blank(string_param{ str<C>{} }) && blank(string_param{ view<C>{ z, size_t{} } }));
	}
	ENSURESM("nothing is leaked", vp_live() == live);
}
template <typename C> static void pointer()
{
	const C c[4] = { C('x'), C('y'), C{}, C('z') };
	const string_param a{ static_cast<const C*>(c) };
	const view<C> v{ a };
	ENSURESM("a pointer gives the characters up to the terminator, as a view", v.data() == c && v.length() == 2 && !a.owning() && !a.empty());
}
template <bool Own, typename C, size_t N> static string_param make(const text<C, N>& t) { if constexpr (Own) return string_param{ str<C>{ t.c, N } }; else return string_param{ t.v() }; }
template <typename From, typename To, size_t N, bool Own> static void converts()
{
	const uint64_t live = vp_live();
	{
		const text<From, N> t;
		const string_param s = make<Own>(t);
		ENSURESM("converts to the same text", t.is(view<To>{ s }));
		ENSURESM("a converted parameter owns its text", s.owning() == (Own || !std::is_same_v<From, To>) && !s.empty());
		ENSURESM("converts again to the same text", t.is(view<To>{ s }) && view<To>{ s }.data() == view<To>{ s }.data());
		ENSURESM("converts back to the text it was built from", t.is(view<From>{ s }));
		string_param u = make<Own>(t);
		const str<To> o = std::move(u);
		ENSURESM("moves into a string of the same text", t.is(view<To>{ o }));
	}
	ENSURESM("owned buffers are released exactly once", vp_live() == live);
}
template <typename A, bool OwnA, typename B, bool OwnB> static void moves()
{
	const uint64_t live = vp_live();
	{
		const text<A, 3> t; const text<B, 6> w;
		string_param a = make<OwnA>(t), b = make<OwnB>(w);
		string_param c{ std::move(a) };
		ENSURESM("move construction transfers the text", c.owning() == OwnA && t.is(view<A>{ c }) && blank(a));
		c = std::move(b);
		ENSURESM("move assignment transfers the text", c.owning() == OwnB && w.is(view<B>{ c }) && blank(b));
		b = std::move(c);
		ENSURESM("assigning to a moved-from parameter", b.owning() == OwnB && w.is(view<B>{ b }) && blank(c));
		auto& self = b; b = std::move(self);
		ENSURESM("self-move keeps the text", b.owning() == OwnB && w.is(view<B>{ b }));
		b = string_param{};
		ENSURESM("assigning an empty parameter empties", blank(b));
	}
	ENSURESM("owned buffers are released exactly once", vp_live() == live);
}
// text of N characters with A of white space in front and B at the back
template <typename C, size_t N, bool Own, size_t A, size_t B> static void trims()
{
	const uint64_t live = vp_live();
	g_front = A; g_back = B;
	{
		const text<C, N> t;
		for (size_t i = 0; i < A; i++) REQUIRES(space(t.c[i]));
		for (size_t i = N - B; i < N; i++) REQUIRES(space(t.c[i]));
		if constexpr (A + B < N) REQUIRES(!space(t.c[A]) && !space(t.c[N - B - 1]));
		string_param s = make<Own>(t);
		string_param& r = s.trim();
		const view<C> v{ s };
		bool same = v.length() == N - A - B;
		for (size_t i = 0; i < N - A - B; i++) if (same) same = v[i] == t.c[A + i];
		ENSURESM("trim removes exactly the white space at the ends", same && &r == &s && s.empty() == (A + B == N));
		ENSURESM("trim leaves ownership alone", s.owning() == (Own && A + B < N));
	}
	ENSURESM("owned buffers are released exactly once", vp_live() == live);
}
template <typename C, size_t N, bool Own> static void all_trims() { trims<C, N, Own, 0, 0>(); trims<C, N, Own, 1, 0>(); trims<C, N, Own, 0, 1>(); trims<C, N, Own, 1, 1>(); trims<C, N, Own, N - 1, 0>(); trims<C, N, Own, 0, N - 1>(); trims<C, N, Own, N, 0>(); }
// malformed text: whatever it becomes, the parameter stays usable
template <typename From, typename To, bool Own, size_t L> static void malformed()
{
	const uint64_t live = vp_live();
	g_plain = false; g_bad = L;
	{
		From c[2]; c[0] = any<From>(); c[1] = any<From>();
		string_param s; if constexpr (Own) s = string_param{ str<From>{ c, 2 } }; else s = string_param{ c, size_t(2) };
		const view<To> v{ s };
		ENSURESM("stays a valid parameter", v.empty() == s.empty() && (s.owning() || s.empty()));
		string_param m{ std::move(s) };
		ENSURESM("and can be moved", blank(s) && view<To>{ m }.length() == v.length());
		const str<To> o = std::move(m);
		ENSURESM("and converted", o.length() == v.length());
	}
	ENSURESM("owned buffers are released exactly once", vp_live() == live);
}
#define PAIR(f, F, t, T) \
	VP_CONTRACT(convert_##f##_##t) { converts<F, T, 3, false>(); converts<F, T, 3, true>(); } \
	VP_CONTRACT(heap_##f##_##t) { converts<F, T, 6, true>(); } \
	VP_CONTRACT(move_##f##_##t) { moves<F, false, T, false>(); moves<F, false, T, true>(); moves<F, true, T, false>(); moves<F, true, T, true>(); }
#define BAD(f, F, t, T) VP_CONTRACT(malformed_##f##_##t) { malformed<F, T, false, 0>(); malformed<F, T, true, 0>(); malformed<F, T, false, 1>(); malformed<F, T, true, 1>(); }
#define ONE(f, F) PAIR(f, F, c, char) PAIR(f, F, w, wchar_t) PAIR(f, F, u8, char8_t) PAIR(f, F, u16, char16_t) PAIR(f, F, u32, char32_t) \
	VP_CONTRACT(sources_##f) { sources<F>(); } VP_CONTRACT(nulls_##f) { nulls<F>(); } VP_CONTRACT(pointer_##f) { pointer<F>(); } VP_CONTRACT(trim_##f) { all_trims<F, 3, false>(); } VP_CONTRACT(trim_heap_##f) { all_trims<F, 16 / sizeof(F) + 1, true>(); }\
	VP_CONTRACT(trim_back_##f) { trims<F, 3, true, 0, 1>(); } VP_CONTRACT(trim_all_##f) { trims<F, 3, true, 3, 0>(); }
ONE(c, char) ONE(w, wchar_t) ONE(u8, char8_t) ONE(u16, char16_t) ONE(u32, char32_t)
BAD(c, char, w, wchar_t) BAD(c, char, u8, char8_t) BAD(w, wchar_t, u16, char16_t) BAD(u8, char8_t, c, char) BAD(u16, char16_t, c, char) BAD(u32, char32_t, u8, char8_t) BAD(u16, char16_t, u32, char32_t)
VP_CONTRACT(convert_18) { converts<char, char8_t, 18, true>(); }
VP_CONTRACT(convert_back_18) { converts<char16_t, char, 18, false>(); }
