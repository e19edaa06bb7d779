//@ property C10
//@ opt unwind=9 timeout=400 bounded=strings_of_at_most_4_code_units_(5_in_the_thorough_tier)
//@ entry (_5|trim_u(8|16)_4)$ tier=thorough
//@ entry _c_[345]$ tier=thorough
#include "utf_ref.h"
#include <muu/strings.h>
template <typename T> using U = std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>>>;
// White_Space of the Unicode standard
static bool ws(char32_t c)
{
	return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
template <typename T, size_t N, int Mode> static void trims()
{
	vp::arr<U<T>, N> s(N, N);
	REQUIRES((ref::native<U<T>, N>(s.p, s.n)));
	REQUIRES(!ref::bom(s.p, s.n));
	size_t first = N, end = 0, i = 0;
	for (size_t j = 0; j < N; j++)
		if (i < N)
		{
			const auto c = ref::at(s.p + i, N - i);
			REQUIRES(c.len > 0);
			if (!ws(c.value)) { if (first == N) first = i; end = i + c.len; }
			i += c.len;
		}
	const std::basic_string_view<T> v{ reinterpret_cast<const T*>(s.p), N };
	const auto r = Mode == 0 ? muu::trim(v) : Mode == 1 ? muu::trim_left(v) : muu::trim_right(v);
	const size_t b = Mode == 2 ? 0 : first, e = Mode == 1 ? N : end;
	if (end == 0) ENSURESM("text of whitespace only becomes empty", r.empty());
	else
	{
		ENSURESM("the result starts at the first character that is kept", r.data() == v.data() + b);
		ENSURESM("the result ends after the last character that is kept", r.length() == e - b);
	}
}
// any text at all: the result lies inside the argument
template <typename T, size_t N, int Mode> static void inside()
{
	vp::arr<U<T>, N> s(N, N);
	const std::basic_string_view<T> v{ reinterpret_cast<const T*>(s.p), N };
	const auto x = Mode == 0 ? muu::trim(v) : Mode == 1 ? muu::trim_left(v) : muu::trim_right(v);
	ENSURESM("the result is a sub-range of the argument", x.empty() || (x.data() >= v.data() && x.data() + x.length() <= v.data() + N && x.length() <= N));
	const std::basic_string_view<T> none{};
	ENSURESM("empty text stays empty", muu::trim(none).empty() && muu::trim_left(none).empty() && muu::trim_right(none).empty());
}
#define E1(n, T, N) VP_CONTRACT(trim_##n##_##N) { trims<T, N, 0>(); } VP_CONTRACT(left_##n##_##N) { trims<T, N, 1>(); } \
	VP_CONTRACT(right_##n##_##N) { trims<T, N, 2>(); }
#define IN(n, T, N) VP_CONTRACT(in_##n##_##N) { inside<T, N, 0>(); } VP_CONTRACT(inl_##n##_##N) { inside<T, N, 1>(); } VP_CONTRACT(inr_##n##_##N) { inside<T, N, 2>(); }
#define E(n, T) E1(n, T, 1) E1(n, T, 2) E1(n, T, 3) E1(n, T, 4) E1(n, T, 5) IN(n, T, 2) IN(n, T, 3)
E(c, char) E(u8, char8_t) E(u16, char16_t) E(u32, char32_t) E(w, wchar_t)
