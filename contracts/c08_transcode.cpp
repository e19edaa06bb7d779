//@ property C08
//@ opt unwind=18 timeout=400 bounded=strings_of_at_most_4_code_units
//@ entry _1$ unwind=6
//@ entry _2$ unwind=10
//@ entry _3$ unwind=14
//@ entry tc_(c_w|c_u32|u16_w|u16_c)_3$ tier=thorough
//@ entry tc_(u8|u16|c)_.*_4$ tier=thorough timeout=2000
//@ replace _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm m_append_c
//@ replace _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7reserveEm m_reserve_c
//@ replace _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9push_backEc m_push_c
//@ replace _ZNSt7__cxx1112basic_stringIDuSt11char_traitsIDuESaIDuEE9_M_appendEPKDum m_append_Du
//@ replace _ZNSt7__cxx1112basic_stringIDuSt11char_traitsIDuESaIDuEE7reserveEm m_reserve_Du
//@ replace _ZNSt7__cxx1112basic_stringIDuSt11char_traitsIDuESaIDuEE9push_backEDu m_push_Du
//@ replace _ZNSt7__cxx1112basic_stringIDsSt11char_traitsIDsESaIDsEE9_M_appendEPKDsm m_append_Ds
//@ replace _ZNSt7__cxx1112basic_stringIDsSt11char_traitsIDsESaIDsEE7reserveEm m_reserve_Ds
//@ replace _ZNSt7__cxx1112basic_stringIDsSt11char_traitsIDsESaIDsEE9push_backEDs m_push_Ds
//@ replace _ZNSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEE9_M_appendEPKDim m_append_Di
//@ replace _ZNSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEE7reserveEm m_reserve_Di
//@ replace _ZNSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEE9push_backEDi m_push_Di
//@ replace _ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_appendEPKwm m_append_w
//@ replace _ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE7reserveEm m_reserve_w
//@ replace _ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9push_backEw m_push_w
#include "utf_ref.h"
#include <muu/strings.h>
// assumed contract of libstdc++'s string growth (trusted): appends go to the end of one buffer that is large enough
template <typename T> static void m_grow(std::basic_string<T>& s)
{
	constexpr size_t cap = 20;
	if (s._M_is_local())
	{
		T* d = static_cast<T*>(::operator new(cap * sizeof(T)));
		s._M_data(d);
		s._M_capacity(cap - 1);
	}
}
template <typename T> static std::basic_string<T>& m_append(std::basic_string<T>& s, const T* p, size_t n)
{
	constexpr size_t cap = 20;
	m_grow(s);
	T* const d = s._M_data();
	const size_t len = s.length();
	REQUIRES(len + n < cap && n <= 4);
	for (size_t k = 0; k < 4; k++)
		if (k < n) d[len + k] = p[k];
	d[len + n] = T{};
	s._M_length(len + n);
	return s;
}
#define M(k, T) extern "C" { std::basic_string<T>& m_append_##k(std::basic_string<T>& s, const T* p, size_t n) { return m_append<T>(s, p, n); } \
	void m_push_##k(std::basic_string<T>& s, T c) { m_append<T>(s, &c, 1); } \
	void m_reserve_##k(std::basic_string<T>& s, size_t) { m_grow(s); } }
M(c, char) M(Du, char8_t) M(Ds, char16_t) M(Di, char32_t) M(w, wchar_t)
template <typename T> using U = std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>>>;
// well-formed text in one encoding becomes the same code points in the other
template <typename To, typename From, size_t N> static void tc()
{
	vp::arr<U<From>, N> s(N, N);
	REQUIRES(N == 0 || (ref::native<U<From>, N>(s.p, s.n)));
	REQUIRES(!ref::bom(s.p, s.n));
	uint32_t want[4 * N + 1] = {};
	size_t k = 0, i = 0;
	for (size_t j = 0; j < N; j++)
		if (i < N)
		{
			const auto c = ref::at(s.p + i, N - i);
			REQUIRES(c.len > 0);
			k += ref::encode<sizeof(To)>(c.value, want + k);
			i += c.len;
		}
	const auto out = muu::transcode<To>(std::basic_string_view<From>{ reinterpret_cast<const From*>(s.p), N });
	ENSURESM("the result has the length of the same code points in the target encoding", out.length() == k);
	bool same = true;
	for (size_t j = 0; j < 4 * N; j++)
		if (j < k && j < out.length()) same = same && U<To>(out[j]) == want[j];
	ENSURESM("the result holds the same code points, in order", same);
}
#define E1(a, A, b, B, N) VP_CONTRACT(tc_##a##_##b##_##N) { tc<B, A, N>(); }
#define E(a, A, b, B) E1(a, A, b, B, 1) E1(a, A, b, B, 2) E1(a, A, b, B, 3) E1(a, A, b, B, 4)
E(c, char, u16, char16_t) E(c, char, u32, char32_t) E(c, char, w, wchar_t) E(c, char, u8, char8_t)
E(u16, char16_t, c, char) E(u16, char16_t, u8, char8_t) E(u16, char16_t, u32, char32_t) E(u16, char16_t, w, wchar_t)
E(u32, char32_t, c, char) E(u32, char32_t, u8, char8_t) E(u32, char32_t, u16, char16_t) E(u32, char32_t, w, wchar_t)
E(w, wchar_t, c, char) E(w, wchar_t, u16, char16_t) E(w, wchar_t, u32, char32_t)
E(u8, char8_t, c, char) E(u8, char8_t, u16, char16_t) E(u8, char8_t, u32, char32_t)
