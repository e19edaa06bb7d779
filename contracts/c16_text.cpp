//@ property C16
//@ opt unwind=42 timeout=400
//@ entry ^ct_win_ bounded=one_window_of_arbitrary_characters_in_text_of_the_named_length
//@ entry ^ct_short_ bounded=texts_of_fewer_than_32_characters
//@ entry _u16$ cost=5
//@ entry ^ct_witness mode=native
//@ replace _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l gh_insert
//@ replace _ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l gh_winsert
//@ src uuid.cpp hashing.cpp
#include "vp.h"
#include <muu/core.h>
#include <muu/uuid.h>
#include "uuid_ref.h"
#include <ostream>
#include <sstream>
using vp::any;
typedef unsigned __int128 u128;
// L characters starting with pre (text), positions [w, w+k) arbitrary
template <typename C, size_t L> static void win(const char* base, size_t w, size_t k)
{
	C s[L];
	ref::uuid_text t;
	for (size_t i = 0; i < L; i++) s[i] = static_cast<C>(base[i]);
	for (size_t i = 0; i < k; i++) s[w + i] = any<C>();
	using U = typename vp::uint_of<sizeof(C)>::type;
	if constexpr (sizeof(C) > 1) for (size_t i = 0; i < k; i++) REQUIRES(static_cast<U>(s[w + i]) < 0x80 && s[w + i] != 0);
	for (size_t i = 0; i < L; i++) t.step(static_cast<U>(s[i]));
	const auto r = muu::uuid::parse(std::basic_string_view<C>{ s, L });
	ENSURESM("text is accepted exactly when it is a uuid", r.has_value() == t.ok());
	if (t.ok() && r.has_value()) ENSURESM("the parsed value is the digits of the text", static_cast<u128>(*r) == t.v);
}
static const char* const C36 = "0a1B2c3D-4e5F-6071-8293-A4b5C6d7E8f9";
static const char* const B38 = "{0a1B2c3D-4e5F-6071-8293-A4b5C6d7E8f9}";
static const char* const P32 = "0a1B2c3D4e5F60718293A4b5C6d7E8f9";
static const char* const S40 = " {0a1B2c3D-4e5F-6071-8293-A4b5C6d7E8f9} ";
VP_CONTRACT(win_36_34) { win<char, 36>(C36, 34, 2); }
VP_CONTRACT(win_38_36) { win<char, 38>(B38, 36, 2); }
VP_CONTRACT(win_40_38) { win<char, 40>(S40, 38, 2); }
VP_CONTRACT(win_32_30) { win<char, 32>(P32, 30, 2); }
VP_CONTRACT(win_36_30_u8) { win<char8_t, 36>(C36, 34, 2); }
VP_CONTRACT(win_36_30_u16) { win<char16_t, 36>(C36, 35, 1); }
VP_CONTRACT(win_36_30_u32) { win<char32_t, 36>(C36, 34, 2); }
VP_CONTRACT(win_36_30_w) { win<wchar_t, 36>(C36, 34, 2); }
#define X(p) VP_CONTRACT(win_36_##p##_x32) { win<char32_t, 36>(C36, p, 1); } VP_CONTRACT(win_38_##p##_x32) { win<char32_t, 38>(B38, p, 1); }
X(0) X(1) X(2) X(8) X(9) X(13) X(24) X(35)
template <size_t L> static void shorter()
{
	char s[L + 1];
	for (size_t i = 0; i < L; i++) s[i] = any<char>();
	ENSURESM("text too short for 32 digits is rejected", !muu::uuid::parse(std::string_view{ s, L }).has_value());
}
VP_CONTRACT(short_0) { shorter<0>(); }
VP_CONTRACT(short_31) { shorter<31>(); }

// native search only: a random near-valid text
VP_CONTRACT(witness)
{
	char s[64];
	size_t n = 0;
	static const char al[] = "0123456789abcdefABCDEF-- \t{}g.:";
	const auto pick = [&](const char* a, size_t m) { s[n++] = a[any<uint8_t>() % m]; };
	const bool br = any<bool>(), hy = any<bool>();
	if (any<uint8_t>() % 4 == 0) s[n++] = ' ';
	if (br) s[n++] = '{';
	for (int i = 0; i < 32; i++)
	{
		if (i && i % 2 == 0 && (hy ? (i == 8 || i == 12 || i == 16 || i == 20) : any<uint8_t>() % 16 == 0)) s[n++] = '-';
		pick(al, 22);
	}
	if (br) s[n++] = '}';
	if (any<uint8_t>() % 4 == 0) s[n++] = ' ';
	const unsigned m = any<uint8_t>() % 4;
	for (unsigned i = 0; i < m % 3; i++) s[any<uint8_t>() % n] = al[any<uint8_t>() % (sizeof(al) - 1)];
	if (m == 3) { const size_t p = any<uint8_t>() % n; for (size_t i = n; i > p; i--) s[i] = s[i - 1]; n++; s[p] = al[any<uint8_t>() % (sizeof(al) - 1)]; }
	ref::uuid_text t;
	for (size_t i = 0; i < n; i++) t.step(static_cast<uint8_t>(s[i]));
	const auto r = muu::uuid::parse(std::string_view{ s, n });
	ENSURESM("text is accepted exactly when it is a uuid", r.has_value() == t.ok());
	if (t.ok() && r.has_value()) ENSURESM("the parsed value is the digits of the text", static_cast<u128>(*r) == t.v);
}

// ---- printing
static uint32_t g_out[64];
static uint64_t g_n;
static unsigned g_calls;
template <typename C> static void rec(const C* p, int64_t n)
{
	g_calls++;
	g_n = uint64_t(n);
	for (int64_t i = 0; i < 40; i++) if (i < n) g_out[i] = static_cast<typename vp::uint_of<sizeof(C)>::type>(p[i]);
}
extern "C" void* gh_insert(void* os, const char* p, int64_t n) { rec(p, n); return os; }
extern "C" void* gh_winsert(void* os, const wchar_t* p, int64_t n) { rec(p, n); return os; }
template <typename C> static void print()
{
	g_calls = 0; g_n = 0;
	muu::uuid id{ nullptr };
	for (int i = 0; i < 16; i++) id.bytes.value[i] = std::byte{ any<uint8_t>() };
#ifdef VP_REPLAY
	std::basic_ostringstream<C> os;
	os << id;
	const auto str = os.str();
	rec(str.data(), int64_t(str.size()));
#else
	alignas(16) static char dummy[sizeof(std::basic_ostream<C>)];
	auto& os = reinterpret_cast<std::basic_ostream<C>&>(dummy);
	auto& r = os << id;
	ENSURESM("the stream is returned", &r == &os);
#endif
	ENSURESM("one piece of text of 36 characters is written", g_calls == 1 && g_n == 36);
	ref::uuid_text t;
	bool shape = true, upper = true;
	unsigned d = 0;
	for (unsigned i = 0; i < 36; i++)
	{
		const uint32_t c = g_out[i];
		if (i == 8 || i == 13 || i == 18 || i == 23) shape = shape && c == '-';
		else
		{
			shape = shape && ref::uuid_text::digit(c) == int((unsigned(id.bytes.value[d / 2]) >> ((d & 1) ? 0 : 4)) & 15u);
			upper = upper && !(c >= 'a' && c <= 'f');
			d++;
		}
		t.step(c);
	}
	ENSURESM("the digits of the bytes are printed in order, grouped 8-4-4-4-12", shape);
	ENSURESM("letters are upper case", upper);
	ENSURESM("the printed text is a uuid whose value is the one printed", t.ok() && t.v == static_cast<u128>(id));
}
VP_CONTRACT(print_c) { print<char>(); }
VP_CONTRACT(print_w) { print<wchar_t>(); }
