//@ property C11
//@ opt unwind=4 timeout=300
//@ entry (comp_letter|related)_w$ tier=thorough
#include "vp.h"
#include <muu/core.h>
#include <muu/chars.h>
#include <cwchar>
using vp::any;
// one predicate, all character types: the narrower types give the char32_t answer wherever they can represent the code point
#define SAME(p) VP_CONTRACT(same_##p) { \
	{ const char16_t c = any<char16_t>(); REQUIRES(c < 0xD800 || c > 0xDFFF); \
	  ENSURESM("char16_t agrees with char32_t", muu::is_##p(c) == muu::is_##p(static_cast<char32_t>(c))); } \
	{ const char32_t c = any<char32_t>(); \
	  ENSURESM("wchar_t agrees with char32_t", muu::is_##p(static_cast<wchar_t>(c)) == muu::is_##p(c)); } \
	{ const unsigned char c = any<unsigned char>(); const bool r = muu::is_##p(c); \
	  ENSURESM("char agrees with unsigned char", muu::is_##p(static_cast<char>(c)) == r); \
	  ENSURESM("char8_t agrees with unsigned char", muu::is_##p(static_cast<char8_t>(c)) == r); \
	  ENSURESM("an 8-bit unit that is no code point belongs to no class", c < 0x80 || !r); \
	  ENSURESM("unsigned char agrees with char32_t on ASCII", c >= 0x80 || r == muu::is_##p(static_cast<char32_t>(c))); } }
#define TYPES(n, body) VP_CONTRACT(n##_c) { body<char>(); } VP_CONTRACT(n##_uc) { body<unsigned char>(); } VP_CONTRACT(n##_u8) { body<char8_t>(); } \
	VP_CONTRACT(n##_u16) { body<char16_t>(); } VP_CONTRACT(n##_u32) { body<char32_t>(); } VP_CONTRACT(n##_w) { body<wchar_t>(); }
template <typename T> using U = std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>>>;
#define COMPOUND(p) template <typename T> static void comp_##p() { const T c = any<T>(); \
	ENSURESM("a class is the union of its ASCII and non-ASCII parts", muu::is_##p(c) == (muu::is_ascii_##p(c) || muu::is_non_ascii_##p(c))); \
	ENSURESM("is_not_ is the complement", muu::is_not_##p(c) == !muu::is_##p(c)); \
	ENSURESM("the ASCII part lies in ASCII", !muu::is_ascii_##p(c) || U<T>(c) < 0x80); \
	ENSURESM("the non-ASCII part lies outside ASCII", !muu::is_non_ascii_##p(c) || U<T>(c) >= 0x80); \
	} TYPES(comp_##p, comp_##p)
SAME(ascii_code_point)
SAME(ascii_hyphen)
SAME(ascii_letter)
SAME(ascii_lowercase)
SAME(ascii_number)
SAME(ascii_uppercase)
SAME(ascii_whitespace)
SAME(non_ascii_code_point)
SAME(non_ascii_hyphen)
SAME(non_ascii_letter)
SAME(non_ascii_lowercase)
SAME(non_ascii_number)
SAME(non_ascii_uppercase)
SAME(non_ascii_whitespace)
SAME(code_point)
SAME(combining_mark)
SAME(decimal_digit)
SAME(hexadecimal_digit)
SAME(hyphen)
SAME(letter)
SAME(lowercase)
SAME(number)
SAME(octal_digit)
SAME(uppercase)
SAME(whitespace)
COMPOUND(code_point)
COMPOUND(hyphen)
COMPOUND(letter)
COMPOUND(lowercase)
COMPOUND(number)
COMPOUND(uppercase)
COMPOUND(whitespace)
// the ASCII classes, character by character; the digit classes are ASCII-only
template <typename T> static void ascii()
{
	const T t = any<T>();
	const U<T> c = U<T>(t);
	const bool dec = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', a = c < 0x80;
	ENSURES(muu::is_ascii_code_point(t) == a);
	ENSURES(muu::is_ascii_letter(t) == (lo || up));
	ENSURES(muu::is_ascii_lowercase(t) == lo);
	ENSURES(muu::is_ascii_uppercase(t) == up);
	ENSURES(muu::is_ascii_number(t) == dec);
	ENSURES(muu::is_ascii_hyphen(t) == (c == '-'));
	ENSURES(muu::is_ascii_whitespace(t) == (c == ' ' || (c >= 9 && c <= 13)));
	ENSURES(muu::is_hexadecimal_digit(t) == (dec || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')));
	ENSURES(muu::is_decimal_digit(t) == dec);
	ENSURES(muu::is_octal_digit(t) == (c >= '0' && c <= '7'));
	if (sizeof(T) == 1)
	{
		ENSURES(muu::is_code_point(t) == a);
		ENSURES(muu::is_code_point_boundary(t) == (c < 0x80 || c >= 0xC0));
	}
	if (sizeof(T) == 2)
	{
		ENSURES(muu::is_code_point(t) == (c < 0xD800 || c > 0xDFFF));
		ENSURES(muu::is_code_point_boundary(t) == (c < 0xDC00 || c > 0xDFFF));
	}
	if (sizeof(T) == 4)
	{
		ENSURES(muu::is_code_point(t) == (c <= 0x10FFFF));
		ENSURES(muu::is_code_point_boundary(t) == (c <= 0x10FFFF));
	}
}
TYPES(ascii, ascii)
// relations between classes
template <typename T> static void related()
{
	const T c = any<T>();
	ENSURESM("letters, numbers, whitespace and marks are disjoint", muu::is_letter(c) + muu::is_number(c) + muu::is_whitespace(c) + muu::is_combining_mark(c) <= 1);
	ENSURESM("every class holds code points only", muu::is_code_point(c) || !(muu::is_letter(c) || muu::is_number(c) || muu::is_whitespace(c) || muu::is_combining_mark(c) || muu::is_hyphen(c)));
	ENSURESM("no character is both upper and lower case", !(muu::is_uppercase(c) && muu::is_lowercase(c)));
	const U<T> u = U<T>(c);
	const bool ws = (u >= 9 && u <= 13) || u == 0x20 || (sizeof(T) > 1 && (u == 0x85 || u == 0xA0 || u == 0x1680 || (u >= 0x2000 && u <= 0x200A) || u == 0x2028 || u == 0x2029 || u == 0x202F || u == 0x205F || u == 0x3000));
	ENSURESM("whitespace is the Unicode property White_Space", muu::is_whitespace(c) == ws);
}
TYPES(related, related)
