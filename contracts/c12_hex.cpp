//@ property C12
//@ opt unwind=4 timeout=300
#include "vp.h"
#include <muu/core.h>
#include <muu/chars.h>
using vp::any;
template <typename T> using U = std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>>>;
template <typename T> static void hex()
{
	const T c = any<T>();
	const U<T> u = U<T>(c);
	REQUIRES((u >= '0' && u <= '9') || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F'));
	ENSURESM("hex_to_dec is the value of the digit", muu::hex_to_dec(c) == (u <= '9' ? u - '0' : u >= 'a' ? u - 'a' + 10u : u - 'A' + 10u));
}
template <typename T> static void dec()
{
	const unsigned v = any<unsigned>();
	REQUIRES(v < 16);
	const U<T> lo = U<T>(muu::dec_to_hex<T>(v)), up = U<T>(muu::dec_to_hex<T>(v, T('A')));
	ENSURESM("dec_to_hex writes the lower-case digit", lo == (v < 10 ? '0' + v : 'a' + (v - 10)));
	ENSURESM("dec_to_hex writes the upper-case digit on request", up == (v < 10 ? '0' + v : 'A' + (v - 10)));
	ENSURESM("the digit reads back as the value", muu::hex_to_dec(muu::dec_to_hex<T>(v)) == v && muu::hex_to_dec(muu::dec_to_hex<T>(v, T('A'))) == v);
	const uint8_t b = any<uint8_t>();
	const auto p = muu::byte_to_hex<T>(b), q = muu::byte_to_hex<T>(b, T('A')), s = muu::byte_to_hex<T>(std::byte{ b });
	ENSURESM("a byte reads back from its two digits", muu::hex_to_dec(p.high) * 16u + muu::hex_to_dec(p.low) == b);
	ENSURESM("a byte reads back from its two upper-case digits", muu::hex_to_dec(q.high) * 16u + muu::hex_to_dec(q.low) == b);
	ENSURESM("the digits are hexadecimal digits", muu::is_hexadecimal_digit(p.high) && muu::is_hexadecimal_digit(p.low) && muu::is_hexadecimal_digit(q.high) && muu::is_hexadecimal_digit(q.low));
	ENSURESM("lower case by default, upper case on request", U<T>(p.high) != 'A' && !muu::is_ascii_uppercase(p.high) && !muu::is_ascii_uppercase(p.low) && !muu::is_ascii_lowercase(q.high) && !muu::is_ascii_lowercase(q.low));
	ENSURESM("std::byte writes the same digits", s.high == p.high && s.low == p.low);
}
#define E(n, T) VP_CONTRACT(hex_##n) { hex<T>(); } VP_CONTRACT(dec_##n) { dec<T>(); }
E(c, char) E(u8, char8_t) E(u16, char16_t) E(u32, char32_t) E(w, wchar_t)
VP_CONTRACT(hex_uc) { hex<unsigned char>(); } VP_CONTRACT(hex_u) { hex<unsigned>(); }
