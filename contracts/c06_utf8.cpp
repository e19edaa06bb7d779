//@ property C06
//@ opt unwind=20
//@ entry ^ct_step twin=ct_seq
#include "vp.h"
#include <muu/utf8_decoder.h>
using muu::utf8_decoder;
// reference: RFC 3629 / Unicode table 3-7.  len(b0) and the admissible range of every byte of a sequence.
static int seq_len(uint8_t b) { return b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0; }
static bool second_ok(uint8_t b0, uint8_t b1)
{
	switch (b0)
	{
		case 0xE0: return b1 >= 0xA0 && b1 <= 0xBF;
		case 0xED: return b1 >= 0x80 && b1 <= 0x9F;
		case 0xF0: return b1 >= 0x90 && b1 <= 0xBF;
		case 0xF4: return b1 >= 0x80 && b1 <= 0x8F;
		default: return b1 >= 0x80 && b1 <= 0xBF;
	}
}
static void feed(utf8_decoder& d, uint8_t b, unsigned how)
{
	if (how == 0) d(b);
	else if (how == 1) d(static_cast<char>(b));
	else d(static_cast<char8_t>(b));
}
// feeds one sequence (up to its last byte or first offending byte) and states what must be reported after each byte
static void segment(utf8_decoder& d, unsigned how, bool& ended_in_error)
{
	const uint8_t b0 = vp::any<uint8_t>();
	const int n = seq_len(b0);
	char32_t cp = n == 1 ? b0 : n == 2 ? (b0 & 0x1Fu) : n == 3 ? (b0 & 0x0Fu) : (b0 & 0x07u);
	feed(d, b0, how);
	ended_in_error = false;
	if (n == 0) { ENSURESM("an invalid lead byte is an error", d.error() && !d.has_value() && !d.needs_more_input()); ended_in_error = true; return; }
	for (int i = 1; i < 4; i++)
	{
		if (i >= n) break;
		ENSURESM("an incomplete sequence yields neither a code point nor an error", !d.error() && !d.has_value() && d.needs_more_input());
		const uint8_t b = vp::any<uint8_t>();
		feed(d, b, how);
		const bool ok = i == 1 ? second_ok(b0, b) : (b >= 0x80 && b <= 0xBF);
		if (!ok) { ENSURESM("a byte that cannot continue the sequence is an error", d.error() && !d.has_value() && !d.needs_more_input()); ended_in_error = true; return; }
		cp = (cp << 6) | (b & 0x3Fu);
	}
	ENSURESM("a complete sequence yields its code point", d.has_value() && !d.error() && !d.needs_more_input());
	ENSURESM("the code point is the one encoded", d.value() == cp);
	ENSURESM("the code point is a Unicode scalar value", cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF));
}
// inductive form: from any decoder that reports a value (or had its error cleared), whatever its history
VP_CONTRACT(step_value)
{
	utf8_decoder d = *static_cast<utf8_decoder*>(vp_buf(sizeof(utf8_decoder)));
	unsigned char raw[sizeof d];
	for (auto& c : raw) c = vp::any<uint8_t>();
	__builtin_memcpy(&d, raw, sizeof d);
	REQUIRES(d.has_value());
	const unsigned how = vp::any<uint8_t>(); bool e;
	segment(d, how, e);
}
VP_CONTRACT(step_cleared)
{
	utf8_decoder d;
	unsigned char raw[sizeof d];
	for (auto& c : raw) c = vp::any<uint8_t>();
	__builtin_memcpy(&d, raw, sizeof d);
	REQUIRES(d.error());
	d.clear_error();
	ENSURESM("clear_error clears the error", !d.error() && !d.needs_more_input());
	const unsigned how = vp::any<uint8_t>(); bool e;
	segment(d, how, e);
}
VP_CONTRACT(fresh)
{
	utf8_decoder d;
	ENSURESM("a fresh decoder has no error and needs nothing", !d.error() && !d.needs_more_input());
	const unsigned how = vp::any<uint8_t>(); bool e;
	segment(d, how, e);
}
// the same from a fresh decoder through three whole sequences (up to twelve bytes)
VP_CONTRACT(seq)
{
	utf8_decoder d;
	const unsigned how = vp::any<uint8_t>(); bool e;
	segment(d, how, e);
	if (e) d.clear_error();
	segment(d, how, e);
	if (e) d.clear_error();
	segment(d, how, e);
}
