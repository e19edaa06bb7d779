//@ property C07
//@ opt unwind=20
//@ entry ^ct_step twin=ct_seq
#include "vp.h"
#include <muu/utf16_decoder.h>
using muu::utf16_decoder;
static void feed(utf16_decoder& d, uint16_t b, bool how)
{
	if (how) d(b);
	else d(static_cast<char16_t>(b));
}
static void segment(utf16_decoder& d, bool how, bool& err)
{
	const uint16_t u = vp::any<uint16_t>();
	feed(d, u, how);
	err = false;
	if (u >= 0xDC00 && u <= 0xDFFF) { ENSURESM("a lone low surrogate is an error", d.error() && !d.has_value()); err = true; return; }
	if (u < 0xD800 || u > 0xDFFF)
	{
		ENSURESM("a unit outside the surrogate range is that code point", d.has_value() && !d.error() && !d.needs_more_input() && d.value() == u);
		return;
	}
	ENSURESM("a high surrogate alone is not a code point", !d.has_value() && !d.error() && d.needs_more_input());
	const uint16_t v = vp::any<uint16_t>();
	feed(d, v, how);
	if (v < 0xDC00 || v > 0xDFFF) { ENSURESM("a high surrogate not followed by a low one is an error", d.error() && !d.has_value()); err = true; return; }
	ENSURESM("a surrogate pair is its supplementary code point", d.has_value() && !d.error() && !d.needs_more_input()
		&& d.value() == 0x10000u + (((char32_t)u - 0xD800u) << 10) + ((char32_t)v - 0xDC00u));
}
static void arbitrary(utf16_decoder& d)
{
	unsigned char raw[sizeof d];
	for (auto& c : raw) c = vp::any<uint8_t>();
	__builtin_memcpy(&d, raw, sizeof d);
}
VP_CONTRACT(step_value)
{
	utf16_decoder d; arbitrary(d);
	REQUIRES(d.has_value());
	const bool how = vp::any<bool>(); bool e;
	segment(d, how, e);
}
VP_CONTRACT(step_cleared)
{
	utf16_decoder d; arbitrary(d);
	REQUIRES(d.error());
	d.clear_error();
	ENSURESM("clear_error clears the error", !d.error() && !d.needs_more_input());
	const bool how = vp::any<bool>(); bool e;
	segment(d, how, e);
}
VP_CONTRACT(fresh)
{
	utf16_decoder d;
	ENSURESM("a fresh decoder has no error and needs nothing", !d.error() && !d.needs_more_input() && !d.has_value());
	const bool how = vp::any<bool>(); bool e;
	segment(d, how, e);
}
VP_CONTRACT(seq)
{
	utf16_decoder d;
	const bool how = vp::any<bool>(); bool e;
	segment(d, how, e);
	if (e) d.clear_error();
	segment(d, how, e);
	if (e) d.clear_error();
	segment(d, how, e);
}
