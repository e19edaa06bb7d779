// Reference grammar of uuid text:  ws* '{'? ws* octet ((ws|'-')* octet){15} ws* '}'? ws*, brace closed iff opened.
#pragma once
#include "vp.h"
namespace ref
{
	struct uuid_text
	{
		unsigned __int128 v = 0;
		unsigned n = 0;             // digits read
		bool open = false, seen = false, bad = false;
		static int digit(uint32_t c) { return c >= '0' && c <= '9' ? int(c - '0') : c >= 'a' && c <= 'f' ? int(c - 'a' + 10) : c >= 'A' && c <= 'F' ? int(c - 'A' + 10) : -1; }
		static bool ws(uint32_t c) { return c == ' ' || (c >= 9 && c <= 13); }
		void step(uint32_t c)
		{
			if (bad) return;
			const int d = digit(c);
			if (n < 32 && d >= 0) { v = (v << 4) | unsigned(d); n++; }
			else if (ws(c)) bad = n < 32 && (n & 1);
			else if (c == '-') bad = n == 0 || n >= 32 || (n & 1);
			else if (c == '{') { bad = n != 0 || seen; open = seen = true; }
			else if (c == '}') { bad = n != 32 || !open; open = false; }
			else bad = true;
		}
		bool ok() const { return !bad && n == 32 && !open; }
	};
}
