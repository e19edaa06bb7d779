// Reference decoding of one code point, straight from the Unicode standard (table 3-7, section 3.9).
#pragma once
#include "vp.h"
namespace ref
{
	struct cp { char32_t value; unsigned len; }; // len 0: not well-formed at this position
	inline cp at(const uint8_t* p, size_t n)
	{
		if (n == 0) return { 0, 0 };
		const uint8_t b = p[0];
		if (b < 0x80) return { b, 1 };
		if (b < 0xC2 || b > 0xF4) return { 0, 0 };
		const unsigned len = b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
		if (n < len) return { 0, 0 };
		const uint8_t lo = b == 0xE0 ? 0xA0 : b == 0xF0 ? 0x90 : 0x80, hi = b == 0xED ? 0x9F : b == 0xF4 ? 0x8F : 0xBF;
		if (p[1] < lo || p[1] > hi) return { 0, 0 };
		char32_t v = len == 2 ? (b & 0x1Fu) : len == 3 ? (b & 0x0Fu) : (b & 0x07u);
		v = (v << 6) | (p[1] & 0x3Fu);
		if (len > 2) { if ((p[2] & 0xC0) != 0x80) return { 0, 0 }; v = (v << 6) | (p[2] & 0x3Fu); }
		if (len > 3) { if ((p[3] & 0xC0) != 0x80) return { 0, 0 }; v = (v << 6) | (p[3] & 0x3Fu); }
		return { v, len };
	}
	inline cp at(const uint16_t* p, size_t n)
	{
		if (n == 0) return { 0, 0 };
		if (p[0] < 0xD800 || p[0] > 0xDFFF) return { p[0], 1 };
		if (p[0] > 0xDBFF || n < 2 || p[1] < 0xDC00 || p[1] > 0xDFFF) return { 0, 0 };
		return { 0x10000u + ((char32_t)(p[0] - 0xD800) << 10) + (char32_t)(p[1] - 0xDC00), 2 };
	}
	inline cp at(const uint32_t* p, size_t n)
	{
		if (n == 0 || p[0] > 0x10FFFF || (p[0] >= 0xD800 && p[0] <= 0xDFFF)) return { 0, 0 };
		return { p[0], 1 };
	}
	// zero low bytes never outnumber zero high bytes: muu's endianness guess takes such text as platform-endian
	template <typename U, size_t N> inline bool native(const U* p, size_t n)
	{
		if constexpr (sizeof(U) == 1) return true;
		int lo = 0, hi = 0;
		for (size_t i = 0; i < N; i++)
			if (i < n) { lo += (p[i] & 0xFF) == 0; hi += (p[i] >> (sizeof(U) * 8 - 8)) == 0; }
		return hi >= lo && p[0] != (U)0xFFFE;
	}
	template <typename U> inline bool bom(const U* p, size_t n)
	{
		if constexpr (sizeof(U) == 1) return n >= 3 && p[0] == 0xEF && p[1] == 0xBB && p[2] == 0xBF;
		else return n >= 1 && p[0] == (U)0xFEFF;
	}
	// encodes c, S bytes per code unit; returns the number of units
	template <size_t S> inline size_t encode(uint32_t c, uint32_t* o)
	{
		if constexpr (S == 4) { o[0] = c; return 1; }
		else if constexpr (S == 2)
		{
			if (c < 0x10000u) { o[0] = c; return 1; }
			o[0] = 0xD800u | ((c - 0x10000u) >> 10); o[1] = 0xDC00u | ((c - 0x10000u) & 0x3FFu); return 2;
		}
		else
		{
			if (c < 0x80u) { o[0] = c; return 1; }
			if (c < 0x800u) { o[0] = 0xC0u | (c >> 6); o[1] = 0x80u | (c & 0x3Fu); return 2; }
			if (c < 0x10000u) { o[0] = 0xE0u | (c >> 12); o[1] = 0x80u | ((c >> 6) & 0x3Fu); o[2] = 0x80u | (c & 0x3Fu); return 3; }
			o[0] = 0xF0u | (c >> 18); o[1] = 0x80u | ((c >> 12) & 0x3Fu); o[2] = 0x80u | ((c >> 6) & 0x3Fu); o[3] = 0x80u | (c & 0x3Fu); return 4;
		}
	}
}
