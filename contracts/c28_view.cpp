//@ property C28
//@ opt unwind=6 timeout=120
#include "vp.h"
#include <utility>
#include <tuple>
#include <muu/function_view.h>
#include <muu/compressed_pair.h>
#include <muu/strong_typedef.h>
using vp::any;
// ------------------------------------------------------------------------------------------------ function_view
static uint64_t f1(uint64_t a, uint32_t b) noexcept { return a * 3 + b; }
static uint64_t f2(uint64_t a, uint32_t b) noexcept { return (a ^ 5) - b; }
struct member_state { uint64_t k, calls; uint64_t operator()(uint64_t a, uint32_t b) noexcept { calls++; return a + k - b; } };
struct const_state { uint64_t k; uint64_t operator()(uint64_t a, uint32_t b) const noexcept { return (a ^ k) + b; } };
using FV = muu::function_view<uint64_t(uint64_t, uint32_t) noexcept>;
using FT = muu::function_view<uint64_t(uint64_t, uint32_t)>;
template <typename V> static void views()
{
	const uint64_t a = any<uint64_t>(), k = any<uint64_t>();
	const uint32_t b = any<uint32_t>();
	const V none;
	ENSURESM("a default view is empty", !none);
	{ V v{ f1 }; ENSURESM("calls the function", v && v(a, b) == f1(a, b)); }
	const bool w = any<bool>();
	uint64_t (*p)(uint64_t, uint32_t) noexcept = w ? f1 : f2;
	{ V v{ p }; auto q = p; p = nullptr; ENSURESM("calls the function pointed to, also after the pointer is gone", v && v(a, b) == q(a, b)); p = q; }
	{ V v{ *p }; ENSURESM("calls the referenced function", v && v(a, b) == p(a, b)); }
	{ V v{ [](uint64_t x, uint32_t y) noexcept { return x - y; } }; ENSURESM("a stateless lambda may be a temporary", v && v(a, b) == a - b); }
	{ auto l = [](uint64_t x, uint32_t y) noexcept { return x - 2 * y; }; V v{ l }; ENSURESM("calls the stateless lambda", v && v(a, b) == a - 2 * b); }
	uint64_t calls = any<uint64_t>(); const uint64_t c0 = calls;
	auto l = [&calls, k](uint64_t x, uint32_t y) noexcept { calls++; return (x & k) + y; };
	{ V v{ l }; ENSURESM("calls the stateful lambda", v && v(a, b) == (a & k) + b);
	  ENSURESM("calls it once per call", calls == c0 + 1); (void)v(a, b); ENSURESM("calls it once per call", calls == c0 + 2); }
	member_state m{ k, c0 };
	{ V v{ m }; ENSURESM("calls the object itself, not a copy", v && v(a, b) == a + k - b && m.calls == c0 + 1);
	  m.k = a; ENSURESM("sees later changes of the object", v(a, b) == a + a - b && m.calls == c0 + 2); }
	const const_state cs{ k };
	{ V v{ cs }; ENSURESM("calls a const callable", v && v(a, b) == (a ^ k) + b); }
	// views are values: copies and assignments refer to the same callable, whatever happens to the original view
	V x{ p }, y{ l }, z;
	{ V c{ x }; x = y; ENSURESM("a copy of a view refers to the callable of the original", c && c(a, b) == p(a, b)); }
	ENSURESM("assignment rebinds", x && x(a, b) == (a & k) + b && calls == c0 + 3);
	{ const V cx{ m }; m.k = k; V c = cx; V d{ static_cast<V&&>(c) }; c = z; ENSURESM("a moved-to view refers to the same callable", d && d(a, b) == a + k - b && !c); }
	{ V c{ z }, d{ none }; ENSURESM("a copy of an empty view is empty", !c && !d); V e; e = x; ENSURESM("an empty view can be assigned", e && e(a, b) == (a & k) + b); e = V{}; ENSURESM("and emptied", !e); }
	x = p; // implicit conversion
	ENSURESM("a function converts to a view", x && x(a, b) == p(a, b));
}
VP_CONTRACT(fv_noexcept) { views<FV>(); }
VP_CONTRACT(fv) { views<FT>(); }
struct arg { uint64_t v; uint32_t copies, moves;
	arg(uint64_t x) noexcept : v{ x }, copies{}, moves{} {}
	arg(const arg& o) noexcept : v{ o.v }, copies{ o.copies + 1 }, moves{ o.moves } {}
	arg(arg&& o) noexcept : v{ o.v }, copies{ o.copies }, moves{ o.moves + 1 } { o.v = ~o.v; } };
static void by_ref(uint64_t& x, const uint64_t* y) { x += *y; }
static uint64_t& give(uint64_t* x) { return *x; }
static uint64_t sum(arg x, const arg& y, arg&& z) { return x.copies || y.copies || z.copies ? 0 : x.v ^ (y.v << 1 | y.v >> 63) ^ (z.v << 2 | z.v >> 62); }
VP_CONTRACT(fv_arguments)
{
	uint64_t x = any<uint64_t>(); const uint64_t y = any<uint64_t>(), z = any<uint64_t>(), x0 = x;
	{ muu::function_view<void(uint64_t&, const uint64_t*)> v{ by_ref }; v(x, &y); ENSURESM("reference and pointer arguments reach the function", x == x0 + y); }
	{ muu::function_view<uint64_t&(uint64_t*)> v{ give }; uint64_t& r = v(&x); ENSURESM("a reference result is the same object", &r == &x); }
	{ auto h = [](int64_t a) noexcept { return a; }; muu::function_view<int64_t(int16_t) noexcept> v{ h }; const int16_t s = any<int16_t>(); ENSURESM("arguments are converted", v(s) == s); }
	{ muu::function_view<uint64_t(arg, const arg&, arg&&)> v{ sum }; arg q{ y }; arg r{ z };
	  ENSURESM("arguments are forwarded in order, without copies", v(arg{ x }, q, static_cast<arg&&>(r)) == (x ^ (y << 1 | y >> 63) ^ (z << 2 | z >> 62))); }
	{ muu::function_view v{ f1 }; const uint32_t b = any<uint32_t>(); ENSURESM("the signature is deduced from a function", v && v(y, b) == f1(y, b)); }
	{ auto l = [y](uint64_t a, uint32_t b) noexcept { return a - y * b; }; muu::function_view v{ l }; const uint32_t b = any<uint32_t>(); ENSURESM("the signature is deduced from a lambda", v && v(z, b) == z - y * b); }
	{ bool hit = false; auto l = [&hit]() noexcept { hit = true; }; muu::function_view<void() noexcept> v{ l }; ENSURESM("constructing a view calls nothing", !hit); v(); ENSURESM("a call calls", hit); }
}
// ---------------------------------------------------------------------------------------------- compressed_pair
template <int I> struct none { bool operator==(const none&) const { return true; } };
template <int I> struct none_final final { bool operator==(const none_final&) const { return true; } };
template <typename T> static T val() { if constexpr (std::is_empty_v<T>) return T{}; else return any<T>(); }
template <typename F, typename S> static void pair()
{
	using P = muu::compressed_pair<F, S>;
	const F f = val<F>(), f2 = val<F>(); const S s = val<S>(), s2 = val<S>();
	P p{ f, s };
	const P& c = p;
	ENSURESM("first() and second() are the values given", p.first() == f && p.second() == s && c.first() == f && c.second() == s);
	ENSURESM("the members are inside the pair", reinterpret_cast<const char*>(&c.first()) >= reinterpret_cast<const char*>(&c) && reinterpret_cast<const char*>(&c.second()) >= reinterpret_cast<const char*>(&c)
		&& reinterpret_cast<const char*>(&c.first()) + sizeof(F) <= reinterpret_cast<const char*>(&c + 1) && reinterpret_cast<const char*>(&c.second()) + sizeof(S) <= reinterpret_cast<const char*>(&c + 1));
	ENSURESM("every form of access denotes the same member", &p.template get<0>() == &p.first() && &p.template get<1>() == &p.second() && &c.template get<0>() == &p.first() && &c.template get<1>() == &p.second()
		&& &c.first() == &p.first() && &c.second() == &p.second());
	{ F&& a = static_cast<P&&>(p).first(); S&& b = static_cast<P&&>(p).second(); const F&& d = static_cast<const P&&>(p).first(); const S&& e = static_cast<const P&&>(p).second();
	  F&& a2 = static_cast<P&&>(p).template get<0>(); S&& b2 = static_cast<P&&>(p).template get<1>(); const F&& d2 = static_cast<const P&&>(p).template get<0>(); const S&& e2 = static_cast<const P&&>(p).template get<1>();
	  ENSURESM("rvalue access denotes the same member", &a == &p.first() && &b == &p.second() && &d == &p.first() && &e == &p.second() && &a2 == &a && &b2 == &b && &d2 == &d && &e2 == &e); }
	{ auto& [x, y] = p; ENSURESM("structured bindings name the members in order", &x == &p.first() && &y == &p.second()); }
	P q{ p };
	ENSURESM("a copy is equal", q.first() == f && q.second() == s);
	q.first() = f2;
	ENSURESM("writing the first member leaves the second alone", q.first() == f2 && q.second() == s && p.first() == f);
	q.second() = s2;
	ENSURESM("writing the second member leaves the first alone", q.first() == f2 && q.second() == s2 && p.second() == s);
	p.swap(q);
	ENSURESM("swap exchanges both members", p.first() == f2 && p.second() == s2 && q.first() == f && q.second() == s);
	using std::swap;
	swap(p, q);
	ENSURESM("swap exchanges both members", p.first() == f && p.second() == s && q.first() == f2 && q.second() == s2);
	p = q;
	ENSURESM("assignment copies both members", p.first() == f2 && p.second() == s2 && q.first() == f2 && q.second() == s2);
	P m{ static_cast<P&&>(p) };
	p = P{ f, s };
	ENSURESM("moves transfer both members", m.first() == f2 && m.second() == s2 && p.first() == f && p.second() == s);
	{ muu::compressed_pair d{ f, s2 }; ENSURESM("the member types are deduced in order", std::is_same_v<decltype(d), P> && d.first() == f && d.second() == s2); }
}
VP_CONTRACT(pair_scalar) { pair<uint32_t, uint64_t>(); pair<uint64_t, uint8_t>(); pair<bool, uint16_t>(); pair<uint32_t, uint32_t>(); }
VP_CONTRACT(pair_empty) { pair<none<0>, uint64_t>(); pair<uint32_t, none<0>>(); pair<none<0>, none<1>>(); pair<none_final<0>, uint64_t>(); pair<uint16_t, none_final<1>>(); pair<none_final<0>, none<1>>(); }
// mixed order of effects: a pair of non-trivial members constructs, copies, moves and destroys each of them once
static uint64_t alive[2], bad;
template <int I> struct live { uint64_t v; bool moved = false;
	live(uint64_t x = 0) noexcept : v{ x } { alive[I]++; } live(const live& o) noexcept : v{ o.v } { if (o.moved) bad++; alive[I]++; }
	live(live&& o) noexcept : v{ o.v } { if (o.moved) bad++; o.moved = true; alive[I]++; } ~live() noexcept { alive[I]--; }
	live& operator=(const live& o) noexcept { v = o.v; moved = o.moved; return *this; } live& operator=(live&& o) noexcept { v = o.v; moved = o.moved; if (&o != this) o.moved = true; return *this; } };
VP_CONTRACT(pair_members)
{
	const uint64_t a = any<uint64_t>(), b = any<uint64_t>(), a0 = alive[0], b0 = alive[1], bad0 = bad;
	{
		using P = muu::compressed_pair<live<0>, live<1>>;
		P p{ a, b };
		P q{ live<0>{ b }, live<1>{ a } };
		ENSURESM("one member of each kind per pair", alive[0] == a0 + 2 && alive[1] == b0 + 2);
		P r{ static_cast<P&&>(p) };
		ENSURESM("moving moves both members", p.first().moved && p.second().moved && r.first().v == a && r.second().v == b && !r.first().moved && !r.second().moved);
		P s{ q };
		ENSURESM("copying moves nothing", !q.first().moved && !q.second().moved && s.first().v == b && s.second().v == a);
		s.swap(r);
		ENSURESM("swap exchanges non-trivial members", s.first().v == a && s.second().v == b && r.first().v == b && r.second().v == a && !s.first().moved && !r.second().moved);
		auto t = static_cast<P&&>(s).template get<1>();
		ENSURESM("rvalue get moves only the member asked for", t.v == b && s.second().moved && !s.first().moved);
	}
	ENSURESM("every member is destroyed", alive[0] == a0 && alive[1] == b0 && bad == bad0);
}
// ----------------------------------------------------------------------------------------------- strong_typedef
namespace tr = muu::strong_typedef_traits;
template <typename T> using strong = muu::strong_typedef<T, struct tag, tr::pointer_arithmetic, tr::addable, tr::subtractable, tr::incrementable, tr::decrementable, tr::comparable, tr::boolean>;
template <typename S, typename R> static void ops(R a, R b)
{
	S x{ a }, y{ b };
	ENSURESM("value is the value given", x.value == a && y.value == b);
	ENSURESM("conversion to the value type refers to the value", &static_cast<R&>(x) == &x.value && &static_cast<const R&>(static_cast<const S&>(y)) == &y.value);
	ENSURESM("==", (x == y) == (a == b)); ENSURESM("!=", (x != y) == (a != b)); ENSURESM("<", (x < y) == (a < b));
	ENSURESM("<=", (x <= y) == (a <= b)); ENSURESM(">", (x > y) == (a > b)); ENSURESM(">=", (x >= y) == (a >= b));
	ENSURESM("bool", static_cast<bool>(x) == static_cast<bool>(a)); ENSURESM("!", !y == !b);
	ENSURESM("binary +", (x + y).value == a + b); ENSURESM("binary -", (x - y).value == a - b);
	ENSURESM("unary +", (+x).value == +a); ENSURESM("unary -", (-x).value == -a);
	ENSURESM("operators leave the operands alone", x.value == a && y.value == b);
	{ R c = a; ++c; S& r = ++x; ENSURESM("pre-increment", &r == &x && x.value == c); x = S{ a }; }
	{ R c = a; c++; S r = x++; ENSURESM("post-increment", r.value == a && x.value == c); x = S{ a }; }
	{ R c = b; --c; S& r = --y; ENSURESM("pre-decrement", &r == &y && y.value == c); y = S{ b }; }
	{ R c = b; c--; S r = y--; ENSURESM("post-decrement", r.value == b && y.value == c); y = S{ b }; }
	{ S z{ x }; z = y; const S w{ static_cast<S&&>(x) }; ENSURESM("copies hold the value", z.value == b && w.value == a); }
}
VP_CONTRACT(strong_unsigned) { ops<strong<uint32_t>, uint32_t>(any<uint32_t>(), any<uint32_t>()); ops<strong<uint64_t>, uint64_t>(any<uint64_t>(), any<uint64_t>()); }
VP_CONTRACT(strong_signed)
{
	const int64_t a = static_cast<int32_t>(any<uint32_t>()), b = static_cast<int32_t>(any<uint32_t>());
	ops<strong<int64_t>, int64_t>(a, b);
	const int32_t c = any<int16_t>(), d = any<int16_t>();
	ops<strong<int>, int>(c, d);
	static char buf[1 << 17];
	char* m = buf + (1 << 16);
	strong<int> x{ c };
	ENSURESM("pointer + strong", m + x == m + c); ENSURESM("strong + pointer", x + m == m + c); ENSURESM("pointer - strong", m - x == m - c);
	const bool t = any<bool>();
	const muu::strong_typedef<const char*, tag, tr::comparable, tr::boolean> p{ m + c }, n{ t ? m + d : nullptr };
	ENSURESM("strong pointers compare", (p == n) == (m + c == n.value) && (p != n) != (p == n) && static_cast<bool>(n) == t && !n != t && p);
}
VP_CONTRACT(strong_float)
{
	const float a = any<float>(), b = any<float>();
	strong<float> x{ a }, y{ b };
	ENSURESM("float ==", (x == y) == (a == b)); ENSURESM("float !=", (x != y) == (a != b)); ENSURESM("float <", (x < y) == (a < b));
	ENSURESM("float <=", (x <= y) == (a <= b)); ENSURESM("float >", (x > y) == (a > b)); ENSURESM("float >=", (x >= y) == (a >= b));
	ENSURESM("float bool", static_cast<bool>(x) == static_cast<bool>(a)); ENSURESM("float !", !y == !b);
	ENSURESM("float unary -", vp::bits((-x).value) == (vp::bits(a) ^ 0x80000000u) && vp::bits((+x).value) == vp::bits(a));
}
// a class with unrelated, asymmetric operators: each strong operator must be the operator of the same name
struct odd { uint64_t v;
	friend bool operator==(const odd& a, const odd& b) noexcept { return a.v * 3 == b.v; } friend bool operator!=(const odd& a, const odd& b) noexcept { return a.v + 7 == b.v; }
	friend bool operator<(const odd& a, const odd& b) noexcept { return (a.v ^ b.v * 2) & 1; } friend bool operator<=(const odd& a, const odd& b) noexcept { return (a.v ^ b.v * 2) & 2; }
	friend bool operator>(const odd& a, const odd& b) noexcept { return (a.v ^ b.v * 2) & 4; } friend bool operator>=(const odd& a, const odd& b) noexcept { return (a.v ^ b.v * 2) & 8; }
	friend odd operator+(const odd& a, const odd& b) noexcept { return { a.v * 5 + b.v }; } friend odd operator-(const odd& a, const odd& b) noexcept { return { a.v * 7 + b.v }; }
	friend odd operator+(const odd& a) noexcept { return { a.v + 11 }; } friend odd operator-(const odd& a) noexcept { return { a.v + 13 }; }
	odd& operator++() noexcept { v += 17; return *this; } odd operator++(int) noexcept { odd r{ v + 19 }; v += 23; return r; }
	odd& operator--() noexcept { v += 29; return *this; } odd operator--(int) noexcept { odd r{ v + 31 }; v += 37; return r; }
	operator bool() const noexcept { return v & 16; } bool operator!() const noexcept { return v & 32; }
	uint64_t operator()(uint64_t x) noexcept { v++; return x * 3 + v; } uint64_t operator()(uint64_t x) const noexcept { return x * 5 + v; } };
struct eq_only { uint64_t v; friend bool operator==(const eq_only& a, const eq_only& b) noexcept { return a.v * 3 == b.v; } explicit operator bool() const noexcept { return v & 16; } };
VP_CONTRACT(strong_class)
{
	using S = muu::strong_typedef<odd, tag, tr::addable, tr::subtractable, tr::incrementable, tr::decrementable, tr::comparable, tr::boolean, tr::callable>;
	const odd a{ any<uint64_t>() }, b{ any<uint64_t>() };
	S x{ a }; const S y{ b };
	ENSURESM("class ==", (x == y) == (a == b)); ENSURESM("class !=", (x != y) == (a != b)); ENSURESM("class <", (x < y) == (a < b));
	ENSURESM("class <=", (x <= y) == (a <= b)); ENSURESM("class >", (x > y) == (a > b)); ENSURESM("class >=", (x >= y) == (a >= b));
	ENSURESM("class bool", static_cast<bool>(x) == static_cast<bool>(a)); ENSURESM("class !", !y == !b);
	ENSURESM("class binary +", (x + y).value.v == (a + b).v); ENSURESM("class binary -", (x - y).value.v == (a - b).v);
	ENSURESM("class unary", (+x).value.v == (+a).v && (-y).value.v == (-b).v);
	{ odd c = a; ++c; S& r = ++x; ENSURESM("class pre-increment", &r == &x && x.value.v == c.v); x = S{ a }; }
	{ odd c = a; odd o = c++; S r = x++; ENSURESM("class post-increment", r.value.v == o.v && x.value.v == c.v); x = S{ a }; }
	{ odd c = a; --c; S& r = --x; ENSURESM("class pre-decrement", &r == &x && x.value.v == c.v); x = S{ a }; }
	{ odd c = a; odd o = c--; S r = x--; ENSURESM("class post-decrement", r.value.v == o.v && x.value.v == c.v); x = S{ a }; }
	const uint64_t k = any<uint64_t>();
	ENSURESM("calls reach the wrapped callable", x(k) == k * 3 + a.v + 1 && x.value.v == a.v + 1 && y(k) == k * 5 + b.v);
	const muu::strong_typedef<eq_only, tag, tr::comparable, tr::boolean> e{ eq_only{ a.v } }, f{ eq_only{ b.v } };
	ENSURESM("!= falls back to ==", (e == f) == (a.v * 3 == b.v) && (e != f) == (a.v * 3 != b.v));
}
VP_CONTRACT(strong_reference)
{
	uint32_t v = any<uint32_t>(), w = any<uint32_t>(); const uint32_t v0 = v, w0 = w;
	using S = muu::strong_typedef<uint32_t&, tag, tr::comparable, tr::incrementable, tr::decrementable, tr::boolean>;
	S x{ v }, y{ w };
	ENSURESM("a strong reference refers to the object", &x.value == &v && &static_cast<uint32_t&>(y) == &w);
	ENSURESM("strong references compare their objects", (x == y) == (v == w) && (x < y) == (v < w) && (x >= y) == (v >= w) && (x != y) == (v != w) && (x > y) == (v > w) && (x <= y) == (v <= w) && !x == !v);
	++x; --y;
	ENSURESM("operators act on the object referred to", v == v0 + 1 && w == w0 - 1);
	ENSURESM("std::hash is the hash of the value", std::hash<strong<uint32_t>>{}(strong<uint32_t>{ v }) == std::hash<uint32_t>{}(v));
}
