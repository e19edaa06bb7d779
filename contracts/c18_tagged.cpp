//@ property C18
//@ opt unwind=10 timeout=200
#include "vp.h"
#include <muu/core.h>
#include <muu/tagged_ptr.h>
using vp::any;
template <size_t A> struct alignas(A) obj { unsigned char x[A]; };
template <typename T, size_t A> struct K
{
	using P = muu::tagged_ptr<T, A>;
	static constexpr size_t bits = P::tag_bit_count;
	static uintptr_t addr() { const uintptr_t a = any<uint64_t>(); REQUIRES((a & (A - 1)) == 0); return a; }
	static T* ptr(uintptr_t a) { return reinterpret_cast<T*>(a); }
	static uintptr_t of(const P& p) { return reinterpret_cast<uintptr_t>(p.ptr()); }
	static uintptr_t mask() { return (uintptr_t(1) << bits) - 1; }
	static uint64_t tg(const P& p) { return static_cast<uint64_t>(p.tag()); }
	static uint64_t anytag() { const uint64_t t = any<uint64_t>(); REQUIRES(t <= mask()); return t; }
};
template <typename T, size_t A> static void basic()
{
	using k = K<T, A>; using P = typename k::P;
	static_assert(k::bits == (A == 1 ? 0 : muu::countr_zero(A)));
	ENSURESM("every alignment bit is a tag bit", (uint64_t(1) << k::bits) == A && P::max_tag == k::mask());
	const uintptr_t a = k::addr(), b = k::addr();
	const auto t = static_cast<typename P::tag_type>(k::anytag()), u = static_cast<typename P::tag_type>(k::anytag());
	P z, n{ nullptr };
	ENSURESM("a default tagged_ptr is null with no tag", k::of(z) == 0 && k::tg(z) == 0 && !z && k::of(n) == 0 && k::tg(n) == 0 && !n);
	P p{ k::ptr(a) };
	ENSURESM("constructed from a pointer, tag zero", k::of(p) == a && k::tg(p) == 0 && static_cast<bool>(p) == (a != 0));
	ENSURESM("get() and conversion give the pointer", reinterpret_cast<uintptr_t>(p.get()) == a && reinterpret_cast<uintptr_t>(static_cast<T*>(p)) == a);
	P q{ k::ptr(a), t };
	ENSURESM("constructed from a pointer and a tag", k::of(q) == a && k::tg(q) == t && static_cast<bool>(q) == (a != 0));
	auto& r1 = q.ptr(k::ptr(b));
	ENSURESM("setting the pointer keeps the tag", k::of(q) == b && k::tg(q) == t && &r1 == &q);
	auto& r2 = q.tag(u);
	ENSURESM("setting the tag keeps the pointer", k::of(q) == b && k::tg(q) == u && &r2 == &q);
	q = k::ptr(a);
	ENSURESM("assigning a pointer keeps the tag", k::of(q) == a && k::tg(q) == u);
	P c{ q };
	ENSURESM("a copy has the same pointer and tag", k::of(c) == a && k::tg(c) == u && c == q && !(c != q));
	c.reset(k::ptr(b));
	ENSURESM("reset(ptr) clears the tag", k::of(c) == b && k::tg(c) == 0);
	c.reset(k::ptr(a), t);
	ENSURESM("reset(ptr, tag) sets both", k::of(c) == a && k::tg(c) == t);
	P d{ c };
	d.clear_ptr();
	ENSURESM("clear_ptr keeps the tag", k::of(d) == 0 && k::tg(d) == t && !d);
	d = c;
	d.clear_tag();
	ENSURESM("clear_tag keeps the pointer", k::of(d) == a && k::tg(d) == 0);
	d = c;
	d.reset();
	ENSURESM("reset() clears everything", k::of(d) == 0 && k::tg(d) == 0);
	ENSURESM("comparison with a raw pointer looks at the pointer only", (c == k::ptr(b)) == (a == b) && (c != k::ptr(b)) == (a != b) && (k::ptr(b) == c) == (a == b) && (k::ptr(b) != c) == (a != b));
	const P e{ k::ptr(b), u };
	ENSURESM("tagged_ptrs are equal exactly when pointer and tag are", (c == e) == (a == b && t == u) && (c != e) == !(a == b && t == u));
	const uintptr_t any_addr = any<uint64_t>();
	ENSURESM("can_store_ptr is alignment", P::can_store_ptr(k::ptr(any_addr)) == ((any_addr & (A - 1)) == 0));
}
template <typename T, size_t A> static void bit()
{
	using k = K<T, A>; using P = typename k::P;
	const uintptr_t a = k::addr();
	const uint64_t t = k::anytag();
	const size_t i = any<uint8_t>();
	REQUIRES(i < k::bits);
	P p{ k::ptr(a), static_cast<typename P::tag_type>(t) };
	ENSURESM("tag_bit reads one bit of the tag", p.tag_bit(i) == (((t >> i) & 1) != 0));
	const bool v = any<bool>();
	auto& r = p.tag_bit(i, v);
	ENSURESM("setting a tag bit changes that bit only", k::of(p) == a && k::tg(p) == ((t & ~(uint64_t(1) << i)) | (uint64_t(v) << i)) && &r == &p);
}
// integers and enums of every width, stored in a tagged_ptr<T, A>
template <typename T, size_t A, typename Tag> static void tagged()
{
	using k = K<T, A>; using P = typename k::P;
	const uintptr_t a = k::addr();
	const Tag t = any<Tag>();
	const uint64_t raw = vp::bits(t);
	constexpr size_t w = sizeof(Tag) * 8;
	const bool fits = w <= k::bits || (raw >> (w <= k::bits ? 0 : k::bits)) == 0;
	ENSURESM("can_store_tag says whether the value fits the tag bits", P::can_store_tag(t) == fits);
	REQUIRES(fits);
	P p{ k::ptr(a), t };
	ENSURESM("the tag never touches the pointer (constructor)", k::of(p) == a);
	P q{ k::ptr(a), typename P::tag_type(P::max_tag) };
	q.tag(t);
	ENSURESM("the tag never touches the pointer (setter)", k::of(q) == a);
	P r;
	r.reset(k::ptr(a), t);
	ENSURESM("the tag never touches the pointer (reset)", k::of(r) == a);
	if constexpr (w >= k::bits)
		ENSURESM("the tag reads back as stored", p.template tag<Tag>() == t && q.template tag<Tag>() == t && r.template tag<Tag>() == t);
	else if constexpr (!std::is_enum_v<Tag>)
		if (t >= Tag{})
			ENSURESM("a small tag reads back as stored", k::tg(p) == raw && k::tg(q) == raw && k::tg(r) == raw);
}
template <size_t N> struct pod { uint8_t v[N]; };
template <typename T, size_t A, size_t N> static void object()
{
	using k = K<T, A>; using P = typename k::P;
	const uintptr_t a = k::addr(), b = k::addr();
	pod<N> t;
	for (size_t i = 0; i < N; i++) t.v[i] = any<uint8_t>();
	P p{ k::ptr(a), t }, q{ k::ptr(b), typename P::tag_type(P::max_tag) };
	q.tag(t);
	const auto x = p.template tag<pod<N>>(), y = q.template tag<pod<N>>();
	bool ok = k::of(p) == a && k::of(q) == b;
	for (size_t i = 0; i < N; i++) ok = ok && x.v[i] == t.v[i] && y.v[i] == t.v[i];
	ENSURESM("an object stored as tag reads back and never touches the pointer", ok);
	q.ptr(k::ptr(a));
	const auto z = q.template tag<pod<N>>();
	for (size_t i = 0; i < N; i++) ok = ok && z.v[i] == t.v[i];
	ENSURESM("setting the pointer keeps an object tag", ok && k::of(q) == a);
}
enum class e8 : uint8_t {}; enum class ei8 : int8_t {}; enum class e32 : uint32_t {}; enum class ei16 : int16_t {};
#define B(n, T, A) VP_CONTRACT(basic_##n) { basic<T, A>(); } VP_CONTRACT(bit_##n) { bit<T, A>(); }
#define TG(n, T, A) VP_CONTRACT(tag_##n##_u8) { tagged<T, A, uint8_t>(); } VP_CONTRACT(tag_##n##_i8) { tagged<T, A, int8_t>(); } \
	VP_CONTRACT(tag_##n##_u16) { tagged<T, A, uint16_t>(); } VP_CONTRACT(tag_##n##_i16) { tagged<T, A, int16_t>(); } \
	VP_CONTRACT(tag_##n##_u32) { tagged<T, A, uint32_t>(); } VP_CONTRACT(tag_##n##_i32) { tagged<T, A, int32_t>(); } \
	VP_CONTRACT(tag_##n##_u64) { tagged<T, A, uint64_t>(); } VP_CONTRACT(tag_##n##_i64) { tagged<T, A, int64_t>(); } \
	VP_CONTRACT(tag_##n##_e8) { tagged<T, A, e8>(); } VP_CONTRACT(tag_##n##_ei8) { tagged<T, A, ei8>(); } VP_CONTRACT(tag_##n##_e32) { tagged<T, A, e32>(); } VP_CONTRACT(tag_##n##_ei16) { tagged<T, A, ei16>(); }
B(char2, char, 2) B(int, int, 4) B(u64, uint64_t, 8) B(void16, void, 16) B(o32, obj<32>, 32) B(o64, const obj<64>, 64) B(o256, obj<256>, 256) B(int4096, int, 4096) B(c65536, char, 65536)
TG(char2, char, 2) TG(int, int, 4) TG(u64, uint64_t, 8) TG(void16, void, 16) TG(o256, obj<256>, 256) TG(int4096, int, 4096) TG(c65536, char, 65536)
VP_CONTRACT(obj_256_1) { object<obj<256>, 256, 1>(); }
VP_CONTRACT(obj_4096_1) { object<int, 4096, 1>(); }
VP_CONTRACT(obj_65536_1) { object<char, 65536, 1>(); }
VP_CONTRACT(obj_65536_2) { object<char, 65536, 2>(); }
static int fn16(int x) noexcept { return x * 3 + 1; }
VP_CONTRACT(function)
{
	using P = muu::tagged_ptr<int(int) noexcept, 16>;
	const uintptr_t a = any<uint64_t>();
	REQUIRES((a & 15) == 0);
	const uint8_t t = any<uint8_t>();
	REQUIRES(t < 16);
	P p{ reinterpret_cast<int (*)(int) noexcept>(a), t };
	ENSURESM("function pointers and tags are kept apart", reinterpret_cast<uintptr_t>(p.ptr()) == a && p.tag() == t && static_cast<bool>(p) == (a != 0));
}
VP_CONTRACT(deref)
{
	obj<16> o;
	o.x[3] = any<uint8_t>();
	const uint8_t t = any<uint8_t>();
	REQUIRES(t < 16);
	muu::tagged_ptr<obj<16>> p{ &o, t };
	ENSURESM("dereferencing reaches the object", &*p == &o && p->x[3] == o.x[3] && p.get() == &o);
	ENSURESM("std::pointer_traits see the object", std::pointer_traits<muu::tagged_ptr<obj<16>>>::to_address(p) == &o && std::pointer_traits<muu::tagged_ptr<obj<16>>>::pointer_to(o).ptr() == &o);
}
