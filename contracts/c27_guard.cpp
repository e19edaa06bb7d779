//@ property C27
//@ opt unwind=4 timeout=120
#include "vp.h"
#include <exception>
#include <utility>
static int exc_now;
// ghost: the number of exceptions in flight, read by the guards through the standard library
namespace std { int uncaught_exceptions() noexcept { return exc_now; } }
#include <muu/scope_guard.h>
using vp::any;
static uint64_t runs, wrong;
static uint64_t made, gone;
struct counted // stateful callable with non-trivial copies
{
	uint64_t k, *w;
	counted(uint64_t k_, uint64_t* w_) noexcept : k{ k_ }, w{ w_ } { made++; }
	counted(const counted& o) noexcept : k{ o.k }, w{ o.w } { made++; }
	counted(counted&& o) noexcept : k{ o.k }, w{ o.w } { made++; }
	~counted() noexcept { gone++; }
	void operator()() noexcept { runs++; *w = k; }
};
struct nonconst_state { uint64_t n = 0; void operator()() noexcept { n++; runs++; } };
struct empty_stateless { void operator()() noexcept { runs++; } };
struct empty_final final { void operator()() noexcept { runs++; } };
static void plain() noexcept { runs++; }
static void plain2() noexcept { wrong++; }
enum kind { always, on_fail, on_success };
template <kind K, typename F, typename Body> static void scope(F&& f, Body&& body)
{
	if constexpr (K == always) { muu::scope_guard g{ static_cast<F&&>(f) }; body(g); }
	else if constexpr (K == on_fail) { muu::scope_fail g{ static_cast<F&&>(f) }; body(g); }
	else { muu::scope_success g{ static_cast<F&&>(f) }; body(g); }
}
// the guard's whole life: constructed with c exceptions in flight, left normally (c still in flight) or by an exception (c + 1)
template <kind K, typename F> static uint64_t life(F&& f)
{
	const int c = static_cast<int>(any<uint32_t>() >> 1);
	REQUIRES(c < 0x7fffffff);
	const bool thrown = any<bool>();
	const unsigned dismiss = any<uint8_t>() & 3, when = any<uint8_t>() & 1;
	const uint64_t r0 = runs;
	exc_now = c;
	scope<K>(static_cast<F&&>(f), [&](auto& g) {
		ENSURESM("a new guard is not dismissed", !g.dismissed());
		ENSURESM("nothing runs before the scope is left", runs == r0);
		if (when) // dismissal by a handler that itself runs while an exception is in flight
			exc_now = c + 1;
		for (unsigned i = 0; i < 3; i++)
			if (i < dismiss) g.dismiss();
		ENSURESM("dismissed() tells whether dismiss() was called", g.dismissed() == (dismiss != 0));
		ENSURESM("dismissing runs nothing", runs == r0);
		exc_now = thrown ? c + 1 : c;
	});
	const bool due = !dismiss && (K == always || (K == on_fail) == thrown);
	ENSURESM("the action runs exactly once when due and never otherwise", runs - r0 == (due ? 1u : 0u));
	return due;
}
template <kind K> static void all()
{
	{	uint64_t cap = any<uint64_t>(), seen = ~cap;
		const uint64_t due = life<K>([&cap, &seen]() noexcept { runs++; seen = cap; });
		ENSURESM("the stored lambda runs on its captures", seen == (due ? cap : ~cap)); }
	life<K>([]() noexcept { runs++; });
	{	const uint64_t k = any<uint64_t>(); uint64_t w = ~k; const uint64_t m0 = made, g0 = gone;
		const uint64_t due = life<K>(counted{ k, &w });
		ENSURESM("the stored copy of the callable is the one given", w == (due ? k : ~k));
		ENSURESM("every copy of the callable made is destroyed", made - m0 == gone - g0); }
	{	const uint64_t k = any<uint64_t>(); uint64_t w = ~k;
		counted f{ k, &w }; const uint64_t m1 = made;
		life<K>(f);
		(void)m1; }
	{	nonconst_state s; const uint64_t n0 = s.n;
		const uint64_t due = life<K>(s);
		ENSURESM("a callable given as lvalue is called itself", s.n - n0 == due); }
	life<K>(nonconst_state{});
	life<K>(empty_stateless{});
	{ empty_stateless e; life<K>(e); const empty_final f{}; (void)f; }
	life<K>(empty_final{});
	life<K>(plain);
	life<K>(&plain);
	{ void (*p)() noexcept = any<bool>() ? &plain : &plain2; const bool w = p == &plain2; const uint64_t w0 = wrong, r0 = runs;
	  exc_now = 0; scope<K>(p, [](auto&) {}); 
	  const unsigned due = K != on_fail;
	  ENSURESM("the pointer given is the function called", runs - r0 == (w ? 0u : due) && wrong - w0 == (w ? due : 0u)); }
}
VP_CONTRACT(scope_guard) { all<always>(); }
VP_CONTRACT(scope_fail) { all<on_fail>(); }
VP_CONTRACT(scope_success) { all<on_success>(); }
// guards nest: each has its own state and they run in reverse order of construction
template <kind A, kind B> static void nest()
{
	const int c = static_cast<int>(any<uint32_t>() >> 1);
	REQUIRES(c < 0x7fffffff);
	const bool thrown = any<bool>(), da = any<bool>(), db = any<bool>();
	uint64_t order = 0;
	exc_now = c;
	scope<A>([&order]() noexcept { order = order * 4 + 1; }, [&](auto& g) {
		if (da) g.dismiss();
		scope<B>([&order]() noexcept { order = order * 4 + 2; }, [&](auto& h) {
			if (db) h.dismiss();
			exc_now = thrown ? c + 1 : c;
		});
	});
	const bool ra = !da && (A == always || (A == on_fail) == thrown), rb = !db && (B == always || (B == on_fail) == thrown);
	uint64_t want = 0;
	if (rb) want = want * 4 + 2;
	if (ra) want = want * 4 + 1;
	ENSURESM("nested guards act independently, innermost first", order == want);
}
VP_CONTRACT(nested) { nest<always, always>(); nest<always, on_fail>(); nest<on_fail, on_success>(); nest<on_success, on_fail>(); nest<on_fail, on_fail>(); nest<on_success, on_success>(); }
