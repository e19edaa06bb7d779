//@ property C38
//@ opt unwind=4 timeout=120 atomics=1 witness=ct_threads
//@ entry ^ct_lock loops=1
//@ entry ^ct_threads mode=native
//@ entry ^ct_upto_lock bounded=the_others_hold_it_at_most_twice unwind=6
//@ loop set=1 all=1 fn=^muu::spin_mutex::lock\( inv=lk_inv havoc=lk_hv
// Rely/guarantee contracts of spin_mutex.  Before every atomic access to the mutex the other threads may have set it
// to anything, unless this thread owns it (rely: nobody but the owner frees a held mutex).  Guarantee: this thread
// takes the mutex only by one indivisible free-to-held step, and frees it only in unlock().  Since the flag is one
// atomic object its modification order interleaves free-to-held steps and held-to-free steps alternately, and each
// held-to-free step is made by the thread that made the preceding free-to-held step: at most one owner at any time.
#include "vp.h"
#include <mutex>
#include <thread>
#include <muu/core.h>
#include <muu/spin_mutex.h>
#ifdef VP_REPLAY
#define GENSURES(...) ((void)0) // ghost state exists only in the extracted code
#else
#define GENSURES(...) ENSURESM(__VA_ARGS__)
#endif
using vp::any;
static muu::spin_mutex mtx;
static bool quiet, mine, stolen;
static unsigned acq, rel, foreign;
static struct { int acq, rel; unsigned budget; unsigned char old; } gs; // ghost; budget: how often the others may still act
extern "C" void vp_mod(const void*, uint64_t) noexcept;
static bool on_mutex(const void* p) noexcept { return p == static_cast<void*>(&mtx); }
extern "C" void vp_atomic_pre(unsigned char* p) noexcept
{
	if (!on_mutex(p)) { foreign++; return; }
	if (!mine && !quiet) { if (gs.budget) { *p = any<bool>(); gs.budget -= gs.budget != ~0u; } else *p = 0; } // interference
	gs.old = *p;
}
extern "C" void vp_atomic_post(unsigned char* p, int order) noexcept
{
	if (!on_mutex(p)) return;
	const unsigned char now = *p;
	if (!gs.old && now) { acq++; mine = true; gs.acq = order; }
	if (gs.old && !now) { if (!mine) stolen = true; rel++; mine = false; gs.rel = order; }
}
extern "C" bool lk_inv() noexcept { return !acq && !rel && !mine && !stolen; }
extern "C" void lk_hv() noexcept
{
	vp_mod(&mtx, sizeof(mtx)); vp_mod(&gs, sizeof(gs));
	if (!quiet) *reinterpret_cast<unsigned char*>(&mtx) = any<bool>();
	gs.old = any<uint8_t>(); gs.acq = any<int>(); gs.rel = any<int>();
}
enum { acquire_ = 2, release_ = 3, acq_rel_ = 4, seq_cst_ = 5 };
static void start(bool held_by_me, bool quiet_)
{
	mine = held_by_me; quiet = quiet_; stolen = false; acq = rel = foreign = 0; gs.budget = ~0u; gs.acq = gs.rel = -1;
}
static void owned()
{
	GENSURES("the caller changed the mutex from free to held, in one step, exactly once", acq == 1 && mine);
	GENSURES("nobody else's hold was ended", rel == 0 && !stolen);
	GENSURES("taking the mutex is an acquire operation", gs.acq == acquire_ || gs.acq >= acq_rel_);
}
#ifdef VP_REPLAY
static void tidy() { mtx.unlock(); }
#else
static void tidy() {}
#endif
VP_CONTRACT(lock) { start(false, false); mtx.lock(); owned(); tidy(); }
VP_CONTRACT(upto_lock) { start(false, false); gs.budget = 2; mtx.lock(); owned(); tidy(); }
VP_CONTRACT(lock_of_a_guard) { start(false, false); { std::lock_guard<muu::spin_mutex> g{ mtx }; owned(); } GENSURES("the guard frees it", rel == 1 && !mine); }
VP_CONTRACT(try)
{
	start(false, false);
	const bool r = mtx.try_lock();
	if (r) owned();
	else GENSURES("a failed try_lock changes nothing", !acq && !rel && !mine && !stolen);
	tidy();
}
VP_CONTRACT(quiet_free)
{
	start(false, true);
	muu::spin_mutex fresh;
	std::memcpy(static_cast<void*>(&mtx), static_cast<void*>(&fresh), sizeof(mtx)); // a new mutex is free
	if (any<bool>()) { ENSURESM("try_lock takes a mutex that is and stays free", mtx.try_lock()); } else mtx.lock();
	ENSURESM("the caller owns it", !mtx.try_lock());
	mtx.unlock();
	ENSURESM("unlock frees it again", mtx.try_lock());
	mtx.unlock();
}
VP_CONTRACT(quiet_held)
{
	start(false, true);
	muu::spin_mutex fresh;
	std::memcpy(static_cast<void*>(&mtx), static_cast<void*>(&fresh), sizeof(mtx));
	ENSURES(mtx.try_lock());
	mine = false; // held by somebody else
	acq = 0;
	const uint64_t n = any<uint8_t>() & 1;
	ENSURESM("try_lock does not take a held mutex", !mtx.try_lock());
	if (n) ENSURESM("try_lock does not take a held mutex", !mtx.try_lock());
	GENSURES("failing leaves it held by the same owner", !acq && !rel && !stolen);
}
VP_CONTRACT(unlock)
{
	start(true, true);
	muu::spin_mutex fresh;
	std::memcpy(static_cast<void*>(&mtx), static_cast<void*>(&fresh), sizeof(mtx));
	ENSURES(mtx.try_lock());
	start(true, false);
	mtx.unlock();
	GENSURES("unlock frees the mutex in one step", rel == 1 && !mine && !stolen);
	GENSURES("unlock takes nothing", acq == 0);
	GENSURES("freeing the mutex is a release operation", gs.rel >= release_);
}
#ifdef VP_REPLAY
extern "C" void vp_mod(const void*, uint64_t) noexcept {}
VP_CONTRACT(threads)
{
	static unsigned long counter; static int in; static bool two;
	muu::spin_mutex m;
	counter = 0; in = 0; two = false;
	auto w = [&](bool t) { for (int i = 0; i < 20000; i++) { if (t) { while (!m.try_lock()) ; } else m.lock();
		if (__atomic_fetch_add(&in, 1, __ATOMIC_SEQ_CST)) two = true; counter = counter + 1; __atomic_fetch_sub(&in, 1, __ATOMIC_SEQ_CST); m.unlock(); } };
	std::thread a{ w, false }, b{ w, true }, c{ w, false }, d{ w, true };
	a.join(); b.join(); c.join(); d.join();
	ENSURESM("at most one owner", !two && counter == 80000);
	(void)any<uint8_t>();
}
#else
VP_CONTRACT(threads) {}
#endif
