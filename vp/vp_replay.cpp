// Native runtime for a contract.  Replay: inputs come from the verifier's counterexample, checks run on the real
// code.  Search (when the verifier gives no usable counterexample): inputs are drawn at random for a limited time.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <ctime>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#include <new>
extern "C" {
	// heap accounting (the contract and the sources under test are linked with --wrap for these)
	static uint64_t live_ = 0, allocs_ = 0;
	static bool place_ = false;
	static void* tab_[64][2];
	void* __real_aligned_alloc(size_t, size_t);
	void __real_free(void*);
	void* __real_malloc(size_t);
	uint64_t vp_live() noexcept { return live_; }
	uint64_t vp_allocs() noexcept { return allocs_; }
	void vp_place() noexcept { place_ = true; }
	void vp_watch(uint64_t) noexcept {}
	void* __wrap_malloc(size_t n) { live_++; return __real_malloc(n); }
	void* __wrap_aligned_alloc(size_t a, size_t n)
	{
		if (n >= (1ull << 34)) return nullptr;
		void* p;
		if (!place_ || a > (1u << 20)) p = __real_aligned_alloc(a, n);
		else
		{
			const size_t t = ((n + a) + 2 * a - 1) & ~(2 * a - 1);
			char* b = (char*)__real_aligned_alloc(2 * a, t);
			p = b ? b + t - (((n + a - 1) & ~(a - 1)) ? ((n + a - 1) & ~(a - 1)) : 0) : nullptr; // last slot: overruns hit the red zone
			if (p)
				for (auto& e : tab_)
					if (!e[0]) { e[0] = p; e[1] = b; break; }
		}
		if (p) live_++, allocs_++;
		return p;
	}
	void __wrap_free(void* p)
	{
		if (p) live_--;
		for (auto& e : tab_)
			if (p && e[0] == p) { __real_free(e[1]); e[0] = nullptr; return; }
		__real_free(p);
	}
}
void* operator new(size_t n) { live_++; void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) live_--; __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static std::vector<unsigned long long> vals;
static std::vector<double> reals;
static size_t pos = 0, rpos = 0;
static int failed = 0, searching = 0;
static jmp_buf jb;
static unsigned long long rs = 88172645463325252ull;
static unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static unsigned long long draw()
{
	static const unsigned long long sp[] = { 0, 1, 2, 3, 4, 7, 8, 9, 10, 13, 31, 32, 48, 57, 65, 97, 127, 128, 255, 256, 0x3c00, 0x7fff, 0x8000, 0xd800, 0xdc00, 0xffff,
		0x3f800000, 0x7f800000, 0x80000000, 0xffffffff, 0x3ff0000000000000ull, 0x8000000000000000ull, ~0ull };
	const unsigned long long r = rnd();
	switch (r & 7)
	{
		case 0: return rnd();
		case 1: return rnd() & 0xff;
		case 2: return rnd() & 7;
		case 3: return rnd() & 0xffff;
		case 4: return sp[(r >> 8) % (sizeof(sp) / sizeof(sp[0]))];
		case 5: return sp[(r >> 8) % (sizeof(sp) / sizeof(sp[0]))] + (rnd() % 5) - 2;
		case 6: return rnd() >> (r >> 8 & 63);
		default: return 0x3f800000u + (rnd() & 0x1ffffff) - 0xffffff;
	}
}
static unsigned long long pop()
{
	if (pos < vals.size()) return vals[pos++];
	if (!searching) return 0;
	const auto l = live_;
	vals.push_back(draw());
	live_ = l;
	return vals[pos++];
}
static void dump()
{
	if (!searching) return;
	printf("SEARCH-INPUTS");
	for (auto v : vals) printf(" %llu", v);
	for (auto v : reals) printf(" r%.17g", v);
	printf("\n");
	fflush(stdout);
}
extern "C" {
	uint8_t vp_u8() noexcept { return (uint8_t)pop(); }
	uint16_t vp_u16() noexcept { return (uint16_t)pop(); }
	uint32_t vp_u32() noexcept { return (uint32_t)pop(); }
	uint64_t vp_u64() noexcept { return (uint64_t)pop(); }
	double vp_real() noexcept
	{
		if (rpos < reals.size()) return reals[rpos++];
		if (!searching) return 0.0;
		const unsigned long long r = rnd();
		double v = (r & 1) ? (double)((long long)(rnd() % 17) - 8) : (r & 2) ? (double)((long long)(rnd() % 2001) - 1000) / 250.0 : (double)((long long)(rnd() % 65) - 32) / 8.0;
		const auto l = live_;
		reals.push_back(v);
		live_ = l;
		rpos++;
		return v;
	}

	void vp_requires_(bool b) noexcept
	{
		if (b) return;
		if (searching) longjmp(jb, 1);
		fprintf(stderr, "REPLAY-PRECONDITION-NOT-MET\n");
		exit(failed ? 1 : 3);
	}
	void vp_ensures_(bool b, const char* l) noexcept
	{
		if (b) return;
		printf("REPLAY-FAILED %s\n", l);
		fflush(stdout);
		failed = 1;
	}
	void vp_ensures_eq_(double a, double b, const char* l) noexcept
	{
		const double m = std::fmax(std::fabs(a), std::fabs(b));
		const double t = 1e-6 * std::fmax(1.0, m);
		if (searching && !(m < 1e6)) return; // overflow / ill-conditioned sample: says nothing
		if (!(std::fabs(a - b) <= t))
		{
			printf("REPLAY-FAILED %s   (%.17g vs %.17g)\n", l, a, b);
			fflush(stdout);
			failed = 1;
		}
	}
	void vp_reached_() noexcept {}
	void* vp_buf(uint64_t n) noexcept
	{
		vp_requires_(n < (1ull << 24));
		return calloc(n ? n : 1, 1);
	}
	void VP_ENTRY() noexcept;
}
int main(int argc, char** argv)
{
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(dump);
#endif
	if (argc > 3 && !strcmp(argv[1], "--search"))
	{
		searching = 1;
		const double secs = atof(argv[2]);
		rs ^= strtoull(argv[3], nullptr, 0) * 0x9E3779B97F4A7C15ull;
		const clock_t t0 = clock();
		volatile unsigned long n = 0;
		while ((double)(clock() - t0) / CLOCKS_PER_SEC < secs)
		{
			vals.clear(); reals.clear(); pos = rpos = 0; n = n + 1; memset(tab_, 0, sizeof(tab_)); place_ = false;
			if (!setjmp(jb)) VP_ENTRY();
			if (failed) { dump(); return 1; }
		}
		printf("SEARCH-NONE after %lu inputs\n", (unsigned long)n);
		return 0;
	}
	FILE* f = fopen(argv[1], "r");
	char k;
	char buf[128];
	while (f && fscanf(f, " %c %127s", &k, buf) == 2)
	{
		if (k == 'u') vals.push_back(strtoull(buf, nullptr, 0));
		if (k == 'r') reals.push_back(strtod(buf, nullptr));
	}
	VP_ENTRY();
	if (!failed) printf("REPLAY-OK\n");
	return failed;
}
