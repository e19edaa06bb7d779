//@ property C26
//@ opt unwind=12 timeout=300
//@ entry ^ct_seq bounded=at_most_3_samples
//@ entry ^ct_fseq bounded=at_most_3_samples fpuf=1
//@ entry ^ct_fbasics fpuf=1
//@ entry ^ct_fself fpuf=1
#include "vp.h"
#include <muu/core.h>
#include <muu/half.h>
#include <muu/accumulator.h>
using vp::any;
using i128 = __int128;
template <typename T> struct K
{
	using A = muu::accumulator<T>;
	static constexpr bool fp = !std::is_integral_v<T>;
	// floating-point samples are integers small enough for every sum to be exact, so that the true sum is defined
	static T sample() { if constexpr (fp) { const int v = any<int8_t>(); return static_cast<T>(static_cast<float>(v)); } else return any<T>(); }
	static i128 num(T v) { if constexpr (fp) return static_cast<i128>(static_cast<int>(static_cast<float>(v))); else return static_cast<i128>(v); }
	struct truth { size_t n = 0; i128 sum = 0, lo = 0, hi = 0;
		void add(i128 v) { lo = n && lo < v ? lo : v; hi = n && hi > v ? hi : v; sum += v; n++; }
		void add(const truth& o) { if (!o.n) return; lo = n && lo < o.lo ? lo : o.lo; hi = n && hi > o.hi ? hi : o.hi; sum += o.sum; n += o.n; } };
	static bool fits(i128 s) { using S = decltype(A{}.sum()); if constexpr (fp) return s >= -2048 && s <= 2048; else return static_cast<i128>(static_cast<S>(s)) == s; }
	static constexpr bool sums = true;
	static void check(const A& a, const truth& t)
	{
		ENSURESM("sample_count is the number of samples", a.sample_count() == t.n && a.empty() == (t.n == 0));
		if (!t.n) { ENSURESM("an empty accumulator has sum zero", static_cast<i128>(a.sum()) == 0); return; }
		ENSURESM("min is the least sample", num(a.min()) == t.lo);
		ENSURESM("max is the greatest sample", num(a.max()) == t.hi);
		ENSURESM("sum is the sum of the samples", static_cast<i128>(static_cast<i128>(a.sum())) == t.sum);
	}
};
template <typename T> static void basics()
{
	using k = K<T>; using A = typename k::A;
	typename k::truth t;
	A a;
	k::check(a, t);
	const T x = k::sample(), y = k::sample(), z = k::sample();
	REQUIRES(k::fits(k::num(x)) && k::fits(k::num(x) + k::num(y)) && k::fits(k::num(x) + k::num(y) + k::num(z)));
	auto& r = a.add(x);
	t.add(k::num(x));
	ENSURESM("add returns the accumulator", &r == &a);
	k::check(a, t);
	const A one{ x };
	k::check(one, t);
	a(y);
	t.add(k::num(y));
	k::check(a, t);
	a.add(z);
	t.add(k::num(z));
	k::check(a, t);
}
template <typename T, size_t N, size_t M> static void seq()
{
	using k = K<T>; using A = typename k::A;
	T buf[N];
	for (size_t i = 0; i < N; i++) buf[i] = k::sample();
	const size_t n = any<uint8_t>(), m = any<uint8_t>(), q = any<uint8_t>();
	REQUIRES(n <= m && m <= q && q <= N);
	typename k::truth t, u;
	A a, b;
	for (size_t i = 0; i < N; i++) if (i < n) { t.add(k::num(buf[i])); REQUIRES(k::fits(t.sum)); }
	for (size_t i = 0; i < N; i++) if (i >= n && i < m) { u.add(k::num(buf[i])); REQUIRES(k::fits(u.sum)); }
	a.add(buf, buf + n); // as a range
	k::check(a, t);
	for (size_t i = 0; i < N; i++) if (i >= n && i < m) b.add(buf[i]); // one by one
	k::check(b, u);
	const A both{ buf, buf + n };
	k::check(both, t);
	t.add(u);
	REQUIRES(k::fits(t.sum));
	const bool op = any<bool>();
	auto& r = op ? a(b) : a.add(b); // merged
	ENSURESM("merging returns the accumulator", &r == &a);
	k::check(a, t);
	k::check(b, u);
	for (size_t i = 0; i < N; i++) if (i >= m && i < q) { t.add(k::num(buf[i])); REQUIRES(k::fits(t.sum)); a.add(buf[i]); } // and continued
	k::check(a, t);
}
template <typename T> static void self()
{
	using k = K<T>; using A = typename k::A;
	typename k::truth t;
	const T x = k::sample(), y = k::sample();
	t.add(k::num(x)), t.add(k::num(y));
	typename k::truth t2 = t;
	t.add(t2);
	REQUIRES(k::fits(k::num(x)) && k::fits(t2.sum) && k::fits(t.sum));
	A a;
	a.add(x), a.add(y);
	a.add(a);
	k::check(a, t);
}
#define ACC(n, T) VP_CONTRACT(basics_##n) { basics<T>(); } VP_CONTRACT(seq_##n) { seq<T, 3, 3>(); } VP_CONTRACT(self_##n) { self<T>(); }
// floating point: count, minimum and maximum for every finite value (the sum is handled below)
template <typename T> struct ftruth { size_t n = 0; T lo{}, hi{};
	void add(T v) { lo = n && lo < v ? lo : v; hi = n && hi > v ? hi : v; n++; }
	void add(const ftruth& o) { if (!o.n) return; lo = n && lo < o.lo ? lo : o.lo; hi = n && hi > o.hi ? hi : o.hi; n += o.n; } };
template <typename T> static T finite() { const T v = any<T>(); REQUIRES(v - v == v - v && v == v && v < T(1e30) && v > T(-1e30)); return v; }
template <typename T> static void fcheck(const muu::accumulator<T>& a, const ftruth<T>& t)
{
	ENSURESM("sample_count is the number of samples", a.sample_count() == t.n && a.empty() == (t.n == 0));
	if (!t.n) return;
	ENSURESM("min is the least sample", a.min() == t.lo);
	ENSURESM("max is the greatest sample", a.max() == t.hi);
}
template <typename T, size_t N, size_t M> static void fseq()
{
	using A = muu::accumulator<T>;
	T x[N + 1], y[M + 1];
	ftruth<T> t, u;
	for (size_t i = 0; i < N; i++) { x[i] = finite<T>(); t.add(x[i]); }
	for (size_t i = 0; i < M; i++) { y[i] = finite<T>(); u.add(y[i]); }
	A a, b;
	a.add(x, x + N);
	fcheck(a, t);
	for (size_t i = 0; i < M; i++) b.add(y[i]);
	fcheck(b, u);
	t.add(u);
	auto& r = a.add(b);
	ENSURESM("merging returns the accumulator", &r == &a);
	fcheck(a, t);
	fcheck(b, u);
}
#define FSEQ(t, n, m) VP_CONTRACT(fseq_##t##_##n##_##m) { fseq<t, n, m>(); }
FSEQ(float, 0, 1) FSEQ(float, 1, 0) FSEQ(float, 1, 1) FSEQ(float, 2, 1) FSEQ(float, 1, 2) FSEQ(float, 3, 0) FSEQ(float, 0, 3)
FSEQ(double, 0, 1) FSEQ(double, 1, 0) FSEQ(double, 1, 1) FSEQ(double, 2, 0) FSEQ(double, 0, 2)
// the sum, where it is exact: small integers
static float small() { return static_cast<float>(static_cast<int>(any<uint8_t>() & 15) - 8); }
VP_CONTRACT(fsum_start) { const float x = any<float>(); REQUIRES(x == x && x < 1e30f && x > -1e30f); muu::accumulator<float> a; ENSURESM("empty sum", a.sum() == 0.0f); a.add(x); ENSURESM("sum of one sample", a.sum() == x); muu::accumulator<float> e; a.add(e); ENSURESM("an empty accumulator contributes nothing", a.sum() == x && a.sample_count() == 1); e.add(a); ENSURESM("merging into an empty accumulator", e.sum() == x && e.sample_count() == 1 && e.min() == x && e.max() == x); }
VP_CONTRACT(fsum_add) { const float x = small(), y = small(); muu::accumulator<float> a; a.add(x); a.add(y); ENSURESM("sum of two samples", a.sum() == x + y); }
VP_CONTRACT(fsum_merge) { const float x = small(), y = small(); muu::accumulator<float> a, b; a.add(x); b.add(y); a.add(b); ENSURESM("sum of two merged accumulators", a.sum() == x + y && b.sum() == y); }
// the compensation of both sides takes part in a merge
VP_CONTRACT(fsum_compensated)
{
	const float d = static_cast<float>(1 + (any<uint8_t>() & 7));
	muu::accumulator<float> a, b;
	b.add(33554432.0f), b.add(d), b.add(-33554432.0f); // the small sample survives only in the compensation
	ENSURESM("compensated sum", b.sum() == d);
	a.add(b);
	ENSURESM("merged into an empty accumulator", a.sum() == d);
	a.add(b);
	ENSURESM("merged into a non-empty accumulator", a.sum() == d + d);
}
ACC(u8, uint8_t) ACC(i8, int8_t) ACC(u16, uint16_t) ACC(i16, int16_t) ACC(u32, uint32_t) ACC(i32, int32_t) ACC(u64, uint64_t) ACC(i64, int64_t)
