//@ property C16
//@ opt unwind=20 timeout=200 optional=1
//@ entry ^ct_step_ twin=ct_win_36_34 witness=ct_witness
//@ entry ^ct_final twin=ct_win_36_34 witness=ct_witness
// Inductive contract of the parser: from any state reached after any text, one more character does what the grammar
// says.  Together with C09 (utf_decode visits the code points in order) this covers text of every length.
#include "vp.h"
#include <muu/core.h>
#include <muu/uuid.h>
#include "uuid_ref.h"
using vp::any;
typedef unsigned __int128 u128;
using P = muu::impl::uuid_parser;
static ref::uuid_text any_text()
{
	ref::uuid_text t;
	t.n = any<uint8_t>();
	REQUIRES(t.n <= 32);
	t.v = any<u128>();
	if (t.n < 32) REQUIRES((t.v >> (t.n * 4)) == 0);
	t.open = any<bool>();
	t.seen = t.n == 0 ? t.open : any<bool>();
	REQUIRES(!t.open || t.seen);
	REQUIRES(t.n == 32 || t.open == t.seen);
	return t;
}
// the parser state that corresponds to the text read so far
static void put(P& p, const ref::uuid_text& t)
{
	p.digits = t.n;
	p.rsh = (t.n & 1) ? 0 : 4;
	p.bracketed = t.open;
	p.state = t.n == 0 ? P::s_initial : t.n < 32 ? P::s_parsing : P::s_finished;
	const u128 v = t.n == 0 ? u128{} : t.v << (4 * (32 - t.n));
	for (int i = 0; i < 16; i++) p.value.bytes.value[i] = std::byte{ uint8_t(v >> (120 - 8 * i)) };
}
static bool same(const P& p, const ref::uuid_text& t)
{
	P q;
	put(q, t);
	bool b = p.digits == q.digits && p.bracketed == q.bracketed && p.state == q.state && (t.n == 32 || p.rsh == q.rsh);
	for (int i = 0; i < 16; i++) b = b && p.value.bytes.value[i] == q.value.bytes.value[i];
	return b;
}
VP_CONTRACT(step_init)
{
	P p;
	ENSURESM("a new parser has read nothing", same(p, ref::uuid_text{}));
}
VP_CONTRACT(step_any)
{
	ref::uuid_text t = any_text();
	P p;
	put(p, t);
	const char32_t c = any<char32_t>();
	const bool r = p(c);
	t.step(c);
	ENSURESM("the walk continues exactly while the text can still be a uuid", r == !t.bad);
	if (!t.bad) ENSURESM("the parser tracks the digits and brace", same(p, t));
	else ENSURESM("rejected text is never accepted", !static_cast<bool>(p));
}
VP_CONTRACT(final)
{
	const ref::uuid_text t = any_text();
	P p;
	put(p, t);
	ENSURESM("accepted exactly when all 32 digits and any closing brace were read", static_cast<bool>(p) == t.ok());
	if (t.ok()) ENSURESM("the value is the digits read", static_cast<u128>(p.value) == t.v);
}
