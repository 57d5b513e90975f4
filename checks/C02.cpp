// vt: quick=250000
// vt: thorough=6000000
// vt: rule=each case draws two 4-lane operands, shift counts 0..31 and divisors without zero (and without the INT_MIN/-1 overflow) and runs the whole operator table of i32x4 and u32x4; distinct by operand bits; special values 0, 1, 2^31-1, 2^31, 2^32-1 pair up in every lane
#include "vt.hpp"
#include "math/simd/vector/float.hpp"
#include "math/simd/vector/uint.hpp"
using namespace vt;
using namespace math;
typedef vt::u32 U; typedef vt::i32 I;

static U LN(u32x4 v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
static U LN(i32x4 v, int i) { return (U)(i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW()); }

#define K2(k) (S ? "i32x4 " k : "u32x4 " k)
#define LANES(key, expr, want) do { VT_OP(K2(key)); auto r_ = opaque(expr); for (int i = 0; i < 4; i++) { U w_ = (U)(want); \
	if (LN(r_, i) != w_) fail(K2(key), "lane %d: got %08x want %08x, a=%08x b=%08x n=%08x", i, LN(r_, i), w_, a[i], b[i], (U)n); } } while (0)
#define MASK(key, expr, cond) LANES(key, expr, (cond) ? 0xffffffffu : 0u)
#define BOOL(key, expr, want) do { VT_OP(K2(key)); bool r_ = opaque((bool)(expr)); bool w_ = (want); if (r_ != w_) \
	fail(K2(key), "got %d want %d, a=%08x %08x %08x %08x b=%08x %08x %08x %08x", r_, w_, a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); } while (0)
#define VAL(key, expr, want) do { VT_OP(K2(key)); U r_ = (U)opaque(expr); U w_ = (U)(want); if (r_ != w_) \
	fail(K2(key), "got %08x want %08x, a=%08x %08x %08x %08x", r_, w_, a[0], a[1], a[2], a[3]); } while (0)
#define COMP(key, stmt, want) do { t = va; { auto&& ref = (stmt); if ((const void*)&ref != (const void*)&t) fail(K2(key), "does not return itself"); } LANES(key, t, want); } while (0)

// V vector, T lane type; arithmetic is done on unsigned numbers (modulo 2^32), comparison on T
template<typename V, typename T> static void caseOf(const U* a, const U* b)
{
	constexpr bool S = (T)-1 < (T)0;
	auto mk = [](const U* p) { return opaque(V((T)p[0], (T)p[1], (T)p[2], (T)p[3])); };
	V va = mk(a), vb = mk(b);
	T n = opaque((T)b[a[0] & 3]);
	LANES("add", va + vb, a[i] + b[i]); LANES("sub", va - vb, a[i] - b[i]); LANES("mul", va * vb, a[i] * b[i]);
	LANES("and", va & vb, a[i] & b[i]); LANES("or", va | vb, a[i] | b[i]); LANES("xor", va ^ vb, a[i] ^ b[i]);
	LANES("not", ~va, ~a[i]); LANES("logical-not", !va, a[i] == 0 ? 1 : 0);
	LANES("add-num", va + n, a[i] + (U)n); LANES("sub-num", va - n, a[i] - (U)n); LANES("mul-num", va * n, a[i] * (U)n);
	LANES("and-num", va & n, a[i] & (U)n); LANES("or-num", va | n, a[i] | (U)n); LANES("xor-num", va ^ n, a[i] ^ (U)n);
	LANES("num-add", n + va, (U)n + a[i]); LANES("num-sub", n - va, (U)n - a[i]); LANES("num-mul", n * va, (U)n * a[i]);
	LANES("num-and", n & va, (U)n & a[i]); LANES("num-or", n | va, (U)n | a[i]); LANES("num-xor", n ^ va, (U)n ^ a[i]);
	V t;
	COMP("add-assign", t += vb, a[i] + b[i]); COMP("sub-assign", t -= vb, a[i] - b[i]); COMP("mul-assign", t *= vb, a[i] * b[i]);
	COMP("and-assign", t &= vb, a[i] & b[i]); COMP("or-assign", t |= vb, a[i] | b[i]); COMP("xor-assign", t ^= vb, a[i] ^ b[i]);
	COMP("add-assign-num", t += n, a[i] + (U)n); COMP("sub-assign-num", t -= n, a[i] - (U)n); COMP("mul-assign-num", t *= n, a[i] * (U)n);
	COMP("and-assign-num", t &= n, a[i] & (U)n); COMP("or-assign-num", t |= n, a[i] | (U)n); COMP("xor-assign-num", t ^= n, a[i] ^ (U)n);
	COMP("assign-num", t = n, n); COMP("self-add", t += t, a[i] + a[i]); COMP("self-xor", t ^= t, 0);
	{ // division
		U d[4]; for (int i = 0; i < 4; i++) { d[i] = b[i] ? b[i] : 3u; if (S && d[i] == 0xffffffffu && a[i] == 0x80000000u) d[i] = 2; }
		T dn = (T)d[a[1] & 3]; if (S) for (int i = 0; i < 4; i++) if ((U)dn == 0xffffffffu && a[i] == 0x80000000u) dn = 5;
		U e[4]; for (int i = 0; i < 4; i++) e[i] = a[i] ? a[i] : 7u; T en = (T)b[2]; if (S) for (int i = 0; i < 4; i++) if (e[i] == 0xffffffffu && (U)en == 0x80000000u) e[i] = 1u;
		V vd = mk(d), ve = mk(e);
		LANES("div", va / vd, (T)a[i] / (T)d[i]); LANES("rem", va % vd, (T)a[i] % (T)d[i]);
		LANES("div-num", va / dn, (T)a[i] / dn); LANES("rem-num", va % dn, (T)a[i] % dn);
		LANES("num-div", en / ve, en / (T)e[i]); LANES("num-rem", en % ve, en % (T)e[i]);
		COMP("div-assign", t /= vd, (T)a[i] / (T)d[i]); COMP("rem-assign", t %= vd, (T)a[i] % (T)d[i]);
		COMP("div-assign-num", t /= dn, (T)a[i] / dn); COMP("rem-assign-num", t %= dn, (T)a[i] % dn);
	}
	{ // shifts: right shift of a signed lane is arithmetic
		U s[4]; for (int i = 0; i < 4; i++) s[i] = (b[i] >> (rng.u() & 15)) & 31u;
		T sn = (T)(s[a[2] & 3]); V vs = mk(s);
		LANES("shr", va >> vs, (T)a[i] >> s[i]); LANES("shl", va << vs, a[i] << s[i]);
		LANES("shr-num", va >> sn, (T)a[i] >> (U)sn); LANES("shl-num", va << sn, a[i] << (U)sn);
		LANES("num-shr", n >> vs, n >> s[i]); LANES("num-shl", n << vs, (U)n << s[i]);
		COMP("shr-assign", t >>= vs, (T)a[i] >> s[i]); COMP("shl-assign", t <<= vs, a[i] << s[i]);
		COMP("shr-assign-num", t >>= sn, (T)a[i] >> (U)sn); COMP("shl-assign-num", t <<= sn, a[i] << (U)sn);
	}
	{ // a number that is one of the vector's own lanes counts with the value it had before the operation
		size_t m = a[3] & 3; U p[4]; for (int i = 0; i < 4; i++) p[i] = a[i];
		#define OWN(key, op) do { VT_OP(K2(key)); V o_ = mk(p), u = o_, w = o_; touch(u); T x = opaque((T)p[m]); w op x; touch(w); u op u[m]; touch(u); for (int i = 0; i < 4; i++) if (LN(u, i) != LN(w, i)) fail(K2(key), "lane %d: got %08x, with a copy of lane %d %08x, a=%08x", i, LN(u, i), (int)m, LN(w, i), p[i]); \
			u = o_; touch(u); { T* q = (T*)&u; const T& r = q[m]; u op r; } touch(u); for (int i = 0; i < 4; i++) if (LN(u, i) != LN(w, i)) fail(K2(key), "lane %d: got %08x, with a copy of member %d %08x, a=%08x", i, LN(u, i), (int)m, LN(w, i), p[i]); } while (0)
		OWN("own-add", +=); OWN("own-sub", -=); OWN("own-mul", *=); OWN("own-and", &=); OWN("own-or", |=); OWN("own-xor", ^=); OWN("own-assign", =);
		if (!p[m]) p[m] = 3; if (S && p[m] == 0xffffffffu) p[m] = 5;
		OWN("own-div", /=); OWN("own-rem", %=);
		p[m] &= 31u; OWN("own-shl", <<=); OWN("own-shr", >>=);
	}
	bool eq = true, eqn = true;
	for (int i = 0; i < 4; i++) { eq &= a[i] == b[i]; eqn &= a[i] == (U)n; }
	BOOL("eq", va == vb, eq); BOOL("ne", va != vb, !eq); BOOL("eq-num", va == n, eqn); BOOL("ne-num", va != n, !eqn);
	BOOL("num-eq", n == va, eqn); BOOL("num-ne", n != va, !eqn);
	MASK("lt", va < vb, (T)a[i] < (T)b[i]); MASK("gt", va > vb, (T)a[i] > (T)b[i]);
	MASK("le", va <= vb, (T)a[i] <= (T)b[i]); MASK("ge", va >= vb, (T)a[i] >= (T)b[i]);
	MASK("lt-num", va < n, (T)a[i] < n); MASK("gt-num", va > n, (T)a[i] > n); MASK("le-num", va <= n, (T)a[i] <= n); MASK("ge-num", va >= n, (T)a[i] >= n);
	MASK("num-lt", n < va, n < (T)a[i]); MASK("num-gt", n > va, n > (T)a[i]); MASK("num-le", n <= va, n <= (T)a[i]); MASK("num-ge", n >= va, n >= (T)a[i]);
	MASK("equal", equal(va, vb), a[i] == b[i]); MASK("notEqual", notEqual(va, vb), a[i] != b[i]);
	{ U m[4]; for (int i = 0; i < 4; i++) m[i] = rng.chance(3) ? rng.u() : rng.chance(2) ? 0xffffffffu : 0u;
	  u32x4 vm = opaque(u32x4(m[0], m[1], m[2], m[3]));
	  LANES("select", select(vm, va, vb), (m[i] >> 31) ? a[i] : b[i]); }
	LANES("bic", bic(va, vb), a[i] & ~b[i]);
	LANES("min", min(va, vb), (T)a[i] < (T)b[i] ? a[i] : b[i]); LANES("max", max(va, vb), (T)a[i] > (T)b[i] ? a[i] : b[i]);
	{ U c[4], lo[4], hi[4]; for (int i = 0; i < 4; i++) { c[i] = genU(rng); bool l = (T)b[i] < (T)c[i]; lo[i] = l ? b[i] : c[i]; hi[i] = l ? c[i] : b[i]; }
	  LANES("clamp", clamp(va, mk(lo), mk(hi)), (T)a[i] < (T)lo[i] ? lo[i] : (T)a[i] > (T)hi[i] ? hi[i] : a[i]); }
	T mn = (T)a[0], mx = (T)a[0], mn3 = mn, mx3 = mx;
	for (int i = 1; i < 4; i++) { T v = (T)a[i]; if (v < mn) mn = v; if (v > mx) mx = v; if (i < 3) { if (v < mn3) mn3 = v; if (v > mx3) mx3 = v; } }
	VAL("min-all", min(va), mn); VAL("max-all", max(va), mx); VAL("min4", min4(va), mn); VAL("max4", max4(va), mx);
	VAL("min3", min3(va), mn3); VAL("max3", max3(va), mx3);
	LANES("operands-unchanged", va, a[i]);
	{
		VT_OP(K2("toString"));
		if ((a[3] & 63) == 0)
		{
			char w[64];
			if (S) snprintf(w, sizeof w, "%d %d %d %d", (I)a[0], (I)a[1], (I)a[2], (I)a[3]); else snprintf(w, sizeof w, "%u %u %u %u", a[0], a[1], a[2], a[3]);
			if (toString(va) != w) fail(K2("toString"), "got %s want %s", toString(va).c_str(), w);
		}
	}
	if constexpr (S) { LANES("neg", -va, 0u - a[i]); }
}

static void masks()
{
	// every combination of true and false lanes; then arbitrary bits for the queries documented on bits
	for (int m = 0; m < 16; m++)
	{
		U a[4], b[4] = { 0, 0, 0, 0 }; constexpr bool S = false;
		for (int i = 0; i < 4; i++) a[i] = (m >> i & 1) ? 0xffffffffu : 0u;
		u32x4 v = opaque(u32x4(a[0], a[1], a[2], a[3]));
		VAL("getTrues", getTrues(v), m);
		BOOL("areAllTrue", areAllTrue(v), m == 15); BOOL("areAllFalse", areAllFalse(v), m == 0);
		BOOL("areAnyTrue", areAnyTrue(v), m != 0); BOOL("areAnyFalse", areAnyFalse(v), m != 15);
	}
}
static void bitQueries(const U* a)
{
	constexpr bool S = false; const U* b = a;
	u32x4 v = opaque(u32x4(a[0], a[1], a[2], a[3]));
	bool any = false; int tops = 0; for (int i = 0; i < 4; i++) { any |= a[i] != 0; tops |= (int)(a[i] >> 31) << i; }
	BOOL("areAllFalse-bits", areAllFalse(v), !any); BOOL("areAnyTrue-bits", areAnyTrue(v), any);
	VAL("getTrues-bits", getTrues(v), tops);
	bool all = true; for (int i = 0; i < 4; i++) all &= a[i] == 0xffffffffu;
	BOOL("areAllTrue-bits", areAllTrue(v), all); BOOL("areAnyFalse-bits", areAnyFalse(v), !all);
}
template<typename V, typename T> static void constants(bool S)
{
	struct { const char* n; V v; T w; } t[] = { { "zero", V::zero, 0 }, { "one", V::one, 1 }, { "max", V::max, (T)(S ? 0x7fffffffu : 0xffffffffu) } };
	for (auto& k : t) { VT_OP("constants"); for (int i = 0; i < 4; i++) if (LN(k.v, i) != (U)k.w) fail("constants", "%s lane %d is %08x", k.n, i, LN(k.v, i)); }
	V d; for (int i = 0; i < 4; i++) if (LN(d, i)) fail("constants", "default lane %d is %08x", i, LN(d, i));
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	constants<i32x4, I>(true); constants<u32x4, U>(false);
	for (int i = 0; i < 4; i++)
	{
		if (i32x4::minusOne[i] != -1) fail("constants", "minusOne lane %d", i);
		if (i32x4::min[i] != INT32_MIN) fail("constants", "min lane %d is %d", i, i32x4::min[i]);
	}
	masks();
	const int S = sizeof specialU / 4;
	for (int p = 0; p < S * S * 4; p++)
	{
		U a[4], b[4]; int lane = p & 3; curCase = (vt::u64)p;
		for (int i = 0; i < 4; i++) { a[i] = rng.u(); b[i] = rng.u(); }
		a[lane] = specialU[(p >> 2) / S]; b[lane] = specialU[(p >> 2) % S];
		caseOf<u32x4, U>(a, b); caseOf<i32x4, I>(a, b);
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k + 100000;
		U a[4], b[4];
		for (int i = 0; i < 4; i++) { a[i] = genU(rng); b[i] = genU(rng); }
		shape4(rng, a, b);
		U mode = rng.below(6);
		if (mode == 0) for (int i = 0; i < 4; i++) b[i] = a[i];
		if (mode == 1) { for (int i = 0; i < 4; i++) b[i] = a[i] = a[0]; b[rng.below(4)] = genU(rng); }
		if (mode == 2) { for (int i = 0; i < 4; i++) b[i] = a[i]; b[rng.below(4)] += rng.chance(2) ? 1u : 0xffffffffu; }
		{ U m[4]; for (int i = 0; i < 4; i++) { U r = rng.below(8); m[i] = r < 4 ? 0xffffffffu : r == 4 ? 0x80808080u | rng.u() : r == 5 ? ~(1u << rng.below(32)) : r == 6 ? 0x80000000u : 0u; } if (rng.chance(2)) { m[0] = m[1] = m[2] = m[3] = 0xffffffffu; m[rng.below(4)] = rng.chance(2) ? ~(1u << rng.below(32)) : 0x80808080u | rng.u(); } bitQueries(m); }
		if (mode == 3) { U z[4] = { 0, 0, 0, 0 }; z[rng.below(4)] = 1u << rng.below(32); bitQueries(z); }
		U in[8]; memcpy(in, a, 16); memcpy(in + 4, b, 16); distinctBytes(in, 32);
		if (k < 3) sample("a=(%08x %08x %08x %08x) b=(%08x %08x %08x %08x)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
		bitQueries(a);
		caseOf<u32x4, U>(a, b); caseOf<i32x4, I>(a, b);
	}
	return end();
}
