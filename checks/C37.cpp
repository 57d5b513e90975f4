// vt: quick=3000000
// vt: thorough=150000000
// vt: rule=all pairs of values of an 8-bit enumeration first (once per run), then random and structured pairs of 8-, 16-, 32- and 64-bit enumerations of unsigned and signed numbers (empty, full, one flag, top flag, subsets, supersets, disjoint, all bits above 31) through every operator, plain, compound and chained, against sets of bits as plain integers; distinct by width and pair
#include "vt.hpp"
#include "math/flags.hpp"
using namespace vt;
namespace M = math;

namespace math
{
enum class F8 : uint8 { none = 0, a = 1, top = 0x80 };
enum class F16 : uint16 { none = 0, a = 1, top = 0x8000 };
enum class F32 : uint32 { none = 0, a = 1, top = 0x80000000u };
enum class F64 : uint64 { none = 0, a = 1, mid = 1ull << 32, top = 1ull << 63 };
enum class S8 : int8 { none = 0, a = 1, top = -128 };
enum class S16 : int16 { none = 0, a = 1, top = -32768 };
enum class SD { none = 0, a = 1, top = INT32_MIN }; // the default: int
enum class S64 : int64 { none = 0, a = 1, mid = 1ll << 32, top = INT64_MIN };
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F8)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F16)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F32)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F64)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(S8)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(S16)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(SD)
DECLARE_ENUM_CLASS_FLAG_OPERATORS(S64)
}
template<class E, class U> static void check(const char* name, U x, U y)
{
	E a = (E)x, b = (E)y; touch(a); touch(b); typedef unsigned long long L; static const char* const fm = "%s %llx and %llx: %llx want %llx";
	auto eq = [&](const char* key, E g, U w) { if ((U)g != w) fail(key, fm, name, (L)x, (L)y, (L)(U)g, (L)w); };
	VT_OP("set operators"); eq("or", a | b, (U)(x | y)); eq("and", a & b, (U)(x & y)); eq("xor", a ^ b, (U)(x ^ y)); eq("complement", ~a, (U)~x); bool n = (U)!a != 0; if (n != (x == 0)) fail("not", fm, name, (L)x, (L)y, (L)n, (L)(x == 0));
	VT_OP("compound operators"); E c = a; auto&& r1 = (c |= b); eq("or-assign", c, (U)(x | y)); if ((const void*)&r1 != (const void*)&c) fail("or-assign-result", "%s: not a reference to the left side", name); c = a; auto&& r2 = (c &= b); eq("and-assign", c, (U)(x & y)); if ((const void*)&r2 != (const void*)&c) fail("and-assign-result", "%s: not a reference to the left side", name); c = a; auto&& r3 = (c ^= b); eq("xor-assign", c, (U)(x ^ y)); if ((const void*)&r3 != (const void*)&c) fail("xor-assign-result", "%s: not a reference to the left side", name);
	c = a; (c |= b) ^= a; eq("chained", c, (U)((x | y) ^ x)); c = a; c |= c; eq("self", c, x); c ^= c; eq("self", c, 0);
	VT_OP("queries"); bool any = M::hasAnyFlag(a, b); if (any != ((x & y) != 0)) fail("hasAnyFlag", fm, name, (L)x, (L)y, (L)any, (L)((x & y) != 0));
	if (x && y && !(y & (y - 1))) { VT_COUNT("one-flag queries"); bool one = M::hasOneFlag(a, b); if (one != (x == y)) fail("hasOneFlag", fm, name, (L)x, (L)y, (L)one, (L)(x == y)); }
}
static vt::u64 gen() { switch (rng.below(8)) { case 0: return 0; case 1: return ~0ull; case 2: case 3: return 1ull << rng.below(64); case 4: return (vt::u64)rng.u() << 32; case 5: return rng.next() & rng.next() & rng.next(); default: return rng.next(); } }
int main(int argc, char** argv)
{
	begin(argc, argv);
	for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { curCase = (vt::u64)(x * 256 + y); check<M::F8, M::uint8>("8-bit", (M::uint8)x, (M::uint8)y); }
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; vt::u64 x = gen(), y = gen(); switch (rng.below(5)) { case 0: y = x; break; case 1: y = ~x; break; case 2: y = x & rng.next(); break; case 3: y = x | rng.next(); break; default: break; }
		int w = (int)(k % 4); distinct(hashMix(hashMix(x, y), (vt::u64)w)); if (k < 3) sample("%llx and %llx", (unsigned long long)x, (unsigned long long)y);
		if (rng.chance(3) && w < 3) { int s = (int)rng.below(64 - (8 << w) + 1); x >>= s; y >>= s; }
		if (rng.chance(4)) { int n = 8 << w; x = 1ull << rng.below((vt::u32)n); y = rng.chance(2) ? x : 1ull << rng.below((vt::u32)n); }
		if (k % 3 == 0)
			switch (w) { case 0: check<M::S8, M::uint8>("signed 8-bit", (M::uint8)x, (M::uint8)y); break; case 1: check<M::S16, M::uint16>("signed 16-bit", (M::uint16)x, (M::uint16)y); break; case 2: check<M::SD, M::uint32>("int", (M::uint32)x, (M::uint32)y); break; default: check<M::S64, M::uint64>("signed 64-bit", x, y); break; }
		else switch (w) { case 0: check<M::F8, M::uint8>("8-bit", (M::uint8)x, (M::uint8)y); break; case 1: check<M::F16, M::uint16>("16-bit", (M::uint16)x, (M::uint16)y); break; case 2: check<M::F32, M::uint32>("32-bit", (M::uint32)x, (M::uint32)y); break; default: check<M::F64, M::uint64>("64-bit", x, y); }
	}
	return end();
}
