// vt: quick=4000000
// vt: thorough=16777216
// vt: tshards=8
// vt: rule=sizes next to every power of two and all sizes to 4096 first, then random sizes of every magnitude (thorough: all sizes below 2^24 in addition, split over shards) as one-, two- and three-dimensional sizes with the largest dimension in every place, small dimensions and any fourth lane, at every level of the chain and beyond it, against integer halving; distinct by size
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/uint.hpp"
using namespace vt;
namespace M = math;
using M::uint2; using M::uint3; using M::u32x4;

static int count_(u32 s) { int n = 1; while (s > 1) { s /= 2; n++; } return n; }
static u32 at(u32 s, int l) { while (l-- > 0) s /= 2; return s ? s : 1; }
static u32 other(u32 big) { switch (rng.below(6)) { case 0: return 1; case 1: return big; case 2: { u32 h = at(big, (int)rng.below(33)); return h; } case 3: return big > 1 ? big - 1 : 1; default: return 1 + rng.below(big == 0xffffffffu ? big : big); } }

static void one(u32 s, bool all)
{
	touch(s); int n = count_(s); distinct(s); VT_OP("one dimension"); int g = M::calcMipCount((M::uint32)s); if (g != n) fail("count1", "%u has %d levels want %d", s, g, n);
	int from = all ? 0 : (int)rng.below(32), to = all ? 32 : from + 1; for (int l = from; l < to; l++) { u32 q = M::calcSizeAtMip((M::uint32)s, (M::uint8)opaque(l)); if (q != at(s, l)) fail("size1", "%u at level %d is %u want %u", s, l, q, at(s, l)); }
	u32 last = M::calcSizeAtMip((M::uint32)s, (M::uint8)(g - 1)); if (last != 1) fail("last", "last of %d levels of %u is %u", g, s, last); if (g > 1 && M::calcSizeAtMip((M::uint32)s, (M::uint8)(g - 2)) == 1) fail("early", "level %d of %u is already one", g - 2, s);
}
static void more(u32 s)
{
	u32 d[3] = { s, other(s), other(s) }; { int i = (int)rng.below(3); std::swap(d[0], d[i]); } u32 w = rng.chance(2) ? 0 : genU(rng);
	uint2 s2(d[0], d[1]); uint3 s3(d[0], d[1], d[2]); u32x4 s4(d[0], d[1], d[2], w); touch(s2); touch(s3); touch(s4);
	int n2 = count_(std::max(d[0], d[1])), n3 = count_(s); VT_OP("two and three dimensions");
	int g2 = M::calcMipCount(s2), g3 = M::calcMipCount(s3), g4 = M::calcMipCount3(s4); if (g2 != n2) fail("count2", "%u x %u has %d levels want %d", d[0], d[1], g2, n2); if (g3 != n3) fail("count3", "%u x %u x %u has %d levels want %d", d[0], d[1], d[2], g3, n3); if (g4 != n3) fail("count-simd", "%u x %u x %u (%u) has %d levels want %d", d[0], d[1], d[2], w, g4, n3);
	for (int k = 0; k < 3; k++)
	{
		int l = k == 0 ? n3 - 1 : (int)rng.below(k == 1 ? (u32)n3 : 32u); touch(l); uint2 q2 = M::calcSizeAtMip(s2, (M::uint8)l); uint3 q3 = M::calcSizeAtMip(s3, (M::uint8)l); u32x4 q4 = M::calcSizeAtMip3(s4, (M::uint8)l); touch(q2); touch(q3); touch(q4);
		u32 a[3] = { at(d[0], l), at(d[1], l), at(d[2], l) }; if (q2.x != a[0] || q2.y != a[1]) fail("size2", "%u x %u at level %d is %u x %u", d[0], d[1], l, q2.x, q2.y); if (q3.x != a[0] || q3.y != a[1] || q3.z != a[2]) fail("size3", "%u x %u x %u at level %d is %u x %u x %u", d[0], d[1], d[2], l, q3.x, q3.y, q3.z);
		if (q4.getX() != a[0] || q4.getY() != a[1] || q4.getZ() != a[2]) fail("size-simd", "%u x %u x %u at level %d is %u x %u x %u", d[0], d[1], d[2], l, q4.getX(), q4.getY(), q4.getZ());
	}
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	for (int b = 0; b < 32; b++) for (int e = -3; e <= 3; e++) { vt::u64 s = (1ull << b) + e; if (s < 1 || s > 0xffffffffull) continue; curCase = s; one((u32)s, true); for (int r = 0; r < 8; r++) more((u32)s); }
	one(0xffffffffu, true); more(0xffffffffu); for (u32 s = 1; s < 4096; s++) { curCase = s; one(s, true); more(s); }
	if (thorough) for (u32 s = 1 + (u32)shard; s < (1u << 24); s += (u32)shards) { curCase = s; one(s, s % 16 == 0); }
	for (vt::u64 k = 0; k < cases; k++) { u32 s = genU(rng); if (!s) s = 1; curCase = k; if (k < 3) sample("size %u", s); one(s, false); more(s); }
	return end();
}
