// vt: configs=sse2,sse41,avx2,asan,scalar,neon
// vt: quick=3000000
// vt: thorough=1
// vt: tshards=8
// vt: rule=quick: random bit patterns plus, for every exponent and sign, the mantissas around each half and whole boundary; thorough: every one of the 2^32 floats (split over shards); each value visits all four lanes; distinct counts input patterns
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
using namespace vt;
using namespace math;
typedef vt::u32 U;

static inline bool integral(float v) { return v == (float)(double)std::trunc(v); }
static inline void judge(const char* key, int which, float v, float g)
{
	bool ok;
	if (isnanf_(v)) ok = isnanf_(g);
	else if (isinff_(v) || std::fabs(v) >= 8388608.0f) ok = bits(g) == bits(v);
	else
	{
		vt::i64 t = (vt::i64)v; bool whole = (float)t == v; // |v| < 2^23: exact
		if (whole) ok = bits(g) == bits(v);
		else
		{
			vt::i64 lo = v < 0 ? t - 1 : t, hi = lo + 1;
			float wl = (float)lo, wh = (float)hi;
			switch (which)
			{
			case 0: ok = g == wl; break;                         // floor
			case 1: ok = g == wh; break;                         // ceil
			case 2: ok = g == (v < 0 ? wh : wl); break;          // trunc
			default: { double dl = (double)v - wl, dh = (double)wh - v; ok = dl < dh ? g == wl : dh < dl ? g == wh : (g == wl || g == wh); } // round
			}
		}
	}
	if (!ok) fail(key, "of %.9g (%08x) is %.9g (%08x)", v, bits(v), g, bits(g));
}
static const char* keys[3][4] = { { "f32x4 floor", "f32x4 ceil", "f32x4 trunc", "f32x4 round" }, { "float4 floor", "float4 ceil", "float4 trunc", "float4 round" }, { "float2/3 floor", "float2/3 ceil", "float2/3 trunc", "float2/3 round" } };
static vt::u64 simdN, scalarN;
static inline void four(const float* p, bool scalars)
{
	f32x4 v = opaque(f32x4(p)); float o[4];
	curOp = keys[0][0];
	f32x4 r[4] = { floor(v), ceil(v), trunc(v), round(v) };
	for (int k = 0; k < 4; k++) { r[k].store(o); for (int i = 0; i < 4; i++) judge(keys[0][k], k, p[i], o[i]); }
	evaluations += 16; simdN++;
	if (scalars)
	{
		float4 s(p[0], p[1], p[2], p[3]); touch(s); float3 s3(p[0], p[1], p[2]); float2 s2(p[3], p[0]); touch(s3); touch(s2);
		float4 q[4] = { floor(s), ceil(s), trunc(s), round(s) }; float3 q3[4] = { floor(s3), ceil(s3), trunc(s3), round(s3) }; float2 q2[4] = { floor(s2), ceil(s2), trunc(s2), round(s2) };
		for (int k = 0; k < 4; k++)
		{
			judge(keys[1][k], k, p[0], q[k].x); judge(keys[1][k], k, p[1], q[k].y); judge(keys[1][k], k, p[2], q[k].z); judge(keys[1][k], k, p[3], q[k].w);
			judge(keys[2][k], k, p[0], q3[k].x); judge(keys[2][k], k, p[1], q3[k].y); judge(keys[2][k], k, p[2], q3[k].z); judge(keys[2][k], k, p[3], q2[k].x); judge(keys[2][k], k, p[0], q2[k].y);
		}
		evaluations += 36; scalarN++;
	}
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	// boundary patterns: every exponent and sign, mantissas next to whole and half values, each in every lane
	for (U s = 0; s < 2; s++) for (U e = 0; e < 256; e++)
		for (int b = 0; b <= 23; b++) for (int d = -1; d <= 1; d++) for (int h = 0; h < 4; h++)
		{
			U m = (U)(((h & 1) << 22 | (h & 2) << 20 | (b < 23 ? (1u << b) : 0)) + (U)d) & 0x7fffff;
			float v = fbits(s << 31 | e << 23 | m), p[4]; distinct(bits(v));
			for (int l = 0; l < 4; l++) { for (int i = 0; i < 4; i++) p[i] = i == l ? v : fbits(rng.u()); four(p, l == 0); }
		}
	if (thorough)
	{
		for (vt::u64 k = (vt::u64)shard; k < (1ull << 30); k += (vt::u64)shards)
		{
			float p[4]; U base = (U)k; int rot = (int)(k / (vt::u64)shards) & 3;
			for (int i = 0; i < 4; i++) p[(i + rot) & 3] = fbits(base | (U)i << 30);
			curCase = k; four(p, (k / (vt::u64)shards & 15) == 0);
		}
		count("exhaustive-floats-this-config", (1ull << 32) / (vt::u64)shards);
	}
	else for (vt::u64 k = 0; k < cases; k++)
	{
		float p[4]; curCase = k;
		for (int i = 0; i < 4; i++) { p[i] = genAnyF(rng); if (rng.chance(3)) p[i] = genMag(rng, -1, 8); }
		if (k < 3) sample("(%.9g %.9g %.9g %.9g)", p[0], p[1], p[2], p[3]);
		for (int i = 0; i < 4; i++) distinct(bits(p[i]));
		four(p, k % 4 == 0);
	}
	count("SIMD calls of floor, ceil, trunc and round", simdN); count("scalar vector calls", scalarN);
	return end();
}
