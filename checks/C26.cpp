// vt: quick=1500000
// vt: thorough=60000000
// vt: rule=all 256 levels of every channel through every conversion and back (once per run), then random colors at every address alignment: packed forms, float channels (on levels, at and beside half-way points, denormal, out of range and infinite) through all constructors and setters, comparisons of colors and numbers against channel-wise references; distinct by channel bytes and float bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/color.hpp"
#include <new>
using namespace vt;
namespace M = math;
using math::Color; using math::float2; using math::float3; using math::float4; using math::f32x4;

struct C4 { int v[4]; };
static C4 ch(const Color& c) { return { { c.r, c.g, c.b, c.a } }; }
static bool eq(const char* key, const Color& g, C4 w)
{
	C4 c = ch(g); if (!memcmp(&c, &w, sizeof c)) return true;
	fail(key, "channels %d %d %d %d want %d %d %d %d", c.v[0], c.v[1], c.v[2], c.v[3], w.v[0], w.v[1], w.v[2], w.v[3]); return false;
}
static bool nearest(const char* key, int got, float v)
{
	double t = v <= 0 ? 0 : v >= 1 ? 1 : v; if (std::fabs(t * 255 - got) <= 0.5 + 4e-5) return true;
	fail(key, "%.9g becomes level %d", v, got); return false;
}
static float chan()
{
	switch (rng.below(10))
	{
	case 0: return (float)(rng.below(256) / 255.0);
	case 1: return (float)((rng.below(255) + 0.5) / 255.0);
	case 2: { float f = (float)((rng.below(256) + (rng.chance(2) ? 0.5 : 0)) / 255.0); for (int k = (int)rng.below(7) - 3; k; k += k < 0 ? 1 : -1) f = std::nextafterf(f, k > 0 ? 2.0f : -1.0f); return f; }
	case 3: { float f = genAnyF(rng); return isnanf_(f) ? 0.5f : f; }
	case 4: return rng.f(-2, 3);
	default: return rng.f(0, 1);
	}
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	// ---- every level
	static const float scale = 255;
	for (int l = 0; l < 256; l++) for (int o = 0; o < 4; o++)
	{
		curCase = (vt::u64)l; C4 w = { { l, (l + 85 * o) & 255, 255 - l, (l * 7 + o * 64) & 255 } };
		Color c((uint8_t)w.v[0], (uint8_t)w.v[1], (uint8_t)w.v[2], (uint8_t)w.v[3]); touch(c); VT_OP("every level there and back");
		eq("channels", c, w); float4 f = (float4)c; f32x4 s = (f32x4)c; float3 f3 = (float3)c; float2 f2 = (float2)c;
		float n[4] = { c.getNormR(), c.getNormG(), c.getNormB(), c.getNormA() }, ff[4] = { f.x, f.y, f.z, f.w }, fs[4] = { s.getX(), s.getY(), s.getZ(), s.getW() }, f4[3] = { f3.x, f3.y, f3.z };
		for (int i = 0; i < 4; i++) for (float v : { n[i], ff[i], fs[i], i < 3 ? f4[i] : n[i], i == 0 ? f2.x : i == 1 ? f2.y : n[i] }) if (!(std::fabs((double)v * scale - w.v[i]) <= 4e-5)) fail("to-float", "level %d becomes %.9g", w.v[i], v);
		eq("float4-roundtrip", Color(f), w); eq("f32x4-roundtrip", Color(s), w); eq("float3-roundtrip", Color(f3), { { w.v[0], w.v[1], w.v[2], 0 } }); eq("float2-roundtrip", Color(f2), { { w.v[0], w.v[1], 0, 0 } });
		Color q; eq("default", q, { { 0, 0, 0, 0 } }); q.setNormR(n[0]); q.setNormG(n[1]); q.setNormB(n[2]); q.setNormA(n[3]); eq("setNorm-roundtrip", q, w);
		f32x4 lin = opaque(c.toLinear()); eq("linear-roundtrip", Color::fromLinear(lin), w);
		double x = w.v[0] / 255.0, ref = x <= 0.04045 ? x / 12.92 : std::pow((x + 0.055) / 1.055, 2.4); if (!(std::fabs(lin.getX() - ref) <= 2e-5 * ref + 1e-7)) fail("toLinear", "level %d becomes %.9g want %.9g", w.v[0], lin.getX(), ref);
		if (!(std::fabs(lin.getW() * 255.0 - w.v[3]) <= 4e-5)) fail("toLinear-alpha", "alpha %d becomes %.9g", w.v[3], lin.getW());
		Color g((uint8_t)l); eq("grey", g, { { l, l, l, l } });
	}
	struct { const char* n; const Color* c; C4 w; } named[] = { { "white", &Color::white, { { 255, 255, 255, 255 } } }, { "black", &Color::black, { { 0, 0, 0, 255 } } }, { "grey", &Color::grey, { { 127, 127, 127, 255 } } }, { "transparent", &Color::transparent, { { 0, 0, 0, 0 } } }, { "red", &Color::red, { { 255, 0, 0, 255 } } }, { "green", &Color::green, { { 0, 255, 0, 255 } } }, { "blue", &Color::blue, { { 0, 0, 255, 255 } } }, { "cyan", &Color::cyan, { { 0, 255, 255, 255 } } }, { "magenta", &Color::magenta, { { 255, 0, 255, 255 } } }, { "yellow", &Color::yellow, { { 255, 255, 0, 255 } } } };
	for (auto& n : named) { VT_OP("named colors"); eq(n.n, *n.c, n.w); }

	alignas(16) static char mem[64];
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		u32 d = genU(rng), e = rng.chance(2) ? d : genU(rng); if (rng.chance(3)) e = d ^ (1u << rng.below(32)); if (rng.chance(4)) e = d + 0x01010101u; if (rng.chance(8)) d = e = 0x01010101u * rng.below(256);
		auto of = [](u32 v) { return C4{ { (int)(v & 255), (int)(v >> 8 & 255), (int)(v >> 16 & 255), (int)(v >> 24) } }; }; C4 w = of(d), x = of(e);
		int off = (int)rng.below(8); Color* c = new (mem + off) Color((M::uint32)d); Color* b = new (mem + 32 + rng.below(8)) Color((uint8_t)x.v[0], (uint8_t)x.v[1], (uint8_t)x.v[2], (uint8_t)x.v[3]); touch(*c); touch(*b);
		distinct(hashMix(d, e)); if (k < 3) sample("packed %08x %08x at offset %d", d, e, off);
		VT_OP("packed form"); eq("unpack", *c, w); u32 back = (M::uint32)*c; if (back != d) fail("pack", "%08x packs to %08x", d, back); back = (M::uint32)*b; if (back != e) fail("pack", "%08x packs to %08x", e, back);
		{ VT_OP("stored form"); unsigned char m8[8] = { 0 }; if (sizeof(Color) != 4) fail("layout", "a color takes %d bytes", (int)sizeof(Color)); else { Color pair[2] = { *c, *b }; touch(pair); memcpy(m8, (const void*)pair, 8); }
		  for (int i = 0; i < 8; i++) if (m8[i] != (i < 4 ? w.v[i] : x.v[i - 4])) fail("layout", "byte %d of two colors %08x %08x is %d", i, d, e, m8[i]); }
		// comparisons, channel by channel
		VT_OP("comparisons"); bool all[6] = { true, true, true, true, true, true }; int n = (int)(rng.chance(2) ? (u32)w.v[rng.below(4)] : rng.below(256)); bool num[6] = { true, true, true, true, true, true };
		for (int i = 0; i < 4; i++) { int p = w.v[i], q = x.v[i]; bool r[6] = { p == q, p == q, p < q, p > q, p <= q, p >= q }, s[6] = { p == n, p == n, p < n, p > n, p <= n, p >= n }; for (int j = 0; j < 6; j++) { all[j] = all[j] && r[j]; num[j] = num[j] && s[j]; } }
		all[1] = !all[0]; num[1] = !num[0]; M::uint8 m = (M::uint8)n;
		bool g1[6] = { *c == *b, *c != *b, *c < *b, *c > *b, *c <= *b, *c >= *b }, g2[6] = { *c == m, *c != m, *c < m, *c > m, *c <= m, *c >= m }, g3[6] = { m == *c, m != *c, m > *c, m < *c, m >= *c, m <= *c };
		static const char* const nm[6] = { "==", "!=", "<", ">", "<=", ">=" };
		for (int j = 0; j < 6; j++) { if (g1[j] != all[j]) fail("compare", "%08x %s %08x is %d", d, nm[j], e, g1[j]); if (g2[j] != num[j] || g3[j] != num[j]) fail("compare-number", "%08x %s %d is %d and %d mirrored", d, nm[j], n, g2[j], g3[j]); }
		// sRGB encoding of any linear value
		{
			float l[4]; for (float& v : l) { u32 m = rng.below(6); v = m == 0 ? (float)std::pow(10, rng.range(-8, 0)) : m == 1 ? (float)(rng.below(256) / 255.0) : chan(); } if (rng.chance(8)) l[1] = l[2] = l[0]; if (rng.chance(8)) l[1] = l[0]; touch(l);
			VT_OP("fromLinear"); C4 g = ch(Color::fromLinear(opaque(f32x4(l[0], l[1], l[2], l[3]))));
			for (int i = 0; i < 4; i++) { double t = l[i] <= 0 ? 0 : l[i] >= 1 ? 1 : l[i], w = 255 * (i == 3 ? t : t <= 0.0031308 ? t * 12.92 : 1.055 * std::pow(t, 1 / 2.4) - 0.055); if (!(std::fabs(w - g.v[i]) <= 0.5 + 2e-3)) fail("fromLinear", "linear %.9g becomes level %d want %.6g", l[i], g.v[i], w); }
			VT_OP("toLinear"); float o[4]; opaque(c->toLinear()).store(o);
			for (int i = 0; i < 4; i++) { double s = w.v[i] / 255.0, r = i == 3 ? s : s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4); if (!(std::fabs(o[i] - r) <= 2e-5 * r + 1e-7)) fail("toLinear", "level %d becomes %.9g want %.9g", w.v[i], o[i], r); }
		}
		// quantisation
		float f[4] = { chan(), chan(), chan(), chan() }; for (float& v : f) touch(v); distinctBytes(f, 16);
		VT_OP("quantisation"); Color q4(float4(f[0], f[1], f[2], f[3])), qs(f32x4(f[0], f[1], f[2], f[3])), q3(float3(f[0], f[1], f[2])), q2(float2(f[0], f[1])), qn = *c; C4 a4 = ch(q4), as = ch(qs), a3 = ch(q3), a2 = ch(q2);
		int ix = (int)rng.below(4); if (ix == 0) qn.setNormR(f[0]); else if (ix == 1) qn.setNormG(f[1]); else if (ix == 2) qn.setNormB(f[2]); else qn.setNormA(f[3]); C4 an = ch(qn);
		for (int i = 0; i < 4; i++) { nearest("Color(float4)", a4.v[i], f[i]); nearest("Color(f32x4)", as.v[i], f[i]); if (i < 3) nearest("Color(float3)", a3.v[i], f[i]); if (i < 2) nearest("Color(float2)", a2.v[i], f[i]); if (i == ix) nearest("setNorm", an.v[i], f[i]); else if (an.v[i] != w.v[i]) fail("setNorm-other", "setting channel %d changed channel %d", ix, i); }
		if (a3.v[3] || a2.v[2] || a2.v[3]) fail("Color(float)-unset", "channels not given are %d, %d %d", a3.v[3], a2.v[2], a2.v[3]);
	}
	return end();
}
