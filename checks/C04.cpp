// vt: quick=60000
// vt: thorough=2000000
// vt: rule=each case draws four components (any bit pattern) per element type and builds, converts, loads, stores, sets, swizzles (all 256) and bit-casts; integer conversions get values in the destination range, half of them at or above 2^31 for unsigned; distinct by component bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include <utility>
using namespace vt;
using namespace math;
typedef vt::u32 U; typedef vt::i32 I;

template<typename T> static U B(T v) { U u; memcpy(&u, &v, 4); return u; }
// any NaN equals any NaN only for floats that went through arithmetic; moves keep the bits (x87 aside), so compare bits, but let a signalling NaN turn quiet
static bool eqB(float a, float b) { return B(a) == B(b) || (isnanf_(a) && isnanf_(b)); }
static bool eqB(U a, U b) { return a == b; }
static bool eqB(I a, I b) { return a == b; }
#define EXP(key, got, want) do { VT_OP(key); auto g_ = opaque(got); decltype(g_) w_ = (want); if (!eqB(g_, w_)) fail(key, "%s is %08x (%.9g) want %08x (%.9g)", #got, B(g_), (double)g_, B(w_), (double)w_); } while (0)

template<typename V2, typename V3, typename V4, typename T> static void build(const T* p)
{
	T x = opaque(p[0]), y = opaque(p[1]), z = opaque(p[2]), w = opaque(p[3]);
	V2 xy(x, y), yz(y, z), zw(z, w); V3 xyz(x, y, z), yzw(y, z, w);
	EXP("vec2", xy.x, x); EXP("vec2", xy.y, y);
	#define THREE(k, ...) do { V3 v(__VA_ARGS__); touch(v); EXP(k, v.x, x); EXP(k, v.y, y); EXP(k, v.z, z); } while (0)
	#define FOUR(k, ...) do { V4 v(__VA_ARGS__); touch(v); EXP(k, v.x, x); EXP(k, v.y, y); EXP(k, v.z, z); EXP(k, v.w, w); } while (0)
	THREE("vec3 x y z", x, y, z); THREE("vec3 xy z", xy, z); THREE("vec3 x yz", x, yz);
	FOUR("vec4 x y z w", x, y, z, w); FOUR("vec4 xy z w", xy, z, w); FOUR("vec4 x yz w", x, yz, w); FOUR("vec4 x y zw", x, y, zw);
	FOUR("vec4 xy zw", xy, zw); FOUR("vec4 xyz w", xyz, w); FOUR("vec4 x yzw", x, yzw);
	{ V3 v(w); EXP("vec3 broadcast", v.x, w); EXP("vec3 broadcast", v.y, w); EXP("vec3 broadcast", v.z, w); }
	{ V4 v(z); EXP("vec4 broadcast", v.x, z); EXP("vec4 broadcast", v.y, z); EXP("vec4 broadcast", v.z, z); EXP("vec4 broadcast", v.w, z); }
	{ V2 v(z); EXP("vec2 broadcast", v.x, z); EXP("vec2 broadcast", v.y, z); }
	V4 v(x, y, z, w); touch(v); touch(xyz); touch(xy);
	V3 a = (V3)v; EXP("vec4 to vec3", a.x, x); EXP("vec4 to vec3", a.y, y); EXP("vec4 to vec3", a.z, z);
	V2 b = (V2)v; EXP("vec4 to vec2", b.x, x); EXP("vec4 to vec2", b.y, y);
	V2 c = (V2)xyz; EXP("vec3 to vec2", c.x, x); EXP("vec3 to vec2", c.y, y);
	EXP("vec4 to number", (T)v, x); EXP("vec3 to number", (T)xyz, x); EXP("vec2 to number", (T)xy, x);
}
static void convert(const U* u, const I* s, const float* fi, const float* fu)
{
	U ux = u[0], uy = u[1], uz = u[2], uw = u[3]; I ix = s[0], iy = s[1], iz = s[2], iw = s[3];
	uint4 vu(ux, uy, uz, uw); int4 vi(ix, iy, iz, iw); touch(vu); touch(vi);
	uint3 vu3(ux, uy, uz); uint2 vu2(ux, uy); int3 vi3(ix, iy, iz); int2 vi2(ix, iy);
	#define C2(k, v, f) do { auto v_ = (v); touch(v_); EXP(k, v_.x, f(0)); EXP(k, v_.y, f(1)); } while (0)
	#define C3(k, v, f) do { auto w_3 = (v); touch(w_3); EXP(k, w_3.x, f(0)); EXP(k, w_3.y, f(1)); EXP(k, w_3.z, f(2)); } while (0)
	#define C4(k, v, f) do { auto w_4 = (v); C3(k, w_4, f); EXP(k, w_4.w, f(3)); } while (0)
	auto uf = [&](int i) { return (float)opaque(u[i]); }; auto sf = [&](int i) { return (float)opaque(s[i]); };
	auto ui = [&](int i) { return (I)u[i]; }; auto su = [&](int i) { return (U)s[i]; };
	auto fI = [&](int i) { return (I)opaque(fi[i]); }; auto fU = [&](int i) { return (U)opaque(fu[i]); };
	C4("float4(uint4)", float4(vu), uf); C3("float3(uint3)", float3(vu3), uf); C2("float2(uint2)", float2(vu2), uf);
	C4("float4(int4)", float4(vi), sf); C3("float3(int3)", float3(vi3), sf); C2("float2(int2)", float2(vi2), sf);
	C4("int4(uint4)", int4(vu), ui); C3("int3(uint3)", int3(vu3), ui); C2("int2(uint2)", int2(vu2), ui);
	C4("(uint4)int4", (uint4)vi, su); C3("(uint3)int3", (uint3)vi3, su); C2("(uint2)int2", (uint2)vi2, su);
	C3("(uint3)int4", (uint3)vi, su); C2("(uint2)int4", (uint2)vi, su); C2("(uint2)int3", (uint2)vi3, su);
	EXP("(uint32)int4", (U)vi, (U)ix); EXP("(uint32)int3", (U)vi3, (U)ix); EXP("(uint32)int2", (U)vi2, (U)ix);
	float4 a(fi[0], fi[1], fi[2], fi[3]), b(fu[0], fu[1], fu[2], fu[3]); touch(a); touch(b);
	float3 a3(fi[0], fi[1], fi[2]), b3(fu[0], fu[1], fu[2]); float2 a2(fi[0], fi[1]), b2(fu[0], fu[1]); touch(a3); touch(b3); touch(a2); touch(b2);
	C4("(int4)float4", (int4)a, fI); C3("(int3)float4", (int3)a, fI); C2("(int2)float4", (int2)a, fI); C3("(int3)float3", (int3)a3, fI); C2("(int2)float3", (int2)a3, fI); C2("(int2)float2", (int2)a2, fI);
	C4("(uint4)float4", (uint4)b, fU); C3("(uint3)float4", (uint3)b, fU); C2("(uint2)float4", (uint2)b, fU); C3("(uint3)float3", (uint3)b3, fU); C2("(uint2)float3", (uint2)b3, fU); C2("(uint2)float2", (uint2)b2, fU);
	EXP("(int32)float4", (I)a, fI(0)); EXP("(int32)float3", (I)a3, fI(0)); EXP("(int32)float2", (I)a2, fI(0));
	EXP("(uint32)float4", (U)b, fU(0)); EXP("(uint32)float3", (U)b3, fU(0)); EXP("(uint32)float2", (U)b2, fU(0));
	// SIMD numeric conversions
	u32x4 su4(ux, uy, uz, uw); i32x4 si4(ix, iy, iz, iw); f32x4 sa(fi[0], fi[1], fi[2], fi[3]), sb(fu[0], fu[1], fu[2], fu[3]); touch(su4); touch(si4); touch(sa); touch(sb);
	#define L4(k, v, f) do { auto v_ = (v); touch(v_); EXP(k, v_.getX(), f(0)); EXP(k, v_.getY(), f(1)); EXP(k, v_.getZ(), f(2)); EXP(k, v_.getW(), f(3)); } while (0)
	L4("f32x4(u32x4)", f32x4(su4), uf); L4("f32x4(i32x4)", f32x4(si4), sf); L4("(i32x4)f32x4", (i32x4)sa, fI); L4("(u32x4)f32x4", (u32x4)sb, fU);
	L4("i32x4(u32x4)", i32x4(su4), ui); L4("(u32x4)i32x4", (u32x4)si4, su);
}
static void casts(const U* u)
{
	u32x4 a(u[0], u[1], u[2], u[3]); touch(a);
	i32x4 i = uintAsInt(a); f32x4 f = uintAsFloat(a), g = intAsFloat(i); u32x4 b = floatAsUint(f); i32x4 j = floatAsInt(g);
	touch(i); touch(b); touch(j); U fb[4]; memcpy(fb, &f, 16); U gb[4]; memcpy(gb, &g, 16);
	U bi[4]; memcpy(bi, &b, 16); U ii[4], jj[4]; memcpy(ii, &i, 16); memcpy(jj, &j, 16);
	for (int k = 0; k < 4; k++)
	{
		EXP("uintAsInt", ii[k], u[k]); EXP("uintAsFloat", fb[k], u[k]); EXP("intAsFloat", gb[k], u[k]); EXP("floatAsUint", bi[k], u[k]); EXP("floatAsInt", jj[k], u[k]);
	}
}
template<typename V, int M> static V sw1(V v) { return v.template swizzle<M & 3, (M >> 2) & 3, (M >> 4) & 3, (M >> 6) & 3>(); }
template<typename V> struct Sw { V (*f[256])(V); };
template<typename V, size_t... Q> static Sw<V> table(std::index_sequence<Q...>) { return { { &sw1<V, (int)Q>... } }; }

template<typename V, typename V4, typename V3, typename V2, typename T> static void simd(const T* p, const char* tn)
{
	static const Sw<V> sw = table<V>(std::make_index_sequence<256>());
	static char keys[16][64]; static bool init = false;
	if (!init) { init = true; const char* n[] = { "build", "get", "set", "fixW", "index", "load", "loadAligned", "store", "storeAligned", "swizzle", "splat", "to scalar", "from scalar", "xyz w", "broadcast", "copy" };
		for (int i = 0; i < 16; i++) snprintf(keys[i], 64, "%s %s", tn, n[i]); }
	enum { BUILD, GET, SET, FIXW, INDEX, LOAD, LOADA, STORE, STOREA, SWZ, SPLAT, TOS, FROMS, XYZW, BROAD, COPY };
	#define GETL(v, i) ((i) == 0 ? (v).getX() : (i) == 1 ? (v).getY() : (i) == 2 ? (v).getZ() : (v).getW())
	#define LCHK(k, v, want) do { VT_OP(keys[k]); V v_ = opaque(v); T m_[4]; memcpy(m_, &v_, 16); for (int i = 0; i < 4; i++) { T w_ = (want); if (!eqB(m_[i], w_)) fail(keys[k], "lane %d in memory %08x want %08x", i, B(m_[i]), B(w_)); \
		if (!eqB((T)GETL(v_, i), w_)) fail(keys[k], "lane %d %08x want %08x", i, B((T)GETL(v_, i)), B(w_)); } } while (0)
	T x = p[0], y = p[1], z = p[2], w = p[3];
	V v(x, y, z, w); touch(v);
	LCHK(BUILD, v, p[i]); LCHK(BROAD, V(y), y); LCHK(BROAD, V(), (T)0); LCHK(COPY, V(v), p[i]);
	#define LCHK3(k, v) do { VT_OP(keys[k]); V v_ = opaque(v); for (int i = 0; i < 3; i++) if (!eqB((T)GETL(v_, i), p[i])) fail(keys[k], "lane %d", i); } while (0)
	LCHK3(BUILD, V(x, y, z)); LCHK(XYZW, V(v, opaque(y)), i == 3 ? y : p[i]);
	LCHK(FROMS, V(V4(x, y, z, w)), p[i]); LCHK3(FROMS, V(V3(x, y, z)));
	{ VT_OP(keys[FROMS]); V t = opaque(V(V2(x, y))); if (!eqB((T)t.getX(), x) || !eqB((T)t.getY(), y)) fail(keys[FROMS], "from two components"); }
	{ VT_OP(keys[TOS]); V4 a = opaque((V4)v); V3 b = opaque((V3)v); V2 c = opaque((V2)v); T d = opaque((T)v);
	  if (!eqB(a.x, x) || !eqB(a.y, y) || !eqB(a.z, z) || !eqB(a.w, w)) fail(keys[TOS], "four"); if (!eqB(b.x, x) || !eqB(b.y, y) || !eqB(b.z, z)) fail(keys[TOS], "three");
	  if (!eqB(c.x, x) || !eqB(c.y, y)) fail(keys[TOS], "two"); if (!eqB(d, x)) fail(keys[TOS], "one"); }
	const T n = p[4];
	{ V t = v; t.setX(n); LCHK(SET, t, i == 0 ? n : p[i]); t = v; t.setY(n); LCHK(SET, t, i == 1 ? n : p[i]); t = v; t.setZ(n); LCHK(SET, t, i == 2 ? n : p[i]); t = v; t.setW(n); LCHK(SET, t, i == 3 ? n : p[i]);
	  t = v; t.fixW(); LCHK(FIXW, t, i == 3 ? z : p[i]);
	  for (int k = 0; k < 4; k++) { t = v; t[(size_t)k] = n; touch(t); LCHK(INDEX, t, i == k ? n : p[i]); const V& ct = v; if (!eqB((T)ct[(size_t)k], p[k])) fail(keys[INDEX], "read %d", k); } }
	{ // memory: unaligned at every element offset, with guards; aligned
		alignas(16) T buf[16]; alignas(16) U raw[16]; memset(raw, 0xA5, sizeof raw); T guard; memcpy(&guard, raw, 4);
		for (int off = 0; off < 8; off++)
		{
			for (int i = 0; i < 16; i++) buf[i] = guard;
			for (int i = 0; i < 4; i++) buf[off + i] = p[i];
			touch(buf);
			LCHK(LOAD, V((const T*)(buf + off)), p[i]);
			if (off % 4 == 0) { V t; t.loadAligned(buf + off); LCHK(LOADA, t, p[i]); }
			for (int a = 0; a < (off % 4 == 0 ? 2 : 1); a++)
			{
				VT_OP(keys[a ? STOREA : STORE]);
				for (int i = 0; i < 16; i++) buf[i] = guard;
				touch(buf); V t = v; if (a) t.storeAligned(buf + off); else t.store(buf + off); touch(buf); LCHK(a ? STOREA : STORE, t, p[i]); VT_OP(keys[a ? STOREA : STORE]);
				for (int i = 0; i < 16; i++) { bool in = i >= off && i < off + 4; if (B(buf[i]) != (in ? B(p[i - off]) : B(guard))) { if (in && eqB(buf[i], p[i - off])) continue; fail(keys[a ? STOREA : STORE], "offset %d element %d is %08x", off, i, B(buf[i])); } }
			}
		}
	}
	{ // exact-size heap memory: the sanitizer build sees a store or load that goes past it
		T* h = (T*)malloc(16); for (int i = 0; i < 4; i++) h[i] = p[i]; V t((const T*)h); touch(t); LCHK(LOAD, t, p[i]); t.store(h); touch(*h); free(h); }
	for (int m = 0; m < 256; m++) LCHK(SWZ, sw.f[m](v), p[(m >> (2 * i)) & 3]);
	LCHK(SPLAT, v.splatX(), x); LCHK(SPLAT, v.splatY(), y); LCHK(SPLAT, v.splatZ(), z); LCHK(SPLAT, v.splatW(), w);
	V q = opaque(v); V r; r = q; LCHK(COPY, r, p[i]);
}

// an array of vectors is its components one after another, as a vertex buffer expects
template<class V, typename T, int N, class Get> static void layout(const char* name, const T* src, Get get)
{
	VT_OP("array layout");
	if (sizeof(V) != N * sizeof(T)) { fail("layout", "%s takes %d bytes", name, (int)sizeof(V)); return; }
	const int n = 1 + (int)rng.below(5); std::vector<T> raw((size_t)(N * n)); for (size_t i = 0; i < raw.size(); i++) raw[i] = src[i % 5]; for (int i = 0; i < N; i++) raw[i] = src[i];
	std::vector<V> v((size_t)n); memcpy((void*)v.data(), raw.data(), raw.size() * sizeof(T)); touch(v);
	for (int k = 0; k < n; k++) for (int i = 0; i < N; i++) { T g = get(v[(size_t)k], i), w = raw[(size_t)(k * N + i)]; if (memcmp(&g, &w, sizeof g)) fail("layout", "%s: element %d component %d is not word %d of the array", name, k, i, k * N + i); }
	std::vector<V> c = v; touch(c); if (memcmp((const void*)c.data(), raw.data(), raw.size() * sizeof(T))) fail("layout", "%s: copied elements are stored differently", name);
}
static void layouts(const float* f, const I* s, const U* u)
{
	auto at = [](auto v, int i) { return v[(size_t)i]; };
	layout<float2, float, 2>("float2", f, at); layout<float3, float, 3>("float3", f, at); layout<float4, float, 4>("float4", f, at); layout<int2, I, 2>("int2", s, at); layout<int3, I, 3>("int3", s, at); layout<int4, I, 4>("int4", s, at);
	layout<uint2, U, 2>("uint2", u, at); layout<uint3, U, 3>("uint3", u, at); layout<uint4, U, 4>("uint4", u, at); layout<f32x4, float, 4>("f32x4", f, at); layout<i32x4, I, 4>("i32x4", s, at); layout<u32x4, U, 4>("u32x4", u, at);
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		U u[5]; I s[5]; float f[5], fi[4], fu[4];
		for (int i = 0; i < 5; i++)
		{
			u[i] = genU(rng); s[i] = (I)genU(rng); f[i] = genAnyF(rng);
		}
		{ U w[4]; float g[4]; I h[4]; for (int i = 0; i < 4; i++) { w[i] = genU(rng); g[i] = genAnyF(rng); h[i] = (I)genU(rng); } shape4(rng, u, w); shape4(rng, f, g); U hu[4], su[4]; memcpy(hu, h, 16); memcpy(su, s, 16); shape4(rng, su, hu); memcpy(s, su, 16); }
		if (rng.chance(8)) for (int i = 0; i < 4; i++) { u[i] = 0xffffffffu - rng.below(400); }
		if (rng.chance(8)) for (int i = 0; i < 4; i++) { u[i] = 0x80000000u + rng.below(300) - 150; }
		for (int i = 0; i < 4; i++)
		{
			switch (rng.below(6))
			{
			case 0: fi[i] = (float)(I)rng.u(); fu[i] = (float)rng.u(); break;
			case 1: fi[i] = rng.f(-3, 3); fu[i] = rng.f(-0.99, 3); break;
			case 2: fi[i] = (float)((I)rng.below(2001) - 1000) * 0.5f; fu[i] = (float)rng.below(2001) * 0.5f; break;
			case 3: fi[i] = -2147483648.0f; fu[i] = 2147483648.0f; break;
			case 4: fi[i] = 2147483520.0f; fu[i] = rng.chance(2) ? 4294967040.0f : 2147483520.0f; break;
			default: fi[i] = genMag(rng, -3, 9.3); fu[i] = std::fabs(genMag(rng, -3, 9.6)); break;
			}
			if (!(fi[i] >= -2147483648.0f && fi[i] < 2147483648.0f)) fi[i] = 7.75f;
			if (!(fu[i] > -1.0f && fu[i] < 4294967296.0f)) fu[i] = 3e9f;
		}
		U in[12]; memcpy(in, u, 16); memcpy(in + 4, s, 16); memcpy(in + 8, f, 16); distinctBytes(in, 48);
		if (k < 3) sample("u=(%08x %08x %08x %08x) f=(%g %g %g %g) to-uint (%g %g)", u[0], u[1], u[2], u[3], f[0], f[1], f[2], f[3], fu[0], fu[1]);
		build<float2, float3, float4, float>(f); build<int2, int3, int4, I>(s); build<uint2, uint3, uint4, U>(u);
		convert(u, s, fi, fu); casts(u);
		if (k % 16 == 0) layouts(f, s, u);
		if (k % 2 == 0) { simd<f32x4, float4, float3, float2, float>(f, "f32x4"); simd<i32x4, int4, int3, int2, I>(s, "i32x4"); simd<u32x4, uint4, uint3, uint2, U>(u, "u32x4"); }
	}
	return end();
}
