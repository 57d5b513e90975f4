// vt: configs=asan,asan2,scalar,neon,vg
// vt: quick=700
// vt: thorough=40000
// vt: link=1
// vt: timeout=250
// vt: rule=a tour over the whole public interface (every stop of harness/tour.hpp plus the extreme stops here) with every object and array in a heap block of exactly its size at the least alignment its type promises, hostile bits in every lane nobody may look at, assertions on, under AddressSanitizer and UndefinedBehaviorSanitizer (clang with AVX2 code, gcc with SSE2 code, checked containers) and under memcheck, which reports any decision on a value never written; hierarchies over all degenerate geometry families are built, rebuilt smaller and larger, copied and queried; distinct by results
#include "tour.hpp"
#include "bvhgen.hpp"
using namespace tourns;

// default-constructed in memory nobody has written
template<typename T> struct Fresh { Box<T> b; Fresh() : b((size_t)1) { new (b.p) T(); } T& operator*() { return *b.p; } T* operator->() { return b.p; } };
static void defaults(Sink& s, R&)
{
	{ Fresh<float2> a; s.x(*a); } { Fresh<float3> a; s.x(*a); } { Fresh<float4> a; s.x(*a); } { Fresh<int2> a; s.u(*a); } { Fresh<int3> a; s.u(*a); } { Fresh<int4> a; s.u(*a); } { Fresh<uint2> a; s.u(*a); } { Fresh<uint3> a; s.u(*a); } { Fresh<uint4> a; s.u(*a); }
	{ Fresh<f32x4> a; s.x(*a); } { Fresh<i32x4> a; s.u(*a); } { Fresh<u32x4> a; s.u(*a); } { Fresh<f32x4x4> a; s.x(*a); } { Fresh<quat> a; s.x(*a); } { Fresh<float2x2> a; s.m(*a, 0); } { Fresh<float3x3> a; s.m(*a, 0); } { Fresh<float4x3> a; s.m(*a, 0); } { Fresh<float4x4> a; s.m(*a, 0); }
	{ Fresh<Aabb> a; s.x(a->getMin()); s.x(a->getMax()); } { Fresh<Ray> a; s.x3(a->origin); s.x3(a->getDirection()); } { Fresh<Line> a; s.x3(a->start); s.x3(a->end); } { Fresh<Plane> a; s.x3(a->getNormal()); s.x(a->getDistance()); } { Fresh<Triangle> a; s.x3(a->p0); s.x3(a->p1); s.x3(a->p2); } { Fresh<Sphere> a; s.x3(a->getPosition()); s.x(a->getRadius()); }
	{ Fresh<Color> a; s.u((uint32)*a); } { Fresh<Version> a; s.u((uint32)*a); } { Fresh<Bvh::Node> a; s.u(a->isLeaf()); s.u(a->getLeftNode()); } { Bvh b; s.u(b.getNodes().size()); Plane p(f32x4(1, 0, 0, 0), 0); uint32 o; s.u(b.collectInFrustum(&p, 1, &o)); b.traverse([](const Bvh::Node&) { return true; }, [](uint32, uint32) { }); }
	{ PackedVector<1> a(13); PackedVector<2> b(13); PackedVector<4> c(13); for (psize i = 0; i < 13; i++) { s.u(a.get(i)); s.u(b.get(i)); s.u(c.get(i)); } }
}
static float F(R& r) { for (;;) { float v = A(r); if (vt::isfin(v)) return v; } }
static float noNan(R& r) { for (;;) { float v = A(r); if (!vt::isnanf_(v)) return v; } }
// any value of functions whose domain is every float
static void extremes(Sink& s, R& r)
{
	f32x4 a = AV4(r), b = AV4(r), si, co; s.x(floor(a)); s.x(ceil(a)); s.x(trunc(a)); s.x(round(a)); s.f(exp(a), 1, 1e30); s.f(log(a), 1, 1e30); s.f(pow(a, b), 1, 1e30); s.f(fastPow(abs(a), b), 1, 1e30); sinCos(a, si, co); s.f(si, 1, 1e30); s.f(co, 1, 1e30); s.f(mod(a, b), 1, 1e30); s.f(repeat(a), 1, 1e30); s.x(sign(a)); s.f(sqrt(a), 1, 1); s.f(lerp(a, b, 0.5f), 1, 1e30);
	s.f(fma(a, b, a), 1, 1e30); s.f(normalize3(a), 1, 1e30); s.f(normalize4(a), 1, 1e30); s.f(length3(a), 1, 1); s.f(cross3(a, b), 1, 1); s.u(isNormalized3(a)); s.f(min(a, b), 1, 1e30); s.f(max(a, b), 1, 1e30);
	float4 c = fv<float4>(r, A), d = fv<float4>(r, A); s.f(floor(c), 0, 0); s.f(round(c), 0, 0); s.f(ceil(c), 0, 0); s.f(trunc(c), 0, 0); s.f(repeat(c), 1, 1e30); s.f(exp(c), 1, 1); s.f(pow(c, d), 1, 1); s.f(mod(c, d), 1, 1); s.f(normalize(c), 1, 1); s.f(sqrt(c), 1, 1); s.u(isClose(c, d)); s.f(repeat(A(r)), 1, 1); s.f(gain(M01(r), noNan(r)), 1, 1); s.f(lerpDelta(F(r), 1, M01(r), r.f(0, 5)), 1, 1); s.f(sin((float3)c), 1, 1); s.f(log((float2)d), 1, 1);
	float4 n = fv<float4>(r, noNan); s.u((uint32)Color(n)); s.u((uint32)Color((float3)n)); s.u((uint32)Color((float2)n)); s.u((uint32)Color(f32x4(n))); Color k; k.setNormR(n.x); k.setNormG(n.y); k.setNormB(n.z); k.setNormA(n.w); s.u((uint32)k);
	f32x4 q = abs(f32x4(n)); s.f(rgbToSrgb(min(q, f32x4::one)), 1, 1); s.f(srgbToRgb(min(q, f32x4::one)), 1, 1); s.f(rgbToXyz(a), 1, 1); s.f(xyzToRgb(a), 1, 1); s.f(xyzToYxy(a), 1, 1); s.f(yxyToXyz(a), 1, 1); s.f(fastGammaCorrection(q), 1, 1); s.f(rgbToSrgb(q), 1, 1); s.f(srgbToRgb(q), 1, 1);
	// the largest values the conversions can hold
	float4 hi(2147483520.0f, -2147483648.0f, r.f(-2147483000.0, 2147483000.0), -0.0f); s.u((int4)hi); s.u((int3)hi); s.u((int2)hi); s.u((i32x4)f32x4(hi)); float4 ho(4294967040.0f, 2147483648.0f, r.f(0, 4294967040.0), 0.5f); s.u((uint4)ho); s.u((uint3)ho); s.u((uint2)ho); s.u((u32x4)f32x4(ho));
	s.x(f32x4(u32x4(UINT32_MAX, 0x80000000u, 0x7fffffffu, r.u()))); s.x(f32x4(i32x4(INT32_MIN, INT32_MAX, -1, (int32)r.u()))); s.x(float4(uint4(UINT32_MAX, 0x80000000u, 1, r.u()))); s.x(float3(int3(INT32_MIN, INT32_MAX, (int32)r.u())));
	uint32 z = r.chance(2) ? UINT32_MAX : vt::genU(r) | 1; s.u(calcMipCount(z)); s.u(calcMipCount(uint3(1, z, 1))); for (int m = 0; m < calcMipCount(z); m++) { s.u(calcSizeAtMip(z, (uint8)m)); s.u(calcSizeAtMip(uint2(1, z), (uint8)m)); s.u(calcSizeAtMip3(u32x4(z, 1, z, (uint32)r.u()), (uint8)m).getX()); }
	for (psize l = 0; l < 24; l++) { s.s(toHex((uint8)z, l)); s.s(toHex(z, l)); s.s(toHex((uint64)z << 20, l)); } s.u(toInt32("FFFFFFFF")); s.u(toInt64("ffffffffffffffff")); s.u((uint32)Color("fFa01b9C")); s.u((uint32)Color("00FF7e"));
	f32x4 g = AV4(r), w = EV(r); s.u(isBinaryLess(a, g)); Ray y(w, f32x4(0, 0, r.chance(2) ? 1.0f : -1.0f, G(r)), false); Aabb bx = EB(r); float2 h = raycast2(bx, y); s.f(h, 1, 1e30); s.u(raycast(bx, y)); s.f(raycast1(bx, y), 1, 1e30);
	f32x4x4 m(a, b, g, AV4(r)); s.f((m * m).c0, 1, 1e30); s.f(inverse4x4(m).c3, 1, 1e30); s.f(transpose4x4(m).c2, 1, 1e30); s.f((m * a), 1, 1e30); s.f(inverse((float4x4)m).c0, 1, 1); s.f(inverse((float3x3)m).c0, 1, 1);
}
static void manyPlanes(Sink& s, R& r)
{
	uint8 n = (uint8)(1 + r.below(r.chance(4) ? 255 : 12)); Box<Plane> p((size_t)n); for (size_t i = 0; i < n; i++) { f32x4 v = dir(r); float d = r.f(0, 20); new (p.p + i) Plane(v, d); } Box<Aabb> a(EB(r)); s.u(isBehindFrustum(p.p, n, *a)); Box<f32x4x4> m(EM(r)); s.u(isBehindFrustum(p.p, n, *a, *m));
	psize k = r.below(12); Box<Plane> q(k ? (size_t)k : (size_t)1); for (size_t i = 0; i < k; i++) { f32x4 v = NV(r); new (q.p + i) Plane(v, M(r), false); } normalizePlanes(q.p, k); for (size_t i = 0; i < k; i++) s.m3(q[i].getNormal(), 1);
	size_t boxes = 1 + r.below(30); Box<Aabb> b(boxes); Aabb root; exactBoxes(r, b, boxes, root); Bvh h(b.p, root, (uint32)boxes); Box<uint32> out(boxes); std::stack<Bvh::Node*> st; s.u(h.collectInFrustum(p.p, n, out.p, &st));
}
static void cubeEdges(Sink& s, R& r)
{
	uint32 d = 1u << r.below(15), c[3] = { 0, d - 1, d / 2 }; for (uint32 f = 0; f < 6; f++) { Box<uint3> k(uint3(c[r.below(3)], c[r.below(3)], f)); s.m(ibl::coordsToDir(*k, 1.0f / d), 1); float2 st(r.chance(2) ? 1.0f : -1.0f, r.chance(2) ? 1.0f : -1.0f); s.m(ibl::stToDir(st, f), 1); s.f(sh::calcSolidAngle(ibl::coordsToST(uint2(k->x, k->y), 1.0f / d), 1.0f / d), 1, 1); }
	Box<float> w((size_t)9); for (size_t i = 0; i < 9; i++) w[i] = r.chance(3) ? 0 : r.f(-2, 2); w[0] = r.f(0.1, 3); Box<float> copy((size_t)9); memcpy(copy.p, w.p, 36); s.f(sh::shmin(w.p), 1, 1e3); sh::windowing(copy.p, r.f(0.5, 14)); for (size_t i = 0; i < 9; i++) s.f(copy[i], 1, 1);
	Box<f32x4> v((size_t)9); for (size_t i = 0; i < 9; i++) { float x = i == 0 ? r.f(0.01, 2) : r.chance(3) ? 0 : r.f(-2, 2), y = i == 0 ? r.f(0.01, 2) : r.f(-1, 1), z = i == 0 ? 1.0f : 0.0f; new (v.p + i) f32x4(x, y, z, G(r)); } sh::deringingSH(v.p); sh::shaderPreprocessSH(v.p); for (size_t i = 0; i < 9; i++) s.f(v[i].getX(), 1, 1e3);
}
static void families(Sink& s, R& r)
{
	static Bvh kept; vt::rng = R(r.next()); int rounds = 1 + (int)r.below(3);
	for (int k = 0; k < rounds; k++)
	{
		vt::Geo g = vt::genGeometry(vt::rng.chance(5) ? 120 : 25, false);
		Bvh own; bool again = r.chance(2); Bvh& b = again ? kept : own; if (again || r.chance(2)) g.build(b); else own = g.create();
		logTree(s, b); Box<uint32> out((size_t)g.count); Plane pl[6]; uint8 n; geometryFrustum(r, pl, n); Box<Plane> p((size_t)n); for (int i = 0; i < n; i++) new (p.p + i) Plane(pl[i]); std::stack<Bvh::Node*> st; uint32 c = b.collectInFrustum(p.p, n, out.p, r.chance(2) ? &st : nullptr); s.u(c); for (uint32 i = 0; i < c; i++) s.u(out[i]);
		f32x4 far(0, 0, 1, 0); Plane all(far, 3e38f, false); c = b.collectInFrustum(&all, 1, out.p, nullptr); s.u(c); // everything: fills the array to its end
		if (r.chance(3)) { Bvh moved = std::move(b); logTree(s, moved); b = moved; } uint64_t sum = 0; auto& prims = b.getPrimitives(); b.traverse([&](const Bvh::Node& v) { return v.aabb.calcArea() >= -1.0f; }, [&](uint32 f, uint32 m) { for (uint32 i = f; i < f + m; i++) sum += prims[i]; }); s.u(sum);
		vt::count(std::string("hierarchy: ") + vt::familyName[g.family]);
	}
}
static const Stop extra[] = { { "defaults", defaults }, { "extremes", extremes }, { "many planes", manyPlanes }, { "cube edges", cubeEdges }, { "hierarchy families", families } };
constexpr size_t extraCount = sizeof extra / sizeof extra[0];

// memory a call takes is given back: rounds with the same inputs come to hold the same amount of it
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void kept(vt::u64 stream)
{
	if (!__sanitizer_get_current_allocated_bytes) return;
	for (size_t i = 0; i < stopCount + extraCount; i++) for (vt::u64 k = 0; k < 6; k++)
	{
		const Stop& st = i < stopCount ? stops[i] : extra[i - stopCount]; vt::curCase = k; vt::curOp = st.name; size_t before = 0, first = 0; int calm = 0, n = 0;
		for (; calm < 3 && n < 60; n++)
		{
			{ R r(vt::hashMix(stream, 0x5eed + k * 1000 + i)); Sink s; st.run(s, r); }
			size_t now = __sanitizer_get_current_allocated_bytes(); if (n && now <= before) calm++; else calm = 0; before = now; if (n == 30) first = now;
		}
		vt::evaluations++; VT_COUNT("stops whose memory was balanced");
		if (calm < 3) vt::fail("memory-lost", "every round of '%s' with the same inputs keeps more memory, %d bytes in 29 rounds", st.name, (int)(before - first));
	}
}

int main(int argc, char** argv)
{
	vt::begin(argc, argv); vt::u64 stream = vt::rng.next();
	for (vt::u64 k = 0; k < vt::cases * 5; k++) // the configurations take a share of the cases
		for (size_t i = 0; i < stopCount + extraCount; i++)
		{
			const Stop& st = i < stopCount ? stops[i] : extra[i - stopCount]; vt::curCase = k; vt::curOp = st.name; R r(vt::hashMix(stream, k * 1000 + i)); Sink s; st.run(s, r); vt::evaluations += s.n; vt::distinct(s.hash); vt::count(st.name, s.n);
			if (k == 0 && i % 24 == 0) vt::sample("%s: %llu observed values", st.name, (unsigned long long)s.n);
		}
	kept(stream);
	return vt::end();
}
