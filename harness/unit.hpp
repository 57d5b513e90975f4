// One of the units of check C42. The unit includes one public header first and the others after it (generated by check.py),
// then this file: a static object records named constants and results of functions while the program starts.
#include <cstring>
#include <cstdint>
#include <stack>
#include <string>
#include <vector>
#ifndef VT_UNIT_HPP
#define VT_UNIT_HPP
namespace vtu
{
struct Item { const char* name; std::vector<unsigned char> bytes; };
struct Unit { const char* name; std::vector<Item> early; void (*record)(std::vector<Item>&); Unit* next; };
extern Unit* units; // constant initialised
void atEnd(Unit& u);
bool lazy(); // nothing is recorded before main: what the library initialises on first use is then initialised after all static objects
void raw(std::vector<Item>& o, const char* n, const void* p, size_t size);
enum class UnitFlags : uint8_t { none = 0, a = 1, b = 2, c = 128 };
}
#endif
#ifdef VT_UNIT
namespace
{
using namespace math;
typedef vtu::UnitFlags UnitFlags;
DECLARE_ENUM_CLASS_FLAG_OPERATORS(UnitFlags)
template<class T> T veil(T v) { volatile char* p = (volatile char*)&v; for (size_t i = 0; i < sizeof(T); i++) p[i] = p[i]; return v; }
void record(std::vector<vtu::Item>& o)
{
	#define K(T, c) vtu::raw(o, #T "::" #c, &T::c, sizeof T::c);
	#define K2(T, a, b) K(T, a) K(T, b)
	#define K3(T, a, b, c) K(T, a) K2(T, b, c)
	#define K4(T, a, b, c, d) K2(T, a, b) K2(T, c, d)
	#define K6(T, a, b, c, d, e, f) K3(T, a, b, c) K3(T, d, e, f)
	#define KV(T) K4(T, left, right, bottom, top)
	#define KF(T) K6(T, min, minusMin, max, minusMax, epsilon, inf) K2(T, minusInf, nan)
	auto parts = [&](const char* n, f32x4 a, f32x4 b) { float x[8]; a.store(x); b.store(x + 4); vtu::raw(o, n, x, sizeof x); };
	#define P(T, c, a, b) parts(#T "::" #c, T::c.a, f32x4(T::c.b));
	#define P6(T, a, b, u, v, w, x, y, z) P(T, u, a, b) P(T, v, a, b) P(T, w, a, b) P(T, x, a, b) P(T, y, a, b) P(T, z, a, b)
	P6(Aabb, getMin(), getMax(), zero, one, two, half, full, inf) P(Sphere, one, getPosition(), getRadius()) P(Sphere, two, getPosition(), getRadius()) P(Sphere, half, getPosition(), getRadius())
	P6(Plane, getNormal(), getDistance(), left, right, bottom, top, back, front) P6(Ray, origin, getDirection(), left, right, bottom, top, back, front)
	#undef P6
	#undef P
	K6(Color, white, black, grey, transparent, red, green) K4(Color, blue, cyan, magenta, yellow)
	K3(int2, zero, one, minusOne) KV(int2) K3(int3, zero, one, minusOne) KV(int3) K2(int3, back, front) K3(int4, zero, one, minusOne)
	K2(uint2, zero, one) K2(uint3, zero, one) K2(uint4, zero, one)
	K3(float2, zero, one, minusOne) KF(float2) KV(float2) K3(float3, zero, one, minusOne) KF(float3) KV(float3) K2(float3, back, front) K3(float4, zero, one, minusOne) KF(float4)
	K4(float2x2, zero, one, minusOne, identity) K4(float3x3, zero, one, minusOne, identity) K4(float4x3, zero, one, minusOne, identity) K4(float4x4, zero, one, minusOne, identity)
	K3(i32x4, zero, one, minusOne) K2(i32x4, min, max) K3(u32x4, zero, one, max) K3(f32x4, zero, one, minusOne) KF(f32x4) KV(f32x4) K2(f32x4, back, front)
	K4(f32x4x4, zero, one, minusOne, identity) KF(f32x4x4) K(quat, identity)
	#define keep(o, n, ...) do { auto x_ = __VA_ARGS__; vtu::raw(o, n, &x_, sizeof x_); } while (0)
	#define R(...) keep(o, #__VA_ARGS__, __VA_ARGS__);
	#define S(...) do { auto x_ = __VA_ARGS__; vtu::raw(o, #__VA_ARGS__, x_.data(), x_.size()); } while (0);
	auto v = veil(f32x4(0.3f, -0.6f, 0.9f, 0.25f)), u = veil(f32x4(0.7f, 0.2f, 0.4f, 1.0f)); auto n = normalize3(v); float t = veil(0.375f);
	f32x4x4 m(f32x4(2, 0.5f, 0, 0), f32x4(0, 3, 0.25f, 0), f32x4(1, 0, 4, 0), f32x4(5, 6, 7, 1)); m = veil(m); quat q = normalize4(veil(quat(0.1f, 0.2f, 0.3f, 0.9f))), p = normalize4(veil(quat(-0.4f, 0.1f, 0.0f, 0.7f)));
	R(v + u) R(v * u) R(v / u) R(v < u) R(fma(v, u, v)) R(abs(v)) R(sqrt(u)) R(floor(v)) R(round(v)) R(clamp(v, f32x4::zero, f32x4::one)) R(dot3(v, u)) R(cross3(v, u)) R(normalize3(v)) R(length3(v)) R(mod(v, u))
	R(fastPow(u, v)) R(log(u)) R(exp(v)) R(lerp(t, 2.0f, 0.5f)) R(gain(t, 2.0f)) R(i32x4(v * 9.0f) * i32x4(3)) R(u32x4(u * 9.0f) >> 1)
	R(m * m) R(m * v) R(inverse4x4(m)) R(transpose4x4(m)) R(translate(v)) R(rotate(q)) R(scale(u)) R(calcModel(v, q, u)) R(lookAt(v, u)) R(extractQuat(rotate(q)))
	R(calcPerspProjRevZ(1.2f, 1.5f, 0.01f, 90.0f)) R(calcOrthoProjRevZ(float2(-2, 2), float2(-1, 1), float2(0, 9)))
	R(q * p) R(slerp(q, p, t)) R(inverse(q)) R(fromEulerAngles(v)) R(q.extractEulerAngles()) R(q * v) R(lookAtQuat(n)) R(v * q) R(degrees(t))
	Aabb box(min(v, u), max(v, u)); Ray ray(f32x4(-3, 0, 0.5f, 0), f32x4(1, 0.02f, 0.01f)); Triangle tri(v, u, f32x4(1, 0, 0, 0)); Plane planes[Plane::frustumCount]; extractFrustumPlanes((f32x4x4)calcPerspProjRevZ(1.2f, 1.5f, 0.01f, 90.0f), planes);
	for (auto& x : planes) keep(o, "frustum plane", x);
	R(raycast2(box, ray)) R(raycast(box, ray)) R(isIntersected(box, box)) R(ibl::coordsToDir(uint3(3, 9, 4), 1.0f / 16.0f)) R(isAabbIntersected(box.getPosition(), box.getExtent(), tri)) R(isBehindFrustum(planes, Plane::frustumCount, box)) R(calcBarycentric(tri, v)) R(closestPoint(Line(v, u), f32x4::zero)) R(isInside(box, v))
	R(rgbToSrgb(u)) R(srgbToRgb(u)) R(rgbToXyz(u)) R(xyzToRgb(u)) R(rgbToYxy(u)) R(Color(u)) R((f32x4)Color::grey) R(Color::cyan.toLinear()) S(Color::magenta.toHex4()) R(Color(std::string("12aBfF")))
	R(fastGammaCorrection(u)) S(toHex(0xBEEFu)) R(toInt32("7fff")) S(Version(1, 2, 3, 4).toString4()) R((uint32)Version(9, 8, 7, 6)) R(calcMipCount(1000u)) R(calcSizeAtMip(1000u, 3)) R(UnitFlags::a | UnitFlags::c) R(hasAnyFlag(UnitFlags::a | UnitFlags::b, UnitFlags::b))
	PackedVector<2> pv(9); pv.set(5, 3); keep(o, "packed vector", pv.get(5));
	float shb[9], shr[9]; sh::computeShBasis((float3)n, shb); sh::rotateSh3Bands(shb, (float3x3)rotate(q), shr); vtu::raw(o, "harmonics", shr, sizeof shr); f32x4 shd[9]; for (int i = 0; i < 9; i++) shd[i] = f32x4(shb[i]); sh::deringingSH(shd); sh::shaderPreprocessSH(shd); for (auto& x : shd) keep(o, "harmonics of a color", x);
	R(brdf::hammersley(11, 1.0f / 64.0f)) R(brdf::importanceSamplingNdfDggx(float2(0.3f, 0.7f), 0.5f)) R(brdf::ggx(0.8f, 0.3f))
	std::vector<Aabb> boxes; for (int i = 0; i < 60; i++) boxes.push_back(Aabb(f32x4(i % 7, i % 5, i, 0), f32x4(i % 7 + 0.5f, i % 5 + 1.5f, i + 2, 0)));
	Bvh bvh(boxes.data(), Aabb(f32x4(0, 0, 0, 0), f32x4(7, 7, 62, 0)), boxes.size()); for (auto& x : bvh.getNodes()) { keep(o, "hierarchy node", x.aabb.getMin()); keep(o, "hierarchy node", x.aabb.getMax()); keep(o, "hierarchy node", x.isLeaf()); }
	std::vector<float> vertices; std::vector<uint16_t> indices; for (int i = 0; i < 90; i++) { for (float x : { i % 7 * 1.0f, i % 5 * 1.0f, i * 0.5f }) vertices.push_back(x); indices.push_back(i); }
	Bvh meshes((const uint8_t*)vertices.data(), (const uint8_t*)indices.data(), Aabb(f32x4(0, 0, 0, 0), f32x4(7, 5, 45, 0)), (uint32)indices.size(), 12, 2); for (auto& x : meshes.getNodes()) { keep(o, "hierarchy node of triangles", x.aabb.getMin()); keep(o, "hierarchy node of triangles", x.isLeaf()); }
	std::vector<uint32> own(60, 77); Plane near(f32x4(0, 0, 1, 0), -30.0f); keep(o, "query with the own stack", bvh.collectInFrustum(&near, 1, own.data())); for (auto x : own) keep(o, "query with the own stack", x);
	uint32_t visits = 0; bvh.traverse([&](const Bvh::Node& x) { visits = visits * 3 + x.isLeaf(); return x.aabb.getMin().getZ() < 30.0f; }, [&](uint32 i, uint32 c) { visits = visits * 5 + i * 3 + c; }); keep(o, "traversal", visits);
	std::stack<Bvh::Node*> stack; std::vector<uint32> found(60, 77); Plane half(f32x4(0, 0, 1, 0), -20.0f); keep(o, "query", bvh.collectInFrustum(&half, 1, found.data(), &stack)); for (auto x : found) keep(o, "query", x);
	#undef K
	#undef K2
	#undef K3
	#undef K4
	#undef K6
	#undef KV
	#undef KF
	#undef R
	#undef S
	#undef keep
}
struct AtStart { vtu::Unit u; AtStart() { u.name = VT_UNIT; u.record = record; if (!vtu::lazy()) record(u.early); u.next = vtu::units; vtu::units = &u; } ~AtStart() { vtu::atEnd(u); } } atStart;
}
#endif
