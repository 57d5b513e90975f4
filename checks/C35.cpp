// vt: quick=250000
// vt: thorough=15000000
// vt: rule=each case makes three values of one of the fifteen ordered types at minimally aligned addresses (equal, differing in one byte of each position, one sign of zero, one NaN payload, special or random words; boxes with arbitrary fourth lanes), and checks irreflexivity, asymmetry, trichotomy against bitwise equality and transitivity over all orders; every 64th case keys a std::set with 40 values and counts and finds them; distinct by type and bytes
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/simd/vector/int.hpp"
#include "math/simd/vector/uint.hpp"
#include "math/simd/matrix/float.hpp"
#include "math/color.hpp"
#include "math/aabb.hpp"
#include <set>
#include <new>
using namespace vt;
namespace M = math;
using M::isBinaryLess;

static u32 word()
{
	static const u32 w[] = { 0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7fc00000u, 0xffc00000u, 0x7fc00001u, 0x7f800000u, 0xff800000u, 1u, 0xffffffffu, 0x00ff00ffu, 0x80000001u, 0x7fffffffu };
	return rng.chance(2) ? w[rng.below(14)] : rng.chance(2) ? rng.u() : 0x01010101u * rng.below(256);
}
// what makes two values the same: all words, or for boxes the six coordinates (each array's fourth word is nobody's)
template<class T> struct Words { static constexpr int n = (int)(sizeof(T) / 4); static bool counts(int) { return true; } };
template<> struct Words<M::Aabb> { static constexpr int n = 8; static bool counts(int i) { return i % 4 != 3; } };

template<class T> struct Make { static T* at(void* p, const u32* w) { memcpy(p, w, sizeof(T)); return (T*)p; } };
template<> struct Make<M::Aabb> { static M::Aabb* at(void* p, const u32* w) { float f[8]; memcpy(f, w, 32); auto* b = new (p) M::Aabb(M::f32x4::zero, M::f32x4::one); memcpy((void*)b, f, 32); return b; } };

template<class T> static void check(const char* name)
{
	constexpr int n = Words<T>::n; constexpr size_t al = alignof(T);
	alignas(128) static char mem[3][512]; u32 w[3][n]; T* v[3];
	int kind = (int)rng.below(4); for (int k = 0; k < n; k++) w[0][k] = word();
	for (int i = 1; i < 3; i++)
	{
		memcpy(w[i], w[i - 1], sizeof w[0]); int p = (int)rng.below(n);
		if (kind == 0) ((unsigned char*)w[i])[rng.below(n * 4)] ^= (unsigned char)(1 + rng.below(255)); // one byte
		else if (kind == 1) { w[i][p] = word(); if (rng.chance(2)) w[i][rng.below(n)] = word(); }
		else if (kind == 2) { if (rng.chance(2)) w[i][p] ^= rng.chance(2) ? 0x80000000u : 1u << rng.below(32); }
		else if (rng.chance(2)) for (int k = 0; k < n; k++) w[i][k] = word();
	}
	for (int i = 0; i < 3; i++) { for (int k = 0; k < n; k++) if (!Words<T>::counts(k)) w[i][k] = rng.chance(2) ? word() : w[0][k]; v[i] = Make<T>::at(mem[i] + al * (1 + 2 * rng.below(3)), w[i]); touch(*v[i]); }
	distinct(hashMix(hashMix((vt::u64)(size_t)name, w[0][0]), hashMix(hashMix(w[1][n - 1], w[2][n / 2]), w[0][n / 2])));
	VT_OP("order of three values"); bool l[3][3], eq[3][3];
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { l[i][j] = isBinaryLess(*v[i], *v[j]); eq[i][j] = true; for (int k = 0; k < n; k++) if (Words<T>::counts(k) && w[i][k] != w[j][k]) eq[i][j] = false; }
	auto show = [&](int i) { static char b[3][128]; char* o = b[i]; for (int k = 0; k < n && k < 12; k++) o += sprintf(o, "%08x ", w[i][k]); return b[i]; };
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
	{
		if (i == j) { if (l[i][i]) fail("irreflexive", "%s %sis less than itself", name, show(i)); continue; }
		int c = l[i][j] + l[j][i] + eq[i][j]; if (c != 1) fail(l[i][j] && l[j][i] ? "asymmetric" : eq[i][j] ? "equal-but-ordered" : "different-but-unordered", "%s %sand %s: less %d, greater %d, equal %d", name, show(i), show(j), l[i][j], l[j][i], eq[i][j]);
		int q = 3 - i - j; if (l[i][j] && l[j][q] && !l[i][q]) fail("transitive", "%s %s< %s< %sbut not across", name, show(i), show(j), show(q));
		if (std::is_same<T, M::Color>::value && i != j && l[i][j] != (w[i][0] < w[j][0])) fail("packed-order", "%s and %s: less %d", show(i), show(j), l[i][j]);
		vt::count(eq[i][j] ? "equal pairs" : "different pairs");
	}
	if (curCase % 64 < 15)
	{
		VT_OP("ordered set"); struct Less { bool operator()(const T& a, const T& b) const { return isBinaryLess(a, b); } }; std::set<T, Less> s; struct V { u32 w[n]; bool operator<(const V& o) const { for (int k = 0; k < n; k++) if (Words<T>::counts(k) && w[k] != o.w[k]) return w[k] < o.w[k]; return false; } }; std::set<V> ref;
		std::vector<V> all; for (int i = 0; i < 40; i++) { V x; if (i && rng.chance(2)) { x = all[rng.below((u32)all.size())]; x.w[rng.below(n)] = word(); } else if (i && rng.chance(3)) x = all[rng.below((u32)all.size())]; else for (int k = 0; k < n; k++) x.w[k] = word(); all.push_back(x); alignas(64) char tmp[sizeof(T) + 64]; T* t = Make<T>::at(tmp, x.w); bool ins = s.insert(*t).second, want = ref.insert(x).second; if (ins != want) fail("set-insert", "%s: inserting value %d of a set of %zu is %d want %d", name, i, ref.size(), ins, want); }
		for (V& x : all) { alignas(64) char tmp[sizeof(T) + 64]; T* t = Make<T>::at(tmp, x.w); if (!s.count(*t)) { fail("set-find", "%s: an inserted value is not found", name); break; } } if (s.size() != ref.size()) fail("set-size", "%s: %zu values of %zu", name, s.size(), ref.size());
	}
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		switch (k % 15)
		{
		case 0: check<M::int2>("int2"); break; case 1: check<M::int3>("int3"); break; case 2: check<M::int4>("int4"); break;
		case 3: check<M::uint2>("uint2"); break; case 4: check<M::uint3>("uint3"); break; case 5: check<M::uint4>("uint4"); break;
		case 6: check<M::float2>("float2"); break; case 7: check<M::float3>("float3"); break; case 8: check<M::float4>("float4"); break;
		case 9: check<M::i32x4>("i32x4"); break; case 10: check<M::u32x4>("u32x4"); break; case 11: check<M::f32x4>("f32x4"); break;
		case 12: check<M::f32x4x4>("f32x4x4"); break; case 13: check<M::Color>("Color"); break; default: check<M::Aabb>("Aabb"); break;
		}
		if (k < 15) sample("type %d, three values differing in a byte, a word or a sign", (int)k);
	}
	return end();
}
