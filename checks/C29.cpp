// vt: quick=3000000
// vt: thorough=150000000
// vt: rule=each case takes two component quadruples (random, special bytes, equal up to one component, neighbours in the order) at random addresses, through construction from parts and packed numbers, named and indexed reading and writing, packing and back, all six comparisons against lexicographic order of the components, and the four texts; distinct by the pair
#include "vt.hpp"
#include "math/version.hpp"
#include <new>
#include <thread>
using namespace vt;
namespace M = math;
using math::Version;

static u32 pack(const int* p) { return (u32)p[0] * 16777216u + (u32)p[1] * 65536u + (u32)p[2] * 256u + (u32)p[3]; }
static void parts(const char* key, const Version& v, const int* p)
{
	const Version& c = v; Version w = v;
	int a[4] = { v.major, v.minor, v.patch, v.build };
	for (int i = 0; i < 4; i++) { if (a[i] != p[i] || c[i] != p[i] || w[i] != p[i]) { fail(key, "part %d of %d.%d.%d.%d is %d by name, %d and %d by index", i, p[0], p[1], p[2], p[3], a[i], c[i], w[i]); return; } }
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	static char mem[64]; static const int sp[] = { 0, 1, 127, 128, 254, 255 };
	{ Version d; int z[4] = { 0, 0, 0, 0 }; parts("default", d, z); Version a((M::uint8)3); int p[4] = { 3, 0, 0, 0 }; parts("major only", a, p); Version b((M::uint8)3, (M::uint8)200); p[1] = 200; parts("major and minor", b, p); Version c((M::uint8)3, (M::uint8)200, (M::uint8)9); p[2] = 9; parts("three parts", c, p); }
	// the very first conversions of a thread
	for (int j = 0; j < 120; j++)
	{
		int p[4]; for (int& x : p) x = j < 30 ? 0 : rng.chance(2) ? sp[rng.below(6)] : 0; if (j >= 30 && rng.chance(4)) for (int& x : p) x = 255; std::string g[4]; int first = (int)rng.below(4); VT_OP("texts of a new thread"); VT_COUNT("new threads");
		std::thread([&] { Version v((M::uint8)p[0], (M::uint8)p[1], (M::uint8)p[2], (M::uint8)p[3]); for (int i = 0; i < 4; i++) switch ((first + i) & 3) { case 0: g[0] = v.toString1(); break; case 1: g[1] = v.toString2(); break; case 2: g[2] = v.toString3(); break; default: g[3] = v.toString4(); } }).join();
		std::string w; for (int i = 0; i < 4; i++) { w += (i ? "." : "") + std::to_string(p[i]); if (g[i] != w) fail("toString-first", "\"%s\" want \"%s\" in a new thread", g[i].c_str(), w.c_str()); }
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; int p[4], q[4]; for (int& x : p) x = rng.chance(3) ? sp[rng.below(6)] : (int)rng.below(256); memcpy(q, p, sizeof p);
		switch (rng.below(5)) { case 0: break; case 1: q[rng.below(4)] = rng.chance(2) ? sp[rng.below(6)] : (int)rng.below(256); break; case 2: { u32 n = pack(p) + (rng.chance(2) ? 1u : ~0u); for (int i = 0; i < 4; i++) q[i] = (int)(n >> (24 - 8 * i) & 255); break; } case 3: { int i = (int)rng.below(3); q[i] = (q[i] + 1) & 255; q[i + 1] = (q[i + 1] + 255) & 255; break; } default: for (int& x : q) x = (int)rng.below(256); }
		Version* a = new (mem + rng.below(8)) Version((M::uint8)p[0], (M::uint8)p[1], (M::uint8)p[2], (M::uint8)p[3]); Version* b = new (mem + 32 + rng.below(8)) Version((M::uint32)pack(q)); touch(*a); touch(*b);
		distinct(hashMix(pack(p), pack(q))); if (k < 3) sample("%d.%d.%d.%d and %d.%d.%d.%d", p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]);
		VT_OP("parts and packed number"); parts("parts", *a, p); parts("unpack", *b, q); u32 n = (M::uint32)*a, o = (M::uint32)*b; if (n != pack(p) || o != pack(q)) fail("pack", "%d.%d.%d.%d packs to %08x, %d.%d.%d.%d to %08x", p[0], p[1], p[2], p[3], n, q[0], q[1], q[2], q[3], o);
		VT_OP("comparisons"); int s = 0; for (int i = 0; i < 4 && !s; i++) s = p[i] < q[i] ? -1 : p[i] > q[i]; vt::count(s ? "different" : "equal");
		bool g[6] = { *a < *b, *a > *b, *a <= *b, *a >= *b, *a == *b, *a != *b }, w[6] = { s < 0, s > 0, s <= 0, s >= 0, s == 0, s != 0 }; static const char* const nm[6] = { "<", ">", "<=", ">=", "==", "!=" };
		for (int i = 0; i < 6; i++) if (g[i] != w[i]) fail("compare", "%d.%d.%d.%d %s %d.%d.%d.%d is %d", p[0], p[1], p[2], p[3], nm[i], q[0], q[1], q[2], q[3], g[i]);
		if (k % 4 == 0)
		{
			VT_OP("texts"); char t[64]; std::string g4 = a->toString4(), g3 = a->toString3(), g2 = a->toString2(), g1 = a->toString1();
			snprintf(t, 64, "%d.%d.%d.%d", p[0], p[1], p[2], p[3]); if (g4 != t) fail("toString4", "\"%s\" want \"%s\"", g4.c_str(), t); snprintf(t, 64, "%d.%d.%d", p[0], p[1], p[2]); if (g3 != t) fail("toString3", "\"%s\" want \"%s\"", g3.c_str(), t);
			snprintf(t, 64, "%d.%d", p[0], p[1]); if (g2 != t) fail("toString2", "\"%s\" want \"%s\"", g2.c_str(), t); snprintf(t, 64, "%d", p[0]); if (g1 != t) fail("toString1", "\"%s\" want \"%s\"", g1.c_str(), t);
		}
		VT_OP("indexed write"); int i = (int)rng.below(4); (*b)[(M::psize)i] = (M::uint8)p[i]; int r[4] = { q[0], q[1], q[2], q[3] }; r[i] = p[i]; touch(*b); parts("write", *b, r);
	}
	return end();
}
