// vt: quick=40000
// vt: thorough=2000000
// vt: rule=each case runs 60 operations (set, unchecked set, get, resize up and down around byte boundaries, copy and move construction and assignment incl. self and fresh temporaries, swap through moves, discard, constructions of a size) over a family of four packed vectors of one element width against ordinary vectors, comparing every element and the storage size after each step; values beyond the element width included; distinct by operation history
#include "math/packed-vector.hpp"
#include "vt.hpp"
using namespace vt;
namespace M = math;
using math::PackedVector;

struct Model { std::vector<uint8_t> v; };
template<int B> struct Run
{
	typedef PackedVector<B> P;
	P* p[4] = { nullptr, nullptr, nullptr, nullptr }; Model m[4]; vt::u64 h = B; const char* last = "";
	static constexpr int mask = (1 << B) - 1;
	static size_t size() { switch (rng.below(5)) { case 0: return rng.below(3); case 1: return 8 * rng.below(6) / B + rng.below(3); case 2: return rng.below(400); default: return rng.below(40); } }
	bool verify()
	{
		for (int i = 0; i < 4; i++)
		{
			size_t n = m[i].v.size(), bytes = (n * B + 7) / 8; const P& c = *p[i];
			if (c.size() != bytes) { fail("storage", "%d-bit, %zu elements in %zu bytes after %s", B, n, c.size(), last); return false; }
			for (size_t k = 0; k < n; k++) { int g = c.get(k), u = c.unsafeGet(k), w = m[i].v[k]; if (g != w || u != w) { fail(last, "%d-bit vector %d of %zu: element %zu reads %d (unchecked %d) want %d", B, i, n, k, g, u, w); return false; } }
			evaluations += n;
		}
		return true;
	}
	void go()
	{
		for (int i = 0; i < 4; i++) { if (rng.chance(2)) p[i] = new P(); else { size_t n = size(); p[i] = new P(n); m[i].v.assign(n, 0); } }
		last = "construction";
		for (int s = 0; s < 60; s++)
		{
			int a = (int)rng.below(4), b = (int)rng.below(4); vt::u32 o = rng.below(16); size_t n = m[a].v.size(); h = hashMix(h, o * 16 + a * 4 + b);
			switch (o)
			{
			case 0: case 1: { VT_OP("resize"); last = "resize"; size_t t = rng.chance(3) && n ? n + rng.below(9) - (n < 4 ? n : 4) : size(); vt::count(t > n ? "grown" : t < n ? "shrunk" : "same size"); p[a]->resize(t); m[a].v.resize(t, 0); h = hashMix(h, t); break; }
			case 2: { VT_OP("copy construction"); last = "copy construction"; P* c = new P(*p[b]); delete p[a]; p[a] = c; m[a].v = std::vector<uint8_t>(m[a == b ? a : b].v); break; }
			case 3: { VT_OP("copy assignment"); last = "copy assignment"; *p[a] = *p[b]; if (a != b) m[a].v = m[b].v; break; }
			case 4: { VT_OP("move construction"); last = "move construction"; if (a == b) break; P* c = new P(std::move(*p[b])); delete p[a]; p[a] = c; m[a].v = m[b].v; size_t t = size(); *p[b] = P(t); m[b].v.assign(t, 0); break; }
			case 5: { VT_OP("move assignment"); last = "move assignment"; if (a == b) break; *p[a] = std::move(*p[b]); m[a].v = m[b].v; p[b]->resize(0); m[b].v.clear(); break; }
			case 6: { VT_OP("swap"); last = "swap"; if (a == b) break; std::swap(*p[a], *p[b]); std::swap(m[a].v, m[b].v); break; }
			case 7: { VT_OP("discard"); last = "discard"; delete p[a]; size_t t = size(); p[a] = new P(t); m[a].v.assign(t, 0); break; }
			default:
				if (!n) { VT_COUNT("nothing to set"); break; }
				last = "set"; for (int q = 0; q < 4; q++)
				{
					size_t k = rng.chance(4) ? n - 1 : rng.chance(4) ? 0 : rng.below((vt::u32)n); uint8_t v = rng.chance(3) ? 255 : (uint8_t)rng.u(); h = hashMix(h, k * 256 + v);
					VT_OP("set"); if (rng.chance(2)) p[a]->set(k, v); else p[a]->unsafeSet(k, v); m[a].v[k] = v & mask;
				}
			}
			if (!verify()) break;
		}
		distinct(h); for (P* x : p) delete x;
	}
};
// More elements than small integers count; the touched elements and their neighbours are compared.
template<int B> static void large(size_t n)
{
	VT_OP("large vectors"); constexpr int mask = (1 << B) - 1; size_t bytes = n / (8 / B) + (n % (8 / B) != 0); PackedVector<B> v(n);
	if (v.size() != bytes) { fail("large-storage", "%d-bit, %zu elements in %zu bytes", B, n, v.size()); return; }
	for (int round = 0; round < 24; round++)
	{
		size_t i = round == 0 ? n - 1 : rng.chance(2) ? n - 1 - rng.below(64) : rng.chance(2) && n > 70000 ? 65536 + rng.below(64) - 32 : (size_t)rng.u() % n, low = i & 0xffffffffu, word = i & 0xffffu; size_t near[5] = { i ? i - 1 : 0, i + 1 < n ? i + 1 : i, 0, low, word }; int was[5]; for (int k = 0; k < 5; k++) was[k] = v.get(near[k]);
		uint8_t x = (uint8_t)((v.get(i) + 1) & mask); if (rng.chance(2)) v.set(i, x); else v.unsafeSet(i, x); if (v.get(i) != x || v.unsafeGet(i) != x) { fail("large-set", "%d-bit vector of %zu: element %zu reads %d want %d", B, n, i, v.get(i), x); return; }
		for (int k = 0; k < 5; k++) if (near[k] != i && v.get(near[k]) != was[k]) { fail("large-set", "%d-bit vector of %zu: writing element %zu changed element %zu", B, n, i, near[k]); return; }
	}
	size_t more = n + 1 + rng.below(200), top = n - 1; int x = v.get(top); v.resize(more); size_t want = more / (8 / B) + (more % (8 / B) != 0); if (v.size() != want) fail("large-storage", "%d-bit, grown to %zu elements in %zu bytes", B, more, v.size());
	else { if (v.get(top) != x) fail("large-set", "%d-bit: growing %zu to %zu elements changed element %zu", B, n, more, top); for (size_t i = n; i < more; i++) if (v.get(i)) { fail("large-set", "%d-bit: new element %zu is not zero", B, i); break; } }
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	#if defined(__OPTIMIZE__) && defined(NDEBUG) && defined(__AVX2__) && !defined(__clang__) // in one configuration: the largest takes two gigabytes
	if (shard == 0) { const size_t wide = (size_t)1 << 32; large<1>(wide + 9); large<2>(wide + 6); large<4>(wide + 3); VT_COUNT("vectors beyond 32-bit counts"); }
	#endif
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; if (rng.chance(64)) { size_t n = 60000 + rng.below(20000); switch (rng.below(3)) { case 0: large<1>(n); break; case 1: large<2>(n); break; default: large<4>(n); } }
		switch (k % 3) { case 0: { Run<1> r; r.go(); break; } case 1: { Run<2> r; r.go(); break; } default: { Run<4> r; r.go(); } }
		if (k < 3) sample("%d-bit elements, 60 operations over four vectors", 1 << (k % 3));
	}
	return end();
}
