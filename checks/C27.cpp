// vt: quick=1200000
// vt: thorough=60000000
// vt: rule=all 8- and 16-bit values (once per run), then random and structured 8- to 64-bit integers at every length 1 to 32 against digit-by-digit division, parsed back in upper, lower and mixed case, also embedded zeros; colors with random channels to hexadecimal and decimal text and back with six and eight digits in either case; distinct by value, type and length
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/color.hpp"
using namespace vt;
namespace M = math;
using math::Color;

static std::string refHex(vt::u64 v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) { s.insert(s.begin(), "0123456789ABCDEF"[v % 16]); v /= 16; } return s; }
static std::string recase(std::string s) { int mode = (int)rng.below(3); for (char& c : s) if (c >= 'A' && c <= 'F' && (mode == 1 || (mode == 2 && rng.chance(2)))) c = (char)(c - 'A' + 'a'); return s; }
static bool eq(const char* key, const std::string& g, const std::string& w) { if (g == w && strlen(g.c_str()) == w.size()) return true; fail(key, "\"%s\" want \"%s\"", g.c_str(), w.c_str()); return false; }

template<class T> static void check(T v, size_t n)
{
	touch(v); touch(n); vt::u64 w = v; std::string whole = refHex(w, sizeof(T) * 2);
	VT_OP("toHex"); std::string h = M::toHex(v); eq("toHex-full", h, whole);
	std::string g = M::toHex(v, n); eq(n > sizeof(T) * 2 ? "toHex-longer" : "toHex-length", g, refHex(w, n)); if (n <= sizeof(T) * 2) { auto i = (std::make_signed_t<T>)v; touch(i); eq("toHex-signed", M::toHex(i, n), refHex(w, n)); eq("toHex-signed", M::toHex(i), whole); if (i < 0) VT_COUNT("negative values"); } vt::count(n < sizeof(T) * 2 ? "shortened" : n > sizeof(T) * 2 ? "padded" : "exact length");
	VT_OP("parse"); std::string t = recase(h); vt::u64 p = M::toInt64(t); if (p != w) fail("toInt64", "\"%s\" parses to %llx", t.c_str(), (unsigned long long)p);
	if (sizeof(T) <= 4) { u32 q = M::toInt32(t); if (q != w) fail("toInt32", "\"%s\" parses to %x", t.c_str(), q); }
	t = recase(g); vt::u64 cut = n >= 16 ? w : w & ((1ull << 4 * n) - 1); p = M::toInt64(t); if (p != cut) fail("toInt64-length", "\"%s\" parses to %llx want %llx", t.c_str(), (unsigned long long)p, (unsigned long long)cut);
	if (cut <= 0xffffffffull) { u32 q = M::toInt32(t); if (q != cut) fail("toInt32-length", "\"%s\" parses to %x want %llx", t.c_str(), q, (unsigned long long)cut); }
}
static vt::u64 gen64() { switch (rng.below(5)) { case 0: return rng.next(); case 1: return rng.next() >> rng.below(64); case 2: return ((vt::u64)genU(rng) << 32) | genU(rng); case 3: return 0x1111111111111111ull * rng.below(16); default: { vt::u64 b = 1ull << rng.below(64); return rng.chance(2) ? b : rng.chance(2) ? b - 1 : ~b; } } }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (u32 v = 0; v < 65536; v++) { curCase = v; if (v < 256) for (size_t n = 1; n <= 32; n++) check((M::uint8)v, n); check((M::uint16)v, 1 + v % 32); }
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; vt::u64 v = gen64(); size_t n = 1 + rng.below(32); int kind = (int)rng.below(5); distinct(hashMix(v, n * 8 + kind)); if (k < 3) sample("%llx, length %zu", (unsigned long long)v, n);
		switch (kind)
		{
		case 0: check((M::uint8)v, n); break;
		case 1: check((M::uint16)v, n); break;
		case 2: check((M::uint32)v, n); break;
		case 3: check((M::uint64)v, n); break;
		default:
		{
			VT_OP("color text"); int c[4] = { (int)(v & 255), (int)(v >> 8 & 255), (int)(v >> 16 & 255), (int)(v >> 24 & 255) }; Color q((M::uint8)c[0], (M::uint8)c[1], (M::uint8)c[2], (M::uint8)c[3]); touch(q);
			std::string h[5], d[5]; for (int i = 0; i < 4; i++) { h[i + 1] = h[i] + refHex((vt::u64)c[i], 2); d[i + 1] = d[i] + (i ? " " : "") + std::to_string(c[i]); }
			eq("toHex4", q.toHex4(), h[4]); eq("toHex3", q.toHex3(), h[3]); eq("toString4", q.toString4(), d[4]); eq("toString3", q.toString3(), d[3]); eq("toString2", q.toString2(), d[2]); eq("toString1", q.toString1(), d[1]);
			std::string t = recase(h[4]); Color r(t); if (r.r != c[0] || r.g != c[1] || r.b != c[2] || r.a != c[3]) fail("Color(hex)", "\"%s\" becomes %d %d %d %d", t.c_str(), r.r, r.g, r.b, r.a);
			t = recase(h[3]); Color s(t); if (s.r != c[0] || s.g != c[1] || s.b != c[2] || s.a) fail("Color(hex6)", "\"%s\" becomes %d %d %d %d", t.c_str(), s.r, s.g, s.b, s.a);
		}
		}
	}
	return end();
}
