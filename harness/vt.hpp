// Shared workload / monitor runtime for the checks. Header only, no dependency on the code under test.
#pragma once
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vt
{
typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;

struct Siblings;
struct Rng
{
	u64 s; Siblings* sib = nullptr;
	// the state advances by a constant, so the start is hashed twice: streams of different seeds must not overlap
	explicit Rng(u64 seed = 1) : s(seed) { u64 a = raw(); s ^= 0xD1B54A32D192ED03ull; s = a ^ (raw() << 1); s = raw() ^ (a >> 7); }
	Rng(const Rng& r) : s(r.s) { }
	Rng& operator=(const Rng& r) { s = r.s; return *this; }
	u64 raw()
	{
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	inline u64 next();
	u32 u() { return (u32)(next() >> 32); }
	u32 below(u32 n) { return (u32)(((u64)u() * n) >> 32); }
	bool chance(u32 oneIn) { return below(oneIn) == 0; }
	double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
	double range(double a, double b) { return a + (b - a) * unit(); }
	float f(double a, double b) { return (float)range(a, b); }
};

// One case in eight is a sibling of the case before it: the same draws but for one, a run, a head or a tail of them, or all of
// them nudged a little. Answers remembered from the previous call under too coarse a key then come out wrong.
struct Siblings
{
	enum { CAP = 4096 }; u64 log[CAP]; u32 n = 0, lo = 0, hi = 0, replay = 0; u64 nudge = 0; 
	void newCase(Rng& r)
	{
		u32 len = n < CAP ? n : (u32)CAP; n = 0; replay = 0; nudge = 0; u64 k = r.raw(); if (k & 7 || !len) return;
		k >>= 3; replay = len; u32 i = (u32)(r.raw() % len), j = (u32)(r.raw() % len); if (i > j) { u32 t = i; i = j; j = t; }
		// draws lo <= i < hi are new, the others repeated
		switch (k % 6)
		{
		case 0: lo = i; hi = i + 1; break;
		case 1: lo = i; hi = len; break;
		case 2: lo = 0; hi = i + 1; break;
		case 3: lo = i; hi = j + 1; break;
		case 4: lo = hi = 0; nudge = (1ull << 44) - 1; break;
		default: lo = hi = 0; nudge = (1ull << (k & 64 ? 50 : 41)) - 1; break;
		}
	}
	u64 draw(Rng& r)
	{
		u32 i = n++; u64 v;
		if (i < replay && (i < lo || i >= hi)) { v = log[i]; if (nudge) v ^= r.raw() & nudge; } else v = r.raw();
		if (i < CAP) log[i] = v;
		return v;
	}
};
inline u64 Rng::next() { return sib ? sib->draw(*this) : raw(); }
inline Rng rng;
inline Siblings siblings;
inline u64 seed = 1, cases = 1000;
inline int shard = 0, shards = 1;
inline bool thorough = false;
inline FILE* logFile = nullptr;

// ---- what the monitor is looking at right now: shown when the process dies -----------------------------------------
inline const char* volatile curOp = "start";
struct CurCase { volatile u64 v = 0; void operator=(u64 k) { v = k; if (rng.sib) rng.sib->newCase(rng); } operator u64() const { return v; } };
inline CurCase curCase;
inline void op(const char* name) { curOp = name; }

// ---- verdicts -------------------------------------------------------------------------------------------------------
inline std::map<std::string, int> failCount;
inline u64 failTotal = 0;
__attribute__((noinline, cold)) inline void fail(const char* key, const char* fmt, ...)
{
	failTotal++;
	int& n = failCount[key];
	if (n++ >= 3) return;
	char buf[4096];
	va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
	for (char* p = buf; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
	printf("FAIL\t%s\tcase %llu: %s\n", key, (unsigned long long)curCase.v, buf);
}

// ---- coverage -------------------------------------------------------------------------------------------------------
inline u64 evaluations = 0, trivial = 0;
inline std::map<std::string, u64> counters;
struct Counter { u64* p; explicit Counter(const char* n) : p(&counters[n]) {} void operator++(int) { ++*p; } void add(u64 k) { *p += k; } };
#define VT_COUNT(name) do { static vt::Counter c_(name); c_++; } while (0)
#define VT_OP(name) do { static vt::Counter c_(name); c_++; vt::curOp = name; vt::evaluations++; } while (0)
inline void count(const std::string& n, u64 k = 1) { counters[n] += k; }
inline std::unordered_set<u64> seen;
inline bool seenFull = false;
inline u64 hashMix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline void distinct(u64 h) { if (seen.size() < 2000000) seen.insert(h); else seenFull = true; }
inline void distinctBytes(const void* p, size_t n)
{
	u64 h = n; const unsigned char* b = (const unsigned char*)p;
	for (; n >= 8; n -= 8, b += 8) { u64 v; memcpy(&v, b, 8); h = hashMix(h, v); }
	u64 v = 0; memcpy(&v, b, n); distinct(hashMix(h, v));
}
inline std::vector<std::string> samples;
inline void sample(const char* fmt, ...)
{
	if (samples.size() >= 6) return;
	char buf[1024];
	va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
	samples.push_back(buf);
}

// ---- process ends -----------------------------------------------------------------------------------------------------
inline void dying()
{
	char buf[256];
	int n = snprintf(buf, sizeof buf, "\nVT-DIED op=%s case=%llu\n", curOp, (unsigned long long)curCase.v);
	if (n > 0) { ssize_t r = write(2, buf, (size_t)n); (void)r; }
}
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
inline void onSignal(int sig) { dying(); signal(sig, SIG_DFL); raise(sig); }

// ---- the floating-point mode (rounding, flushing, traps) of the thread must survive every call -------------------------
inline u32 fpMode()
{
	#if defined(__SSE__)
	return __builtin_ia32_stmxcsr() & 0xffc0u;
	#else
	return 0;
	#endif
}
inline u32 fpModeAtBegin;
inline void begin(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i]; const char* v = argv[i + 1];
		if (a == "--seed") seed = strtoull(v, 0, 10);
		else if (a == "--cases") cases = strtoull(v, 0, 10);
		else if (a == "--shard") shard = atoi(v);
		else if (a == "--shards") shards = atoi(v);
		else if (a == "--tier") thorough = !strcmp(v, "thorough");
		else if (a == "--log") logFile = fopen(v, "wb");
	}
	rng = Rng(seed * 1000003ull + (u64)shard * 7919ull + 17); rng.sib = &siblings;
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	errno = ERANGE; // left by something earlier: no call may take it for its own
	fpModeAtBegin = fpMode();
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dying);
	signal(SIGABRT, onSignal);
	#if !defined(__SANITIZE_ADDRESS__)
	if (!__sanitizer_set_death_callback) { signal(SIGSEGV, onSignal); signal(SIGFPE, onSignal); signal(SIGILL, onSignal); signal(SIGBUS, onSignal); }
	#endif
}
inline std::string jsonStr(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}
inline int end()
{
	curOp = "end";
	if (fpMode() != fpModeAtBegin) fail("floating-point-mode", "the calls changed the floating-point control bits from %04x to %04x", fpModeAtBegin, fpMode());
	std::string s = "STATS\t{\"evaluations\":" + std::to_string(evaluations) + ",\"distinct\":" + std::to_string(seen.size()) +
		",\"fails\":" + std::to_string(failTotal) + ",\"counters\":{";
	bool first = true;
	for (auto& c : counters) { s += (first ? "" : ",") + jsonStr(c.first) + ":" + std::to_string(c.second); first = false; }
	s += "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) s += (i ? "," : "") + jsonStr(samples[i]);
	s += "]}";
	puts(s.c_str());
	fflush(stdout);
	if (logFile) fclose(logFile);
	return failTotal ? 10 : 0;
}

// ---- keeps the compiler from folding, contracting or vectorising across a call boundary -----------------------------
template<typename T> inline T opaque(T v) { asm volatile("" : "+m"(v) : : "memory"); return v; }
template<typename T> inline void touch(T& v) { asm volatile("" : "+m"(v) : : "memory"); }

// ---- numbers ----------------------------------------------------------------------------------------------------------
inline u32 bits(float f) { u32 u; memcpy(&u, &f, 4); return u; }
inline float fbits(u32 u) { float f; memcpy(&f, &u, 4); return f; }
inline bool isnanf_(float f) { return (bits(f) & 0x7fffffffu) > 0x7f800000u; }
inline bool isinff_(float f) { return (bits(f) & 0x7fffffffu) == 0x7f800000u; }
inline bool isfin(float f) { return (bits(f) & 0x7f800000u) != 0x7f800000u; }
inline bool same(float a, float b) { return bits(a) == bits(b) || (isnanf_(a) && isnanf_(b)); }   // bitwise, any NaN
inline bool sameVal(float a, float b) { return same(a, b) || ((bits(a) | bits(b)) << 1) == 0; }   // also +0 == -0
// |got - ref| <= rel*|ref| + abs
inline bool nearly(double got, double ref, double rel, double abs_)
{
	if (std::isnan(ref)) return std::isnan(got);
	if (std::isinf(ref)) return got == ref;
	return std::fabs(got - ref) <= rel * std::fabs(ref) + abs_;
}
constexpr double EPS = 1.1920928955078125e-7; // 2^-23

// ---- hostile generators -------------------------------------------------------------------------------------------------
inline const float specialF[] = {
	0.0f, -0.0f, 1.0f, -1.0f, 2.0f, -2.0f, 0.5f, -0.5f, 1.5f, -1.5f, 2.5f, -2.5f, 3.0f, 0.25f, 0.1f, 1.0f/3, 255.0f, 256.0f,
	FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, FLT_EPSILON, 1e-45f, -1e-45f, 1e-40f, -1e-40f, 1e-20f, 1e20f, -1e20f,
	8388607.5f, 8388608.0f, 16777215.0f, 16777216.0f, -16777216.0f, 2147483520.0f, 2147483648.0f, -2147483648.0f, 4294967040.0f,
	4294967296.0f, 3.14159274f, -3.14159274f, 1.57079637f, 0.99999994f, 1.00000012f, 0.49999997f, -0.49999997f, 0.50000006f, 1e10f, 1e-10f };
inline const float nonFiniteF[] = { INFINITY, -INFINITY, NAN };
inline float genAnyF(Rng& r) // every float class incl. NaN and infinities
{
	switch (r.below(8))
	{
	case 0: return specialF[r.below(sizeof specialF / 4)];
	case 1: { u32 k = r.below(5); return k < 3 ? nonFiniteF[k] : (k == 3 ? fbits(0xffc00001u) : fbits(0x7f800001u | (r.u() & 0x3fffffu))); }
	case 2: case 3: return fbits(r.u());
	case 4: return (float)(i32)(r.u() % 2001) - 1000.0f;
	case 5: return fbits((r.u() & 0x80000000u) | (r.u() & 0x007fffffu)); // denormal
	case 6: return r.f(-1, 1);
	default: return (float)((r.chance(2) ? 1 : -1) * std::pow(10.0, r.range(-9, 9)));
	}
}
inline float genFinF(Rng& r) { for (;;) { float f = genAnyF(r); if (isfin(f)) return f; } }
inline float genSign(Rng& r) { return r.chance(2) ? 1.0f : -1.0f; }
inline float genMag(Rng& r, double lo10, double hi10) { return (float)((r.chance(2) ? 1 : -1) * std::pow(10.0, r.range(lo10, hi10))); }
// moderate magnitude, often round: geometry coordinates
inline float genGeo(Rng& r)
{
	switch (r.below(8))
	{
	case 0: return (float)((i32)r.below(9) - 4);
	case 1: return 0.0f;
	case 2: return (float)((i32)r.below(33) - 16) * 0.25f;
	case 3: return genMag(r, -3, 3);
	default: return r.f(-10, 10);
	}
}
inline float genGarbage(Rng& r) // content of a lane nobody may look at
{
	switch (r.below(6))
	{
	case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return fbits(r.u());
	case 4: return 0.0f; default: return r.f(-1000, 1000);
	}
}
inline const u32 specialU[] = { 0u, 1u, 2u, 3u, 5u, 7u, 31u, 32u, 33u, 127u, 128u, 255u, 256u, 32767u, 32768u, 65535u, 65536u, 0x7ffffffeu,
	0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0xaaaaaaaau, 0x55555555u, 0x00ff00ffu, 0xdeadbeefu, 0xffff0000u, 16777216u, 16777217u };
inline u32 genU(Rng& r)
{
	switch (r.below(5))
	{
	case 0: case 1: return specialU[r.below(sizeof specialU / 4)];
	case 2: return r.u();
	case 3: return r.u() >> r.below(32);
	default: { u32 b = 1u << r.below(32); return r.chance(2) ? b : (r.chance(2) ? b - 1 : b + 1); }
	}
}
struct D3 { double x, y, z; };
inline D3 operator+(D3 a, D3 b) { return { a.x+b.x, a.y+b.y, a.z+b.z }; }
inline D3 operator-(D3 a, D3 b) { return { a.x-b.x, a.y-b.y, a.z-b.z }; }
inline D3 operator*(D3 a, double s) { return { a.x*s, a.y*s, a.z*s }; }
inline double dot(D3 a, D3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline D3 cross(D3 a, D3 b) { return { a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x }; }
inline double len(D3 a) { return std::sqrt(dot(a, a)); }
inline D3 unitOf(D3 a) { double l = len(a); return { a.x/l, a.y/l, a.z/l }; }
inline double maxAbs(D3 a) { return std::fmax(std::fabs(a.x), std::fmax(std::fabs(a.y), std::fabs(a.z))); }
inline D3 genDir(Rng& r) // unit, often axis aligned or nearly so
{
	for (;;)
	{
		D3 d;
		switch (r.below(6))
		{
		case 0: { double s = r.chance(2) ? 1 : -1; int a = (int)r.below(3); d = { a==0?s:0, a==1?s:0, a==2?s:0 }; break; }
		case 1: d = { (double)((int)r.below(3)-1), (double)((int)r.below(3)-1), (double)((int)r.below(3)-1) }; break;
		case 2: d = { r.range(-1,1), r.range(-1,1), r.range(-1,1) * 1e-4 }; break;
		default: d = { r.range(-1,1), r.range(-1,1), r.range(-1,1) }; break;
		}
		double l = len(d);
		if (l > 1e-3) return d * (1.0 / l);
	}
}
// three coordinates in the shapes real scenes have: equal, opposite, repeated, signed zeros, whole, tiny, huge, axis aligned
inline D3 genVec(Rng& r, double lo10 = -6, double hi10 = 6)
{
	static float pool[8][3]; static u32 filled;
	float v[3]; for (float& x : v) x = genGeo(r);
	switch (r.below(18))
	{
	case 0: if (filled) { u32 k = r.below(filled < 8 ? filled : 8); for (int i = 0; i < 3; i++) v[i] = pool[k][i]; } break; // an earlier one again
	case 1: if (filled) { u32 k = r.below(filled < 8 ? filled : 8); for (int i = 0; i < 3; i++) v[i] = -pool[k][i]; } break;
	case 2: if (filled) { u32 k = r.below(filled < 8 ? filled : 8), keep = r.below(3); for (u32 i = 0; i < 3; i++) if (i != keep) v[i] = pool[k][i]; } break;
	case 3: v[0] = v[1] = v[2]; break;
	case 4: { u32 i = r.below(3); v[i] = v[(i + 1) % 3]; break; }
	case 5: for (float& x : v) x = (float)((i32)r.below(17) - 8); break;
	case 6: { u32 m = 1 + r.below(7); for (u32 i = 0; i < 3; i++) if (m >> i & 1) { bool neg = r.chance(2); v[i] = neg ? -0.0f : 0.0f; } break; }
	case 7: { double e = r.range(lo10, -3); for (float& x : v) { double u = r.range(-1, 1); x = (float)(u * std::pow(10, e)); } break; }
	case 8: { double e = r.range(3, hi10); for (float& x : v) { double u = r.range(-1, 1); x = (float)(u * std::pow(10, e)); } break; }
	case 9: for (float& x : v) x = genMag(r, lo10, hi10); break;
	case 10: { float s = genSign(r); for (float& x : v) x = s * std::fabs(x); break; }
	case 11: for (float& x : v) x = genSign(r); break;
	case 12: { D3 d = genDir(r); double e = std::ldexp(r.range(-1, 1), -(int)r.below(20)); v[0] = (float)(d.x * (1 + e)); v[1] = (float)(d.y * (1 + e)); v[2] = (float)(d.z * (1 + e)); break; } // nearly unit
	default: break;
	}
	u32 slot = filled++ % 8; for (int i = 0; i < 3; i++) pool[slot][i] = v[i]; if (filled > 1u << 30) filled = 8;
	return { v[0], v[1], v[2] };
}
// lanes rearranged as callers have them: equal, axis aligned, opposite operands, signed zeros, ones, small whole numbers
template<typename T> inline void shape4(Rng& r, T* a, T* b)
{
	u32 i = r.below(4), k = r.below(32); T z = (T)0; if (sizeof(T) == 4 && (T)0.5 != z && r.chance(2)) z = -z;
	switch (k)
	{
	case 0: for (int j = 0; j < 4; j++) a[j] = a[i]; break;
	case 1: for (int j = 0; j < 4; j++) b[j] = b[i]; break;
	case 2: a[1] = a[0]; break;
	case 3: a[2] = a[1] = a[0]; break;
	case 4: a[0] = a[1] = z; break;
	case 5: for (u32 j = 0; j < 4; j++) if (j != i) a[j] = z; break;
	case 6: for (int j = 0; j < 4; j++) b[j] = a[j]; break;
	case 7: for (int j = 0; j < 4; j++) b[j] = (T)(z - a[j]); break;
	case 8: a[i] = (T)1; break;
	case 9: a[i] = z; break;
	case 10: for (int j = 0; j < 4; j++) { a[j] = (T)(i32)r.below(10); b[j] = (T)(i32)r.below(10); } break;
	case 11: for (int j = 0; j < 4; j++) { i32 v = 1 + (i32)r.below(1000); a[j] = (T)-v; } break;
	case 12: b[i] = z; break;
	case 13: b[i] = (T)1; break;
	case 14: a[0] = a[1] = a[2] = z; a[3] = (T)1; break;
	case 15: for (u32 j = 0; j < 4; j++) b[j] = j == i ? (T)1 : z; break;
	default: break;
	}
}
// a 4x4 of any values given one of the structures matrices have in use; e[column][row]
inline void shapeMat(Rng& r, float (*e)[4])
{
	u32 i = r.below(4), j = (i + 1 + r.below(3)) % 4;
	auto put = [&](int c, int row, double x) { e[c][row] = (float)x; };
	auto rotation = [&](int n) // n = 2: about one axis, 3: any rotation, 4: any orthogonal 4x4
	{
		double m[4][4] = { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } };
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
		{
			double a = r.range(0, 6.283185307179586); if (r.chance(4)) a = 1.5707963267948966 * r.below(4); double c = std::cos(a), s = std::sin(a);
			for (int k = 0; k < 4; k++) { double x = m[p][k], y = m[q][k]; m[p][k] = x * c + y * s; m[q][k] = y * c - x * s; }
		}
		for (int c = 0; c < 4; c++) for (int row = 0; row < 4; row++) put(c, row, m[c][row]);
	};
	switch (r.below(24))
	{
	case 0: for (int c = 0; c < 4; c++) for (int w = 0; w < c; w++) e[c][w] = e[w][c]; break; // symmetric
	case 1: for (int c = 0; c < 4; c++) { e[c][c] = 0; for (int w = 0; w < c; w++) e[c][w] = -e[w][c]; } break;
	case 2: for (int c = 0; c < 4; c++) for (int w = c + 1; w < 4; w++) e[c][w] = 0; break; // triangular
	case 3: for (int c = 0; c < 4; c++) for (int w = 0; w < c; w++) e[c][w] = 0; break;
	case 4: for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) if (c != w) e[c][w] = 0; break; // diagonal
	case 5: for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) e[c][w] = c == w; break;
	case 6: { double s = std::pow(10, r.range(-7, -2)); for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) { double u = r.range(-s, s); put(c, w, (c == w) + u); } break; } // next to identity
	case 7: rotation(2); break;
	case 8: rotation(3); break;
	case 9: rotation(4); break;
	case 10: { rotation(3); for (int w = 0; w < 3; w++) put(3, w, r.range(-50, 50)); break; } // rigid
	case 11: { rotation(3); double s = std::pow(10, r.range(-3, 3)); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) put(c, w, e[c][w] * s); for (int w = 0; w < 3; w++) put(3, w, r.range(-50, 50)); break; } // uniformly scaled
	case 12: { rotation(3); for (int w = 0; w < 3; w++) e[i % 3][w] = -e[i % 3][w]; for (int w = 0; w < 3; w++) put(3, w, r.range(-50, 50)); break; } // mirrored
	case 13: for (int c = 0; c < 4; c++) e[c][3] = c == 3; break; // affine
	case 14: for (int c = 0; c < 4; c++) e[c][3] = 0; break;
	case 15: for (int c = 0; c < 4; c++) e[c][3] = c == 2 ? genSign(r) : 0.0f; break; // projective
	case 16: for (int w = 0; w < 4; w++) e[i][w] = 0; break;
	case 17: for (int c = 0; c < 4; c++) e[c][i] = 0; break;
	case 18: for (int w = 0; w < 4; w++) e[i][w] = e[j][w]; break;
	case 19: for (int w = 0; w < 4; w++) e[i][w] = -e[i][w]; break;
	case 20: for (int c = 0; c < 4; c++) e[c][i] = -e[c][i]; break;
	case 21: for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) if ((c < 2) != (w < 2)) e[c][w] = 0; break; // blocks
	case 22: e[i][j] = 0; e[j][i] = 0; break;
	default: for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) e[c][w] = c == (int)i && w == (int)i ? e[i][i] : (float)(c == w); break; // identity but for one diagonal element
	}
}
// a power of two by which a whole scene may be multiplied without changing a single rounding
inline double genPow2(Rng& r, int k, u32 oneIn = 4) { if (!r.chance(oneIn)) return 1; int e = (int)r.below((u32)(2 * k + 1)) - k; return std::ldexp(1.0, e); }
} // namespace vt
