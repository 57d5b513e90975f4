// vt: configs=sse2,sse41,avx2,scalar,neon
// vt: quick=800
// vt: thorough=8000
// vt: link=1
// vt: compare=1
// vt: rule=the same seeded stream of inputs goes through every stop of a tour over the whole public interface in builds for SSE2, SSE4.1, AVX2 (harness AVX2, library as shipped), NEON (on a lane-by-lane stand-in for the intrinsics) and no SIMD at all; every observed value is logged and the five logs are compared offline, discrete answers and single correctly rounded operations exactly, other numbers within a rounding allowance; inputs of discrete answers are chosen so that the exact arithmetic leaves no doubt; each stop is repeated in the same build after other calls and must give the same bits; distinct by results
#include "tour.hpp"
using namespace tourns;

int main(int argc, char** argv)
{
	vt::begin(argc, argv);
	std::vector<Rec> log; if (vt::logFile) { vt::u64 n = stopCount; fwrite(&n, 8, 1, vt::logFile); for (auto& s : stops) { char b[32] = {}; strncpy(b, s.name, 31); fwrite(b, 32, 1, vt::logFile); } }
	vt::u64 h = 1, stream = vt::rng.next();
	for (vt::u64 k = 0; k < vt::cases; k++)
	{
		for (size_t i = 0; i < stopCount; i++)
		{
			vt::curCase = k; vt::curOp = stops[i].name; vt::u64 key = vt::hashMix(stream, k * 1000 + i); log.clear(); Sink a, b, other; a.log = &log;
			{ R r(key); stops[i].run(a, r); } { R r(key + 1); stops[(i * 7 + k) % stopCount].run(other, r); vt::curOp = stops[i].name; } { R r(key); stops[i].run(b, r); }
			if (a.hash != b.hash || a.n != b.n) vt::fail("repeat", "%s, case %llu: the same calls with the same inputs gave different bits", stops[i].name, (unsigned long long)k);
			vt::evaluations += a.n; vt::count("repeated in one build", a.n); h = vt::hashMix(h, a.hash); vt::distinct(a.hash);
			if (k == 0 && i % 20 == 0) vt::sample("%s: %zu values, first %.9g", stops[i].name, log.size(), log.empty() ? 0.0 : log[0].v);
			if (vt::logFile) { vt::u64 head[3] = { i, k, log.size() }; fwrite(head, 8, 3, vt::logFile); fwrite(log.data(), sizeof(Rec), log.size(), vt::logFile); }
		}
	}
	return vt::end();
}
