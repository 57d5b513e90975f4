// vt: configs=tsan,sse2
// vt: quick=24
// vt: thorough=1000
// vt: link=1
// vt: timeout=120
// vt: rule=each case is a fresh process in which eight threads leave a barrier together into the same stop of a tour over the whole public interface (stops in random order, so that every internal constant gets its first use from several threads at once), then query one shared hierarchy with their own stacks while others read its nodes and build hierarchies of their own, with random pauses; every thread's results are compared bit by bit with the same calls made alone afterwards, ThreadSanitizer watches; distinct by results
#include "tour.hpp"
#include <atomic>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace tourns;
constexpr int T = 8;

static std::atomic<int> arrived{0}, generation{0};
static void barrier()
{
	int g = generation.load(); if (arrived.fetch_add(1) == T - 1) { arrived = 0; generation = g + 1; } else while (generation.load() == g) sched_yield();
}
static std::atomic<int> inside{0}, most{0}; // relaxed: these must not order the calls under test
struct In { In() { int n = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed); while (n > m && !most.compare_exchange_weak(m, n, std::memory_order_relaxed)) { } } ~In() { inside.fetch_sub(1, std::memory_order_relaxed); } };

struct Shared { std::unique_ptr<Bvh> bvh; std::vector<Aabb> boxes; };
static void query(const Shared& sh, Sink& s, R& r, bool par)
{
	Bvh* b = sh.bvh.get(); std::vector<uint32> out(sh.boxes.size()); std::stack<Bvh::Node*> st;
	for (int k = 0; k < 6; k++)
	{
		Plane p[6]; uint8 n; geometryFrustum(r, p, n); uint32 c = b->collectInFrustum(p, n, out.data(), &st); s.u(c); s.u(st.size()); uint64_t sum = 0; for (uint32 i = 0; i < c; i++) sum = vt::hashMix(sum, out[i]); s.u(sum);
		if (par && k % 3 == 0) sched_yield();
		auto& nodes = b->getNodes(); auto& node = nodes[r.below((uint32)nodes.size())]; s.u(node.isLeaf()); s.x3(node.aabb.getMin()); s.u(node.getLeftNode()); s.u(node.getPrimitiveCount()); s.u(b->getPrimitives()[0]); s.u(b->getCentroids().size()); s.u(isBehindFrustum(p, n, node.aabb));
		Ray y = exactRay(r); s.u(raycast(node.aabb, y)); s.u(isInside(node.aabb, EV(r)));
	}
}
static int child(uint64_t seed)
{
	R order(seed * 77 + 5); std::vector<size_t> todo; for (size_t i = 0; i < stopCount; i++) todo.push_back(i); for (size_t i = stopCount; i-- > 1;) std::swap(todo[i], todo[order.below((uint32)i + 1)]);
	Shared sh; R build(seed); size_t n = 40 + build.below(300); Box<Aabb> in(n); Aabb root; exactBoxes(build, in, n, root); sh.bvh.reset(new Bvh()); sh.bvh->recreate(in.p, root, (uint32)n); for (size_t i = 0; i < n; i++) sh.boxes.push_back(in[i]);
	constexpr int Q = 6; size_t phases = stopCount + Q; std::vector<uint64_t> got[T], num[T]; for (int t = 0; t < T; t++) { got[t].resize(phases); num[t].resize(phases); } std::vector<int> overlap(phases);
	// in half of the query phases some threads build their own hierarchy meanwhile
	auto phase = [&](size_t f, int t, Sink& s, bool par) {
		vt::u64 key = vt::hashMix(seed, f * 100 + (size_t)t); R r(key), pause(key ^ 0x5bd1e995); // pauses must not change what is computed
		if (par && pause.chance(4)) for (uint32 i = pause.below(400); i; i--) asm volatile("");
		if (f < stopCount) for (int k = 0; k < 2; k++) { stops[todo[f]].run(s, r); if (par && pause.chance(4)) sched_yield(); }
		else if (f % 2 && t % 3 == 0) { for (auto& st : stops) if (!strncmp(st.name, "bvh", 3)) st.run(s, r); }
		else query(sh, s, r, par);
	};
	std::vector<std::thread> th;
	for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (size_t f = 0; f < phases; f++) { if (t == 0) most.store(0, std::memory_order_relaxed); barrier(); Sink s; { In in_; phase(f, t, s, true); } got[t][f] = s.hash; num[t][f] = s.n; barrier(); if (t == 0) overlap[f] = most.load(std::memory_order_relaxed); } });
	for (auto& t : th) t.join();
	uint64_t total = 0, met = 0, firsts = 0, h = 1; int bad = 0;
	for (size_t f = 0; f < phases; f++)
	{
		if (overlap[f] > 1) met++; if (overlap[f] >= T / 2) firsts++;
		for (int t = 0; t < T; t++) { Sink s; phase(f, t, s, false); total += s.n; h = vt::hashMix(h, s.hash); if (s.hash != got[t][f] || s.n != num[t][f]) { if (!bad++) printf("DIFF %s: thread %d of %d got other results than the same calls alone\n", f < stopCount ? stops[todo[f]].name : "shared hierarchy", t, T); } }
	}
	printf("DONE %zu %llu %llu %llu %llu\n", phases, (unsigned long long)met, (unsigned long long)firsts, (unsigned long long)total, (unsigned long long)h); fflush(stdout);
	return bad ? 3 : 0;
}
int main(int argc, char** argv)
{
	if (argc == 3 && !strcmp(argv[1], "--child")) return child(strtoull(argv[2], 0, 10));
	vt::begin(argc, argv); char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); if (sl <= 0) return 2; self[sl] = 0;
	for (vt::u64 k = 0; k < vt::cases; k++)
	{
		vt::curCase = k; VT_OP("process"); vt::u64 seed = vt::seed * 1000003 + (vt::u64)vt::shard * 50021 + k; int fd[2]; if (pipe(fd)) return 2;
		pid_t pid = fork(); if (pid < 0) return 2;
		if (pid == 0) { dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); std::string n = std::to_string(seed); char* a[] = { self, (char*)"--child", (char*)n.c_str(), nullptr }; execv(self, a); _exit(127); }
		close(fd[1]); std::string out; char buf[4096]; ssize_t c; while ((c = read(fd[0], buf, sizeof buf)) > 0) if (out.size() < 200000) out.append(buf, (size_t)c); close(fd[0]); int st = 0; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 127) return 2;
		size_t race = out.find("WARNING: ThreadSanitizer"), diff = out.find("DIFF "), done = out.find("DONE ");
		if (race != std::string::npos) { std::string frames; size_t p = race; for (int i = 0; i < 6 && (p = out.find("    #0 ", p)) != std::string::npos; i++) { size_t e = out.find('\n', p); frames += out.substr(p + 7, std::min<size_t>(e - p - 7, 160)) + "; "; p = e; } vt::fail("race", "seed %llu: %s at %s", (unsigned long long)seed, out.substr(race, out.find('\n', race) - race).c_str(), frames.c_str()); }
		if (diff != std::string::npos) vt::fail("different", "seed %llu: %s", (unsigned long long)seed, out.substr(diff + 5, out.find('\n', diff) - diff - 5).c_str());
		else if (done == std::string::npos && race == std::string::npos) vt::fail("died", "seed %llu: status %d: %s", (unsigned long long)seed, st, out.substr(0, 300).c_str());
		unsigned long long ph, met, full, total, h; if (done != std::string::npos && sscanf(out.c_str() + done, "DONE %llu %llu %llu %llu %llu", &ph, &met, &full, &total, &h) == 5)
		{
			vt::count("phases", ph); vt::count("phases in which calls overlapped", met); vt::count("phases with at least half of the threads inside at once", full); vt::count("results compared with a lone run", total); vt::evaluations += total; vt::distinct(h); if (k < 3) vt::sample("process %llu: %llu phases, %llu overlapping, %llu results", (unsigned long long)k, ph, met, total);
		}
	}
	if (!vt::failTotal && vt::cases >= 20 && vt::counters["phases in which calls overlapped"] * 20 < vt::counters["phases"]) { fprintf(stderr, "the threads hardly ever ran together\n"); return vt::end(), 9; }
	return vt::end();
}
