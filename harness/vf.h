// Monitor runtime shared by every driver in /verif/harness.
//
// A driver registers "families" of cases. A case is (family, index): all its random choices come
// from a generator seeded with hash(VERIF_SEED, family, index), so any case can be replayed alone.
// Drivers call the real library, and monitors (chk / near / ...) compare what it did with a
// reference model evaluated in extended precision with a running rounding-error bound.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <limits>
#include <vector>
#include <string>
#include <functional>
#include <algorithm>
#include <mutex>
#include <thread>
#include <atomic>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
#include <cassert>
#include "mathlib.h"

// Live arrays of this thread, where no sanitizer owns the allocator: a call that returns must have released what it allocated
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_OWN_HEAP 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define VF_OWN_HEAP 0
#endif
#endif
#ifndef VF_OWN_HEAP
#define VF_OWN_HEAP 1
#endif
namespace vf { inline long& liveArrays() { static thread_local long n = 0; return n; } }
#if VF_OWN_HEAP
#include <new>
void* operator new[](std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); vf::liveArrays()++; return p; }
void operator delete[](void* p) noexcept { if (p) { vf::liveArrays()--; free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { vf::liveArrays()--; free(p); } }
#endif

namespace vf {

typedef long double L;

// ------------------------------------------------------------------ random numbers
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * u01(); }
	int n(int k) { return int(next() % uint64_t(k)); }           // 0..k-1
	int in(int a, int b) { return a + n(b - a + 1); }            // a..b
	// a number of elements: mostly small, now and then larger than any block, byte or short
	int count(int a, int b) { double q = u01(); return q < 0.0001 ? in(32700, 70000) : q < 0.0006 ? in(250, 3000) : q < 0.01 ? in(b, 20 * b) : in(a, b); }
	bool p(double q) { return u01() < q; }
	double gauss() {
		double a = u01(), b = u01();
		if (a < 1e-300) a = 1e-300;
		return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
	}
	double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
	double sgn() { return (next() & 1) ? 1.0 : -1.0; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
	Rng r(a ^ (b * 0xff51afd7ed558ccdull + 0x632be59bd9b4e019ull));
	r.next();
	return r.next();
}
inline uint64_t hstr(const char* s) {
	uint64_t h = 1469598103934665603ull;
	for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}

// ------------------------------------------------------------------ value with error bound
template <class R> struct E {
	L v, e;
	static L u() { return (L)std::numeric_limits<R>::epsilon(); }
	static L dm() { return (L)std::numeric_limits<R>::denorm_min(); }
	E() : v(0), e(0) {}
	E(R x) : v(x), e(0) {}
	E(int x) : v(x), e(0) {}
	E(L x, L err) : v(x), e(err) {}
	static E of(L x) { return E(x, fabsl(x) * u()); }      // a constant rounded to R
	static E lit(L x) { return E(x, 0); }
};
template <class R> E<R> operator+(const E<R>& a, const E<R>& b) { return E<R>(a.v + b.v, a.e + b.e + E<R>::u() * (fabsl(a.v) + fabsl(b.v)) + E<R>::dm()); }
template <class R> E<R> operator-(const E<R>& a, const E<R>& b) { return E<R>(a.v - b.v, a.e + b.e + E<R>::u() * (fabsl(a.v) + fabsl(b.v)) + E<R>::dm()); }
template <class R> E<R> operator-(const E<R>& a) { return E<R>(-a.v, a.e); }
template <class R> E<R> operator*(const E<R>& a, const E<R>& b) {
	return E<R>(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e + E<R>::u() * fabsl(a.v * b.v) + E<R>::dm());
}
template <class R> E<R> operator/(const E<R>& a, const E<R>& b) {
	L d = fabsl(b.v) - b.e;
	if (!(d > 0)) return E<R>(a.v / b.v, std::numeric_limits<L>::infinity());
	L q = a.v / b.v;
	return E<R>(q, (a.e + fabsl(q) * b.e) / d + E<R>::u() * fabsl(q) + E<R>::dm());
}
template <class R> E<R> esqrt(const E<R>& a) {
	L v = a.v > 0 ? sqrtl(a.v) : 0;
	L lo = a.v - a.e > 0 ? sqrtl(a.v - a.e) : 0, hi = sqrtl(fabsl(a.v) + a.e);
	return E<R>(v, (hi - lo) + E<R>::u() * v + E<R>::dm());
}
template <class R> E<R> esin(const E<R>& a) { return E<R>(sinl(a.v), std::min((L)2, a.e) + 2 * E<R>::u() * fabsl(sinl(a.v)) + E<R>::dm()); }
template <class R> E<R> ecos(const E<R>& a) { return E<R>(cosl(a.v), std::min((L)2, a.e) + 2 * E<R>::u() * fabsl(cosl(a.v)) + E<R>::dm()); }
template <class R> E<R> etan(const E<R>& a) { return esin(a) / ecos(a); }
inline L acosc(L x) { return acosl(x > 1 ? 1 : x < -1 ? -1 : x); }
inline L asinc(L x) { return asinl(x > 1 ? 1 : x < -1 ? -1 : x); }
template <class R> E<R> eacos(const E<R>& a) {
	L v = acosc(a.v);
	return E<R>(v, fabsl(acosc(a.v - a.e) - acosc(a.v + a.e)) + 2 * E<R>::u() * (v + 1));
}
template <class R> E<R> easin(const E<R>& a) {
	L v = asinc(a.v);
	return E<R>(v, fabsl(asinc(a.v - a.e) - asinc(a.v + a.e)) + 2 * E<R>::u() * (fabsl(v) + 1));
}
template <class R> E<R> eatan2(const E<R>& y, const E<R>& x) {
	L r = hypotl(x.v, y.v), d = r - x.e - y.e;
	L v = atan2l(y.v, x.v);
	if (!(d > 0)) return E<R>(v, 7);
	return E<R>(v, (x.e + y.e) / d + 2 * E<R>::u() * fabsl(v) + E<R>::dm());
}
template <class R> E<R> eabs(const E<R>& a) { return E<R>(fabsl(a.v), a.e); }
template <class R> E<R> emin(const E<R>& a, const E<R>& b) { return E<R>(std::min(a.v, b.v), std::max(a.e, b.e)); }
template <class R> E<R> emax(const E<R>& a, const E<R>& b) { return E<R>(std::max(a.v, b.v), std::max(a.e, b.e)); }
template <class R> E<R>& operator+=(E<R>& a, const E<R>& b) { return a = a + b; }
template <class R> E<R>& operator-=(E<R>& a, const E<R>& b) { return a = a - b; }

// ------------------------------------------------------------------ engine
struct Status { volatile uint64_t fam[64]; volatile uint64_t idx[64]; };

// ordered map without std::map: the red-black tree code lives in the uninstrumented libstdc++.so (MemorySanitizer)
template <class K, class T> struct FlatMap {
	std::vector<std::pair<K, T>> v;
	T& operator[](const K& k) {
		for (auto& p : v) if (p.first == k) return p.second;
		v.push_back(std::make_pair(k, T()));
		return v.back().second;
	}
	typename std::vector<std::pair<K, T>>::const_iterator begin() const { return v.begin(); }
	typename std::vector<std::pair<K, T>>::const_iterator end() const { return v.end(); }
	size_t count(const K& k) const { for (auto& p : v) if (p.first == k) return 1; return 0; }
};

struct Case;
typedef std::function<void(Case&)> Fn;
struct Family {
	std::string name;
	uint64_t n;
	Fn fn;
	std::vector<std::string> need;     // input classes that must have been seen (vacuity guard)
	// results
	uint64_t evals = 0, nontriv = 0;
	FlatMap<std::string, uint64_t> cls;
	FlatMap<std::string, uint64_t> sites;
	std::vector<std::string> samples;
};

struct Engine {
	std::vector<Family> fams;
	uint64_t seed = 1;
	std::string prop;
	Status* st = nullptr;
	FILE* out = stdout;
	std::mutex mu;
	FlatMap<std::string, int> viols;    // per site
	uint64_t nviol = 0;
	std::vector<uint64_t> hashes;
	bool replay = false;
	static Engine& get() { static Engine e; return e; }
};

inline std::string jesc(const std::string& s) {
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
	__msan_unpoison(s.data(), s.size());     // single characters are copied inside the uninstrumented libstdc++
#endif
#endif
	std::string o;
	for (char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Local {       // per-thread accumulation for one family
	uint64_t evals = 0, nontriv = 0;
	std::vector<std::pair<const char*, uint64_t>> cls, sites;
	std::vector<uint64_t> hashes;
	std::vector<std::string> samples;
	static void bump(std::vector<std::pair<const char*, uint64_t>>& v, const char* k) {
		for (auto& p : v) if (p.first == k) { ++p.second; return; }
		v.push_back(std::make_pair(k, uint64_t(1)));
	}
};

struct Case {
	Rng r;
	Family* fam;
	uint64_t idx;
	Local* loc;
	uint64_t h;
	bool trivial;
	bool log;
	bool failed, shown, mute = false;   // mute: run for effect, another property judges the values
	std::string text;
	Case(Family* f, uint64_t i, uint64_t seed, Local* l, bool lg)
		: r(mix(mix(seed, hstr(f->name.c_str())), i)), fam(f), idx(i), loc(l), h(hstr(f->name.c_str())), trivial(false), log(lg), failed(false), shown(false) {}

	void cls(const char* c) { Local::bump(loc->cls, c); }
	void cls(const char* c, bool on) { if (on) cls(c); }

	void hash(L x) { double d = double(x); uint64_t b; memcpy(&b, &d, 8); h = mix(h, b); }
	template <class T> T in(const char* n, T x) { hash(L(x)); if (log) note(n, L(x)); return x; }
	void note(const char* n, L x) { char b[96]; snprintf(b, sizeof b, "%s%s=%.17Lg", text.empty() ? "" : " ", n, x); text += b; }
	template <class R> mathlib::Vec2<R> in(const char* n, const mathlib::Vec2<R>& v) {
		hash(v.x); hash(v.y);
		if (log) { char b[160]; snprintf(b, sizeof b, "%s%s=(%.17g,%.17g)", text.empty() ? "" : " ", n, double(v.x), double(v.y)); text += b; }
		return v;
	}
	template <class R> mathlib::Vec3<R> in(const char* n, const mathlib::Vec3<R>& v) {
		hash(v.x); hash(v.y); hash(v.z);
		if (log) { char b[200]; snprintf(b, sizeof b, "%s%s=(%.17g,%.17g,%.17g)", text.empty() ? "" : " ", n, double(v.x), double(v.y), double(v.z)); text += b; }
		return v;
	}
	template <class R> mathlib::Vec4<R> in(const char* n, const mathlib::Vec4<R>& v) {
		hash(v.x); hash(v.y); hash(v.z); hash(v.w);
		if (log) { char b[240]; snprintf(b, sizeof b, "%s%s=(%.17g,%.17g,%.17g,%.17g)", text.empty() ? "" : " ", n, double(v.x), double(v.y), double(v.z), double(v.w)); text += b; }
		return v;
	}

	void viol(const char* site, const std::string& msg) {
		if (mute) return;
		failed = true;
		Engine& e = Engine::get();
		std::lock_guard<std::mutex> g(e.mu);
		e.nviol++;
		int& k = e.viols[site];
		k++;
		if (k > 6 && !e.replay) return;
		shown = true;
		fprintf(e.out, "V {\"site\":\"%s\",\"family\":\"%s\",\"idx\":%llu,\"msg\":\"%s\",\"input\":\"%s\"}\n", jesc(site).c_str(),
			jesc(fam->name).c_str(), (unsigned long long)idx, jesc(msg).c_str(), jesc(text).c_str());
		fflush(e.out);
	}
	// Boolean monitor
	bool chk(bool ok, const char* site, const char* fmt = "", ...) __attribute__((format(printf, 4, 5))) {
		Local::bump(loc->sites, site);
		if (ok) return true;
		char b[1024];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		viol(site, b);
		return false;
	}
	// Numeric monitor: got must lie within K error bounds of the reference.
	template <class R> bool near(R got, const E<R>& ref, const char* site, L K = 6) {
		Local::bump(loc->sites, site);
		L tol = K * ref.e + 4 * E<R>::dm();
		if (!(tol < (L)std::numeric_limits<R>::max() / 16) || fabsl(ref.v) > (L)std::numeric_limits<R>::max() / 16) return true;   // overflow / ill conditioned: undecided
		L d = fabsl((L)got - ref.v);
		if (d <= tol) return true;
		char b[256];
		snprintf(b, sizeof b, "got %.17Lg expected %.17Lg (+-%.3Lg)", (L)got, ref.v, tol);
		viol(site, b);
		return false;
	}
	// Numeric monitor with an absolute tolerance.
	template <class R> bool nearAbs(R got, L ref, L tol, const char* site) {
		Local::bump(loc->sites, site);
		L d = fabsl((L)got - ref);
		if (d <= tol) return true;
		char b[256];
		snprintf(b, sizeof b, "got %.17Lg expected %.17Lg (+-%.3Lg)", (L)got, ref, tol);
		viol(site, b);
		return false;
	}
	// Exact equality (treats -0 == +0)
	template <class R> bool same(R got, R ref, const char* site) {
		Local::bump(loc->sites, site);
		if (got == ref) return true;
		char b[256];
		snprintf(b, sizeof b, "got %.17Lg expected exactly %.17Lg", (L)got, (L)ref);
		viol(site, b);
		return false;
	}
	void sameI(long got, long ref, const char* site) {
		Local::bump(loc->sites, site);
		if (got == ref) return;
		char b[128];
		snprintf(b, sizeof b, "got %ld expected %ld", got, ref);
		viol(site, b);
	}
};

inline void reg(const std::string& name, uint64_t n, Fn fn, std::vector<std::string> need = std::vector<std::string>()) {
	Family f;
	f.name = name; f.n = n; f.fn = fn; f.need = need;
	Engine::get().fams.push_back(f);
}

inline void runRange(Family& f, size_t fi, uint64_t a, uint64_t b, uint64_t step, unsigned th, uint64_t seed, bool keep) {
	Engine& e = Engine::get();
	Local loc;
	for (uint64_t i = a; i < b; i += step) {
		if (e.st) { e.st->fam[th] = fi; e.st->idx[th] = i; }
		Case c(&f, i, seed, &loc, e.replay || (keep && i < 2));
		long live = liveArrays();
		f.fn(c);
		if (liveArrays() != live) { c.mute = false; c.chk(false, "C29 arrays allocated in a case are released in it", "%ld left", liveArrays() - live); }
		loc.evals++;
		if (!c.trivial) { loc.nontriv++; if (loc.hashes.size() < 4000000) loc.hashes.push_back(c.h); }
		if (c.shown && !c.log && keep) {   // rerun once with input logging
			Local l2;
			Case c2(&f, i, seed, &l2, true);
			f.fn(c2);
		}
		if (c.log && !c.text.empty()) loc.samples.push_back(c.text);
	}
	if (e.st) e.st->fam[th] = ~uint64_t(0);     // idle
	std::lock_guard<std::mutex> g(e.mu);
	f.evals += loc.evals; f.nontriv += loc.nontriv;
	for (auto& p : loc.cls) f.cls[p.first] += p.second;
	for (auto& p : loc.sites) f.sites[p.first] += p.second;
	for (auto& s : loc.samples) if (f.samples.size() < 2) f.samples.push_back(s);
	e.hashes.insert(e.hashes.end(), loc.hashes.begin(), loc.hashes.end());
}

void registerAll();     // defined by each driver

inline int vfmain(int argc, char** argv, void (*setup)()) {
	Engine& e = Engine::get();
	double scale = 1;
	unsigned threads = 1;
	std::string replay, only;
	bool conc = false, list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") e.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--threads") threads = atoi(val().c_str());
		else if (a == "--conc") conc = true;     // every thread runs every case (race detection)
		else if (a == "--list") list = true;
		else if (a == "--only") only = val();
		else if (a == "--out") { e.out = fopen(val().c_str(), "w"); }
		else if (a == "--replay") replay = val();
		else if (a == "--status") {
			int fd = open(val().c_str(), O_RDWR | O_CREAT, 0644);
			if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
				void* p = mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
				if (p != MAP_FAILED) e.st = (Status*)p;
			}
		}
	}
	setup();
	if (e.st) for (int t = 0; t < 64; t++) e.st->fam[t] = ~uint64_t(0);
	if (list) { for (size_t i = 0; i < e.fams.size(); i++) printf("F %zu %s\n", i, e.fams[i].name.c_str()); return 0; }
	if (!replay.empty()) {
		size_t k = replay.rfind(':');
		std::string fn = replay.substr(0, k);
		uint64_t idx = strtoull(replay.c_str() + k + 1, 0, 10);
		e.replay = true;
		for (size_t fi = 0; fi < e.fams.size(); fi++)
			if (e.fams[fi].name == fn) runRange(e.fams[fi], fi, idx, idx + 1, 1, 0, e.seed, true);
		fprintf(e.out, "REPLAYED violations=%llu\n", (unsigned long long)e.nviol);
		return e.nviol ? 1 : 0;
	}
	if (threads > 60) threads = 60;
	for (size_t fi = 0; fi < e.fams.size(); fi++) {
		Family& f = e.fams[fi];
		if (!only.empty() && f.name.find(only) == std::string::npos) continue;
		uint64_t n = uint64_t(double(f.n) * scale);
		if (n < 20) n = std::min<uint64_t>(f.n, 20);
		if (threads <= 1) runRange(f, fi, 0, n, 1, 0, e.seed, true);
		else {
			std::vector<std::thread> ts;
			for (unsigned t = 0; t < threads; t++)
				ts.emplace_back([&f, fi, n, t, threads, conc, &e]() {
					if (conc) runRange(f, fi, 0, n, 1, t, e.seed, false);
					else runRange(f, fi, t, n, threads, t, e.seed, true);
				});
			for (auto& t : ts) t.join();
		}
	}
	std::sort(e.hashes.begin(), e.hashes.end());
	uint64_t distinct = std::unique(e.hashes.begin(), e.hashes.end()) - e.hashes.begin();
	uint64_t ev = 0, nt = 0, checks = 0;
	for (auto& f : e.fams) { ev += f.evals; nt += f.nontriv; for (auto& s : f.sites) checks += s.second; }
	fprintf(e.out, "S {\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"monitor_observations\":%llu,\"violations\":%llu,\"families\":[",
		(unsigned long long)ev, (unsigned long long)nt, (unsigned long long)distinct, (unsigned long long)checks, (unsigned long long)e.nviol);
	bool first = true;
	for (auto& f : e.fams) {
		if (f.evals == 0) continue;
		fprintf(e.out, "%s{\"name\":\"%s\",\"evaluations\":%llu,\"classes\":{", first ? "" : ",", jesc(f.name).c_str(), (unsigned long long)f.evals);
		first = false;
		bool f2 = true;
		for (auto& p : f.cls) { fprintf(e.out, "%s\"%s\":%llu", f2 ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f2 = false; }
		fprintf(e.out, "},\"sites\":{");
		f2 = true;
		for (auto& p : f.sites) { fprintf(e.out, "%s\"%s\":%llu", f2 ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f2 = false; }
		fprintf(e.out, "},\"missing\":[");
		f2 = true;
		for (auto& c : f.need) if (!f.cls.count(c)) { fprintf(e.out, "%s\"%s\"", f2 ? "" : ",", jesc(c).c_str()); f2 = false; }
		fprintf(e.out, "],\"samples\":[");
		f2 = true;
		for (auto& s : f.samples) { fprintf(e.out, "%s\"%s\"", f2 ? "" : ",", jesc(s).c_str()); f2 = false; }
		fprintf(e.out, "]}");
	}
	fprintf(e.out, "]}\n");
	fflush(e.out);
	return e.nviol ? 1 : 0;
}

// ------------------------------------------------------------------ generators
template <class R> const char* rn();
template <> inline const char* rn<float>() { return "f"; }
template <> inline const char* rn<double>() { return "d"; }

// register one family per Real type
#define VF_BOTH(fn, name, n, ...) \
	vf::reg(std::string(name) + ".f", n, [](vf::Case& c) { fn<float>(c); }, std::vector<std::string>{__VA_ARGS__}); \
	vf::reg(std::string(name) + ".d", n, [](vf::Case& c) { fn<double>(c); }, std::vector<std::string>{__VA_ARGS__})

template <class R> R gReal(Rng& r) {
	switch (r.n(8)) {
	case 0: return R(r.in(-4, 4));
	case 1: return R(r.in(-8, 8)) * R(0.5);
	case 2: return R(r.sgn() * (r.p(0.15) ? r.logu(1e-4, 1e4) : r.logu(1e-3, 1e3)));
	case 3: if (r.p(0.2)) return R(r.n(3) - 1); return R(r.uni(-1, 1));
	default: return R(r.uni(-10, 10));
	}
}
template <class R> R gNonZero(Rng& r) { R x; do x = gReal<R>(r); while (x == R(0)); return x; }
template <class R> R gPos(Rng& r) { return std::fabs(gNonZero<R>(r)); }
// a scale spanning many magnitudes (safe from overflow of third powers in float)
template <class R> R gScale(Rng& r) { return r.p(0.6) ? R(1) : R(r.logu(1e-6, 1e6)); }
// a ratio: an end, hardly away from an end, or anywhere between
template <class R> R gRatio(Rng& r) { if (r.p(0.1)) { R k = R(r.logu(1e-9, 1e-2)); return r.p(0.5) ? k : R(1) - k; } return R(r.u01()); }
template <class R> R gAngle(Rng& r) {
	const L PI = 3.14159265358979323846264338327950288L;
	if (r.p(0.05)) return R(r.sgn() * r.logu(6, 1e6));      // many turns
	switch (r.n(8)) {
	case 0: return R(r.in(-4, 4) * (PI / 2));
	case 1: return R(r.in(-8, 8) * (PI / 4));
	case 2: return R(r.sgn() * r.logu(1e-5, 1));
	case 3: return R(r.in(-6, 6) * (PI / 6));
	case 4: if (r.p(0.6)) return R(r.in(-4, 4) * (PI / 2) + r.sgn() * r.logu(sizeof(R) == 4 ? 1e-6 : 1e-12, 1e-2)); // close to a quarter turn
	default: return R(r.uni(-2 * double(PI), 2 * double(PI)));
	}
}
template <class R> mathlib::Vec2<R> gVec2(Rng& r) {
	R s = r.p(0.15) ? gScale<R>(r) : R(1);
	return mathlib::Vec2<R>(gReal<R>(r) * s, gReal<R>(r) * s);
}
template <class R> mathlib::Vec3<R> gVec3(Rng& r) {
	R s = r.p(0.15) ? gScale<R>(r) : R(1);
	if (r.p(0.1)) { mathlib::Vec3<R> v(R(0), R(0), R(0)); int k = r.n(3); (k == 0 ? v.x : k == 1 ? v.y : v.z) = gReal<R>(r) * s; return v; }
	R a = gReal<R>(r) * s, b = gReal<R>(r) * s, d = gReal<R>(r) * s;
	return mathlib::Vec3<R>(a, b, d);
}
template <class R> mathlib::Vec4<R> gVec4(Rng& r) {
	R s = r.p(0.15) ? gScale<R>(r) : R(1);
	R a = gReal<R>(r) * s, b = gReal<R>(r) * s, d = gReal<R>(r) * s, w = gReal<R>(r) * s;
	return mathlib::Vec4<R>(a, b, d, w);
}
template <class R> mathlib::Vec3<R> gUnit3(Rng& r) {
	if (r.p(0.15)) {
		int k = r.n(3); R s = R(r.sgn());
		return mathlib::Vec3<R>(k == 0 ? s : R(0), k == 1 ? s : R(0), k == 2 ? s : R(0));
	}
	double x, y, z, l;
	do { x = r.gauss(); y = r.gauss(); z = r.p(0.1) ? 0 : r.gauss(); l = std::sqrt(x * x + y * y + z * z); } while (l < 1e-3);
	return mathlib::Vec3<R>(R(x / l), R(y / l), R(z / l));
}
template <class R> mathlib::Vec2<R> gUnit2(Rng& r) {
	double a = r.p(0.2) ? r.n(8) * 0.78539816339744830962 : r.uni(-3.2, 3.2);
	return mathlib::Vec2<R>(R(std::cos(a)), R(std::sin(a)));
}
template <class R> mathlib::Coord gCoord3(Rng& r) { return mathlib::Coord(r.n(3)); }

// ------------------------------------------------------------------ small reference linear algebra over E<R>
template <class R> struct V3 {
	E<R> x, y, z;
	V3() {}
	V3(const E<R>& a, const E<R>& b, const E<R>& c) : x(a), y(b), z(c) {}
	V3(const mathlib::Vec3<R>& v) : x(v.x), y(v.y), z(v.z) {}
	E<R>& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
	const E<R>& operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
template <class R> V3<R> operator+(const V3<R>& a, const V3<R>& b) { return V3<R>(a.x + b.x, a.y + b.y, a.z + b.z); }
template <class R> V3<R> operator-(const V3<R>& a, const V3<R>& b) { return V3<R>(a.x - b.x, a.y - b.y, a.z - b.z); }
template <class R> V3<R> operator*(const V3<R>& a, const E<R>& k) { return V3<R>(a.x * k, a.y * k, a.z * k); }
template <class R> E<R> dot(const V3<R>& a, const V3<R>& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
template <class R> V3<R> cross(const V3<R>& a, const V3<R>& b) { return V3<R>(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
template <class R> E<R> len(const V3<R>& a) { return esqrt(dot(a, a)); }
template <class R> struct V2 {
	E<R> x, y;
	V2() {}
	V2(const E<R>& a, const E<R>& b) : x(a), y(b) {}
	V2(const mathlib::Vec2<R>& v) : x(v.x), y(v.y) {}
};
template <class R> V2<R> operator+(const V2<R>& a, const V2<R>& b) { return V2<R>(a.x + b.x, a.y + b.y); }
template <class R> V2<R> operator-(const V2<R>& a, const V2<R>& b) { return V2<R>(a.x - b.x, a.y - b.y); }
template <class R> V2<R> operator*(const V2<R>& a, const E<R>& k) { return V2<R>(a.x * k, a.y * k); }
template <class R> E<R> dot(const V2<R>& a, const V2<R>& b) { return a.x * b.x + a.y * b.y; }
template <class R> E<R> len(const V2<R>& a) { return esqrt(dot(a, a)); }

template <class R> bool near(Case& c, const mathlib::Vec2<R>& g, const V2<R>& e, const char* site, L K = 6) {
	// vector compare: the error bound of the largest component applies to all (orthogonal changes of basis mix them)
	L m = std::max(e.x.e, e.y.e);
	bool a = c.near(g.x, E<R>(e.x.v, m), site, K);
	bool b = c.near(g.y, E<R>(e.y.v, m), site, K);
	return a && b;
}
template <class R> bool near(Case& c, const mathlib::Vec3<R>& g, const V3<R>& e, const char* site, L K = 6) {
	L m = std::max(e.x.e, std::max(e.y.e, e.z.e));
	bool a = c.near(g.x, E<R>(e.x.v, m), site, K);
	bool b = c.near(g.y, E<R>(e.y.v, m), site, K);
	bool d = c.near(g.z, E<R>(e.z.v, m), site, K);
	return a && b && d;
}
template <class R> bool same(Case& c, const mathlib::Vec2<R>& a, const mathlib::Vec2<R>& b, const char* site) { return c.same(a.x, b.x, site) & c.same(a.y, b.y, site); }
template <class R> bool same(Case& c, const mathlib::Vec3<R>& a, const mathlib::Vec3<R>& b, const char* site) { return c.same(a.x, b.x, site) & c.same(a.y, b.y, site) & c.same(a.z, b.z, site); }
template <class R> bool same(Case& c, const mathlib::Vec4<R>& a, const mathlib::Vec4<R>& b, const char* site) { return c.same(a.x, b.x, site) & c.same(a.y, b.y, site) & c.same(a.z, b.z, site) & c.same(a.w, b.w, site); }

const L PIL = 3.14159265358979323846264338327950288L;

} // namespace vf

#define VF_MAIN() \
	int main(int argc, char** argv) { return vf::vfmain(argc, argv, vf::registerAll); }
