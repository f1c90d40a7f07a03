// C14: random helpers. The C library's rand() is replaced here by a stream the driver controls, so every
// value it may return -- including 0 and RAND_MAX, which a real run practically never yields -- is reached.
#include "vf.h"
using namespace vf;
using namespace mathlib;
static thread_local Rng tStream(7);
static thread_local int tForced[4], tNf = 0;
extern "C" int rand(void) {
	if (tNf > 0) return tForced[--tNf];
	return int(tStream.next() & 0x7fffffff);
}
static void force(Rng& r, Case& c) {     // decide what the next calls of rand() return
	tStream = Rng(r.next()); tNf = 0;
	if (!r.p(0.6)) return;
	tNf = r.in(1, 4);
	for (int i = 0; i < tNf; i++) {
		tForced[i] = r.p(0.3) ? 0 : r.p(0.4) ? RAND_MAX : r.p(0.3) ? RAND_MAX / 2 + r.in(-2, 2) : r.p(0.5) ? r.in(0, 10) : RAND_MAX - r.in(0, 10);
		if (tForced[i] == 0) c.cls("rand() is 0");
		if (tForced[i] == RAND_MAX) c.cls("rand() is RAND_MAX");
	}
}
template <class R> void ints(Case& c) {
	c.in("k", int(c.r.n(1 << 30)));
	int n = c.in("n", c.r.p(0.3) ? c.r.in(1, 5) : c.r.in(1, 1000000)), a = c.in("a", c.r.in(-1000000, 1000000)), b = c.in("b", a + (c.r.p(0.3) ? c.r.in(1, 5) : c.r.in(1, 1000000)));
	force(c.r, c); int v = mathlib::rand(n); c.chk(v >= 0 && v < n, "rand int range", "got %d", v);
	force(c.r, c); v = mathlib::randBetween(a, b); c.chk(v >= a && v < b, "randBetween int range", "got %d", v);
	force(c.r, c); v = mathlib::randAmplitude(n); c.chk(v >= -n && v < n, "randAmplitude int range", "got %d", v);
	int f = c.in("from", c.r.n(1000)), t = c.in("to", f + (c.r.p(0.3) ? c.r.in(1, 5) : c.r.in(1, 100000)));
	force(c.r, c); v = mathlib::randAmplitude(f, t); c.chk((v >= f && v < t) || (v < -f && v >= -t), "randAmplitude int interval range", "got %d", v);
	tNf = 0;
}
template <class R> void reals(Case& c) {
	L u = E<R>::u(); c.in("k", int(c.r.n(1 << 30)));
	R f = c.in("f", c.r.p(0.3) ? R(1) : R(c.r.logu(1e-3, 1e4))), a = c.in("a", gReal<R>(c.r)), b = c.in("b", a + gPos<R>(c.r)); L s = 8 * u * (fabsl((L)a) + fabsl((L)b));
	force(c.r, c); R v = mathlib::rand(f); c.chk(v >= 0 && v <= f * (1 + 4 * u), "rand Real range", "got %.17g", double(v));
	force(c.r, c); v = mathlib::randBetween(a, b); c.chk(v >= a - s && v <= b + s, "randBetween Real range", "got %.17g", double(v));
	force(c.r, c); v = mathlib::randAmplitude(f); c.chk(v >= -f * (1 + 8 * u) && v <= f * (1 + 8 * u), "randAmplitude Real range", "got %.17g", double(v));
	R lo = c.in("from", c.r.p(0.2) ? R(0) : R(c.r.uni(0, 10))), hi = c.in("to", lo + gPos<R>(c.r)); L e = 8 * u * hi;
	force(c.r, c); v = mathlib::randAmplitude(lo, hi); L m = fabsl((L)v);
	c.chk(m >= lo - e && m <= hi + e, "randAmplitude Real interval range", "got %.17g", double(v)); c.cls(v < 0 ? "negative amplitude" : "positive amplitude");
	// both ends can be reached
	auto ends = [&](std::function<R()> g, L l, L h, L tol, const char* site) {
		tNf = 1; tForced[0] = 0; R p = g(); tNf = 1; tForced[0] = RAND_MAX; R q = g(); tNf = 0;
		c.chk(std::min(fabsl(p - l), fabsl(q - l)) <= tol && std::min(fabsl(p - h), fabsl(q - h)) <= tol, site, "extremes %.17g and %.17g", double(p), double(q));
	};
	ends([&] { return mathlib::rand(f); }, 0, f, 8 * u * f, "rand Real reaches both ends"); ends([&] { return mathlib::randBetween(a, b); }, a, b, s, "randBetween Real reaches both ends");
	ends([&] { return mathlib::randAmplitude(f); }, -f, f, 8 * u * f, "randAmplitude Real reaches both ends");
	force(c.r, c); ColorRGB<R> rgb = ColorRGB<R>::random(); auto in01 = [&](R x) { return x >= 0 && x <= 1 + 4 * u; };
	c.chk(in01(rgb.r) && in01(rgb.g) && in01(rgb.b), "ColorRGB random range");
	force(c.r, c); ColorRGBA<R> ra = ColorRGBA<R>::random(f); c.chk(in01(ra.r) && in01(ra.g) && in01(ra.b), "ColorRGBA random range"); c.same(ra.a, f, "ColorRGBA random alpha"); c.same(ColorRGBA<R>::random().a, R(1), "ColorRGBA random default alpha");
	force(c.r, c); ColorHSV<R> hsv = ColorHSV<R>::random(); c.chk(hsv.h >= 0 && hsv.h <= 360 * (1 + 4 * u) && in01(hsv.s) && in01(hsv.v), "ColorHSV random range");
	force(c.r, c); Vec2<R> v2 = Vec2<R>::randomUnitVector(); c.nearAbs(v2.length(), 1, 16 * u, "Vec2 randomUnitVector has length 1");
	force(c.r, c); Vec3<R> v3 = Vec3<R>::randomUnitVector(); c.nearAbs(v3.length(), 1, 16 * u, "Vec3 randomUnitVector has length 1");
	tNf = 0;
}
// how the values are spread, over one long uniform stream
template <class R> void spread(Case& c) {
	c.in("k", int(c.r.n(1 << 30))); tStream = Rng(c.r.next()); tNf = 0; c.cls("stream");
	const int N = 4000, B = 8;
	auto bins = [&](std::function<L()> pos, const char* site) {     // pos in 0..1 is uniform: every eighth holds N/8 +- 7 sigma
		int n[B] = {0}; for (int i = 0; i < N; i++) { L p = pos(); int k = int(p * B); n[k < 0 ? 0 : k >= B ? B - 1 : k]++; }
		for (int k = 0; k < B; k++) c.chk(n[k] > 350 && n[k] < 650, site, "eighth %d of the range got %d of %d values", k, n[k], N);
	};
	R f = R(c.r.uni(0.5, 20)), a = R(c.r.uni(-20, 20)), b = a + R(c.r.uni(0.5, 20)), g = R(c.r.uni(0, 5)), h = g + R(c.r.uni(0.5, 20)); int n = c.r.p(0.5) ? c.r.in(1, 50) * 8 : 1 << c.r.in(9, 29), d = c.r.in(-100, 100), from = c.r.n(50);
	bins([&] { return mathlib::rand(f) / f; }, "rand Real spread"); bins([&] { return (mathlib::randBetween(a, b) - a) / (b - a); }, "randBetween Real spread"); bins([&] { return (mathlib::randAmplitude(f) + f) / (2 * f); }, "randAmplitude Real spread");
	bins([&] { return (mathlib::rand(n) + 0.5L) / n; }, "rand int spread"); bins([&] { return (mathlib::randBetween(d, d + n) - d + 0.5L) / n; }, "randBetween int spread"); bins([&] { return (mathlib::randAmplitude(n) + n + 0.5L) / (2 * n); }, "randAmplitude int spread");
	bins([&] { L x = mathlib::randAmplitude(g, h); return x >= 0 ? 0.5L + (x - g) / (h - g) / 2 : 0.5L + (x + g) / (h - g) / 2; }, "randAmplitude Real interval spread");
	bins([&] { int x = mathlib::randAmplitude(from, from + n); return x >= from ? 0.5L + (x - from + 0.5L) / n / 2 : 0.5L + (x + from + 0.5L) / n / 2; }, "randAmplitude int interval spread");
	// no value inside a range is left out: the low bits take every value too
	c.cls("wide range", n > 65536); auto low = [](long x) { return ((x % 8 + 8) % 8 + 0.5L) / 8; };
	bins([&] { return low(mathlib::rand(n)); }, "rand int low bits"); bins([&] { return low(mathlib::randBetween(d, d + n)); }, "randBetween int low bits"); bins([&] { return low(mathlib::randAmplitude(n)); }, "randAmplitude int low bits"); bins([&] { int x = mathlib::randAmplitude(from, from + n); return low(x >= from ? x - from : x + from); }, "randAmplitude int interval low bits");
	// every channel of a random color has the whole range, independently of the others
	auto channels = [&](std::function<void(L*)> g, const char* site, const char* ind) {
		int nb[3][B] = {{0}}, q[3] = {0};
		for (int i = 0; i < N; i++) { L v[3]; g(v); for (int j = 0; j < 3; j++) { int k = int(v[j] * B); nb[j][k < 0 ? 0 : k >= B ? B - 1 : k]++; q[j] += (v[j] < 0.5L) == (v[(j + 1) % 3] < 0.5L); } }
		for (int j = 0; j < 3; j++) { for (int k = 0; k < B; k++) c.chk(nb[j][k] > 350 && nb[j][k] < 650, site, "channel %d: eighth %d of the range got %d of %d values", j, k, nb[j][k], N); c.chk(q[j] > 1750 && q[j] < 2250, ind, "channels %d and %d fall in the same half %d of %d times", j, (j + 1) % 3, q[j], N); }
	};
	channels([&](L* v) { ColorRGB<R> x = ColorRGB<R>::random(); v[0] = x.r; v[1] = x.g; v[2] = x.b; }, "ColorRGB random spread", "ColorRGB random channels are independent");
	channels([&](L* v) { ColorRGBA<R> x = ColorRGBA<R>::random(); v[0] = x.r; v[1] = x.g; v[2] = x.b; }, "ColorRGBA random spread", "ColorRGBA random channels are independent");
	channels([&](L* v) { ColorHSV<R> x = ColorHSV<R>::random(); v[0] = x.h / 360; v[1] = x.s; v[2] = x.v; }, "ColorHSV random spread", "ColorHSV random channels are independent");
	int o2[4] = {0}, o3[8] = {0}; for (int i = 0; i < N; i++) { Vec2<R> v = Vec2<R>::randomUnitVector(); o2[(v.x < 0) + 2 * (v.y < 0)]++; Vec3<R> w = Vec3<R>::randomUnitVector(); o3[(w.x < 0) + 2 * (w.y < 0) + 4 * (w.z < 0)]++; }
	for (int k = 0; k < 4; k++) c.chk(o2[k] > 800 && o2[k] < 1200, "Vec2 randomUnitVector covers every quadrant", "quadrant %d got %d of %d", k, o2[k], N);
	for (int k = 0; k < 8; k++) c.chk(o3[k] > 350 && o3[k] < 650, "Vec3 randomUnitVector covers every octant", "octant %d got %d of %d", k, o3[k], N);
}
void vf::registerAll() {
	VF_BOTH(ints, "ints", 60000, "rand() is 0", "rand() is RAND_MAX");
	VF_BOTH(reals, "reals", 60000, "rand() is 0", "rand() is RAND_MAX", "negative amplitude", "positive amplitude");
	VF_BOTH(spread, "spread", 32, "stream", "wide range");
}
VF_MAIN()
