// C12: interpolation ratios (easing curves), lerp and response curves
#include "vf.h"
using namespace vf;
using namespace mathlib;
typedef InterpolationMode IM;

static L easeIn(int k, L t) {
	switch (k) {
	case 2: return t * t; case 3: return t * t * t; case 4: return t * t * t * t; case 5: return t * t * t * t * t;
	case 6: return 1 - cosl(t * PIL / 2);
	case 7: return (powl(2, 10 * (t - 1)) - powl(2, -10)) / (1 - powl(2, -10));
	case 8: return powl(2, 20 * (t - 1));
	default: return 1 - sqrtl(1 - t * t);
	}
}
struct Mode { IM m; const char* n; int kind; int k; };      // kind: 0 formula, 1 in, 2 out, 3 in-out
static const Mode modes[] = {
	{IM::Linear, "Linear", 0, 0}, {IM::Parabolic, "Parabolic", 1, 2}, {IM::Cubic, "Cubic", 1, 3}, {IM::Exponential, "Exponential", 0, 1}, {IM::Cosine, "Cosine", 1, 6},
	{IM::QuadraticIn, "QuadraticIn", 1, 2}, {IM::QuadraticOut, "QuadraticOut", 2, 2}, {IM::QuadraticInOut, "QuadraticInOut", 3, 2},
	{IM::CubicIn, "CubicIn", 1, 3}, {IM::CubicOut, "CubicOut", 2, 3}, {IM::CubicInOut, "CubicInOut", 3, 3},
	{IM::QuarticIn, "QuarticIn", 1, 4}, {IM::QuarticOut, "QuarticOut", 2, 4}, {IM::QuarticInOut, "QuarticInOut", 3, 4},
	{IM::QuinticIn, "QuinticIn", 1, 5}, {IM::QuinticOut, "QuinticOut", 2, 5}, {IM::QuinticInOut, "QuinticInOut", 3, 5},
	{IM::SinusoidalIn, "SinusoidalIn", 1, 6}, {IM::SinusoidalOut, "SinusoidalOut", 2, 6}, {IM::SinusoidalInOut, "SinusoidalInOut", 4, 0},
	{IM::ExponentialIn, "ExponentialIn", 1, 7}, {IM::ExponentialOut, "ExponentialOut", 2, 7}, {IM::ExponentialInOut, "ExponentialInOut", 3, 7},
	{IM::Exponential2In, "Exponential2In", 1, 8}, {IM::Exponential2Out, "Exponential2Out", 2, 8}, {IM::Exponential2InOut, "Exponential2InOut", 3, 8},
	{IM::CircularIn, "CircularIn", 1, 9}, {IM::CircularOut, "CircularOut", 2, 9}, {IM::CircularInOut, "CircularInOut", 3, 9}};
const int NM = sizeof modes / sizeof *modes;
static L curve(const Mode& m, L t) {
	if (t <= 0) return 0;
	if (t >= 1) return 1;
	switch (m.kind) {
	case 0: return m.k ? powl(2, t) - 1 : t;
	case 1: return easeIn(m.k, t);
	case 2: return 1 - easeIn(m.k, 1 - t);
	case 3: return t < 0.5L ? easeIn(m.k, 2 * t) / 2 : 1 - easeIn(m.k, 2 - 2 * t) / 2;
	default: return (1 - cosl(PIL * t)) / 2;
	}
}
// accuracy: 7-digit constants in the 2^10 exponentials (pinned by the unit tests); square roots of rounded values in the circular ones
template <class R> L acc(const Mode& m, L t) {
	L u = E<R>::u();
	if (m.k == 7 && m.kind) return 5e-6L + 64 * u;
	if (m.k == 9 && m.kind) { L x = m.kind == 1 ? t : m.kind == 2 ? 1 - t : t < 0.5L ? 2 * t : 2 - 2 * t, s = sqrtl(std::max<L>(0, 1 - x * x)); return 8 * u + std::min(sqrtl(32 * u), 32 * u / std::max(s, 1e-30L)); }
	return 96 * u;
}
template <class R> R gT(Rng& r) {
	switch (r.n(10)) {
	case 0: return R(r.n(17)) / R(16);
	case 1: return R(0.5) + R(r.sgn() * r.logu(1e-7, 0.1));
	case 2: return R(r.logu(1e-9, 0.1));
	case 3: return R(1) - R(r.logu(1e-7, 0.1));
	case 4: return R(r.uni(-3, 0)); case 5: return R(r.uni(1, 4));
	default: return R(r.u01());
	}
}
template <class R> void ratio(Case& c) {
	const Mode& m = modes[c.in("mode", c.r.n(NM))];
	c.cls(m.n);
	R t = c.in("t", gT<R>(c.r));
	R g = interpolationRatio(t, m.m);
	c.chk(fabsl(g - curve(m, t)) <= acc<R>(m, t), "interpolationRatio", "%s(%.17g) = %.17g, expected %.17Lg", m.n, double(t), double(g), curve(m, t));
	L slop = m.k == 7 && m.kind ? 5e-6L : 16 * E<R>::u();
	c.chk(g >= -slop && g <= 1 + slop, "interpolationRatio stays in 0..1", "%s(%.17g) = %.17g", m.n, double(t), double(g));
	if (t <= 0) { c.cls("t <= 0"); c.same(g, R(0), "interpolationRatio before the start is 0"); }
	if (t >= 1) { c.cls("t >= 1"); c.same(g, R(1), "interpolationRatio after the end is 1"); }
	R t2 = gT<R>(c.r); if (c.r.p(0.5)) t2 = t + R(c.r.logu(1e-6, 0.1)); c.in("t2", t2);
	R h = interpolationRatio(t2, m.m);
	L tol = m.k == 7 && m.kind ? 5e-6L + 64 * E<R>::u() : 64 * E<R>::u();
	if (t2 > t) c.chk(h >= g - tol, "interpolationRatio does not decrease", "%s(%.17g) = %.17g, (%.17g) = %.17g", m.n, double(t), double(g), double(t2), double(h));
}
template <class R> void lerps(Case& c) {
	const Mode& m = modes[c.in("mode", c.r.n(NM))];
	R t = c.in("t", c.r.p(0.2) ? R(c.r.n(3)) * R(0.5) : c.r.p(0.1) ? R(c.r.uni(-2, 3)) : R(c.r.u01())), e = interpolationRatio(t, m.m);
	R a = c.in("a", gReal<R>(c.r)), b = c.in("b", gReal<R>(c.r)); E<R> A(a), B(b), T(t), Q(e);
	c.near(mathlib::lerp(a, b, t), A + (B - A) * T, "lerp Real"); c.near(mathlib::lerp(a, b, t, m.m), A + (B - A) * Q, "lerp Real with a curve");
	Vec2<R> u2 = c.in("u2", gVec2<R>(c.r)), v2 = c.in("v2", gVec2<R>(c.r)); V2<R> U2(u2), W2(v2);
	near(c, mathlib::lerp(u2, v2, t), U2 + (W2 - U2) * T, "lerp Vec2"); near(c, mathlib::lerp(u2, v2, t, m.m), U2 + (W2 - U2) * Q, "lerp Vec2 with a curve");
	Vec3<R> u = c.in("u", gVec3<R>(c.r)), v = c.in("v", gVec3<R>(c.r)); V3<R> U(u), W(v);
	near(c, mathlib::lerp(u, v, t), U + (W - U) * T, "lerp Vec3"); near(c, mathlib::lerp(u, v, t, m.m), U + (W - U) * Q, "lerp Vec3 with a curve");
	int i = c.in("i", c.r.in(-1000, 1000)), j = c.in("j", c.r.in(-1000, 1000));
	auto ints = [&](int g, L w, const char* site) {
		L x = i + w * (j - i), fu = 1 + fabsl(w) * 2000 * 4 * E<R>::u();
		c.chk(fabsl(g - x) <= fu, site, "got %d expected %Lg", g, x);
		if (w >= 0 && w <= 1) c.chk(g >= std::min(i, j) && g <= std::max(i, j), site, "%d is outside %d..%d", g, i, j);
		L f = w * (j - i); if (fabsl(f - roundl(f)) > 1e-2L) c.chk(g == i + (int)f, site, "got %d expected %d", g, i + (int)f);
	};
	ints(mathlib::lerp(i, j, t), t, "lerp int"); L w = e; if (w >= 0 && w <= 1) ints(mathlib::lerp(i, j, t, m.m), w, "lerp int with a curve");
	if (t == 0) { c.cls("ratio 0"); c.same(mathlib::lerp(a, b, t), a, "lerp at 0"); c.sameI(mathlib::lerp(i, j, t), i, "lerp int at 0"); c.sameI(mathlib::lerp(i, j, t, m.m), i, "lerp int at 0"); }
	if (t == 1) { c.cls("ratio 1"); c.sameI(mathlib::lerp(i, j, t), j, "lerp int at 1"); c.sameI(mathlib::lerp(i, j, t, m.m), j, "lerp int at 1"); }
}
template <class R> void response(Case& c) {
	typedef ResponseCurveType T;
	static const T types[] = {T::Zero, T::Linear, T::Parabolic, T::Cubic, T::Exponential, T::Cosine};
	static const char* nm[] = {"Zero", "LinearR", "ParabolicR", "CubicR", "ExponentialR", "CosineR"};
	int k = c.in("type", c.r.n(6)); c.cls(nm[k]);
	R th = c.in("threshold", c.r.p(0.2) ? R(0) : c.r.p(0.05) ? R(c.r.logu(1e-9, 1e-2)) : R(c.r.uni(0, 0.95))), v = c.in("value", c.r.p(0.1) ? th * R(c.r.sgn()) : c.r.p(0.15) ? R(c.r.sgn()) : c.r.p(0.05) ? R(c.r.sgn()) * (R(1) + R(c.r.sgn() * c.r.logu(1e-9, 1e-2))) : c.r.p(0.1) ? R(c.r.sgn()) * (th + R(c.r.logu(1e-9, 1e-2))) : c.r.p(0.15) ? R(c.r.uni(-3, 3)) : R(c.r.uni(-1, 1)));
	auto val = [&](L x) {
		L a = fabsl(x);
		if (a <= th) return (L)0;
		L y = (a - th) / (1 - (L)th), f = 0;
		switch (k) { case 1: f = y; break; case 2: f = y * y; break; case 3: f = y * y * y; break; case 4: f = powl(2, y) - 1; break; case 5: f = y >= 1 ? 1 : 1 - cosl(y * PIL / 2); break; }
		return x < 0 ? -f : f;
	};
	L y = std::max<L>(1, fabsl(v) / (1 - th)), tol = (1e-8L + 64 * E<R>::u() / (1 - th)) * y * y * y * (k == 4 ? powl(2, y) : 1);
	R g = evaluate(v, th, types[k]);
	c.chk(fabsl(g - val(v)) <= tol, "evaluate", "%s(%.17g) = %.17g expected %.17Lg", nm[k], double(v), double(g), val(v));
	if (v >= -th && v <= th) { c.cls("dead zone"); c.same(g, R(0), "evaluate is 0 within the threshold"); } else c.cls("beyond the dead zone");
	c.same(evaluate(-v, th, types[k]), -g, "evaluate is odd");
	if (k) { c.nearAbs(evaluate(R(1), th, types[k]), 1, 64 * E<R>::u() / (1 - th), "evaluate(1) is 1"); c.nearAbs(evaluate(R(-1), th, types[k]), -1, 64 * E<R>::u() / (1 - th), "evaluate(-1) is -1"); }
	R v2 = c.in("v2", R(c.r.uni(-2, 2))); if (v2 > v) c.chk(evaluate(v2, th, types[k]) >= g - 64 * E<R>::u() * (1 + fabsl(g)), "evaluate does not decrease");
}
void vf::registerAll() {
	std::vector<std::string> need; for (const Mode& m : modes) need.push_back(m.n);
	need.push_back("t <= 0"); need.push_back("t >= 1");
	vf::reg("ratio.f", 150000, ratio<float>, need); vf::reg("ratio.d", 150000, ratio<double>, need);
	VF_BOTH(lerps, "lerp", 60000, "ratio 0", "ratio 1");
	VF_BOTH(response, "response", 60000, "dead zone", "beyond the dead zone", "Zero", "LinearR", "ParabolicR", "CubicR", "ExponentialR", "CosineR");
}
VF_MAIN()
