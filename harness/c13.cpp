// C13: scalar helper functions and constants
#include "vf.h"
using namespace vf;
using namespace mathlib;
// a value of any magnitude, sometimes on or next to a multiple of y
template <class R> R gMod(Rng& r, R y) {
	switch (r.n(7)) {
	case 0: return R(r.in(-20, 20)) * y;
	case 1: return R(r.in(-20, 20)) * y + R(r.sgn() * r.logu(1e-9, 1e-2)) * y;
	case 2: return R(r.in(-21, 21)) * y * R(0.5);
	case 3: return R(r.sgn() * r.logu(1e-30, 1e-3));
	case 4: return R(r.sgn() * r.logu(1e-3, 1e6));
	case 5: { R x = R(r.in(-20, 20)) * y; return std::nextafter(x, R(r.sgn() * 1e30)); }
	default: return R(r.uni(-30, 30)) * y;
	}
}
template <class R> void mods(Case& c) {
	R y = c.in("y", c.r.p(0.3) ? R(c.r.in(1, 16)) : c.r.p(0.2) ? R(2 * PIL) : R(c.r.logu(1e-3, 1e3))), x = c.in("x", gMod(c.r, y));
	L u = E<R>::u(), ref = fmodl((L)x, (L)y);
	c.same(mathlib::fmod(x, y), R(ref), "fmod is the exact remainder"); c.same(mathlib::fmod(x, -y), R(ref), "fmod with a negative divisor");
	R p = mathlib::fmodPositive(x, y);
	c.cls("negative argument", x < 0); c.cls("exact multiple", ref == 0); c.cls("tiny negative remainder", ref < 0 && ref > -u * y);
	c.chk(p >= 0 && p < y, "fmodPositive lies in 0..y", "got %.17g", double(p));
	auto cyc = [&](L a, L b) { L d = fabsl(remainderl(a - b, (L)y)); return d; };
	c.chk(cyc(p, ref) <= 2 * u * y, "fmodPositive is congruent to x", "got %.17g", double(p));
	if (ref >= 0) c.same(p, R(ref), "fmodPositive is exact for positive x");
	R q = mathlib::fmodCentered(x, y);
	c.chk(q >= -y / 2 && q <= y / 2, "fmodCentered lies in -y/2..y/2", "got %.17g", double(q));
	c.chk(cyc(q, x) <= 4 * u * (y + fabsl((L)x)), "fmodCentered is congruent to x", "got %.17g", double(q));
}
template <class R> void clip(Case& c) {
	auto any = [&]() { double q = c.r.u01(); return q < 0.1 ? R(c.r.sgn() * (sizeof(R) == 4 ? c.r.logu(1e-37, 1e37) : c.r.logu(1e-300, 1e300))) : q < 0.12 ? R(c.r.sgn()) * std::numeric_limits<R>::infinity() : q < 0.14 ? R(c.r.sgn()) * std::numeric_limits<R>::max() : q < 0.16 ? R(c.r.sgn()) * std::numeric_limits<R>::denorm_min() : gReal<R>(c.r); };
	auto by = [&](R x) { return c.r.p(0.3) && std::isfinite(x) ? std::nextafter(x, R(c.r.sgn() * 1e30)) : x; };
	R v = c.in("v", any()), a = c.in("a", c.r.p(0.2) ? by(v) : any()), b = c.in("b", c.r.p(0.2) ? by(a) : c.r.p(0.2) ? by(v) : any());
	c.cls("equal", a == b); c.cls("reversed", a > b);
	c.same(mathlib::min(a, b), a < b ? a : b, "min Real"); c.same(mathlib::max(a, b), a > b ? a : b, "max Real"); c.same(mathlib::abs(v), std::fabs(v), "abs Real");
	R lo = std::min(a, b), hi = std::max(a, b), k = mathlib::clippedBetween(v, lo, hi);
	c.cls("below", v < lo); c.cls("above", v > hi); c.cls("inside", v > lo && v < hi); c.cls("on an end", v == lo || v == hi);
	c.same(k, v < lo ? lo : v > hi ? hi : v, "clippedBetween Real");
	int i = c.in("i", c.r.p(0.1) ? (c.r.p(0.5) ? INT32_MAX : -INT32_MAX) : c.r.in(-20, 20)), j = c.in("j", c.r.p(0.1) ? INT32_MIN : c.r.p(0.1) ? int(uint32_t(c.r.next())) : c.r.p(0.1) && i < INT32_MAX ? i + 1 : c.r.in(-20, 20)), l = c.in("l", c.r.p(0.2) ? int(uint32_t(c.r.next())) : c.r.p(0.1) ? i : c.r.in(-20, 20));
	c.sameI(mathlib::min(i, j), std::min(i, j), "min int"); c.sameI(mathlib::max(i, j), std::max(i, j), "max int"); c.sameI(mathlib::abs(i), std::abs(i), "abs int");
	int li = std::min(i, j), hi2 = std::max(i, j); c.sameI(mathlib::clippedBetween(l, li, hi2), l < li ? li : l > hi2 ? hi2 : l, "clippedBetween int");
}
template <class R> void trig(Case& c) {
	L u = E<R>::u();
	R x = c.in("x", c.r.p(0.3) ? R(c.r.in(-720, 720)) : gReal<R>(c.r) * gScale<R>(c.r));
	c.nearAbs(mathlib::degreeToRadian(x), x * PIL / 180, 4 * u * fabsl(x * PIL / 180) + 4 * E<R>::dm(), "degreeToRadian");
	c.nearAbs(mathlib::radianToDegree(x), x * 180 / PIL, 4 * u * fabsl(x * 180 / PIL) + 4 * E<R>::dm(), "radianToDegree");
	R s = c.in("s", c.r.p(0.15) ? R(c.r.in(-1, 1)) : c.r.p(0.15) ? R(c.r.sgn()) * (R(1) + R(c.r.logu(1e-9, 10))) : c.r.p(0.15) ? R(c.r.sgn()) * (R(1) - R(c.r.logu(1e-9, 0.1))) : R(c.r.uni(-1, 1)));
	c.cls("above 1", s > 1); c.cls("below -1", s < -1); c.cls("end", s == 1 || s == -1); c.cls("between", s > -1 && s < 1);
	R a = mathlib::asin(s), b = mathlib::acos(s);
	c.nearAbs(a, asinc(s), 4 * u * 2, "asin"); c.nearAbs(b, acosc(s), 4 * u * 3.2L, "acos");
	c.chk(a >= R(-PIL / 2) && a <= R(PIL / 2), "asin range"); c.chk(b >= 0 && b <= R(PIL), "acos range");
	if (s < 1e-3 && s > -1e-3) c.nearAbs(a, asinc(s), 4 * u * fabsl((L)s), "asin near zero keeps its relative accuracy");
}
template <class R> void dist(Case& c) {
	Vec2<R> a = c.in("a", gVec2<R>(c.r)), b = c.in("b", c.r.p(0.1) ? a : gVec2<R>(c.r)); V2<R> d2 = V2<R>(b) - V2<R>(a);
	c.near(mathlib::distanceSqr(a, b), dot(d2, d2), "distanceSqr Vec2"); c.near(mathlib::distance(a, b), len(d2), "distance Vec2");
	c.same(mathlib::distance(a, b), mathlib::distance(b, a), "distance Vec2 is symmetric"); c.same(mathlib::distance(a, a), R(0), "distance Vec2 to itself");
	Vec3<R> p = c.in("p", gVec3<R>(c.r)), q = c.in("q", c.r.p(0.1) ? p : gVec3<R>(c.r)); V3<R> d = V3<R>(q) - V3<R>(p);
	c.near(mathlib::distanceSqr(p, q), dot(d, d), "distanceSqr Vec3"); c.near(mathlib::distance(p, q), len(d), "distance Vec3");
	c.same(mathlib::distance(p, q), mathlib::distance(q, p), "distance Vec3 is symmetric"); c.same(mathlib::distance(p, p), R(0), "distance Vec3 to itself");
	Vec3<R> w = c.in("w", gVec3<R>(c.r)); L pq = mathlib::distance(p, q), pw = mathlib::distance(p, w), wq = mathlib::distance(w, q), sz = p.length() + q.length() + w.length();
	c.chk(pq <= pw + wq + 16 * E<R>::u() * sz, "distance Vec3 triangle inequality");
	c.cls("coincident", p == q); c.cls("distinct", !(p == q));
}
template <class R> void consts(Case& c) {
	typedef Constants<R> K; L u = E<R>::u(); c.cls("constants");
	c.same(K::PI, R(PIL), "PI");
	auto rel = [&](R g, L v, const char* s) { c.nearAbs(g, v, u * fabsl(v), s); };
	rel(K::PI_TIMES_2, 2 * PIL, "PI_TIMES_2"); rel(K::PI_OVER_2, PIL / 2, "PI_OVER_2"); rel(K::PI_OVER_4, PIL / 4, "PI_OVER_4"); rel(K::PI_OVER_8, PIL / 8, "PI_OVER_8");
	rel(K::PI_OVER_16, PIL / 16, "PI_OVER_16"); rel(K::PI_OVER_3, PIL / 3, "PI_OVER_3"); rel(K::PI_OVER_6, PIL / 6, "PI_OVER_6");
	c.same(K::MIN_VALUE, std::numeric_limits<R>::min(), "MIN_VALUE"); c.same(K::MAX_VALUE, std::numeric_limits<R>::max(), "MAX_VALUE"); c.same(K::MAX_NEG_VALUE, std::numeric_limits<R>::lowest(), "MAX_NEG_VALUE");
	Coord all[] = {Coord::X, Coord::Y, Coord::Z, Coord::W, Coord::Undefined}; Coord x = all[c.in("coord", c.r.n(5))];
	Coord e2 = x == Coord::X ? Coord::Y : x == Coord::Y ? Coord::X : Coord::Undefined, e3 = x == Coord::X ? Coord::Y : x == Coord::Y ? Coord::Z : x == Coord::Z ? Coord::X : Coord::Undefined;
	c.chk(next2D(x) == e2, "next2D"); c.chk(next3D(x) == e3, "next3D");
}
void vf::registerAll() {
	VF_BOTH(mods, "mods", 120000, "negative argument", "exact multiple", "tiny negative remainder");
	VF_BOTH(clip, "clip", 80000, "equal", "reversed", "below", "above", "inside", "on an end");
	VF_BOTH(trig, "trig", 80000, "above 1", "below -1", "end", "between");
	VF_BOTH(dist, "dist", 60000, "coincident", "distinct");
	VF_BOTH(consts, "constants", 50, "constants");
}
VF_MAIN()
