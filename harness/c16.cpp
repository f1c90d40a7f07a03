// C16: HSV colours and conversions between RGB and HSV
#include "vf.h"
using namespace vf;
using namespace mathlib;
struct C3 { L r, g, b; };
// the standard piecewise-linear hexcone, written without sectors: channel(n) = v - v*s*max(0, min(k, 4-k, 1)), k = (n + h/60) mod 6
static C3 hex(L h, L s, L v) {
	auto f = [&](L n) { L k = fmodl(n + h / 60, 6); if (k < 0) k += 6; return v - v * s * std::max((L)0, std::min(std::min(k, 4 - k), (L)1)); };
	return C3{f(5), f(3), f(1)};
}
static L hueOf(L r, L g, L b) {     // degrees, by the circular definition
	L mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b)), d = mx - mn, h = mx == r ? (g - b) / d : mx == g ? 2 + (b - r) / d : 4 + (r - g) / d;
	return h < 0 ? (h + 6) * 60 : h * 60;
}
static L hdiff(L a, L b) { return fabsl(remainderl(a - b, 360)); }
template <class R> R gChan(Rng& r) { return r.p(0.2) ? R(r.n(3)) * R(0.5) : r.p(0.15) ? R(r.n(256)) / R(255) : R(r.u01()); }
template <class R> R gHue(Rng& r) { return r.p(0.2) ? R(60 * r.in(-12, 18)) : r.p(0.2) ? R(60 * r.in(-12, 18)) + R(r.sgn() * r.logu(1e-9, 1e-1)) : r.p(0.1) ? R(r.sgn() * r.logu(1e-30, 1e-6)) : r.p(0.2) ? R(r.uni(-2000, 2000)) : R(r.uni(0, 360)); }
template <class R> void toRgb(Case& c) {
	L u = E<R>::u(); ColorHSV<R> h(c.in("h", gHue<R>(c.r)), c.in("s", gChan<R>(c.r)), c.in("v", c.r.p(0.1) ? gPos<R>(c.r) : gChan<R>(c.r)));
	int sec = int(floorl(fmodl(fmodl((L)h.h, 360) + 360, 360) / 60)); static const char* nm[] = {"sector 0", "sector 1", "sector 2", "sector 3", "sector 4", "sector 5"}; if (sec >= 0 && sec < 6) c.cls(nm[sec]);
	c.cls("on a sector boundary", fmodl((L)h.h, 60) == 0); c.cls("just below a boundary", h.h < 0 && h.h > R(-1e-6)); c.cls("hue out of 0..360", h.h < 0 || h.h >= 360);
	ColorRGB<R> g; memset((void*)&g, 0x7f, sizeof g); g = h.toRGB(); C3 e = hex(h.h, h.s, h.v); L tol = 16 * u * h.v * (1 + h.s * (6 + fabsl((L)h.h) / 60));
	c.nearAbs(g.r, e.r, tol, "hsv toRGB"); c.nearAbs(g.g, e.g, tol, "hsv toRGB"); c.nearAbs(g.b, e.b, tol, "hsv toRGB");
	L mx = std::max(g.r, std::max(g.g, g.b)), mn = std::min(g.r, std::min(g.g, g.b)); c.nearAbs(R(mx), h.v, 4 * u * h.v, "hsv value is the largest channel"); c.nearAbs(R(mn), (L)h.v * (1 - (L)h.s), 8 * u * h.v, "hsv saturation sets the smallest channel");
	R al = c.in("alpha", gChan<R>(c.r)); ColorRGBA<R> a = h.toRGBA(al); c.same(a.r, g.r, "hsv toRGBA"); c.same(a.g, g.g, "hsv toRGBA"); c.same(a.b, g.b, "hsv toRGBA"); c.same(a.a, al, "hsv toRGBA alpha"); c.same(h.toRGBA().a, R(1), "hsv toRGBA opaque");
	// back again
	if (h.s > R(1e-2) && h.v > R(1e-2)) {
		ColorHSV<R> k = g.toHSV(); L q = 64 * u * (8 + fabsl((L)h.h) / 60) / h.s; c.nearAbs(k.v, h.v, 8 * u * h.v, "hsv-rgb-hsv value"); c.nearAbs(k.s, h.s, q, "hsv-rgb-hsv saturation");
		c.chk(hdiff(k.h, h.h) <= 60 * q + 4 * u * fabsl((L)h.h), "hsv-rgb-hsv hue", "got %.17g", double(k.h));
	}
}
template <class R> void toHsv(Case& c) {
	L u = E<R>::u(); R r = gChan<R>(c.r), g = c.r.p(0.15) ? r : gChan<R>(c.r), b = c.r.p(0.15) ? g : c.r.p(0.1) ? r : gChan<R>(c.r);
	if (c.r.p(0.1)) { r = R(c.r.uni(0.5, 1)); g = R(c.r.uni(0, 0.3)); b = g + (c.r.p(0.5) ? R(0) : R(c.r.sgn() * c.r.logu(1e-10, 1e-6))); if (g < 0) g = 0; if (b < 0) b = 0; }
	if (c.r.p(0.05)) { R k = R(c.r.logu(1e-6, 1e4)); r *= k; g *= k; b *= k; }
	c.in("r", r); c.in("g", g); c.in("b", b); ColorRGB<R> x(r, g, b); ColorHSV<R> h = x.toHSV(); L mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b));
	c.cls("gray", mx == mn); c.cls("red largest", r == mx && mx > mn); c.cls("green largest", g == mx && mx > mn); c.cls("blue largest", b == mx && mx > mn); c.cls("tie for largest", mx > mn && (r == mx) + (g == mx) + (b == mx) == 2); c.cls("hue just below 360", r == mx && b > g && b - g < 1e-6);
	c.same(h.v, R(mx), "rgb toHSV value is the largest channel"); c.chk(h.s >= 0 && h.s <= 1, "rgb toHSV saturation range", "got %.17g", double(h.s)); c.chk(h.h >= 0 && h.h < 360, "rgb toHSV hue range", "got %.17g", double(h.h));
	if (mx > mn) { c.nearAbs(h.s, (mx - mn) / mx, 8 * u, "rgb toHSV saturation"); L d = 64 * u * mx / (mx - mn) + 64 * u * 6; d = std::min<L>(d, 400 * u * (1 + 6)); c.chk(hdiff(h.h, hueOf(r, g, b)) <= 60 * d, "rgb toHSV hue", "got %.17g expected %.17Lg", double(h.h), hueOf(r, g, b)); }
	else { c.same(h.s, R(0), "gray has no saturation"); c.same(h.h, R(0), "gray has hue 0"); }
	ColorRGB<R> y = h.toRGB(); L tol = 64 * u * mx; c.nearAbs(y.r, r, tol, "rgb-hsv-rgb"); c.nearAbs(y.g, g, tol, "rgb-hsv-rgb"); c.nearAbs(y.b, b, tol, "rgb-hsv-rgb");
	ColorRGBA<R> z(r, g, b, R(0.25)); ColorHSV<R> h2 = z.toHSV(); c.chk(h2 == h, "rgba toHSV ignores alpha");
}
template <class R> void misc(Case& c) {
	L u = E<R>::u(); typedef ColorHSV<R> H; auto gh = [&] { return c.r.p(0.2) ? R(30 * c.r.n(12)) : c.r.p(0.2) ? R(c.r.p(0.5) ? c.r.logu(1e-9, 1) : 360 - c.r.logu(1e-4, 1)) : R(c.r.uni(0, 360)); };
	R ha = gh(), hb = c.r.p(0.15) ? R(fmod(double(ha) + 180, 360)) : gh(); H a(c.in("ha", ha), c.in("sa", gChan<R>(c.r)), c.in("va", gChan<R>(c.r))), b(c.in("hb", hb), c.in("sb", gChan<R>(c.r)), c.in("vb", gChan<R>(c.r)));
	R t = c.in("t", c.r.p(0.25) ? R(c.r.n(2)) : gRatio<R>(c.r)); L d = remainderl((L)hb - ha, 360); c.cls("ratio 0", t == 0); c.cls("ratio 1", t == 1); c.cls("hue arc crosses 0", fabsl((L)hb - ha) > 180); c.cls("plain hue arc", fabsl((L)hb - ha) < 180); c.cls("opposite hues", fabsl(fabsl((L)hb - ha) - 180) < 1e-3);
	H x = H::fromInterp(a, b, t); bool opp = fabsl(fabsl(d) - 180) < 360 * 8 * u;
	c.chk(hdiff(x.h, ha + d * t) <= 360 * 8 * u || (opp && hdiff(x.h, ha - d * t) <= 360 * 8 * u), "hsv interp takes the short hue arc", "got %.17g expected %.17Lg", double(x.h), ha + d * t);
	c.chk(x.h >= 0 && x.h < 360, "hsv interp hue range", "got %.17g", double(x.h)); c.nearAbs(x.s, a.s + ((L)b.s - a.s) * t, 8 * u, "hsv interp saturation"); c.nearAbs(x.v, a.v + ((L)b.v - a.v) * t, 8 * u, "hsv interp value");
	if (t == 0) c.chk(x == a, "hsv interp at 0"); if (t == 1) c.chk(x == b, "hsv interp at 1"); H y = a; c.chk(y.interp(y, b, t) == x, "hsv interp onto the first color"); y = b; c.chk(y.interp(a, y, t) == x, "hsv interp onto the second color");
	c.chk(a == a && !(a != a), "hsv equality"); H e = a; int ch = c.in("channel", c.r.n(3)); R& w = ch == 0 ? e.h : ch == 1 ? e.s : e.v; w = std::nextafter(w, R(1e30)); c.chk(a != e && !(a == e), "hsv inequality in one channel");
	H z; z.set(a.h, a.s, a.v); c.chk(z == a, "hsv set"); z.set(b); c.chk(z == b, "hsv set color"); const H ca = a; c.same(ca.data()[0], a.h, "hsv data"); c.same(ca.data()[1], a.s, "hsv data"); c.same(z.data()[2], b.v, "hsv data");
	ColorHSV<double> cd = a.template cast<double>(); c.same(cd.h, double(a.h), "hsv cast"); c.same(cd.s, double(a.s), "hsv cast"); c.same(cd.v, double(a.v), "hsv cast"); ColorHSV<float> cf = a.template cast<float>(); c.same(cf.h, float(a.h), "hsv cast"); c.same(cf.s, float(a.s), "hsv cast"); c.same(cf.v, float(a.v), "hsv cast");
	c.chk(H::Black.toRGB() == ColorRGB<R>::Black && H::White.toRGB() == ColorRGB<R>::White && H::Red.toRGB() == ColorRGB<R>::Red && H::Green.toRGB() == ColorRGB<R>::Green && H::Blue.toRGB() == ColorRGB<R>::Blue, "hsv named colors");
	c.chk(ColorRGB<R>::Red.toHSV() == H::Red && ColorRGB<R>::Green.toHSV() == H::Green && ColorRGB<R>::Blue.toHSV() == H::Blue && ColorRGB<R>::White.toHSV() == H::White && ColorRGB<R>::Black.toHSV() == H::Black, "rgb named colors as hsv");
}
void vf::registerAll() {
	VF_BOTH(toRgb, "hsv to rgb", 120000, "sector 0", "sector 1", "sector 2", "sector 3", "sector 4", "sector 5", "on a sector boundary", "just below a boundary", "hue out of 0..360");
	VF_BOTH(toHsv, "rgb to hsv", 120000, "gray", "red largest", "green largest", "blue largest", "tie for largest", "hue just below 360");
	VF_BOTH(misc, "hsv", 80000, "ratio 0", "ratio 1", "hue arc crosses 0", "plain hue arc", "opposite hues");
}
VF_MAIN()
