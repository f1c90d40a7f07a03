// C28: Gauss-Jordan elimination
#include "vf.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
// reference inverse (long double, full row pivoting), infinity-norm condition number
template <class R> bool inverse(const std::vector<R>& a, int n, std::vector<L>& inv, L& cond) {
	std::vector<L> m(n * 2 * n, 0); int w = 2 * n; L na = 0, ni = 0; for (int i = 0; i < n; i++) { L q = 0; for (int j = 0; j < n; j++) { m[i * w + j] = a[i * n + j]; q += fabsl((L)a[i * n + j]); } m[i * w + n + i] = 1; na = std::max(na, q); }
	for (int i = 0; i < n; i++) { int p = i; for (int k = i; k < n; k++) if (fabsl(m[k * w + i]) > fabsl(m[p * w + i])) p = k; if (!(fabsl(m[p * w + i]) > 1e-16L * na)) return false; for (int j = 0; j < w; j++) std::swap(m[i * w + j], m[p * w + j]); L d = m[i * w + i]; for (int j = 0; j < w; j++) m[i * w + j] /= d; for (int k = 0; k < n; k++) if (k != i) { L f = m[k * w + i]; if (f != 0) for (int j = 0; j < w; j++) m[k * w + j] -= f * m[i * w + j]; } }
	inv.assign(n * n, 0); for (int i = 0; i < n; i++) { L q = 0; for (int j = 0; j < n; j++) { inv[i * n + j] = m[i * w + n + j]; q += fabsl(inv[i * n + j]); } ni = std::max(ni, q); } cond = na * ni; return true;
}
template <class R> std::vector<R> gMat(Case& c, int n, int& kind) {
	std::vector<R> a(n * n, R(0)); kind = c.r.n(7); auto perm = [&]() { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[c.r.n(i + 1)]); return p; };
	for (auto& x : a) x = kind == 1 ? R(c.r.in(-5, 5)) : gReal<R>(c.r);
	if (kind == 0) { for (auto& x : a) x = 0; auto p = perm(); for (int i = 0; i < n; i++) a[i * n + p[i]] = gNonZero<R>(c.r); }            // a scaled permutation
	if (kind == 2) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (c.r.p(0.6) && i != j) a[i * n + j] = 0; }         // sparse
	if (kind == 3) { for (int i = 0; i < n; i++) { R q = 0; for (int j = 0; j < n; j++) q += std::fabs(a[i * n + j]); a[i * n + i] = R(c.r.sgn()) * (q + R(1)); } auto p = perm(); auto b = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[p[i] * n + j] = b[i * n + j]; }   // dominant, rows shuffled
	if (kind == 4) for (int i = 0; i < n; i++) a[i * n + i] = 0;
	if (kind == 5) { R k = sizeof(R) == 8 ? R(c.r.logu(1e-90, 1e-30)) : R(c.r.logu(1e-12, 1e-6)); if (c.r.p(0.3)) k = sizeof(R) == 8 ? R(c.r.logu(1e30, 1e90)) : R(1e6); for (auto& x : a) x *= k; }
	return a;
}
template <class R> void solve(Case& c) {
	int n = c.in("n", c.r.p(0.1) ? 1 : c.r.p(0.08) ? c.r.in(9, 20) : c.r.p(0.001) ? c.r.in(33, 90) : c.r.in(2, 6)), m = c.in("m", c.r.p(0.05) ? 0 : c.r.in(1, 5)), kind; std::vector<R> a = gMat<R>(c, n, kind), b(n * m); for (auto& x : b) x = gReal<R>(c.r); if (c.log && n < 6) for (R x : a) c.in("a", x); else for (R x : a) c.hash(x); for (R x : b) c.hash(x);
	c.cls("one unknown", n == 1); c.cls("many unknowns", n > 8); c.cls("one right-hand side", m == 1); c.cls("several right-hand sides", m > 1); c.cls("no right-hand side", m == 0); c.cls("permutation", kind == 0); c.cls("zero diagonal", kind == 4); c.cls("extreme scale", kind == 5);
	std::vector<L> inv; L cond; if (!inverse(a, n, inv, cond)) { c.cls("singular"); std::vector<R> x = a, y = b; GaussJordan<R>::solve(x.data(), n, y.data(), m); return; } L u = E<R>::u(); if (u * cond * n > 1e-2L) { c.cls("ill conditioned"); return; }
	std::vector<R> x = a, y = b; R none; bool ok = GaussJordan<R>::solve(x.data(), n, m ? y.data() : &none, m); if (!c.chk(ok, "a regular system is solved", "condition %.6Lg", cond)) return; L ninv = 0; for (L v : inv) ninv = std::max(ninv, fabsl(v));
	L tol = 32 * n * u * cond; for (int k = 0; k < m; k++) { L xm = 0; std::vector<L> r(n, 0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) r[i] += inv[i * n + j] * b[j * m + k]; L s = 0; for (int j = 0; j < n; j++) s += fabsl(inv[i * n + j] * b[j * m + k]); xm = std::max(xm, s); } for (int i = 0; i < n; i++) c.nearAbs(y[i * m + k], r[i], tol * xm, "solution"); }
	for (int i = 0; i < n * n; i++) c.nearAbs(x[i], inv[i], tol * ninv, "the matrix becomes its inverse");
	// the vector forms solve two and three right-hand sides
	std::vector<Vec2<R>> b2(n); std::vector<Vec3<R>> b3(n); for (int i = 0; i < n; i++) { b2[i] = Vec2<R>(gReal<R>(c.r), R(i)); b3[i] = Vec3<R>(gReal<R>(c.r), R(1), gReal<R>(c.r)); } auto k2 = b2; auto k3 = b3; auto a2 = a, a3 = a; bool o2 = GaussJordan<R>::solve(a2.data(), n, b2.data()), o3 = GaussJordan<R>::solve(a3.data(), n, b3.data()); if (!c.chk(o2 && o3, "a regular system is solved (vectors)")) return;
	for (int q = 0; q < 5; q++) { auto in = [&](int j) -> L { return q == 0 ? k2[j].x : q == 1 ? k2[j].y : q == 2 ? k3[j].x : q == 3 ? k3[j].y : k3[j].z; }; L xm = 0; std::vector<L> r(n, 0); for (int i = 0; i < n; i++) { L s = 0; for (int j = 0; j < n; j++) { r[i] += inv[i * n + j] * in(j); s += fabsl(inv[i * n + j] * in(j)); } xm = std::max(xm, s); } for (int i = 0; i < n; i++) c.nearAbs(q == 0 ? b2[i].x : q == 1 ? b2[i].y : q == 2 ? b3[i].x : q == 3 ? b3[i].y : b3[i].z, r[i], tol * xm, q < 2 ? "Vec2 solution" : "Vec3 solution"); }
	for (int i = 0; i < n * n; i++) { c.nearAbs(a2[i], inv[i], tol * ninv, "the matrix becomes its inverse (Vec2)"); c.nearAbs(a3[i], inv[i], tol * ninv, "the matrix becomes its inverse (Vec3)"); }
}
// exactly singular: a zero row, a zero column, two equal rows or columns of a permutation-like matrix with power-of-two entries
template <class R> void singular(Case& c) {
	int n = c.in("n", c.r.in(1, 7)), kind = c.in("kind", c.r.n(4)), i = c.r.n(n), j = c.r.n(n); std::vector<R> a(n * n, R(0)); auto pw = [&]() { return R(c.r.sgn() * (1 << c.r.n(5))); };
	if (kind < 2) { for (auto& x : a) x = gReal<R>(c.r); for (int k = 0; k < n; k++) (kind == 0 ? a[i * n + k] : a[k * n + i]) = 0; } else { std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k; for (int k = n - 1; k > 0; k--) std::swap(p[k], p[c.r.n(k + 1)]); for (int k = 0; k < n; k++) a[k * n + p[k]] = pw(); if (i == j) { for (int k = 0; k < n; k++) a[i * n + k] = 0; } else { R f = pw(); for (int k = 0; k < n; k++) { if (kind == 2) a[i * n + k] = a[j * n + k] * f; else a[k * n + i] = a[k * n + j] * f; } } }
	for (R x : a) c.hash(x); std::vector<R> b(n * 2, R(1)); auto a1 = a, a2 = a, a3 = a; std::vector<Vec2<R>> b2(n, Vec2<R>(R(1), R(2))); std::vector<Vec3<R>> b3(n, Vec3<R>(R(1), R(2), R(3))); c.cls(kind == 0 ? "zero row" : kind == 1 ? "zero column" : kind == 2 ? "equal rows" : "equal columns");
	c.chk(!GaussJordan<R>::solve(a1.data(), n, b.data(), 2), "a singular system is refused"); c.chk(!GaussJordan<R>::solve(a2.data(), n, b2.data()), "a singular system is refused (Vec2)"); c.chk(!GaussJordan<R>::solve(a3.data(), n, b3.data()), "a singular system is refused (Vec3)");
}
// not-a-number and infinite entries must not reach outside the arrays
template <class R> void hostile(Case& c) {
	int n = c.in("n", c.r.in(1, 6)); std::vector<R> a(n * n), b(n * 2); for (auto& x : a) x = gReal<R>(c.r); for (auto& x : b) x = gReal<R>(c.r); int k = c.r.in(1, n * n); R bad[4] = {std::numeric_limits<R>::quiet_NaN(), std::numeric_limits<R>::infinity(), -std::numeric_limits<R>::infinity(), std::numeric_limits<R>::max()}; R w = bad[c.r.n(4)]; for (int i = 0; i < k; i++) a[c.r.p(0.3) ? i : c.r.n(n * n)] = w; if (c.r.p(0.2)) for (auto& x : a) x = w; for (R x : a) c.hash(x == x ? x : R(12345)); c.cls("NaN", w != w); c.cls("infinity", std::isinf(w));
	bool all = true; for (R x : a) if (x == x) all = false; std::vector<R> sa(n * n + 16, R(42)), sb(n * 2 + 16, R(43)); std::copy(a.begin(), a.end(), sa.begin() + 8); std::copy(b.begin(), b.end(), sb.begin() + 8);
	bool ok = GaussJordan<R>::solve(sa.data() + 8, n, sb.data() + 8, 2); if (all) { c.cls("only NaN"); c.chk(!ok, "a system of NaN is refused"); } for (int i = 0; i < 8; i++) { c.chk(sa[i] == 42 && sa[n * n + 8 + i] == 42 && sb[i] == 43 && sb[n * 2 + 8 + i] == 43, "memory next to the arrays is untouched"); }
	std::vector<R> xa = a, xb = b; GaussJordan<R>::solve(xa.data(), n, xb.data(), 2);      // on exact heap blocks for the sanitizers
}
// equations and the same equations multiplied by a power of two
template <class R> void scaled(Case& c) {
	int n = c.in("n", c.r.in(1, 5)); std::vector<R> a; for (int i = 0; i < n * n; i++) a.push_back(c.in("a", gSim<R>(c.r))); std::vector<R> b; for (int i = 0; i < 2 * n; i++) b.push_back(c.in("b", gSim<R>(c.r))); bool ok = false;
	similar<R>(c, "equations multiplied by a number", 1, [&](Sc<R>& o) {
		std::vector<R> x, y; for (R v : a) x.push_back(o.len(v)); for (R v : b) y.push_back(o.len(v)); auto x2 = x, x3 = x; std::vector<Vec2<R>> b2(n); std::vector<Vec3<R>> b3(n); for (int i = 0; i < n; i++) { b2[i] = Vec2<R>(y[2 * i], y[2 * i + 1]); b3[i] = Vec3<R>(y[2 * i], y[2 * i + 1], y[i]); }
		if (o.b(GaussJordan<R>::solve(x.data(), n, y.data(), 2))) { ok = true; for (R v : x) o.v(v, -1); for (R v : y) o.v(v, 0); } if (o.b(GaussJordan<R>::solve(x2.data(), n, b2.data()))) for (auto& v : b2) o.v(v, 0); if (o.b(GaussJordan<R>::solve(x3.data(), n, b3.data()))) for (auto& v : b3) o.v(v, 0); });
	c.cls("solved", ok);
}
void vf::registerAll() {
	VF_BOTH(solve, "solve", 60000, "one unknown", "many unknowns", "one right-hand side", "several right-hand sides", "no right-hand side", "permutation", "zero diagonal", "extreme scale");
	VF_BOTH(singular, "singular", 40000, "zero row", "zero column", "equal rows", "equal columns");
	VF_BOTH(hostile, "hostile", 20000, "NaN", "infinity", "only NaN");
	VF_BOTH(scaled, "multiplied", 40000, "solved");
}
VF_MAIN()
