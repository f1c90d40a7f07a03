// C06: inverse, transpose, determinant, trace, cofactors and adjoint
#include "matops.h"
using namespace vf;
using namespace mathlib;

// determinant of the k x k submatrix selected by row/column masks
template <class R> E<R> det(const RM<R>& m, const std::vector<int>& r, const std::vector<int>& k) {
	if (r.size() == 1) return m.a[r[0]][k[0]];
	E<R> s(0);
	std::vector<int> r2(r.begin() + 1, r.end());
	for (size_t j = 0; j < k.size(); j++) {
		std::vector<int> k2;
		for (size_t q = 0; q < k.size(); q++) if (q != j) k2.push_back(k[q]);
		E<R> t = m.a[r[0]][k[j]] * det(m, r2, k2);
		s = (j & 1) ? s - t : s + t;
	}
	return s;
}
inline std::vector<int> seq(int n, int skip = -1) { std::vector<int> v; for (int i = 0; i < n; i++) if (i != skip) v.push_back(i); return v; }
template <class R> E<R> det(const RM<R>& m) { return det(m, seq(m.n), seq(m.n)); }
template <class R> RM<R> cof(const RM<R>& m) {
	RM<R> r(m.n);
	for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { E<R> d = det(m, seq(m.n, i), seq(m.n, j)); r.a[i][j] = ((i + j) & 1) ? -d : d; }
	return r;
}
template <class R> L normErr(const RM<R>& m, int cols, int rows) { L s = 0; for (int j = 0; j < cols; j++) { L q = 0; for (int i = 0; i < rows; i++) q += m.a[i][j].v * m.a[i][j].v; s += (q - 1) * (q - 1); } return s; }
template <class R> L orthErr(const RM<R>& m, int cols, int rows) { L s = 0; for (int j = 0; j < cols; j++) for (int k = j + 1; k < cols; k++) { L q = 0; for (int i = 0; i < rows; i++) q += m.a[i][j].v * m.a[i][k].v; s += q * q; } return s; }
template <class R> bool nearOrtho(const RM<R>& m, int n) { return normErr(m, n, n) <= 1.02e-3L && orthErr(m, n, n) <= 1.02e-3L; }

// widen every element's bound to its matrix' largest: a different but equally good elimination order mixes them
template <class R> RM<R> blur(RM<R> m) { L e = 0; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) e = std::max(e, m.a[i][j].e); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) m.a[i][j].e = e; return m; }

// returns false when the determinant is too close to zero to tell
template <class R> int invRef(Case& c, const RM<R>& M, RM<R>& out, bool exactSing) {
	E<R> d = det(M);
	if (d.v == 0 && exactSing) { out = zero<R>(M.n); return 2; }
	if (!(fabsl(d.v) > 64 * d.e) || fabsl(d.v) < 4 * (L)std::numeric_limits<R>::min()) { c.cls("ill conditioned (undecided)"); return 0; }
	out = blur(divs(tr(cof(M)), d));
	return 1;
}
template <class R> bool ints(const RM<R>& M) { for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) { L v = M.a[i][j].v; if (v != floorl(v) || fabsl(v) > 8) return false; } return true; }

template <class R, class T, class F> void invert(Case& c, const T& m, const RM<R>& M, F inv, const char* site, bool rigidOk, bool idOk) {
	RM<R> W(M.n);
	int k = invRef(c, M, W, ints(M));
	T g = inv(m);
	if (k == 0) return;
	c.cls(k == 2 ? "singular -> Zero" : "regular");
	RM<R> G = ref(g);
	if (k == 2 && M.n == 4) { RM<R> Z = zero<R>(4); G.a[3][3] = E<R>(0); if (sizeof(T) == sizeof(Mat34<R>)) { chkM(c, G, {Z}, site, 0); return; } chkM(c, ref(g), {Z}, site, 0); return; }
	if (k == 1 && rigidOk) {
		c.cls("near-orthonormal");
		RM<R> Rt = widen(tr(lin(M)));
		RM<R> X = M.n == 4 ? Rt : tr(M);
		if (M.n == 4) for (int i = 0; i < 3; i++) X.a[i][3] = -(Rt.a[i][0] * M.a[0][3] + Rt.a[i][1] * M.a[1][3] + Rt.a[i][2] * M.a[2][3]);
		if (idOk) chkM(c, G, {W, X, M}, site); else chkM(c, G, {W, X}, site);
		return;
	}
	if (k == 1) c.cls("general inverse");
	chkM(c, G, {W}, site, k == 2 ? 0 : 8);
}

template <class R> void m2(Case& c) {
	Mat2<R> m = gMat2<R>(c, "m"); RM<R> M = ref(m);
	c.near(m.determinant(), det(M), "Mat2 determinant"); c.near(m.trace(), M.a[0][0] + M.a[1][1], "Mat2 trace");
	chkM(c, ref(m.cofactors()), {cof(M)}, "Mat2 cofactors"); chkM(c, ref(m.adjoint()), {tr(cof(M))}, "Mat2 adjoint");
	chkM(c, ref(m.transposed()), {tr(M)}, "Mat2 transposed", 0);
	invert<R>(c, m, M, [](const Mat2<R>& x) { return x.inversed(); }, "Mat2 inversed", nearOrtho(M, 2), false);
}
template <class R> void m3(Case& c) {
	Mat3<R> m = gMat3<R>(c, "m"); RM<R> M = ref(m);
	c.near(m.determinant(), det(M), "Mat3 determinant"); c.near(m.trace(), M.a[0][0] + M.a[1][1] + M.a[2][2], "Mat3 trace");
	chkM(c, ref(m.cofactors()), {cof(M)}, "Mat3 cofactors"); chkM(c, ref(m.adjoint()), {tr(cof(M))}, "Mat3 adjoint");
	chkM(c, ref(m.transposed()), {tr(M)}, "Mat3 transposed", 0);
	invert<R>(c, m, M, [](const Mat3<R>& x) { return x.inversed(); }, "Mat3 inversed", nearOrtho(M, 3), false);
	invert<R>(c, m, M, [](const Mat3<R>& x) { Mat3<R> y = x; y.invert(); return y; }, "Mat3 invert", nearOrtho(M, 3), nearId(M));
}
template <class R> void m34(Case& c) {
	Mat34<R> m = gMat34<R>(c, "m"); RM<R> M = ref(m), A = lin(M), W(3);
	Mat34<R> t = m; t.transpose();
	RM<R> X = widen(tr(A)); for (int i = 0; i < 3; i++) X.a[i][3] = M.a[i][3];
	chkM(c, ref(t), {X}, "Mat34 transpose", 0);
	// (A|t)^-1 = (A^-1 | -A^-1 t)
	int k = invRef(c, A, W, ints(A));
	t = m; c.chk(&t.invert() == &t, "Mat34 invert returns itself");
	if (k == 0) return;
	c.cls(k == 2 ? "singular -> Zero" : "regular");
	auto aff = [&](const RM<R>& I) { RM<R> r = widen(I); for (int i = 0; i < 3; i++) { E<R> s = I.a[i][0] * M.a[0][3] + I.a[i][1] * M.a[1][3] + I.a[i][2] * M.a[2][3]; r.a[i][3] = -s; } return r; };
	if (nearOrtho(A, 3)) { c.cls("near-orthonormal"); if (nearId(A) && m.t.isNull()) { c.cls("near-identity shortcut"); chkM(c, ref(t), {aff(W), aff(tr(A)), M}, "Mat34 invert"); } else chkM(c, ref(t), {aff(W), aff(tr(A))}, "Mat34 invert"); }
	else { c.cls("general inverse"); chkM(c, ref(t), {aff(W)}, "Mat34 invert", k == 2 ? 0 : 8); }
}
template <class R> void m4(Case& c) {
	Mat4<R> m = gMat4<R>(c, "m"); RM<R> M = ref(m);
	c.near(m.determinant(), det(M), "Mat4 determinant"); c.near(m.trace(), M.a[0][0] + M.a[1][1] + M.a[2][2] + M.a[3][3], "Mat4 trace");
	chkM(c, ref(m.transposed()), {tr(M)}, "Mat4 transposed", 0);
	bool trs = m.x.w == 0 && m.y.w == 0 && m.z.w == 0 && m.t.w == 1;
	bool rigid = trs && nearOrtho(lin(M), 3);
	invert<R>(c, m, M, [](const Mat4<R>& x) { return x.inversed(); }, "Mat4 inversed", rigid, false);
	invert<R>(c, m, M, [](const Mat4<R>& x) { Mat4<R> y = x; y.invert(); return y; }, "Mat4 invert", rigid, false);
	c.chk(m.inversed().isInitialized(), "Mat4 inversed is initialized");
	Mat4<R> y = m; y.invert(); c.chk(y.isInitialized(), "Mat4 invert is initialized");
}
// integer unimodular matrices: determinant exactly +-1, inverse exactly integer
template <class R> void uni(Case& c) {
	int n = c.r.in(2, 4);
	L a[4][4], b[4][4];
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = b[i][j] = i == j;
	int steps = c.r.in(2, 6), sg = 1;
	for (int s = 0; s < steps; s++) {      // a := a*E, b := E^-1*b
		int i = c.r.n(n), j = (i + 1 + c.r.n(n - 1)) % n, k = c.r.in(-2, 2);
		if (c.r.p(0.2)) { for (int q = 0; q < n; q++) { std::swap(a[q][i], a[q][j]); std::swap(b[i][q], b[j][q]); } sg = -sg; }
		else for (int q = 0; q < n; q++) { a[q][j] += k * a[q][i]; b[i][q] -= k * b[j][q]; }
	}
	RM<R> M(n), I(n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (fabsl(a[i][j]) > 60 || fabsl(b[i][j]) > 60) { c.trivial = true; return; } M.a[i][j] = E<R>::lit(a[i][j]); I.a[i][j] = E<R>::lit(b[i][j]); }
	logm(c, "m", M);
	c.cls(n == 2 ? "2x2" : n == 3 ? "3x3" : "4x4");
	auto C = [&](int j, int k) { return R(M.a[k][j].v); };
	if (n == 2) {
		Vec2<R> k0(C(0, 0), C(0, 1)), k1(C(1, 0), C(1, 1)); Mat2<R> m(k0, k1);
		c.same(m.determinant(), R(sg), "Mat2 unimodular determinant"); chkM(c, ref(m.inversed()), {I}, "Mat2 unimodular inverse", 0);
	} else if (n == 3) {
		Vec3<R> k0(C(0, 0), C(0, 1), C(0, 2)), k1(C(1, 0), C(1, 1), C(1, 2)), k2(C(2, 0), C(2, 1), C(2, 2)); Mat3<R> m(k0, k1, k2), w = m; w.invert();
		c.same(m.determinant(), R(sg), "Mat3 unimodular determinant"); chkM(c, ref(m.inversed()), {I}, "Mat3 unimodular inverse", 0); chkM(c, ref(w), {I}, "Mat3 unimodular invert", 0);
		c.chk(w.isInitialized() && m.inversed().isInitialized(), "Mat3 unimodular inverse is initialized");
	} else {
		Vec4<R> k[4]; for (int j = 0; j < 4; j++) k[j] = Vec4<R>(C(j, 0), C(j, 1), C(j, 2), C(j, 3)); Mat4<R> m(k[0], k[1], k[2], k[3]), w = m; w.invert();
		c.same(m.determinant(), R(sg), "Mat4 unimodular determinant"); chkM(c, ref(m.inversed()), {I}, "Mat4 unimodular inverse", 0); chkM(c, ref(w), {I}, "Mat4 unimodular invert", 0);
		c.chk(w.isInitialized() && m.inversed().isInitialized(), "Mat4 unimodular inverse is initialized");
	}
}
// inversion after a history (the flags the shortcuts rely on come from earlier operations)
template <class R> void hist(Case& c) {
	c.mute = true;
	if (c.r.p(0.5)) {
		Mat3<R> m = gMat3<R>(c, "m"); int n = c.r.in(1, 8);
		for (int i = 0; i < n; i++) op3<R>(c, m);
		c.mute = false;
		if (!tame(ref(m))) return;
		RM<R> M = ref(m);
		invert<R>(c, m, M, [](const Mat3<R>& x) { Mat3<R> y = x; y.invert(); return y; }, "Mat3 invert after a history", nearOrtho(M, 3), nearId(M));
	} else {
		Mat4<R> m = gMat4<R>(c, "m"); int n = c.r.in(1, 8);
		for (int i = 0; i < n; i++) op4<R>(c, m);
		c.mute = false;
		if (!tame(ref(m))) return;
		RM<R> M = ref(m);
		bool trs = m.x.w == 0 && m.y.w == 0 && m.z.w == 0 && m.t.w == 1;
		invert<R>(c, m, M, [](const Mat4<R>& x) { Mat4<R> y = x; y.invert(); return y; }, "Mat4 invert after a history", trs && nearOrtho(lin(M), 3), false);
		invert<R>(c, m, M, [](const Mat4<R>& x) { return x.inversed(); }, "Mat4 inversed after a history", trs && nearOrtho(lin(M), 3), false);
	}
}

void vf::registerAll() {
	VF_BOTH(m2, "mat2", 20000, "regular", "singular -> Zero", "general inverse", "near-orthonormal");
	VF_BOTH(m3, "mat3", 20000, "regular", "singular -> Zero", "general inverse", "near-orthonormal");
	VF_BOTH(m34, "mat34", 20000, "regular", "singular -> Zero", "general inverse", "near-orthonormal", "near-identity shortcut");
	VF_BOTH(m4, "mat4", 20000, "regular", "singular -> Zero", "general inverse", "near-orthonormal", "projective", "t.w only");
	VF_BOTH(uni, "unimodular", 10000, "2x2", "3x3", "4x4");
	VF_BOTH(hist, "history", 20000, "regular", "general inverse", "near-orthonormal");
}
VF_MAIN()
