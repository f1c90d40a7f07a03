From 6d43259116a0e2d485a93d2115a2f08758a3c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 01/32] fix: fmodPositive returned y itself for tiny negative
 values

---
 libs/mathlib/include/functions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..0a019ce 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,13 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+		if (r >= y) // a tiny negative remainder rounds up to y
+			r = Real(0);
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From bdb18fd08304acd72fd1a9eba2a54bbe4fbc6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 02/32] fix: clerp and clerpMaxAngle took the wrong arc when to
 - from < -PI

---
 libs/mathlib/include/interpolation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..6172cdc 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,7 +195,7 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-- 
2.43.0


From 4023bead9be15aafc65ed22bdd4bc925498b9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 03/32] fix: clerpMaxAngle's ratio was relative to angle zero
 instead of from

---
 libs/mathlib/include/interpolation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 6172cdc..2ae12ad 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -199,7 +199,9 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
+	ratio = (delta == Real(0) || MATHLIB_NS::abs(delta) <= maxAngle)
+		? Real(1)
+		: maxAngle / MATHLIB_NS::abs(delta);
 	return angle;
 }
 
-- 
2.43.0


From 7ffbd5f48fde9c93c65d3bc67581211396af5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 04/32] fix: Vec3 slerp and slerpMaxAngle took the wrong arc
 for obtuse angles

---
 libs/mathlib/include/impl/vec3.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..5898210 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -125,8 +125,9 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (cosAngle > Real(0) && MATHLIB_NS::abs(sinAngle) < 0.05f)
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -171,15 +172,14 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		Real angle = asin(sinAngle);
+		Real angle = atan2(sinAngle, cosAngle);
 
-		if (angle == Real(0))
+		if (angle <= maxAngle)
 			return set(v);
 
-		Real actualAngle = (angle >= Real(0))
-			? ((angle > maxAngle) ? maxAngle : angle)
-			: ((angle < -maxAngle) ? -maxAngle : angle);
+		Real actualAngle = maxAngle;
 
 		Real ratio = actualAngle / angle;
 
-- 
2.43.0


From 27f79a881ddcc9795f7808bd92c361b80e2031be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 05/32] fix: matrix classification flags stayed set after
 operations that do not preserve them

---
 libs/mathlib/include/impl/mat2.h | 10 ++++------
 libs/mathlib/include/impl/mat3.h | 30 ++++++++++++------------------
 libs/mathlib/include/impl/mat4.h | 25 +++++++++----------------
 3 files changed, 25 insertions(+), 40 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..707bff1 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -103,8 +103,7 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -249,8 +248,7 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -359,7 +357,7 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.x.y = y.x;
 	r.y.x = x.y;
 	r.y.y = y.y;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
@@ -536,7 +534,7 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..3c5f8e5 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -336,8 +336,7 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -448,9 +447,7 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -519,7 +516,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -543,9 +540,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -614,7 +609,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -663,8 +658,7 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -716,7 +710,7 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -781,7 +775,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -808,7 +802,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -873,7 +867,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -890,7 +884,7 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.x = x.z;
 	r.z.y = y.z;
 	r.z.z = z.z;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
@@ -1084,7 +1078,7 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..474d348 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -481,6 +481,8 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -496,12 +498,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.x *= coefficients.x;
 	t.y *= coefficients.y;
 	t.z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -554,6 +551,8 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -566,12 +565,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	x *= coefficients.x;
 	y *= coefficients.y;
 	z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -645,8 +639,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +907,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
@@ -1304,7 +1297,7 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
-- 
2.43.0


From 0c82f561de670f2982be01627f6d96284dcfe971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 06/32] fix: Mat4 inverse treated orthonormal non-TRS matrices
 as rigid and lost its flags when det is 1

---
 libs/mathlib/include/impl/mat4.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 474d348..e4ac98b 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,7 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -660,9 +660,7 @@ Mat4<Real>& Mat4<Real>::invert()
 		t.y = -ty;
 		t.z = -tz;
 
-		// flags unchanged by transposition
-
-		return *this;
+		return optimize();
 	}
 
 	Real CF00 = (z.z * t.w - z.w * t.z);
@@ -707,7 +705,12 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	inv /= det;
+
+	return set(inv.optimize());
 }
 
 
@@ -944,7 +947,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Mat4<Real> result;
 
@@ -968,7 +971,7 @@ Mat4<Real> Mat4<Real>::inversed() const
 		result.t.z = -(result.x.z * t.x + result.y.z * t.y + result.z.z * t.z);
 		result.t.w = Real(1);
 
-		result.flags = flags;
+		result.optimize();
 
 		return result;
 	}
-- 
2.43.0


From 349508a68303937506251daa19d66a78450a4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 07/32] fix: multiplying or rotating a matrix by itself read
 partially updated columns

---
 libs/mathlib/include/impl/mat2.h  | 2 ++
 libs/mathlib/include/impl/mat3.h  | 8 ++++++++
 libs/mathlib/include/impl/mat34.h | 6 +++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 707bff1..b0207dc 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -94,6 +94,8 @@ Mat2<Real>& Mat2<Real>::operator*=(Real k)
 template <class Real>
 Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 {
+	if (&m == this)
+		return set(*this * m);
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 3c5f8e5..36925e6 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -322,6 +322,8 @@ Mat3<Real>& Mat3<Real>::operator*=(Real k)
 template <class Real>
 Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 {
+	if (&m == this)
+		return set(*this * m);
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
@@ -429,6 +431,9 @@ Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 {
+	if (&m == this)
+		return set(*this * m);
+
 	if (m.isIdentity())
 		return *this;
 
@@ -522,6 +527,9 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 {
+	if (&m == this)
+		return set(*this * m);
+
 	if (m.isIdentity())
 		return *this;
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..8124fc7 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -342,8 +342,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
-	rs.rotate(m);
 	t = m * t;
+	rs.rotate(m);
 	return *this;
 }
 
@@ -352,6 +352,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat34& m)
 {
 	// r * v = m.rs * (rs * v + t) + m.t
 	//       = (m.rs * rs) * v + (m.rs * t + m.t)
+	if (&m == this)
+		return set(m * *this);
 	t = m * t;
 	rs.rotate(m.rs);
 	return *this;
@@ -411,6 +413,8 @@ Mat34<Real>& Mat34<Real>::transformPre(const Mat34& m)
 {
 	// r * v = rs * (m.rs * v + m.t) + t
 	//       = (rs * m.rs) * v + (rs * m.t + t)
+	if (&m == this)
+		return set(*this * m);
 	t += rs * m.t;
 	rs *= m.rs;
 	return *this;
-- 
2.43.0


From b5f4d0b9d053737f4f3ffacc95e06ef0ae0ce0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 08/32] fix: matrix transforms gave wrong results when dest and
 src are the same vector

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index b0207dc..d7850fe 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -490,8 +490,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x;
+	dest.y = v.x * x.y + v.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 36925e6..5675ef4 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1034,9 +1034,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 8124fc7..2fd6f1c 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -560,9 +560,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> v = src;	// dest may be src
+	dest.x = v.x * rs.x.x + v.y * rs.y.x + v.z * rs.z.x + t.x;
+	dest.y = v.x * rs.x.y + v.y * rs.y.y + v.z * rs.z.y + t.y;
+	dest.z = v.x * rs.x.z + v.y * rs.y.z + v.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index e4ac98b..f879b18 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1142,9 +1142,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1173,10 +1174,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + v.w * t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + v.w * t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + v.w * t.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w + v.w * t.w;
 }
 
 template <class Real>
@@ -1205,9 +1207,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
@@ -1236,10 +1239,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> v = src;	// dest may be src
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From 896e37f74b13a3671e04dd139d4626cf65a0f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 09/32] fix: Quat division multiplied by the divisor instead of
 its inverse

---
 libs/mathlib/include/impl/quat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..ba26b70 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,10 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	//invert q; r = q^(-1) * |q|^2
+	Quat r = q.inverse();
+	Real s = Real(1) / (r.w * r.w + r.x * r.x + r.y * r.y + r.z * r.z);
+	Quat p = *this * r;
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From baa831c637e2404922d4b8759b4ca86bf4227729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 10/32] fix: Quat::slerpMaxAngle ignored from and could take
 the long way round

---
 libs/mathlib/include/impl/quat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index ba26b70..1ed829f 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -228,12 +228,17 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+	{
+		fromto = -fromto;
+	}
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
+	fromto.set(axis, min(angle, maxAngle));
 
-	return set(axis, min(angle, maxAngle));
+	return set(from * fromto);
 }
 
 template <class Real>
-- 
2.43.0


From 44709f8c21350554c26f081d3229b3814b900d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 11/32] fix: Quat::set(from, to) returned the identity for
 opposite vectors

---
 libs/mathlib/include/impl/quat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 1ed829f..08e469e 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -154,10 +154,13 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// half a turn around any axis perpendicular to from
+		Vec3<Real> axis = from % (fabs(from.x) < Real(0.7) ? Vec3<Real>::OneX : Vec3<Real>::OneY);
+		axis.normalize();
+		x = axis.x;
+		y = axis.y;
+		z = axis.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From 3237fff3dc9ba5077bdd98b0a0e954b76b0f437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 12/32] fix: Quat::set(from, via, to) could not be instantiated

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 08e469e..f67283d 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -291,11 +291,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat tmp1 = log(qni * from);
+	Quat tmp2 = log(qni * to);
+	Quat tmp;
+	tmp.x = (tmp1.x + tmp2.x) * Real(-0.25);
+	tmp.y = (tmp1.y + tmp2.y) * Real(-0.25);
+	tmp.z = (tmp1.z + tmp2.z) * Real(-0.25);
+	tmp.w = (tmp1.w + tmp2.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From ac8b79d7b1b882a1ba54884bff21e1b363400609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 13/32] fix: Quat::toAxisAngle asserted on unit quaternions
 whose w rounds above 1

---
 libs/mathlib/include/impl/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index f67283d..af532c6 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -584,7 +584,7 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
+	assert(w >= Real(-1 - DELTA) && w <= Real(1 + DELTA));
 
 	Real s2 = Real(1) - w * w;
 	Real len = (Real)(x * x + y * y + z * z);
-- 
2.43.0


From ef3706b367819a9ec86f587fa687270f425145b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 14/32] fix: Mat4(Mat3, Vec3) and Mat4::set(Mat3, Vec3) were
 declared but not defined

---
 libs/mathlib/include/impl/mat4.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index f879b18..82c9d3a 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -40,6 +40,13 @@ Mat4<Real>::Mat4(Real k)
 	}
 }
 
+template <class Real>
+Mat4<Real>::Mat4(const Mat3<Real>& m, const Vec3<Real>& t)
+	: flags(Flags::Uninitialized)
+{
+	set(m, t);
+}
+
 template <class Real>
 Mat4<Real>::Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t)
 	: flags(Flags::Uninitialized)
@@ -81,6 +88,12 @@ Mat4<Real>& Mat4<Real>::set(const Mat4<Real>& m)
 	return *this;
 }
 
+template <class Real>
+Mat4<Real>& Mat4<Real>::set(const Mat3<Real>& rs, const Vec3<Real>& t)
+{
+	return set(rs.x, rs.y, rs.z, t);
+}
+
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Quat<Real>& q, const Vec3<Real>& t)
 {
-- 
2.43.0


From fbc1d1049f1ba4d6e839dbbb82f02caaf4c046ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 15/32] fix: BezierSegmentFwdDiff3f and BezierSegmentFwdDiff3d
 named a class that does not exist

---
 libs/mathlib/include/common.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..8b46987 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -80,7 +80,7 @@ template <class Real> class Circle;
 template <class Real> class Sphere;
 template <class Real> class HermiteSplineSegment3;
 template <class Real> class BezierSegment3;
-template <class Real> class BezierSegmentFwdDiff3;
+template <class Real> class BezierSegment3FwdDiff;
 template <class Real> class SplineSolver3;
 template <class Real> class Frustum;
 
@@ -112,7 +112,7 @@ typedef Circle<float> Circlef;
 typedef Sphere<float> Spheref;
 typedef HermiteSplineSegment3<float> HermiteSplineSegment3f;
 typedef BezierSegment3<float> BezierSegment3f;
-typedef BezierSegmentFwdDiff3<float> BezierSegmentFwdDiff3f;
+typedef BezierSegment3FwdDiff<float> BezierSegmentFwdDiff3f;
 typedef SplineSolver3<float> SplineSolver3f;
 typedef Frustum<float> Frustumf;
 
@@ -144,7 +144,7 @@ typedef Circle<double> Circled;
 typedef Sphere<double> Sphered;
 typedef HermiteSplineSegment3<double> HermiteSplineSegment3d;
 typedef BezierSegment3<double> BezierSegment3d;
-typedef BezierSegmentFwdDiff3<double> BezierSegmentFwdDiff3d;
+typedef BezierSegment3FwdDiff<double> BezierSegmentFwdDiff3d;
 typedef SplineSolver3<double> SplineSolver3d;
 typedef Frustum<double> Frustumd;
 
-- 
2.43.0


From e0956a702517cbb64536c8d589f196043c47ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 16/32] fix: quartic and quintic easing curves lost double
 precision through float temporaries

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 2ae12ad..dec1603 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From b20059b0c2688793acac38b306d31582016b05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 17/32] fix: randAmplitude(Real from, Real to) never returned a
 negative value

---
 libs/mathlib/include/functions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 0a019ce..f30d848 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,10 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude(to - from);
+	return (r >= Real(0))
+		? from + r
+		: -from + r;
 }
 
 template <class Real>
-- 
2.43.0


From 4e5ec7322f3fc0a61c490dfced5d2dc9f2ba521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 18/32] fix: randomUnitVector only returned directions with
 positive coordinates

---
 libs/mathlib/include/impl/vec2.h | 4 ++--
 libs/mathlib/include/impl/vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..a88659f 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -531,8 +531,8 @@ Vec2<Real> Vec2<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
 
 		l = n.normalize();
 
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index 5898210..359b4cd 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -762,9 +762,9 @@ Vec3<Real> Vec3<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
-		n.z = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
+		n.z = randAmplitude(Real(1));
 
 		l = n.normalize();
 
-- 
2.43.0


From b6bad583675058dfa686352d747fd2b390a49d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 19/32] fix: ColorRGB::toHSV returned hue 360 for colors a hair
 below red

---
 libs/mathlib/include/impl/colorrgb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorrgb.h b/libs/mathlib/include/impl/colorrgb.h
index 70787b1..546777e 100644
--- a/libs/mathlib/include/impl/colorrgb.h
+++ b/libs/mathlib/include/impl/colorrgb.h
@@ -237,7 +237,8 @@ ColorHSV<Real> ColorRGB<Real>::toHSV() const
         {
             h += Real(6);
         }
-        else if (h >= Real(6))
+
+        if (h >= Real(6))
         {
             h -= Real(6);
         }
-- 
2.43.0


From 0f2486f12bcf623c6135f75b5034c7c13eb0b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 20/32] fix: box hits() reported rays and lines that miss the
 box and missed some that enter it

---
 libs/mathlib/include/impl/aabb2.h | 29 +++++++++++-------------
 libs/mathlib/include/impl/aabb3.h | 37 +++++++++++++------------------
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..308ff06 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,8 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real tout = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +402,8 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +421,21 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
+    if (t < Real(0) || t > tout)
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real tout = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +454,8 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.y == Real(0))
@@ -474,15 +473,13 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    if (t > Real(1))
+    if (t < Real(0) || t > tout || t > Real(1))
         return false;
-    
+
     return true;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..d9b8939 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,8 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real tout = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +423,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +442,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +461,21 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
+    if (t < Real(0) || t > tout)
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real tout = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +494,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.y == Real(0))
@@ -516,10 +513,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.z == Real(0))
@@ -537,15 +532,13 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    if (t > Real(1))
+    if (t < Real(0) || t > tout || t > Real(1))
         return false;
-    
+
     return true;
 }
 
-- 
2.43.0


From 6c79f1631bdff8612fdf41d587c9f190535fa760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 21/32] fix: Plane::project along a direction ignored the
 plane's distance

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From 81c6ef955f5d7be68fc85d55120ec048d5cad424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 22/32] fix: Line3 distance was wrong for points on the line

---
 libs/mathlib/include/impl/line3.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..c2e06c8 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length();
 }
 
 template <class Real>
-- 
2.43.0


From 554af3d6643f1336d04f73be069298f77dedc7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 23/32] fix: Frustum queries in double compared distances
 rounded to float

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From dc219f83e6fc7cece167545890fc8749950dac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 24/32] fix: moving a box by one of its own corners moved the
 two corners by different offsets

---
 libs/mathlib/include/impl/aabb2.h | 10 ++++++----
 libs/mathlib/include/impl/aabb3.h | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 308ff06..8bd2262 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -204,16 +204,18 @@ AABB2<Real> AABB2<Real>::fromUnion(const AABB2<Real>& a, const AABB2<Real>& b)
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator+= (const Vec2<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec2<Real> offset = t; // t may be one of our own corners
+	inf += offset;
+	sup += offset;
 	return *this;
 }
 
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator-= (const Vec2<Real>& t)
 {
-	inf -= t;
-    sup -= t;
+	const Vec2<Real> offset = t; // t may be one of our own corners
+	inf -= offset;
+	sup -= offset;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index d9b8939..9d56279 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -216,16 +216,18 @@ AABB3<Real> AABB3<Real>::fromUnion(const AABB3<Real>& a, const AABB3<Real>& b)
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator+= (const Vec3<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec3<Real> offset = t; // t may be one of our own corners
+	inf += offset;
+	sup += offset;
 	return *this;
 }
 
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator-= (const Vec3<Real>& t)
 {
-    inf -= t;
-    sup -= t;
+	const Vec3<Real> offset = t; // t may be one of our own corners
+	inf -= offset;
+	sup -= offset;
 	return *this;
 }
 
-- 
2.43.0


From 1b283cd821ecdf2c5796919d486d201729622ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 25/32] fix: GaussJordan left the identity in a instead of the
 inverse

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..958ce6e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -202,9 +202,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -215,9 +215,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From c8d604ccbb50d22d8acbbb52ccaa4a8a331e7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 26/32] fix: GaussJordan compared double pivots rounded to
 float and used an unset pivot for NaN

---
 libs/mathlib/include/impl/linearequations.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 958ce6e..fd6f918 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -146,6 +146,7 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 	{
 		// This is the main loop over the columns to be reduced.
 		big = Real(0);
+		irow = icol = -1;
 		for (j = 0; j < n; j++)
 		{
 			// This is the outer loop of the search for a pivot element.
@@ -155,9 +156,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
@@ -166,6 +167,15 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			}
 		}
 		
+		if (icol < 0)
+		{
+			// No pivot: every remaining element is NaN
+			delete [] indxc;
+			delete [] indxr;
+			delete [] ipiv;
+			return false;
+		}
+
 		++(ipiv[icol]);
 		
 		//	We now have the pivot element, so we interchange rows, if needed, to put the pivot
-- 
2.43.0


From 14175957e7cafbc3e619f4fbcc0b07b74da20550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 27/32] fix: closedBezierSpline through two points was not
 closed smoothly

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..35209b5 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -620,8 +620,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// += because with two points both neighbours are the same point
+	a[0]       += Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] += Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From 3a346b886f3ea3df0365a9f46a44d4d0b0bfcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 28/32] fix: splitting a Bezier segment into itself gave a
 wrong second half

---
 libs/mathlib/include/impl/spline3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 35209b5..b23b4e8 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -290,6 +290,9 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 	Real ca2 = ca * ca;
 	Real ca3 = ca * ca2;
 
+	// start or end may be this segment
+	const Vec3<Real> P1 = this->P1, P2 = this->P2, P3 = this->P3, P4 = this->P4;
+
 	start.P1	= P1;
 	start.P2	= P1 * ca	+ P2 * a;
 	start.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
-- 
2.43.0


From 3b57db52f38a6cf65219fe796d5ecb042831f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 29/32] fix: setting a segment from its own control points read
 already overwritten ones

---
 libs/mathlib/include/impl/spline3.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index b23b4e8..a54bd5f 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -23,10 +23,7 @@ HermiteSplineSegment3<Real>::HermiteSplineSegment3(const Vec3<Real>& p1, const V
 template <class Real>
 void HermiteSplineSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p4, const Vec3<Real>& r1, const Vec3<Real>& r4)
 {
-	P1 = p1;
-	P4 = p4;
-	R1 = r1;
-	R4 = r4;
+	*this = HermiteSplineSegment3(p1, p4, r1, r4);	// the arguments may be this segment's own
 }
 
 template <class Real>
@@ -160,10 +157,7 @@ BezierSegment3<Real>::BezierSegment3(const Vec3<Real>& p1, const Vec3<Real>& p2,
 template <class Real>
 void BezierSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p2, const Vec3<Real>& p3, const Vec3<Real>& p4)
 {
-	P1 = p1;
-	P2 = p2;
-	P3 = p3;
-	P4 = p4;
+	*this = BezierSegment3(p1, p2, p3, p4);	// the arguments may be this segment's own
 }
 
 template <class Real>
-- 
2.43.0


From 2d5dd322212d2f08b20207e7a6ebc70ebb40a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 30/32] fix: solveCyclic answered a singular system with
 infinities

---
 libs/mathlib/include/impl/linearequations.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index fd6f918..cf4c037 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,7 +103,9 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			result = den != Real(0);
+			Real fact = result ? (x[0] + beta * x[n-1] / gamma) / den : Real(0);
 
 			// Now get the solution vector x
 			for (int i = 0; i < n; i++)
-- 
2.43.0


From 1db27ed7e675a551673566fabf3043ce8807e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 31/32] fix: a frustum set through a mirroring transformation
 had all planes inside out

---
 libs/mathlib/include/impl/frustum.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 77497b2..f2d8e19 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -170,6 +170,15 @@ void Frustum<Real>::computePlanes()
 
     // Bottom plane
     planes[5] = Plane<Real>::from(corners[1], corners[6], corners[5]);
+
+    // A mirrored arrangement of the corners turns all planes inside out
+    if (planes[0].distance(corners[0]) > Real(0))
+    {
+        for (int i = 0; i < 6; i++)
+        {
+            planes[i].flip();
+        }
+    }
 }
 
 MATHLIB_NS_END
-- 
2.43.0


From abf8ecb046437f8fe1fc8f9ad17fcb5b458d330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 32/32] fix: a flat triangle contains no points beyond the
 segment its vertices span

With collinear vertices every edge function of a point on that line is zero, so
Tri2::contains() accepted the whole line, and with three equal vertices the whole plane.
---
 libs/mathlib/include/impl/tri2.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/mathlib/include/impl/tri2.h b/libs/mathlib/include/impl/tri2.h
index 097852e..a0de88d 100644
--- a/libs/mathlib/include/impl/tri2.h
+++ b/libs/mathlib/include/impl/tri2.h
@@ -44,6 +44,13 @@ bool Tri2<Real>::contains(const Vec2<Real> &p) const
     Real cross2 = Vec2<Real>::crossProduct(b, c, p);
     Real cross3 = Vec2<Real>::crossProduct(c, a, p);
 
+    if (cross1 == Real(0) && cross2 == Real(0) && cross3 == Real(0))
+    {
+        // all on one line: the triangle is no more than the segment its vertices span
+        return p.x >= min(a.x, min(b.x, c.x)) && p.x <= max(a.x, max(b.x, c.x))
+            && p.y >= min(a.y, min(b.y, c.y)) && p.y <= max(a.y, max(b.y, c.y));
+    }
+
     return (cross1 >= Real(0) && cross2 >= Real(0) && cross3 >= Real(0))
 		|| (cross1 <= Real(0) && cross2 <= Real(0) && cross3 <= Real(0));
 }
-- 
2.43.0

