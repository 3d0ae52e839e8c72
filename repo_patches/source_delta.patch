From 16387bb8a051aae719a6bcbc952c50ad56dc04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/17] fix: Mat3::inverse divides every cofactor by the
 determinant and uses the right signs

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..6fc00be 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From 9b0a6c7d3506743fd44ddc98addc74428f48a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 02/17] fix: Mat4::inverse returns the inverse, not its
 transpose, in the layout of its operand

---
 lib/mat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 6fc00be..45bdb54 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1524,6 +1524,7 @@ macro_rules! define_mat4 {
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
                 let mut inv: Mat4<$v_type> = Default::default();
+                inv._is_row_major = self._is_row_major;
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1653,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From 834c7ec7e667d05b150a71b4174159a9a97a2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 03/17] fix: to_rotation_matrix gives the same rotation in
 column-major storage

---
 lib/quat.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..2484dad 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -174,16 +174,16 @@ macro_rules! define_quat {
                     ), //last row
                     _ => Mat4::<$v_type>::init(
                         [
-                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
-                            2 as $v_type * (self._x * self._y + self._z * self._w),
-                            2 as $v_type * (self._x * self._z - self._y * self._w),
+                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first row
+                            2 as $v_type * (self._x * self._y - self._z * self._w),
+                            2 as $v_type * (self._x * self._z + self._y * self._w),
                             0 as $v_type,
-                            2 as $v_type * (self._x * self._y - self._z * self._w), //second column
+                            2 as $v_type * (self._x * self._y + self._z * self._w), //second row
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._z * self._z),
-                            2 as $v_type * (self._z * self._y + self._x * self._w),
-                            0 as $v_type,
-                            2 as $v_type * (self._x * self._z + self._y * self._w), //third column
                             2 as $v_type * (self._y * self._z - self._x * self._w),
+                            0 as $v_type,
+                            2 as $v_type * (self._x * self._z - self._y * self._w), //third row
+                            2 as $v_type * (self._z * self._y + self._x * self._w),
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._y * self._y),
                             0 as $v_type,
                             0 as $v_type,
@@ -192,7 +192,7 @@ macro_rules! define_quat {
                             1 as $v_type,
                         ],
                         false,
-                    ), //last column
+                    ), //last row
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 4a7a92843280bf41693bcaa19f36f17a35f1095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 04/17] fix: to_translation_matrix is a homogeneous translation
 in both layouts

---
 lib/quat.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 2484dad..b74d25e 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,17 +105,17 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             self._x,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             self._z,
                             0 as $v_type,
                             0 as $v_type,
@@ -126,21 +126,21 @@ macro_rules! define_quat {
                     ),
                     _ => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            self._x,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
+                            self._y,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
+                            self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._x,
-                            self._y,
-                            self._z,
                             1 as $v_type,
                         ],
                         false,
-- 
2.43.0


From 7bd0c012c69661dfd3c1738af5ae6e3ef43525dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 05/17] fix: to_axis_angle stays finite when rounding takes the
 scalar part to or past one

---
 lib/quat.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index b74d25e..9ed596c 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -197,8 +197,8 @@ macro_rules! define_quat {
             }
             #[allow(dead_code)]
             pub fn to_axis_angle(&self) -> (Mat3x1<$v_type>, $v_type) {
-                let k = (1 as $v_type - self._w * self._w).sqrt();
-                if k < 0.000001 {
+                let l = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
+                if l < 0.000001 {
                     return (
                         Mat3x1 {
                             _val: [1 as $v_type, 0 as $v_type, 0 as $v_type],
@@ -206,16 +206,11 @@ macro_rules! define_quat {
                         0 as $v_type,
                     ); // ( <x,y,z>, angle )
                 } else {
-                    let vec_x = self._x / k;
-                    let vec_y = self._y / k;
-                    let vec_z = self._z / k;
-                    let l = (vec_x * vec_x + vec_y * vec_y + vec_z * vec_z).sqrt();
-                    assert!(l != 0 as $v_type);
                     return (
                         Mat3x1 {
-                            _val: [vec_x / l, vec_y / l, vec_z / l],
+                            _val: [self._x / l, self._y / l, self._z / l],
                         },
-                        2 as $v_type * self._w.acos(),
+                        2 as $v_type * self._w.max(-1 as $v_type).min(1 as $v_type).acos(),
                     );
                 }
             }
-- 
2.43.0


From 336e513319561c0c0857d50f9e246716dd997512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 06/17] fix: Quat::ln takes the logarithm of the length and the
 angle of the scalar part

---
 lib/quat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 9ed596c..805720b 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -357,7 +357,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let l_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -365,12 +365,12 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
                     _z: vec_z * s,
-                    _w: w_ln,
+                    _w: l_ln,
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 67ab913eb1c2dcccac08d84830e1f4c56b761298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 07/17] fix: interpolate_slerp uses the angle to the negated
 end on the shorter arc

---
 lib/quat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 805720b..1f594fe 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -487,8 +487,8 @@ macro_rules! define_quat {
                 let (k0, k1) = if cos_omega_adjust > 0.9999 as $v_type {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
-                    let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let sin_omega = (1 as $v_type - cos_omega_adjust * cos_omega_adjust).sqrt();
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 0719505f54a009d921ad126ac21b18b344995dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 08/17] fix: elementwise operations on matrices of different
 layouts pair entries by row and column

---
 lib/mat.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index 45bdb54..73e2e41 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -945,8 +945,19 @@ macro_rules! define_mat3 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //the same logical matrix in the given storage layout
+            fn in_layout(&self, row_major: bool) -> Mat3<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    let mut m = self.transpose();
+                    m._is_row_major = row_major;
+                    m
+                }
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1018,6 +1029,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1035,6 +1047,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1052,6 +1065,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] - other._val[0],
@@ -1265,8 +1279,19 @@ macro_rules! define_mat4 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //the same logical matrix in the given storage layout
+            fn in_layout(&self, row_major: bool) -> Mat4<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    let mut m = self.transpose();
+                    m._is_row_major = row_major;
+                    m
+                }
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1349,6 +1374,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1373,6 +1399,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1397,6 +1424,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.in_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] - other._val[0],
-- 
2.43.0


From 7fc8903ca5f418a6e109cf622cb343f34c80f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 09/17] fix: get_longest_axis orders longer sides after shorter
 ones

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 419e94381bcb53277cae0587c41abf76c42679f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 10/17] fix: rays meet only where their lines cross ahead of
 both origins

---
 lib/ray.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..7081b36 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,17 +75,16 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let d = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
-                    let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
+                    let dot_v_d = v.dot(&d).unwrap();
+                    if !self.within_vicinity(dot_v_d, 0f64) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
                     let zero: Mat3x1<f64> = Default::default();
-                    let d = b_off.minus(&a_off).unwrap();
                     if v.is_equal(&zero, 0.0001f64).unwrap() {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
@@ -107,7 +106,10 @@ impl IShape for Ray3 {
                             let distance =
                                 direction * d.magnitude().unwrap() / a_dir.magnitude().unwrap();
                             // println!( "colinear lines, distance: {}", distance );
-                            if distance < 0f64 {
+                            if distance < 0f64 && a_dir.dot(&b_dir).unwrap() < 0f64 {
+                                //rays point away from each other
+                                return (false, None);
+                            } else if distance < 0f64 {
                                 //intersection at offset of ray a, so clamp t to 0
                                 return (true, Some(a_off));
                             } else {
@@ -126,9 +128,12 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
+                        //t, s := signed parameters of the crossing along ray a and ray b
                         let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        let denominator = v.dot(&v).unwrap();
+                        let t = numerator.dot(&v).unwrap() / denominator;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / denominator;
+                        if t < 0f64 || s < 0f64 {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From 832bd7976dbe5fd2e22246ae4bbbe83d3ef73de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 11/17] fix: ray and point are compared by distance, for any
 ray direction

---
 lib/ray.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 7081b36..0fd88d0 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -155,13 +155,17 @@ impl IShape for Ray3 {
                     let a_dir = self._dir;
                     let a_off = self._ori;
                     //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //t = dot(b_off - a_off, a_dir), since a_dir is a unit vector
+                    let t = b_off.minus(&a_off).unwrap().dot(&a_dir).unwrap();
+                    let p = a_dir.scale(t).unwrap().plus(&a_off).unwrap();
+                    if !self.within_vicinity(p[0], b_off[0])
+                        || !self.within_vicinity(p[1], b_off[1])
+                        || !self.within_vicinity(p[2], b_off[2])
+                    {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(p));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From d747fa0ffe592cb919b50d12a1e237396666d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 12/17] fix: a sphere far behind a plane does not meet it

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..24c44bb 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -113,7 +113,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From 4960f504d583cebbfa823b1af1bd5bd7762b0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 13/17] fix: a sphere contains only the points within its
 radius

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 24c44bb..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From 953c27ff8f8f051517117ff23c1179981711945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 14/17] fix: a segment passing through a prism is clipped
 against its faces

---
 lib/triprism.rs | 103 +++++++-----------------------------------------
 1 file changed, 15 insertions(+), 88 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..d44bbf5 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -6,9 +6,6 @@ use i_vicinity::IVicinity;
 use bound::AxisAlignedBBox;
 use mat::Mat3x1;
 
-use plane::Plane;
-use ray::Ray3;
-
 #[derive(Debug, Clone, Default)]
 pub struct TriPrism {
     ///base
@@ -266,97 +263,27 @@ impl IShape for TriPrism {
                         return (true, Some(b));
                     }
 
-                    //continue test using ray plane intersection
+                    //clip the segment a + v * t, 0 <= t <= 1, against the half spaces
 
                     let v = b.minus(&a).unwrap();
-                    let mag = v.magnitude().unwrap();
-
-                    let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
-
-                    let n1 = self._normal_height;
-                    let n0 = n1.scale(-1.).unwrap();
-                    let n2 = self._tri_base[1]
-                        .minus(&self._tri_base[0])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-                    let n3 = self._tri_base[2]
-                        .minus(&self._tri_base[1])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-                    let n4 = self._tri_base[0]
-                        .minus(&self._tri_base[2])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-
-                    let facets = vec![
-                        Plane::init(
-                            &[
-                                self._tri_base[0][0] as f64,
-                                self._tri_base[0][1] as f64,
-                                self._tri_base[0][2] as f64,
-                            ],
-                            &[n0[0] as f64, n0[1] as f64, n0[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base2[0][0] as f64,
-                                self._tri_base2[0][1] as f64,
-                                self._tri_base2[0][2] as f64,
-                            ],
-                            &[n1[0] as f64, n1[1] as f64, n1[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[0][0] as f64,
-                                self._tri_base[0][1] as f64,
-                                self._tri_base[0][2] as f64,
-                            ],
-                            &[n2[0] as f64, n2[1] as f64, n2[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[1][0] as f64,
-                                self._tri_base[1][1] as f64,
-                                self._tri_base[1][2] as f64,
-                            ],
-                            &[n3[0] as f64, n3[1] as f64, n3[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[2][0] as f64,
-                                self._tri_base[2][1] as f64,
-                                self._tri_base[2][2] as f64,
-                            ],
-                            &[n4[0] as f64, n4[1] as f64, n4[2] as f64],
-                        ),
-                    ];
 
-                    let mut intersect_point = None;
-                    let mut is_inside = false;
-                    for i in facets.iter() {
-                        let res = r.get_intersect(i);
-                        if res.0 {
-                            let collide_point = res.1.unwrap();
-                            let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
-
-                            //one more check necesary for the candidate collision point
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
-                            });
-
-                            if !is_point_inside || mag2 > mag {
-                                continue;
-                            } else {
-                                is_inside = true;
-                                intersect_point = res.1;
-                                break;
-                            }
+                    let mut t_enter = 0f64;
+                    let mut t_leave = 1f64;
+                    for (vert, normal) in tests.iter() {
+                        let d_a = a.minus(vert).unwrap().dot(normal).unwrap();
+                        let d_b = b.minus(vert).unwrap().dot(normal).unwrap();
+                        if d_a > 0. && d_b > 0. {
+                            return (false, None);
+                        } else if d_a > 0. {
+                            t_enter = t_enter.max(d_a / (d_a - d_b));
+                        } else if d_b > 0. {
+                            t_leave = t_leave.min(d_a / (d_a - d_b));
                         }
                     }
 
+                    let is_inside = t_enter <= t_leave;
+                    let intersect_point = Some(v.scale(t_enter).unwrap().plus(&a).unwrap());
+
                     if is_inside {
                         (true, intersect_point)
                     } else {
-- 
2.43.0


From 00c215bbb308a5ca6116f1d9cfc6beeb1f79b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 15/17] fix: the convex test finds separated spheres and
 terminates near contact

---
 lib/intersect_gjk.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..66ed9aa 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -19,30 +19,30 @@ fn support(a: &dyn IShape, b: &dyn IShape, v: &Mat3x1<f64>) -> Option<Mat3x1<f64
 
 fn pass_minkowski_origin(last_vert: &Mat3x1<f64>, support: &Mat3x1<f64>) -> bool {
     // println!( "last vert dot product: {}", last_vert.dot( &support ).unwrap() );
-    last_vert.dot(&support).unwrap() > 0f64
+    last_vert.dot(&support).unwrap() >= 0f64
 }
 
 fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x1<f64>) -> bool {
     let a = simplex.last().unwrap().clone();
     let ao = a.scale(-1f64).unwrap();
     if simplex.len() == 3 {
-        //triangle case
+        //triangle case, the last vertex lies in the direction of support from the other two
         let b = simplex[1];
         let c = simplex[0];
         let ab = b.minus(&a).unwrap();
         let ac = c.minus(&a).unwrap();
-        let ab_normal = ac.cross(&ab).unwrap().cross(&ab).unwrap();
-        let ac_normal = ab.cross(&ac).unwrap().cross(&ac).unwrap();
+        let ab_normal = ab.cross(&*support).unwrap().cross(&ab).unwrap();
+        let ac_normal = ac.cross(&*support).unwrap().cross(&ac).unwrap();
         if ab_normal.dot(&ao).unwrap() > 0f64 {
             //remove c and set new direction to ab_normal
             let simplex_new = vec![simplex[1], simplex[2]];
             *simplex = simplex_new;
-            *support = ab_normal.clone();
+            *support = ab_normal.normalize().unwrap();
         } else if ac_normal.dot(&ao).unwrap() > 0f64 {
             //remove b and set new direction to ac_normal
             let simplex_new = vec![simplex[0], simplex[2]];
             *simplex = simplex_new.clone();
-            *support = ac_normal.clone();
+            *support = ac_normal.normalize().unwrap();
         } else {
             //minkowski origin is enclosed by the triangle
             return true;
@@ -52,11 +52,11 @@ fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x
         //set direction towards minkowski origin
         let b = simplex[0];
         let ab = b.minus(&a).unwrap();
-        let ab_normal = ab.cross(&ao).unwrap().cross(&ao).unwrap();
+        let ab_normal = ab.cross(&ao).unwrap().cross(&ab).unwrap();
         if ab_normal.magnitude().unwrap() == 0f64 {
             return true;
         } else {
-            *support = ab_normal.clone();
+            *support = ab_normal.normalize().unwrap();
         }
     }
     return false;
@@ -79,11 +79,15 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     let mut simplex = vec![];
     {
         let sup = support(a, b, &d).unwrap();
+        if !pass_minkowski_origin(&sup, &d) {
+            return Some(false);
+        }
         simplex.push(sup);
     }
 
     d = d.scale(-1f64).unwrap();
-    loop {
+    //every step at least halves the arc between the vertices next to the origin
+    for _ in 0..64 {
         // println!( "support vector: {:?}", d );
         {
             let sup = support(a, b, &d).unwrap();
@@ -100,4 +104,6 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
             }
         }
     }
+    //the shapes touch up to rounding
+    Some(true)
 }
-- 
2.43.0


From cdda6ab7fbb0520697a5173dac7b8bb4c7bce2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 16/17] fix: exact bounds do not reject points and rays that
 meet within the vicinity

---
 lib/point.rs | 7 ++++++-
 lib/ray.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/point.rs b/lib/point.rs
index aafc3ce..f6666ee 100644
--- a/lib/point.rs
+++ b/lib/point.rs
@@ -37,7 +37,12 @@ impl IShape for Point3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        let has_tolerance = match other.get_type() {
+            //these are compared up to the vicinity, which the exact bounds do not know
+            ShapeType::Point | ShapeType::Ray => true,
+            _ => false,
+        };
+        if !has_tolerance && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
diff --git a/lib/ray.rs b/lib/ray.rs
index 0fd88d0..8c406dd 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -52,7 +52,12 @@ impl IShape for Ray3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        let has_tolerance = match other.get_type() {
+            //these are compared up to the vicinity, which the exact bounds do not know
+            ShapeType::Point | ShapeType::Ray => true,
+            _ => false,
+        };
+        if !has_tolerance && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
-- 
2.43.0


From 6c53c2dcee3d406fd12e8187f76ba1901902960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:14 +0000
Subject: [PATCH 17/17] fix: two concentric spheres of zero radius met at a NaN
 location

The split of the centre distance divides the radius by the sum of the radii,
which is 0/0 when both are zero.
---
 lib/sphere.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 69ab8ce..bd57dfa 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -62,7 +62,11 @@ impl IShape for Sphere {
                         return (false, None);
                     } else {
                         //calculate a mid point average
-                        let f = a_r / (a_r + b_r);
+                        let f = if a_r + b_r > 0f64 {
+                            a_r / (a_r + b_r)
+                        } else {
+                            0f64
+                        };
                         let g = c.scale(f).unwrap();
                         return (true, Some(a_off.plus(&g).unwrap()));
                     }
-- 
2.43.0

