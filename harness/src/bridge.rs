//! Uniform view of the concrete vector, matrix and quaternion types (values cross as f64).
use mazth::i_comparable::IComparableError;
use mazth::mat::*;
use mazth::quat::Quat;

pub trait VecT: Copy {
    const N: usize;
    const EPS: f64;
    const NAME: &'static str;
    type T: VecT;
    fn r(x: f64) -> f64;
    fn mk(v: &[f64]) -> Self;
    fn at(&self, i: usize) -> f64;
    fn put(&mut self, i: usize, x: f64);
    fn v_add(&self, o: &Self) -> Option<Self>;
    fn v_sub(&self, o: &Self) -> Option<Self>;
    fn v_mul(&self, o: &Self) -> Option<Self>;
    fn v_div(&self, o: &Self) -> Option<Self>;
    fn v_scale(&self, s: f64) -> Option<Self>;
    fn v_dot(&self, o: &Self) -> Option<f64>;
    fn v_cross(&self, o: &Self) -> Option<Self>;
    fn v_mag(&self) -> Option<f64>;
    fn v_norm(&self) -> Option<Self>;
    fn v_tr(&self) -> Self::T;
    fn v_eq(&self, o: &Self, t: f64) -> Option<bool>;
    fn v_size(&self) -> Option<usize>;
    fn v_zero() -> Self;
    fn list(&self) -> Vec<f64> {
        (0..Self::N).map(|i| self.at(i)).collect()
    }
}
macro_rules! vec_impl {
    ($ty:ident, $tr:ident, $s:ty, $n:expr, $name:expr) => {
        impl VecT for $ty<$s> {
            const N: usize = $n;
            const EPS: f64 = <$s>::EPSILON as f64;
            const NAME: &'static str = $name;
            type T = $tr<$s>;
            fn r(x: f64) -> f64 {
                x as $s as f64
            }
            fn mk(v: &[f64]) -> Self {
                let mut a = [0 as $s; $n];
                for i in 0..$n {
                    a[i] = v[i] as $s;
                }
                $ty { _val: a }
            }
            fn at(&self, i: usize) -> f64 {
                self[i] as f64
            }
            fn put(&mut self, i: usize, x: f64) {
                self[i] = x as $s
            }
            fn v_add(&self, o: &Self) -> Option<Self> {
                self.plus(o)
            }
            fn v_sub(&self, o: &Self) -> Option<Self> {
                self.minus(o)
            }
            fn v_mul(&self, o: &Self) -> Option<Self> {
                self.mul_elem(o)
            }
            fn v_div(&self, o: &Self) -> Option<Self> {
                self.div(o)
            }
            fn v_scale(&self, s: f64) -> Option<Self> {
                self.scale(s as $s)
            }
            fn v_dot(&self, o: &Self) -> Option<f64> {
                self.dot(o).map(|x| x as f64)
            }
            fn v_cross(&self, o: &Self) -> Option<Self> {
                self.cross(o)
            }
            fn v_mag(&self) -> Option<f64> {
                self.magnitude().map(|x| x as f64)
            }
            fn v_norm(&self) -> Option<Self> {
                self.normalize()
            }
            fn v_tr(&self) -> Self::T {
                self.transpose()
            }
            fn v_eq(&self, o: &Self, t: f64) -> Option<bool> {
                self.is_equal(o, t as $s)
            }
            fn v_size(&self) -> Option<usize> {
                self.size()
            }
            fn v_zero() -> Self {
                Default::default()
            }
        }
    };
}
vec_impl!(Mat2x1, Mat1x2, f32, 2, "Mat2x1<f32>");
vec_impl!(Mat2x1, Mat1x2, f64, 2, "Mat2x1<f64>");
vec_impl!(Mat1x2, Mat2x1, f32, 2, "Mat1x2<f32>");
vec_impl!(Mat1x2, Mat2x1, f64, 2, "Mat1x2<f64>");
vec_impl!(Mat3x1, Mat1x3, f32, 3, "Mat3x1<f32>");
vec_impl!(Mat3x1, Mat1x3, f64, 3, "Mat3x1<f64>");
vec_impl!(Mat1x3, Mat3x1, f32, 3, "Mat1x3<f32>");
vec_impl!(Mat1x3, Mat3x1, f64, 3, "Mat1x3<f64>");
vec_impl!(Mat4x1, Mat1x4, f32, 4, "Mat4x1<f32>");
vec_impl!(Mat4x1, Mat1x4, f64, 4, "Mat4x1<f64>");
vec_impl!(Mat1x4, Mat4x1, f32, 4, "Mat1x4<f32>");
vec_impl!(Mat1x4, Mat4x1, f64, 4, "Mat1x4<f64>");

pub trait MatT: Copy {
    const N: usize;
    const EPS: f64;
    const NAME: &'static str;
    fn r(x: f64) -> f64;
    /// from a row-by-row listing
    fn mk(v: &[f64], row: bool) -> Self;
    fn at(&self, i: usize, j: usize) -> f64;
    fn put(&mut self, i: usize, j: usize, x: f64);
    fn row(&self) -> bool;
    fn m_add(&self, o: &Self) -> Option<Self>;
    fn m_sub(&self, o: &Self) -> Option<Self>;
    fn m_mule(&self, o: &Self) -> Option<Self>;
    fn m_dive(&self, o: &Self) -> Option<Self>;
    fn m_mul(&self, o: &Self) -> Option<Self>;
    fn m_col(&self, v: &[f64]) -> Option<Vec<f64>>;
    fn m_row(&self, v: &[f64]) -> Option<Vec<f64>>;
    fn m_scale(&self, s: f64) -> Option<Self>;
    fn m_trace(&self) -> f64;
    fn m_tself(&mut self);
    fn m_t(&self) -> Self;
    fn m_norm(&self) -> Option<Self>;
    /// upper-left 3x3 as row-by-row listing and its layout flag
    fn m_sub3(&self) -> Option<(Vec<f64>, bool)>;
    fn m_inv(&self) -> Option<Self>;
    fn m_dot_none(&self, o: &Self) -> bool;
    fn m_cross_none(&self, o: &Self) -> bool;
    fn m_eq(&self, o: &Self, t: f64) -> Option<bool>;
    fn m_size(&self) -> Option<usize>;
    fn m_zero() -> Self;
    fn m_iden() -> Self;
    fn list(&self) -> Vec<f64> {
        let mut v = vec![];
        for i in 0..Self::N {
            for j in 0..Self::N {
                v.push(self.at(i, j))
            }
        }
        v
    }
}
macro_rules! mat_impl {
    ($ty:ident, $s:ty, $n:expr, $col:ident, $rowv:ident, $mulv:ident, $vmul:ident, $sub3:expr, $name:expr) => {
        impl MatT for $ty<$s> {
            const N: usize = $n;
            const EPS: f64 = <$s>::EPSILON as f64;
            const NAME: &'static str = $name;
            fn r(x: f64) -> f64 {
                x as $s as f64
            }
            fn mk(v: &[f64], row: bool) -> Self {
                let mut a = [0 as $s; $n * $n];
                for i in 0..$n * $n {
                    a[i] = v[i] as $s;
                }
                $ty::<$s>::init(a, row)
            }
            fn at(&self, i: usize, j: usize) -> f64 {
                self.index(i as u64, j as u64) as f64
            }
            fn put(&mut self, i: usize, j: usize, x: f64) {
                *self.index_mut(i as u64, j as u64) = x as $s
            }
            fn row(&self) -> bool {
                self._is_row_major
            }
            fn m_add(&self, o: &Self) -> Option<Self> {
                self.plus(o)
            }
            fn m_sub(&self, o: &Self) -> Option<Self> {
                self.minus(o)
            }
            fn m_mule(&self, o: &Self) -> Option<Self> {
                self.mul_elem(o)
            }
            fn m_dive(&self, o: &Self) -> Option<Self> {
                self.div(o)
            }
            fn m_mul(&self, o: &Self) -> Option<Self> {
                self.mul(o)
            }
            fn m_col(&self, v: &[f64]) -> Option<Vec<f64>> {
                self.$mulv(&$col::<$s>::mk(v)).map(|x| x.list())
            }
            fn m_row(&self, v: &[f64]) -> Option<Vec<f64>> {
                $rowv::<$s>::mk(v).$vmul(self).map(|x| x.list())
            }
            fn m_scale(&self, s: f64) -> Option<Self> {
                self.scale(s as $s)
            }
            fn m_trace(&self) -> f64 {
                self.trace() as f64
            }
            fn m_tself(&mut self) {
                self.transpose_self()
            }
            fn m_t(&self) -> Self {
                self.transpose()
            }
            fn m_norm(&self) -> Option<Self> {
                self.normalize()
            }
            fn m_sub3(&self) -> Option<(Vec<f64>, bool)> {
                $sub3(self)
            }
            fn m_inv(&self) -> Option<Self> {
                self.inverse()
            }
            fn m_dot_none(&self, o: &Self) -> bool {
                self.dot(o).is_none()
            }
            fn m_cross_none(&self, o: &Self) -> bool {
                self.cross(o).is_none()
            }
            fn m_eq(&self, o: &Self, t: f64) -> Option<bool> {
                self.is_equal(o, t as $s)
            }
            fn m_size(&self) -> Option<usize> {
                self.size()
            }
            fn m_zero() -> Self {
                Default::default()
            }
            fn m_iden() -> Self {
                $ty::<$s>::iden()
            }
        }
    };
}
mat_impl!(Mat3, f32, 3, Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3, |_: &Mat3<f32>| None, "Mat3<f32>");
mat_impl!(Mat3, f64, 3, Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3, |_: &Mat3<f64>| None, "Mat3<f64>");
mat_impl!(Mat4, f32, 4, Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4, |m: &Mat4<f32>| {
    let s = m.submat_mat3();
    Some((s.list(), s.row()))
}, "Mat4<f32>");
mat_impl!(Mat4, f64, 4, Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4, |m: &Mat4<f64>| {
    let s = m.submat_mat3();
    Some((s.list(), s.row()))
}, "Mat4<f64>");

/// quaternion as [x, y, z, w]
pub type Q4 = [f64; 4];
pub trait QuatT: Copy {
    const EPS: f64;
    const NAME: &'static str;
    type M4: MatT;
    fn r(x: f64) -> f64;
    fn mk(q: Q4) -> Self;
    fn c(&self) -> Q4;
    fn q_init() -> Self;
    fn q_default() -> Self;
    fn q_mk_norm(q: Q4) -> Self;
    fn q_auto_w(v: [f64; 3]) -> Self;
    fn q_trans(v: [f64; 3]) -> Self;
    fn q_to_trans(&self, row: bool) -> Self::M4;
    fn q_to_rot(&self, row: bool) -> Self::M4;
    fn q_to_aa(&self) -> ([f64; 3], f64);
    fn q_from_deg(a: [f64; 3], t: f64) -> Self;
    fn q_from_rad(a: [f64; 3], t: f64) -> Self;
    fn q_rot(&self, v: [f64; 3]) -> [f64; 3];
    fn q_refl(&self, v: [f64; 3]) -> [f64; 3];
    fn q_par(&self, v: [f64; 3]) -> [f64; 3];
    fn q_ort(&self, v: [f64; 3]) -> [f64; 3];
    fn q_add(&self, o: Self) -> Self;
    fn q_sub(&self, o: Self) -> Self;
    fn q_mul(&self, o: Self) -> Self;
    fn q_len2(&self) -> f64;
    fn q_len(&self) -> f64;
    fn q_norm(&self) -> Self;
    fn q_ln(&self) -> Self;
    fn q_pow(&self, t: f64) -> Self;
    fn q_neg(&self) -> Self;
    fn q_conj(&self) -> Self;
    fn q_scale(&self, s: f64) -> Self;
    fn q_inv(&self) -> Self;
    fn q_lerp(a: Self, b: Self, t: f64) -> Self;
    fn q_slerp(a: Self, b: Self, t: f64) -> Self;
    /// (rotation part, translation part) of a dual quaternion built from the two
    fn q_dual(a: Self, b: Self) -> (Q4, Q4);
}
macro_rules! quat_impl {
    ($s:ty, $name:expr) => {
        impl QuatT for Quat<$s> {
            const EPS: f64 = <$s>::EPSILON as f64;
            const NAME: &'static str = $name;
            type M4 = Mat4<$s>;
            fn r(x: f64) -> f64 {
                x as $s as f64
            }
            fn mk(q: Q4) -> Self {
                Quat::<$s>::init_from_vals_raw(q[0] as $s, q[1] as $s, q[2] as $s, q[3] as $s)
            }
            fn c(&self) -> Q4 {
                [self._x as f64, self._y as f64, self._z as f64, self._w as f64]
            }
            fn q_init() -> Self {
                Quat::<$s>::init()
            }
            fn q_default() -> Self {
                Default::default()
            }
            fn q_mk_norm(q: Q4) -> Self {
                Quat::<$s>::init_from_vals_normalize(q[0] as $s, q[1] as $s, q[2] as $s, q[3] as $s)
            }
            fn q_auto_w(v: [f64; 3]) -> Self {
                Quat::<$s>::init_from_vals_auto_w(v[0] as $s, v[1] as $s, v[2] as $s)
            }
            fn q_trans(v: [f64; 3]) -> Self {
                Quat::<$s>::init_from_translation(Mat3x1::<$s>::mk(&v))
            }
            fn q_to_trans(&self, row: bool) -> Self::M4 {
                self.to_translation_matrix(row)
            }
            fn q_to_rot(&self, row: bool) -> Self::M4 {
                self.to_rotation_matrix(row)
            }
            fn q_to_aa(&self) -> ([f64; 3], f64) {
                let (a, t) = self.to_axis_angle();
                ([a.at(0), a.at(1), a.at(2)], t as f64)
            }
            fn q_from_deg(a: [f64; 3], t: f64) -> Self {
                Quat::<$s>::init_from_axis_angle_degree((Mat3x1::<$s>::mk(&a), t as $s))
            }
            fn q_from_rad(a: [f64; 3], t: f64) -> Self {
                Quat::<$s>::init_from_axis_angle_radian((Mat3x1::<$s>::mk(&a), t as $s))
            }
            fn q_rot(&self, v: [f64; 3]) -> [f64; 3] {
                let a = self.rotate_vector(Mat3x1::<$s>::mk(&v));
                [a.at(0), a.at(1), a.at(2)]
            }
            fn q_refl(&self, v: [f64; 3]) -> [f64; 3] {
                let a = self.reflection_in_plane(Mat3x1::<$s>::mk(&v));
                [a.at(0), a.at(1), a.at(2)]
            }
            fn q_par(&self, v: [f64; 3]) -> [f64; 3] {
                let a = self.parallel_component_of_plane(Mat3x1::<$s>::mk(&v));
                [a.at(0), a.at(1), a.at(2)]
            }
            fn q_ort(&self, v: [f64; 3]) -> [f64; 3] {
                let a = self.orthogonal_component_of_plane(Mat3x1::<$s>::mk(&v));
                [a.at(0), a.at(1), a.at(2)]
            }
            fn q_add(&self, o: Self) -> Self {
                self.add(o)
            }
            fn q_sub(&self, o: Self) -> Self {
                self.minus(o)
            }
            fn q_mul(&self, o: Self) -> Self {
                self.mul(o)
            }
            fn q_len2(&self) -> f64 {
                self.length_squared() as f64
            }
            fn q_len(&self) -> f64 {
                self.length() as f64
            }
            fn q_norm(&self) -> Self {
                self.normalize()
            }
            fn q_ln(&self) -> Self {
                self.ln()
            }
            fn q_pow(&self, t: f64) -> Self {
                self.pow(t as $s)
            }
            fn q_neg(&self) -> Self {
                self.negate()
            }
            fn q_conj(&self) -> Self {
                self.conjugate()
            }
            fn q_scale(&self, s: f64) -> Self {
                self.scale(s as $s)
            }
            fn q_inv(&self) -> Self {
                self.inverse()
            }
            fn q_lerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$s>::interpolate_linear(a, b, t as $s)
            }
            fn q_slerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$s>::interpolate_slerp(a, b, t as $s)
            }
            fn q_dual(a: Self, b: Self) -> (Q4, Q4) {
                let d = mazth::dualquat::DualQuat::<$s>::init(a, b);
                (d._rot.c(), d._tra.c())
            }
        }
    };
}
quat_impl!(f32, "Quat<f32>");
quat_impl!(f64, "Quat<f64>");

#[macro_export]
macro_rules! any_vec {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 12 {
            0 => $f::<mazth::mat::Mat2x1<f32>>($($a),*),
            1 => $f::<mazth::mat::Mat2x1<f64>>($($a),*),
            2 => $f::<mazth::mat::Mat1x2<f32>>($($a),*),
            3 => $f::<mazth::mat::Mat1x2<f64>>($($a),*),
            4 => $f::<mazth::mat::Mat3x1<f32>>($($a),*),
            5 => $f::<mazth::mat::Mat3x1<f64>>($($a),*),
            6 => $f::<mazth::mat::Mat1x3<f32>>($($a),*),
            7 => $f::<mazth::mat::Mat1x3<f64>>($($a),*),
            8 => $f::<mazth::mat::Mat4x1<f32>>($($a),*),
            9 => $f::<mazth::mat::Mat4x1<f64>>($($a),*),
            10 => $f::<mazth::mat::Mat1x4<f32>>($($a),*),
            _ => $f::<mazth::mat::Mat1x4<f64>>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! any_mat {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 4 {
            0 => $f::<mazth::mat::Mat3<f32>>($($a),*),
            1 => $f::<mazth::mat::Mat3<f64>>($($a),*),
            2 => $f::<mazth::mat::Mat4<f32>>($($a),*),
            _ => $f::<mazth::mat::Mat4<f64>>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! any_quat {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 2 {
            0 => $f::<mazth::quat::Quat<f32>>($($a),*),
            _ => $f::<mazth::quat::Quat<f64>>($($a),*),
        }
    };
}
