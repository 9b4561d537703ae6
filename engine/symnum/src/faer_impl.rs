use crate::sym::{lit, Sym};
use faer_entity::*;
use pulp::Simd;

type U<'a> = &'a [Sym];
unsafe impl Entity for Sym {
    type Unit = Sym;
    type Index = u64;
    type SimdUnit<S: Simd> = Sym;
    type SimdMask<S: Simd> = bool;
    type SimdIndex<S: Simd> = u64;
    type Group = IdentityGroup;
    type Iter<I: Iterator> = I;
    type PrefixUnit<'a, S: Simd> = U<'a>;
    type SuffixUnit<'a, S: Simd> = U<'a>;
    type PrefixMutUnit<'a, S: Simd> = &'a mut [Sym];
    type SuffixMutUnit<'a, S: Simd> = &'a mut [Sym];
    const N_COMPONENTS: usize = 1;
    const UNIT: GroupFor<Self, ()> = ();
    fn faer_first<T>(g: GroupFor<Self, T>) -> T {
        g
    }
    fn faer_from_units(g: GroupFor<Self, UnitFor<Self>>) -> Self {
        g
    }
    fn faer_into_units(self) -> GroupFor<Self, UnitFor<Self>> {
        self
    }
    fn faer_as_ref<T>(g: &GroupFor<Self, T>) -> GroupFor<Self, &T> {
        g
    }
    fn faer_as_mut<T>(g: &mut GroupFor<Self, T>) -> GroupFor<Self, &mut T> {
        g
    }
    fn faer_as_ptr<T>(g: *mut GroupFor<Self, T>) -> GroupFor<Self, *mut T> {
        g
    }
    fn faer_map_impl<T, V>(g: GroupFor<Self, T>, f: &mut impl FnMut(T) -> V) -> GroupFor<Self, V> {
        (*f)(g)
    }
    fn faer_map_with_context<Ctx, T, V>(
        ctx: Ctx,
        g: GroupFor<Self, T>,
        f: &mut impl FnMut(Ctx, T) -> (Ctx, V),
    ) -> (Ctx, GroupFor<Self, V>) {
        (*f)(ctx, g)
    }
    fn faer_zip<T, V>(a: GroupFor<Self, T>, b: GroupFor<Self, V>) -> GroupFor<Self, (T, V)> {
        (a, b)
    }
    fn faer_unzip<T, V>(z: GroupFor<Self, (T, V)>) -> (GroupFor<Self, T>, GroupFor<Self, V>) {
        z
    }
    fn faer_into_iter<I: IntoIterator>(iter: GroupFor<Self, I>) -> Self::Iter<I::IntoIter> {
        iter.into_iter()
    }
}
unsafe impl Conjugate for Sym {
    type Conj = Sym;
    type Canonical = Sym;
    fn canonicalize(self) -> Sym {
        self
    }
}
impl ComplexField for Sym {
    type Real = Sym;
    type Simd = NoSimd;
    type ScalarSimd = NoSimd;
    type PortableSimd = NoSimd;
    fn faer_from_f64(v: f64) -> Sym {
        lit(v)
    }
    fn faer_add(self, r: Sym) -> Sym {
        self + r
    }
    fn faer_sub(self, r: Sym) -> Sym {
        self - r
    }
    fn faer_mul(self, r: Sym) -> Sym {
        self * r
    }
    fn faer_neg(self) -> Sym {
        -self
    }
    fn faer_inv(self) -> Sym {
        self.recip()
    }
    fn faer_conj(self) -> Sym {
        self
    }
    fn faer_sqrt(self) -> Sym {
        Sym::sqrt(self)
    }
    fn faer_scale_real(self, r: Sym) -> Sym {
        self * r
    }
    fn faer_scale_power_of_two(self, r: Sym) -> Sym {
        self * r
    }
    fn faer_score(self) -> Sym {
        Sym::abs(self)
    }
    fn faer_abs(self) -> Sym {
        Sym::abs(self)
    }
    fn faer_abs2(self) -> Sym {
        self * self
    }
    fn faer_nan() -> Sym {
        Sym::NAN
    }
    fn faer_is_nan(&self) -> bool {
        Sym::is_nan(*self)
    }
    fn faer_is_finite(&self) -> bool {
        Sym::is_finite(*self)
    }
    fn faer_from_real(r: Sym) -> Sym {
        r
    }
    fn faer_real(self) -> Sym {
        self
    }
    fn faer_imag(self) -> Sym {
        lit(0.0)
    }
    fn faer_zero() -> Sym {
        lit(0.0)
    }
    fn faer_one() -> Sym {
        lit(1.0)
    }
    fn faer_align_offset<S: Simd>(_: S, _: *const Sym, len: usize) -> pulp::Offset<bool> {
        pulp::Offset::unaligned(len)
    }
    fn faer_slice_as_aligned_simd<S: Simd>(_: S, s: &[Sym], _: pulp::Offset<bool>) -> (U<'_>, &[Sym], U<'_>) {
        (&[], s, &[])
    }
    fn faer_slice_as_aligned_simd_mut<S: Simd>(
        _: S,
        s: &mut [Sym],
        _: pulp::Offset<bool>,
    ) -> (&mut [Sym], &mut [Sym], &mut [Sym]) {
        (&mut [], s, &mut [])
    }
    fn faer_slice_as_simd<S: Simd>(s: &[Sym]) -> (&[Sym], &[Sym]) {
        (s, &[])
    }
    fn faer_slice_as_simd_mut<S: Simd>(s: &mut [Sym]) -> (&mut [Sym], &mut [Sym]) {
        (s, &mut [])
    }
    fn faer_partial_load_unit<S: Simd>(_: S, s: &[Sym]) -> Sym {
        s.first().copied().unwrap_or(lit(0.0))
    }
    fn faer_partial_store_unit<S: Simd>(_: S, s: &mut [Sym], v: Sym) {
        if let Some(x) = s.first_mut() {
            *x = v
        }
    }
    fn faer_partial_load_last_unit<S: Simd>(_: S, s: &[Sym]) -> Sym {
        s.last().copied().unwrap_or(lit(0.0))
    }
    fn faer_partial_store_last_unit<S: Simd>(_: S, s: &mut [Sym], v: Sym) {
        if let Some(x) = s.last_mut() {
            *x = v
        }
    }
    fn faer_simd_splat_unit<S: Simd>(_: S, u: Sym) -> Sym {
        u
    }
    fn faer_simd_scalar_mul<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a * b
    }
    fn faer_simd_scalar_conj_mul<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a * b
    }
    fn faer_simd_scalar_mul_adde<S: Simd>(_: S, a: Sym, b: Sym, c: Sym) -> Sym {
        a * b + c
    }
    fn faer_simd_scalar_conj_mul_adde<S: Simd>(_: S, a: Sym, b: Sym, c: Sym) -> Sym {
        a * b + c
    }
    fn faer_simd_neg<S: Simd>(_: S, v: Sym) -> Sym {
        -v
    }
    fn faer_simd_conj<S: Simd>(_: S, v: Sym) -> Sym {
        v
    }
    fn faer_simd_rotate_left<S: Simd>(_: S, v: Sym, _: usize) -> Sym {
        v
    }
    fn faer_simd_add<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a + b
    }
    fn faer_simd_sub<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a - b
    }
    fn faer_simd_mul<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a * b
    }
    fn faer_simd_scale_real<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a * b
    }
    fn faer_simd_conj_mul<S: Simd>(_: S, a: Sym, b: Sym) -> Sym {
        a * b
    }
    fn faer_simd_mul_adde<S: Simd>(_: S, a: Sym, b: Sym, c: Sym) -> Sym {
        a * b + c
    }
    fn faer_simd_conj_mul_adde<S: Simd>(_: S, a: Sym, b: Sym, c: Sym) -> Sym {
        a * b + c
    }
    fn faer_simd_abs2_adde<S: Simd>(_: S, v: Sym, a: Sym) -> Sym {
        v * v + a
    }
    fn faer_simd_abs2<S: Simd>(_: S, v: Sym) -> Sym {
        v * v
    }
    fn faer_simd_score<S: Simd>(_: S, v: Sym) -> Sym {
        Sym::abs(v)
    }
    fn faer_simd_reduce_add<S: Simd>(_: S, v: Sym) -> Sym {
        v
    }
}
impl RealField for Sym {
    fn faer_epsilon() -> Sym {
        Sym::EPSILON
    }
    fn faer_zero_threshold() -> Sym {
        Sym::MIN_POSITIVE
    }
    fn faer_min_positive() -> Sym {
        Sym::MIN_POSITIVE
    }
    fn faer_min_positive_inv() -> Sym {
        Sym::MIN_POSITIVE.recip()
    }
    fn faer_min_positive_sqrt() -> Sym {
        lit(f64::MIN_POSITIVE.sqrt())
    }
    fn faer_min_positive_sqrt_inv() -> Sym {
        lit(f64::MIN_POSITIVE.sqrt()).recip()
    }
    fn faer_div(self, r: Sym) -> Sym {
        self / r
    }
    fn faer_usize_to_index(a: usize) -> u64 {
        a as u64
    }
    fn faer_index_to_usize(a: u64) -> usize {
        a as usize
    }
    fn faer_max_index() -> u64 {
        u64::MAX
    }
    fn faer_simd_less_than<S: Simd>(_: S, a: Sym, b: Sym) -> bool {
        a < b
    }
    fn faer_simd_less_than_or_equal<S: Simd>(_: S, a: Sym, b: Sym) -> bool {
        a <= b
    }
    fn faer_simd_greater_than<S: Simd>(_: S, a: Sym, b: Sym) -> bool {
        a > b
    }
    fn faer_simd_greater_than_or_equal<S: Simd>(_: S, a: Sym, b: Sym) -> bool {
        a >= b
    }
    fn faer_simd_select<S: Simd>(_: S, m: bool, a: Sym, b: Sym) -> Sym {
        if m {
            a
        } else {
            b
        }
    }
    fn faer_simd_index_select<S: Simd>(_: S, m: bool, a: u64, b: u64) -> u64 {
        if m {
            a
        } else {
            b
        }
    }
    fn faer_simd_index_seq<S: Simd>(_: S) -> u64 {
        0
    }
    fn faer_simd_index_splat<S: Simd>(_: S, v: u64) -> u64 {
        v
    }
    fn faer_simd_index_add<S: Simd>(_: S, a: u64, b: u64) -> u64 {
        a.wrapping_add(b)
    }
    fn faer_simd_index_rotate_left<S: Simd>(_: S, v: u64, _: usize) -> u64 {
        v
    }
    fn faer_simd_abs<S: Simd>(_: S, v: Sym) -> Sym {
        Sym::abs(v)
    }
}
