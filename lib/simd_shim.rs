pub mod simd {
    pub struct LaneCount<const N: usize>;
    pub trait SupportedLaneCount {}
    impl<const N: usize> SupportedLaneCount for LaneCount<N> {}
    #[derive(Clone, Copy, Debug)]
    pub struct Simd<T, const N: usize>(pub [T; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct Mask<const N: usize>(pub [bool; N]);
    pub trait CastTo<U> { fn cast_to(self) -> U; }
    macro_rules! casts { ($($a:ty => $($b:ty),*;)*) => { $($(impl CastTo<$b> for $a { fn cast_to(self) -> $b { self as $b } })*)* } }
    casts! {
        f32 => f32, i32, u32, f64, i64, u64; i32 => f32, i32, u32, i64, u64; u32 => f32, i32, u32, i64, u64;
        f64 => f64, i64, u64, f32, i32, u32; i64 => f64, i64, u64, i32, u32; u64 => f64, i64, u64, i32, u32;
    }
    fn zip<A: Copy, B: Copy, C, const N: usize>(a: [A; N], b: [B; N], f: impl Fn(A, B) -> C) -> [C; N] {
        std::array::from_fn(|i| f(a[i], b[i]))
    }
    impl<T: Copy, const N: usize> Simd<T, N> {
        pub fn splat(t: T) -> Self { Simd([t; N]) }
        pub fn cast<U>(self) -> Simd<U, N> where T: CastTo<U> { Simd(self.0.map(|x| x.cast_to())) }
    }
    impl<T: Copy + PartialOrd, const N: usize> Simd<T, N> {
        pub fn lanes_eq(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a == b)) }
        pub fn lanes_ne(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a != b)) }
        pub fn lanes_lt(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a < b)) }
        pub fn lanes_le(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a <= b)) }
        pub fn lanes_gt(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a > b)) }
        pub fn lanes_ge(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a >= b)) }
    }
    impl<const N: usize> std::ops::BitAnd for Mask<N> { type Output = Self; fn bitand(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a & b)) } }
    impl<const N: usize> std::ops::BitOr for Mask<N> { type Output = Self; fn bitor(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a | b)) } }
    impl<const N: usize> std::ops::BitXor for Mask<N> { type Output = Self; fn bitxor(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a ^ b)) } }
    impl<const N: usize> std::ops::Not for Mask<N> { type Output = Self; fn not(self) -> Self { Mask(self.0.map(|a| !a)) } }
    impl<const N: usize> Mask<N> {
        pub fn select<T: Copy>(self, a: Simd<T, N>, b: Simd<T, N>) -> Simd<T, N> {
            Simd(std::array::from_fn(|i| if self.0[i] { a.0[i] } else { b.0[i] }))
        }
    }
    macro_rules! ops { ($($tr:ident $f:ident $op:tt : $($t:ty),*;)*) => { $($(
        impl<const N: usize> std::ops::$tr for Simd<$t, N> { type Output = Self; fn $f(self, o: Self) -> Self { Simd(zip(self.0, o.0, |a, b| a $op b)) } }
    )*)* } }
    ops! {
        Mul mul * : f32, f64; Div div / : f32, f64, i32, u32, i64, u64; Rem rem % : f32, f64, i32, u32, i64, u64;
        BitAnd bitand & : i32, u32, i64, u64; BitOr bitor | : i32, u32, i64, u64; BitXor bitxor ^ : i32, u32, i64, u64;
        Add add + : f32, f64; Sub sub - : f32, f64;
    }
    macro_rules! wops { ($($tr:ident $f:ident $w:ident : $($t:ty),*;)*) => { $($(
        impl<const N: usize> std::ops::$tr for Simd<$t, N> { type Output = Self; fn $f(self, o: Self) -> Self { Simd(zip(self.0, o.0, |a, b| a.$w(b as _))) } }
    )*)* } }
    wops! {
        Add add wrapping_add : i32, u32, i64, u64; Sub sub wrapping_sub : i32, u32, i64, u64; Mul mul wrapping_mul : i32, u32, i64, u64;
        Shl shl wrapping_shl : i32, u32, i64, u64; Shr shr wrapping_shr : i32, u32, i64, u64;
    }
    macro_rules! negs { ($($t:ty),*) => { $( impl<const N: usize> std::ops::Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| -a)) } } )* } }
    negs!(f32, f64);
    macro_rules! nots { ($($t:ty),*) => { $( impl<const N: usize> std::ops::Not for Simd<$t, N> { type Output = Self; fn not(self) -> Self { Simd(self.0.map(|a| !a)) } } )* } }
    nots!(i32, u32, i64, u64);
    macro_rules! inegs { ($($t:ty),*) => { $( impl<const N: usize> std::ops::Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| a.wrapping_neg())) } } )* } }
    inegs!(i32, i64);
    macro_rules! assigns { ($($tr:ident $f:ident $op:tt : $($t:ty),*;)*) => { $($(
        impl<const N: usize> std::ops::$tr for Simd<$t, N> { fn $f(&mut self, o: Self) { *self = *self $op o } }
    )*)* } }
    assigns! {
        AddAssign add_assign + : f32, f64, i32, u32, i64, u64; SubAssign sub_assign - : f32, f64, i32, u32, i64, u64;
        MulAssign mul_assign * : f32, f64, i32, u32, i64, u64; DivAssign div_assign / : f32, f64, i32, u32, i64, u64; RemAssign rem_assign % : f32, f64, i32, u32, i64, u64;
        BitAndAssign bitand_assign & : i32, u32, i64, u64; BitOrAssign bitor_assign | : i32, u32, i64, u64; BitXorAssign bitxor_assign ^ : i32, u32, i64, u64;
        ShlAssign shl_assign << : i32, u32, i64, u64; ShrAssign shr_assign >> : i32, u32, i64, u64;
    }
    macro_rules! floats { ($($f:ty, $u:ty;)*) => { $(
        impl<const N: usize> Simd<$f, N> {
            pub fn from_bits(u: Simd<$u, N>) -> Self { Simd(u.0.map(<$f>::from_bits)) }
            pub fn to_bits(self) -> Simd<$u, N> { Simd(self.0.map(|x| x.to_bits())) }
            pub fn abs(self) -> Self { Simd(self.0.map(|x| x.abs())) }
            pub fn recip(self) -> Self { Simd(self.0.map(|x| x.recip())) }
            pub fn sqrt(self) -> Self { Simd(self.0.map(|x| x.sqrt())) }
            pub fn copysign(self, o: Self) -> Self { Simd(zip(self.0, o.0, |a, b| a.copysign(b))) }
            pub fn mul_add(self, m: Self, a: Self) -> Self { Simd(std::array::from_fn(|i| self.0[i].mul_add(m.0[i], a.0[i]))) }
        }
    )* } }
    floats! { f32, u32; f64, u64; }
}
pub trait StdFloat {}
