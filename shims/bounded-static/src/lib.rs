//! Stand-in for the `bounded-static` crate (offline sandbox): the same two traits.
use std::borrow::Cow;

#[cfg(feature = "derive")]
pub use bounded_static_derive::ToStatic;

pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}

pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}

macro_rules! copy_impl { ($($t:ty),*) => { $(
    impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { *self } }
    impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
)* } }
copy_impl!(bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, ());
copy_impl!(std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64);

impl ToBoundedStatic for String { type Static = String; fn to_static(&self) -> String { self.clone() } }
impl IntoBoundedStatic for String { type Static = String; fn into_static(self) -> String { self } }
impl ToBoundedStatic for &'static str { type Static = &'static str; fn to_static(&self) -> &'static str { self } }

impl<T: ?Sized + 'static + ToOwned> ToBoundedStatic for Cow<'_, T>
where
    T::Owned: 'static,
{
    type Static = Cow<'static, T>;
    fn to_static(&self) -> Self::Static { Cow::Owned(self.clone().into_owned()) }
}
impl<T: ?Sized + 'static + ToOwned> IntoBoundedStatic for Cow<'_, T>
where
    T::Owned: 'static,
{
    type Static = Cow<'static, T>;
    fn into_static(self) -> Self::Static { Cow::Owned(self.into_owned()) }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn to_static(&self) -> Self::Static { self.as_ref().map(T::to_static) }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn into_static(self) -> Self::Static { self.map(T::into_static) }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Vec<T> {
    type Static = Vec<T::Static>;
    fn to_static(&self) -> Self::Static { self.iter().map(T::to_static).collect() }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec<T> {
    type Static = Vec<T::Static>;
    fn into_static(self) -> Self::Static { self.into_iter().map(T::into_static).collect() }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn to_static(&self) -> Self::Static { Box::new((**self).to_static()) }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn into_static(self) -> Self::Static { Box::new((*self).into_static()) }
}
impl<T: ToBoundedStatic, E: ToBoundedStatic> ToBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn to_static(&self) -> Self::Static {
        match self { Ok(x) => Ok(x.to_static()), Err(e) => Err(e.to_static()) }
    }
}
impl<T: IntoBoundedStatic, E: IntoBoundedStatic> IntoBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn into_static(self) -> Self::Static { self.map(T::into_static).map_err(E::into_static) }
}
impl<A: ToBoundedStatic, B: ToBoundedStatic> ToBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn to_static(&self) -> Self::Static { (self.0.to_static(), self.1.to_static()) }
}
impl<A: IntoBoundedStatic, B: IntoBoundedStatic> IntoBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn into_static(self) -> Self::Static { (self.0.into_static(), self.1.into_static()) }
}
