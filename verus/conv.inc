// ---------------------------------------------------------------- stubs: std's From and Into, with what a conversion means
trait From<T>: Sized {
    spec fn made(v: T) -> Self;
    fn from(value: T) -> (r: Self) ensures r == Self::made(value);
}
trait Into<U>: Sized {
    spec fn into_made(self) -> U;
    fn into_(self) -> (r: U) ensures r == self.into_made();
}
impl<T, U: From<T>> Into<U> for T {
    spec fn into_made(self) -> U { U::made(self) }
    fn into_(self) -> (r: U) { U::from(self) }
}
