//! Stands in for clap: every switch is what the world says.
pub use clap_derive::Parser;
pub trait Parser: Sized {
    fn parse() -> Self;
}
/// How a field of the arguments gets its value.
pub trait Field: Sized {
    fn field() -> Self;
}
impl Field for bool {
    fn field() -> bool {
        world::get().verbose
    }
}
