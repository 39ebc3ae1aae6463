//! component parsers; only their types matter
use nommy::{eyre, Buffer, Parse};
macro_rules! component {
    ($($n:ident)*) => {$(
        pub struct $n;
        impl Parse<char> for $n {
            fn parse(_input: &mut impl Buffer<char>) -> eyre::Result<Self> {
                loop {}
            }
        }
    )*};
}
component! { P Q }
#[derive(Clone, Copy)]
pub struct P2;
pub struct Two<A, B>(std::marker::PhantomData<(A, B)>);
impl<A, B> Parse<char> for Two<A, B> {
    fn parse(_input: &mut impl Buffer<char>) -> eyre::Result<Self> {
        loop {}
    }
}
pub trait Is {
    type It;
}
impl Is for P {
    type It = Q;
}
