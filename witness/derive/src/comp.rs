//! Component parsers with no behaviour of their own: the analysis treats each as an arbitrary parser.
use nommy::{eyre, Buffer, Parse};
macro_rules! components {
    ($($n:ident)*) => {$(
        pub struct $n;
        impl<T> Parse<T> for $n {
            fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
                loop {}
            }
        }
    )*};
}
components! { A B C D E F G H I J K L M N O P Q R S U V W Z }
/// component parsers that take arguments
pub struct Pair<X, Y>(X, Y);
impl<T, X, Y> Parse<T> for Pair<X, Y> {
    fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
        loop {}
    }
}
