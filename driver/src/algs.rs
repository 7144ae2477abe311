//! Declared algebras together with the signature they were declared with.
use tclifford::algebra::ClAlgebra;


pub trait DA: ClAlgebra + 'static {
    const NAME: &'static str;
    const SIG: &'static [i8];
    fn d() -> usize {
        Self::SIG.len()
    }
    fn full() -> usize {
        (1usize << Self::SIG.len()) - 1
    }
}
#[macro_export]
macro_rules! sg {
    (+) => {
        1
    };
    (-) => {
        -1
    };
    (0) => {
        0
    };
}
#[macro_export]
macro_rules! alg {
    ($n:ident, $($s:tt),+) => {
        tclifford::declare_algebra!(pub $n, [$($s),+], []);
        impl $crate::DA for $n {
            const NAME: &'static str = concat!(stringify!($n), "[", $(stringify!($s)),+, "]");
            const SIG: &'static [i8] = &[$($crate::sg!($s)),+];
        }
    };
}
alg!(A1p, +);
alg!(A1m, -);
alg!(A1z, 0);
alg!(A2pm, +, -);
alg!(A2mp, -, +);
alg!(A2mm, -, -);
alg!(A2p0, +, 0);
alg!(A2zz, 0, 0);
alg!(A3ppp, +, +, +);
alg!(A3pm0, +, -, 0);
alg!(A3mpm, -, +, -);
alg!(A4st, +, -, -, -);
alg!(A4pga, +, +, +, 0);
alg!(A4split, +, -, +, -);
alg!(A4mp00, -, +, 0, 0);
alg!(A5a, +, -, +, 0, 0);
alg!(A5b, +, +, -, -, +);
alg!(A5m, -, -, -, -, -);
alg!(A6a, +, +, -, +, -, 0);
alg!(A6z, 0, 0, 0, 0, 0, 0);
alg!(A6split, +, -, +, -, +, -);
alg!(A6b, -, +, +, -, +, +);
alg!(A7a, +, -, +, +, -, +, -);
alg!(A7b, +, +, -, -, +, 0, 0);
alg!(A8p, +, +, +, +, +, +, +, +);
alg!(A8a, -, +, -, +, +, -, 0, 0);
alg!(A9a, +, -, -, +, +, -, +, 0, 0);
alg!(A10a, -, +, -, +, +, -, +, +, -, 0);
alg!(A16a, +, -, +, +, -, -, +, -, +, -, +, -, -, +, 0, 0);
alg!(A20a, -, +, +, -, +, -, +, +, -, -, +, -, +, -, +, -, -, +, 0, 0);
alg!(A33a, -, +, +, -, +, -, +, +, -, -, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, -, +, 0);
alg!(A40a, +, +, +, -, +, -, +, +, -, -, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, -, +, +, -, +, -, -, +, 0, 0);
alg!(A62a, -, +, +, -, +, -, +, +, -, -, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, +, +, -, +, -, -, +, -, +, -, -, +, +, -, +, -, -, -);
alg!(A63a, +, -, -, +, -, +, -, +, +, -, -, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, -, +, +, -, +, -, -, +, +, -, +, -, +, -, +, +, -, +, -, -, +, -, +, -, -, +, +, -, +, -, 0, 0);

/// call `$m!(A)` for every algebra of a list
#[macro_export]
macro_rules! for_algs {
    (tiny, $m:ident) => { $crate::for_algs!(@ $m A1p A1m A1z A2pm A2mm A2p0 A3ppp A3pm0 A4st); };
    (dense, $m:ident) => { $crate::for_algs!(@ $m
        A1p A1m A1z A2pm A2mp A2mm A2p0 A2zz A3ppp A3pm0 A3mpm A4st A4pga A4split A4mp00 A5a A5b A5m A6a A6z A6split A6b A7a A7b A8p A8a A9a); };
    (some, $m:ident) => { $crate::for_algs!(@ $m
        A1z A2pm A2mm A3pm0 A3mpm A4pga A4split A5a A5b A6a A6b A7a A8a); };
    (big, $m:ident) => { $crate::for_algs!(@ $m A10a A16a A20a A33a A40a A62a A63a); };
    (@ $m:ident $($a:ident)*) => { $( $m!($a); )* };
}
