//! References shared by the generated cases.
use crate::comp::*;
use nommy::{eyre, Buffer, Parse};
use std::convert::TryInto;

pub type Res<T> = eyre::Result<T>;
pub fn fail<T>() -> Res<T> {
    Err(eyre::eyre!("reference failure"))
}
/// an error about a part
pub fn fail_as<T>(what: &'static str) -> Res<T> {
    Err(eyre::Report::msg(what))
}
/// the failure of a part is reported as such
pub fn part<T>(r: Res<T>, what: &'static str) -> Res<T> {
    eyre::WrapErr::wrap_err(r, what)
}
/// a required part whose value is not kept
pub fn need<P: Parse<T>, T, B: Buffer<T>>(b: &mut B, what: &'static str) -> Res<()> {
    match P::parse(b) {
        Ok(_) => Ok(()),
        Err(_) => fail_as(what),
    }
}
/// ignorable input
pub trait Skip<T> {
    fn skip<B: Buffer<T>>(b: &mut B);
}
pub struct No;
pub struct One<I>(I);
pub struct Two<I, J>(I, J);
pub struct Three<I, J, K>(I, J, K);
fn step<I: Parse<T>, T, B: Buffer<T>>(b: &mut B) -> bool {
    let mut c = b.cursor();
    if I::peek(&mut c) {
        let n = c.position();
        b.fast_forward(n);
        true
    } else {
        false
    }
}
impl<T> Skip<T> for No {
    fn skip<B: Buffer<T>>(_: &mut B) {}
}
impl<T, I: Parse<T>> Skip<T> for One<I> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) {}
    }
}
impl<T, I: Parse<T>, J: Parse<T>> Skip<T> for Two<I, J> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) || step::<J, T, B>(b) {}
    }
}
impl<T, I: Parse<T>, J: Parse<T>, K: Parse<T>> Skip<T> for Three<I, J, K> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) || step::<J, T, B>(b) || step::<K, T, B>(b) {}
    }
}
pub struct Four<I, J, K, L>(I, J, K, L);
impl<T, I: Parse<T>, J: Parse<T>, K: Parse<T>, L: Parse<T>> Skip<T> for Four<I, J, K, L> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) || step::<J, T, B>(b) || step::<K, T, B>(b) || step::<L, T, B>(b) {}
    }
}
pub struct Five<I, J, K, L, M>(I, J, K, L, M);
impl<T, I: Parse<T>, J: Parse<T>, K: Parse<T>, L: Parse<T>, M: Parse<T>> Skip<T> for Five<I, J, K, L, M> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) || step::<J, T, B>(b) || step::<K, T, B>(b) || step::<L, T, B>(b) || step::<M, T, B>(b) {}
    }
}
pub struct Six<I, J, K, L, M, N>(I, J, K, L, M, N);
impl<T, I: Parse<T>, J: Parse<T>, K: Parse<T>, L: Parse<T>, M: Parse<T>, N: Parse<T>> Skip<T> for Six<I, J, K, L, M, N> {
    fn skip<B: Buffer<T>>(b: &mut B) {
        while step::<I, T, B>(b) || step::<J, T, B>(b) || step::<K, T, B>(b) || step::<L, T, B>(b) || step::<M, T, B>(b) || step::<N, T, B>(b) {}
    }
}
/// elements one after the other
pub fn plain<P, Q, Ig, T, B>(input: &mut B) -> Res<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    Ig: Skip<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < usize::MAX {
        let mut c = input.cursor();
        if k > 0 {
            Ig::skip(&mut c);
        }
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        k += 1;
    }
    Ok(out)
}
/// a separator between elements only
pub fn between<P, Q, S, Ig, T, B>(input: &mut B) -> Res<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Skip<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < usize::MAX {
        let mut c = input.cursor();
        if k > 0 {
            Ig::skip(&mut c);
            if !S::peek(&mut c) {
                break;
            }
            Ig::skip(&mut c);
        }
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        k += 1;
    }
    Ok(out)
}
/// a separator after every element
pub fn after<P, Q, S, Ig, T, B>(input: &mut B) -> Res<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Skip<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < usize::MAX {
        let mut c = input.cursor();
        let q = match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => q,
                Err(_) => return fail(),
            },
            Err(_) => break,
        };
        Ig::skip(&mut c);
        if !S::peek(&mut c) {
            break;
        }
        Ig::skip(&mut c);
        let n = c.position();
        input.fast_forward(n);
        out.push(q);
        k += 1;
    }
    Ok(out)
}
/// a separator between elements and possibly after the last
pub fn around<P, Q, S, Ig, T, B>(input: &mut B) -> Res<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Skip<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < usize::MAX {
        let mut c = input.cursor();
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        Ig::skip(input);
        let mut c = input.cursor();
        if !S::peek(&mut c) {
            break;
        }
        let n = c.position();
        input.fast_forward(n);
        Ig::skip(input);
        k += 1;
    }
    Ok(out)
}
