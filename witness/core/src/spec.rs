//! Reference bodies.  `a_*` exercises the repository through its public interface, `s_*`
//! states what it must do.  Both are analysed, neither is ever run.
use nommy::{eyre, vec, Buffer, IntoBuf, Parse, Vec1};
use std::convert::TryInto;
use std::error::Error;

/// what a literal parameter has to offer (uninterpreted, known to the analyser)
pub mod lit {
    use nommy::Buffer;
    /// do the upcoming items equal the whole literal?
    pub fn upcoming<T, L: ?Sized, B: Buffer<T>>(_l: &L, _b: &mut B) -> bool {
        loop {}
    }
    /// number of items in the literal
    pub fn items<L: ?Sized>(_l: &L) -> usize {
        loop {}
    }
    /// is the item one of the literal's?
    pub fn has<T, L: ?Sized>(_l: &L, _c: &T) -> bool {
        loop {}
    }
}

type R<T> = eyre::Result<T>;
fn fail<T>() -> R<T> {
    Err(eyre::eyre!("reference failure"))
}

// ---------------------------------------------------------------- combinators
pub fn a_option<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Option<P>> {
    Option::<P>::parse(input)
}
pub fn s_option<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Option<P>> {
    let mut c = input.cursor();
    match P::parse(&mut c) {
        Ok(v) => {
            let n = c.position();
            input.fast_forward(n);
            Ok(Some(v))
        }
        Err(_) => Ok(None),
    }
}
pub fn a_option_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    Option::<P>::peek(input)
}
pub fn s_option_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    let mut c = input.cursor();
    if P::peek(&mut c) {
        let n = c.position();
        input.fast_forward(n);
    }
    true
}
pub fn a_vec<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Vec<P>> {
    Vec::<P>::parse(input)
}
pub fn s_vec<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Vec<P>> {
    let mut out = Vec::new();
    loop {
        let mut c = input.cursor();
        match P::parse(&mut c) {
            Ok(v) => {
                let n = c.position();
                input.fast_forward(n);
                out.push(v);
            }
            Err(_) => return Ok(out),
        }
    }
}
pub fn a_vec_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    Vec::<P>::peek(input)
}
pub fn s_vec_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    skip::<P, T, B>(input);
    true
}
/// as many `P` as there are, each committed only when it matched
pub fn skip<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) {
    loop {
        let mut c = input.cursor();
        if !P::peek(&mut c) {
            return;
        }
        let n = c.position();
        input.fast_forward(n);
    }
}
pub fn a_vec1<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Vec<P>> {
    match Vec1::<P>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn s_vec1<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Vec<P>> {
    let mut out = Vec::new();
    loop {
        let mut c = input.cursor();
        match P::parse(&mut c) {
            Ok(v) => {
                let n = c.position();
                input.fast_forward(n);
                out.push(v);
            }
            Err(_) => break,
        }
    }
    if out.is_empty() {
        return fail();
    }
    Ok(out)
}
/// the list inside, through its views
pub fn a_vec1_views<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<(Vec<P>, usize)> {
    let mut v = Vec1::<P>::parse(input)?;
    let n = AsRef::<Vec<P>>::as_ref(&v).len();
    let mut out = Vec::new();
    std::mem::swap(AsMut::<Vec<P>>::as_mut(&mut v), &mut out);
    Ok((out, n))
}
pub fn s_vec1_views<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<(Vec<P>, usize)> {
    let out = s_vec1::<P, T, B>(input)?;
    let n = out.len();
    Ok((out, n))
}
pub fn a_vec1_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    Vec1::<P>::peek(input)
}
pub fn s_vec1_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    let mut k = 0;
    loop {
        let mut c = input.cursor();
        if !P::peek(&mut c) {
            break;
        }
        let n = c.position();
        input.fast_forward(n);
        k += 1;
    }
    k > 0
}
pub fn a_vec1_as_ref<P>(v: Vec1<P>) -> bool {
    v.as_ref().len() == { let w: Vec<P> = v.into(); w.len() }
}
pub fn a_array<P: Parse<T>, T, B: Buffer<T>, const N: usize>(input: &mut B) -> R<[P; N]> {
    <[P; N]>::parse(input)
}
pub fn s_array<P: Parse<T>, T, B: Buffer<T>, const N: usize>(input: &mut B) -> R<Vec<P>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < N {
        match P::parse(input) {
            Ok(v) => out.push(v),
            Err(_) => return fail(),
        }
        i += 1;
    }
    Ok(out)
}
pub fn a_array_peek<P: Parse<T>, T, B: Buffer<T>, const N: usize>(input: &mut B) -> bool {
    <[P; N]>::peek(input)
}
pub fn s_array_peek<P: Parse<T>, T, B: Buffer<T>, const N: usize>(input: &mut B) -> bool {
    let mut i = 0;
    while i < N {
        if !P::peek(input) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn a_box<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<Box<P>> {
    Box::<P>::parse(input)
}
pub fn s_box<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<P> {
    P::parse(input)
}
pub fn a_box_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    Box::<P>::peek(input)
}
pub fn s_box_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    P::peek(input)
}
/// a parser without look-ahead of its own
pub struct NoPeek<P>(pub P);
impl<P: Parse<T>, T> Parse<T> for NoPeek<P> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        match P::parse(input) {
            Ok(p) => Ok(NoPeek(p)),
            Err(e) => Err(e),
        }
    }
}
pub fn a_default_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    NoPeek::<P>::peek(input)
}
pub fn s_default_peek<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> bool {
    P::parse(input).is_ok()
}

// ---------------------------------------------------------------- list helpers
pub fn a_pv<P, Q, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: Error + Send + Sync + 'static,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    vec::parse_vec::<P, Q, Ig, T, B>(max, input)
}
pub fn s_pv<P, Q, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < max {
        let mut c = input.cursor();
        if k > 0 {
            skip::<Ig, T, _>(&mut c);
        }
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        k += 1;
    }
    Ok(out)
}
pub fn a_pvs<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: Error + Send + Sync + 'static,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    vec::parse_vec_seperated_by::<P, Q, S, Ig, T, B>(max, input)
}
pub fn s_pvs<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < max {
        let mut c = input.cursor();
        if k > 0 {
            skip::<Ig, T, _>(&mut c);
            if !S::peek(&mut c) {
                break;
            }
            skip::<Ig, T, _>(&mut c);
        }
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        k += 1;
    }
    Ok(out)
}
pub fn a_pvt<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: Error + Send + Sync + 'static,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    vec::parse_vec_seperated_by_trailing::<P, Q, S, Ig, T, B>(max, input)
}
pub fn s_pvt<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < max {
        let mut c = input.cursor();
        let q = match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => q,
                Err(_) => return fail(),
            },
            Err(_) => break,
        };
        skip::<Ig, T, _>(&mut c);
        if !S::peek(&mut c) {
            break;
        }
        skip::<Ig, T, _>(&mut c);
        let n = c.position();
        input.fast_forward(n);
        out.push(q);
        k += 1;
    }
    Ok(out)
}
pub fn a_pvm<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: Error + Send + Sync + 'static,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    vec::parse_vec_seperated_by_maybe_trailing::<P, Q, S, Ig, T, B>(max, input)
}
pub fn s_pvm<P, Q, S, Ig, T, B>(max: usize, input: &mut B) -> R<Vec<Q>>
where
    P: Parse<T> + TryInto<Q>,
    S: Parse<T>,
    Ig: Parse<T>,
    B: Buffer<T>,
{
    let mut out = Vec::new();
    let mut k = 0;
    while k < max {
        let mut c = input.cursor();
        match P::parse(&mut c) {
            Ok(p) => match p.try_into() {
                Ok(q) => out.push(q),
                Err(_) => return fail(),
            },
            Err(_) => break,
        }
        let n = c.position();
        input.fast_forward(n);
        skip::<Ig, T, _>(input);
        let mut c = input.cursor();
        if !S::peek(&mut c) {
            break;
        }
        let n = c.position();
        input.fast_forward(n);
        skip::<Ig, T, _>(input);
        k += 1;
    }
    Ok(out)
}

// ---------------------------------------------------------------- leaves
pub fn a_ttag<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<()> {
    match nommy::text::Tag::<LIT>::parse(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn a_ttag_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    nommy::text::Tag::<LIT>::peek(input)
}
pub fn s_ttag<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<()> {
    if lit::upcoming::<char, str, B>(LIT, input) {
        input.fast_forward(lit::items::<str>(LIT));
        Ok(())
    } else {
        fail()
    }
}
pub fn s_ttag_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    if lit::upcoming::<char, str, B>(LIT, input) {
        input.fast_forward(lit::items::<str>(LIT));
        true
    } else {
        false
    }
}
pub fn a_btag<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<()> {
    match nommy::bytes::Tag::<BLIT>::parse(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn a_btag_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    nommy::bytes::Tag::<BLIT>::peek(input)
}
pub fn s_btag<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<()> {
    if lit::upcoming::<u8, [u8], B>(BLIT, input) {
        input.fast_forward(lit::items::<[u8]>(BLIT));
        Ok(())
    } else {
        fail()
    }
}
pub fn s_btag_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    if lit::upcoming::<u8, [u8], B>(BLIT, input) {
        input.fast_forward(lit::items::<[u8]>(BLIT));
        true
    } else {
        false
    }
}
pub fn a_tone<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<char> {
    match nommy::text::OneOf::<LIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_tone_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    nommy::text::OneOf::<LIT>::peek(input)
}
pub fn s_tone<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<char> {
    match input.peek_ahead(0) {
        Some(c) => {
            if lit::has::<char, str>(LIT, &c) {
                input.fast_forward(1);
                Ok(c)
            } else {
                fail()
            }
        }
        None => fail(),
    }
}
pub fn s_tone_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    s_tone::<B, LIT>(input).is_ok()
}
pub fn a_bone<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<u8> {
    match nommy::bytes::OneOf::<BLIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_bone_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    nommy::bytes::OneOf::<BLIT>::peek(input)
}
pub fn s_bone<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<u8> {
    match input.peek_ahead(0) {
        Some(c) => {
            if lit::has::<u8, [u8]>(BLIT, &c) {
                input.fast_forward(1);
                Ok(c)
            } else {
                fail()
            }
        }
        None => fail(),
    }
}
pub fn s_bone_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    s_bone::<B, BLIT>(input).is_ok()
}
pub fn a_tany<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    match nommy::text::AnyOf::<LIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_tany_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    nommy::text::AnyOf::<LIT>::peek(input)
}
fn run<B: Buffer<char>, const LIT: &'static str>(input: &mut B, want: bool) -> String {
    let mut out = String::new();
    loop {
        match input.peek_ahead(0) {
            Some(c) => {
                if lit::has::<char, str>(LIT, &c) != want {
                    return out;
                }
                out.push(c);
                input.fast_forward(1);
            }
            None => return out,
        }
    }
}
pub fn s_tany<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    Ok(run::<B, LIT>(input, true))
}
pub fn s_tany_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    run::<B, LIT>(input, true);
    true
}
pub fn a_tany1<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    match nommy::text::AnyOf1::<LIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_tany1_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    nommy::text::AnyOf1::<LIT>::peek(input)
}
pub fn s_tany1<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    let s = run::<B, LIT>(input, true);
    if s.is_empty() {
        fail()
    } else {
        Ok(s)
    }
}
pub fn s_tany1_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    !run::<B, LIT>(input, true).is_empty()
}
pub fn a_twn1<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    match nommy::text::WhileNot1::<LIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_twn1_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    nommy::text::WhileNot1::<LIT>::peek(input)
}
pub fn s_twn1<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<String> {
    let s = run::<B, LIT>(input, false);
    if s.is_empty() {
        fail()
    } else {
        Ok(s)
    }
}
pub fn s_twn1_peek<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> bool {
    !run::<B, LIT>(input, false).is_empty()
}
pub fn a_bany1<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<Vec<u8>> {
    match nommy::bytes::AnyOf1::<BLIT>::parse(input) {
        Ok(v) => Ok(v.into()),
        Err(e) => Err(e),
    }
}
pub fn a_bany1_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    nommy::bytes::AnyOf1::<BLIT>::peek(input)
}
fn brun<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        match input.peek_ahead(0) {
            Some(c) => {
                if !lit::has::<u8, [u8]>(BLIT, &c) {
                    return out;
                }
                out.push(c);
                input.fast_forward(1);
            }
            None => return out,
        }
    }
}
pub fn s_bany1<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> R<Vec<u8>> {
    let s = brun::<B, BLIT>(input);
    if s.is_empty() {
        fail()
    } else {
        Ok(s)
    }
}
pub fn s_bany1_peek<B: Buffer<u8>, const BLIT: &'static [u8]>(input: &mut B) -> bool {
    !brun::<B, BLIT>(input).is_empty()
}
pub fn a_space<B: Buffer<char>>(input: &mut B) -> R<()> {
    match nommy::text::Space::parse(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn a_space_peek<B: Buffer<char>>(input: &mut B) -> bool {
    nommy::text::Space::peek(input)
}
pub fn s_space_peek<B: Buffer<char>>(input: &mut B) -> bool {
    match input.peek_ahead(0) {
        Some(c) => {
            if c == ' ' || c == '\t' {
                input.fast_forward(1);
                true
            } else {
                false
            }
        }
        None => false,
    }
}
pub fn s_space<B: Buffer<char>>(input: &mut B) -> R<()> {
    if s_space_peek(input) {
        Ok(())
    } else {
        fail()
    }
}
pub fn a_eol<B: Buffer<char>>(input: &mut B) -> R<()> {
    match nommy::text::LineEnding::parse(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn a_eol_peek<B: Buffer<char>>(input: &mut B) -> bool {
    nommy::text::LineEnding::peek(input)
}
pub fn s_eol_peek<B: Buffer<char>>(input: &mut B) -> bool {
    match input.peek_ahead(0) {
        Some(c) => {
            if c == '\n' {
                input.fast_forward(1);
                return true;
            }
            if c == '\r' {
                if let Some(d) = input.peek_ahead(1) {
                    if d == '\n' {
                        input.fast_forward(2);
                        return true;
                    }
                }
            }
            false
        }
        None => false,
    }
}
pub fn s_eol<B: Buffer<char>>(input: &mut B) -> R<()> {
    if s_eol_peek(input) {
        Ok(())
    } else {
        fail()
    }
}
pub fn a_ws<B: Buffer<char>>(input: &mut B) -> R<()> {
    match nommy::text::WhiteSpace::parse(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn a_ws_peek<B: Buffer<char>>(input: &mut B) -> bool {
    nommy::text::WhiteSpace::peek(input)
}
pub fn s_ws_peek<B: Buffer<char>>(input: &mut B) -> bool {
    s_space_peek(input) || s_eol_peek(input)
}
pub fn s_ws<B: Buffer<char>>(input: &mut B) -> R<()> {
    if s_ws_peek(input) {
        Ok(())
    } else {
        fail()
    }
}
pub fn a_number<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<usize> {
    match nommy::text::AnyOf1::<LIT>::parse(input) {
        Ok(v) => match v.try_into() {
            Ok(n) => Ok(n),
            Err(_) => fail(),
        },
        Err(e) => Err(e),
    }
}
pub fn s_number<B: Buffer<char>, const LIT: &'static str>(input: &mut B) -> R<usize> {
    let s = run::<B, LIT>(input, true);
    if s.is_empty() {
        return fail();
    }
    match s.parse::<usize>() {
        Ok(n) => Ok(n),
        Err(_) => fail(),
    }
}

// ---------------------------------------------------------------- entry points
pub fn a_parse<P, I>(iter: I) -> R<P>
where
    P: Parse<<I::Iter as Iterator>::Item>,
    I: nommy::IntoBuf,
    <I::Iter as Iterator>::Item: Clone,
{
    nommy::parse::<P, I>(iter)
}
pub fn a_terminated<P, I>(iter: I) -> R<P>
where
    P: Parse<<I::Iter as Iterator>::Item>,
    I: nommy::IntoBuf,
    <I::Iter as Iterator>::Item: Clone,
{
    nommy::parse_terminated::<P, I>(iter)
}
pub fn s_parse<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<P> {
    P::parse(input)
}
pub fn s_terminated<P: Parse<T>, T, B: Buffer<T>>(input: &mut B) -> R<P> {
    match P::parse(input) {
        Ok(v) => {
            if input.peek_ahead(0).is_some() {
                fail()
            } else {
                Ok(v)
            }
        }
        Err(e) => Err(e),
    }
}

// ---------------------------------------------------------------- entry points
pub fn a_entry<P: Parse<T>, T: Clone, S: Iterator<Item = T>>(source: S) -> R<P> {
    nommy::parse::<P, S>(source)
}
pub fn s_entry<P: Parse<T>, T: Clone, S: Iterator<Item = T>>(source: S) -> R<P> {
    let mut input = source.into_buf();
    P::parse(&mut input)
}
pub fn a_entry_all<P: Parse<T>, T: Clone, S: Iterator<Item = T>>(source: S) -> R<P> {
    nommy::parse_terminated::<P, S>(source)
}
pub fn s_entry_all<P: Parse<T>, T: Clone, S: Iterator<Item = T>>(source: S) -> R<P> {
    let mut input = source.into_buf();
    match P::parse(&mut input) {
        Ok(v) => {
            if input.next().is_some() {
                return fail();
            }
            Ok(v)
        }
        Err(_) => fail(),
    }
}
