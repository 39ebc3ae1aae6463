//! Most general clients of the repository's buffers: loops that perform any operation any number of
//! times, with claims about what the operations return.  The bodies are analysed, never run: `pick`,
//! `number`, `total`, `drawn`, `is_item`, `same` and `claim` have their meaning in the analyser.
use nommy::{Buf, Buffer, Cursor, IntoBuf};

/// any number below `_k`: a choice of the client's
pub fn pick(_k: usize) -> usize {
    loop {}
}
/// any number at all
pub fn number() -> usize {
    loop {}
}
/// how many items the source has
pub fn total() -> usize {
    loop {}
}
/// how many items have been drawn from the source below this value
pub fn drawn<B>(_b: &B) -> usize {
    loop {}
}
/// the source's item number `_pos` when there is one, nothing otherwise
pub fn is_item<T>(_r: &Option<T>, _pos: usize) -> bool {
    loop {}
}
/// a violation when this is false
pub fn claim(_ok: bool, _what: &'static str) {
    loop {}
}

/// where `n` more steps lead
fn ahead(pos: usize, n: usize) -> usize {
    let end = total();
    if n < end - pos {
        pos + n
    } else {
        end
    }
}

/// any use of a buffer
fn any<T, B: Buffer<T>>(b: &mut B) {
    while pick(2) == 0 {
        let k = pick(3);
        if k == 0 {
            b.next();
        } else if k == 1 {
            let n = number();
            b.peek_ahead(n);
        } else {
            let n = number();
            b.fast_forward(n);
        }
    }
}
/// a buffer somewhere in its input, with something buffered
fn prefix<T, B: Buffer<T>>(b: &mut B) -> usize {
    let mut pos = 0;
    while pick(2) == 0 {
        let k = pick(3);
        if k == 0 {
            b.next();
            pos = ahead(pos, 1);
        } else if k == 1 {
            let n = number();
            b.peek_ahead(n);
        } else {
            let n = number();
            b.fast_forward(n);
            pos = ahead(pos, n);
        }
    }
    pos
}
/// any use of a cursor
fn any_cursor<T, B: Buffer<T>>(c: &mut Cursor<T, B>) {
    while pick(2) == 0 {
        let k = pick(4);
        if k == 0 {
            c.next();
        } else if k == 1 {
            let n = number();
            c.peek_ahead(n);
        } else if k == 2 {
            let n = number();
            c.fast_forward(n);
        } else {
            c.reset_internal();
        }
    }
}
/// whatever is done next with a buffer whose next item is number `pos`, it goes on from there
fn goes_on<T, B: Buffer<T>>(b: &mut B, pos: usize) {
    let k = pick(4);
    if k == 0 {
        claim(is_item(&b.next(), pos), "the next item read");
    } else if k == 1 {
        let n = number();
        claim(is_item(&b.peek_ahead(n), pos + n), "the item peeked at");
    } else if k == 2 {
        let n = number();
        b.fast_forward(n);
        claim(is_item(&b.next(), pos + n), "the next item read after skipping");
    } else {
        let n = number();
        claim(is_item(&b.cursor().peek_ahead(n), pos + n), "the item a new cursor peeks at");
    }
}
// ---------------------------------------------------------------- every item once, in order
/// reads deliver the item at the current place, whatever was done before
pub fn reads<I: Iterator>(iter: I)
where
    I::Item: Clone,
{
    let mut b = iter.into_buf();
    let mut pos = 0;
    loop {
        let k = pick(3);
        if k == 0 {
            let r = b.next();
            claim(is_item(&r, pos), "the item read");
            pos = ahead(pos, 1);
        } else if k == 1 {
            let n = number();
            b.peek_ahead(n);
        } else {
            let n = number();
            b.fast_forward(n);
            pos = ahead(pos, n);
        }
    }
}
/// reading through the iterator's other methods
pub fn reads_nth<I: Iterator>(iter: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(iter);
    let mut pos = 0;
    while pick(2) == 0 {
        let k = pick(2);
        if k == 0 {
            b.next();
            pos = ahead(pos, 1);
        } else {
            let n = number();
            b.peek_ahead(n);
        }
    }
    let n = number();
    let r = b.nth(n);
    pos = ahead(pos, n);
    claim(is_item(&r, pos), "the item read by nth");
    pos = ahead(pos, 1);
    claim(is_item(&b.next(), pos), "the item read after nth");
}
pub fn reads_count<I: Iterator>(iter: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(iter);
    let mut pos = 0;
    while pick(2) == 0 {
        let k = pick(2);
        if k == 0 {
            b.next();
            pos = ahead(pos, 1);
        } else {
            let n = number();
            b.peek_ahead(n);
        }
    }
    claim(b.count() == total() - pos, "the number of items left");
}
/// what the buffer says about its length
pub fn reads_hint<I: Iterator>(iter: I)
where
    I::Item: Clone,
{
    let mut b = iter.into_buf();
    let mut pos = 0;
    while pick(2) == 0 {
        let k = pick(2);
        if k == 0 {
            b.next();
            pos = ahead(pos, 1);
        } else {
            let n = number();
            b.peek_ahead(n);
        }
    }
    let (lo, hi) = b.size_hint();
    claim(lo <= total() - pos, "the lower bound on the items left");
    if let Some(hi) = hi {
        claim(total() - pos <= hi, "the upper bound on the items left");
    }
}

// ---------------------------------------------------------------- skipping is reading and discarding
/// n discarded reads lead n items further, or to the end
pub fn discards<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let n = number();
    let mut i = 0;
    while i < n {
        if b.next().is_none() {
            break;
        }
        i += 1;
    }
    goes_on(&mut b, pos + n);
}
/// ... and so does skipping n items
pub fn skips<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let n = number();
    b.fast_forward(n);
    goes_on(&mut b, pos + n);
}
/// ... also when a cursor made the buffer look further
pub fn skips_after_cursor<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    let pos = prefix(&mut b);
    any_cursor(&mut b.cursor());
    let n = number();
    b.fast_forward(n);
    let m = number();
    b.fast_forward(m);
    goes_on(&mut b, pos + n + m);
}
/// ... through a cursor as well
pub fn discards_cursor<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = pos + c.position();
    let n = number();
    let mut i = 0;
    while i < n {
        if c.next().is_none() {
            break;
        }
        i += 1;
    }
    goes_on(&mut c, at + n);
}
pub fn skips_cursor<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = pos + c.position();
    let n = number();
    c.fast_forward(n);
    goes_on(&mut c, at + n);
}

// ---------------------------------------------------------------- peeking
/// the item that would be read after n reads, again and again, and nothing changes
pub fn peeks<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    let pos = prefix(&mut b);
    let n = number();
    claim(is_item(&b.peek_ahead(n), pos + n), "the item peeked at");
    if pick(2) == 0 {
        claim(is_item(&b.peek_ahead(n), pos + n), "the item peeked at again");
    }
    goes_on(&mut b, pos);
}
pub fn peeks_cursor<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = c.position();
    let n = number();
    claim(is_item(&c.peek_ahead(n), pos + at + n), "the item a cursor peeked at");
    claim(c.position() == at, "the position of a cursor that peeked");
    goes_on(&mut c, pos + at);
}
/// no more is drawn than what had to be reached
pub fn peeks_lazy<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let mut pos = 0;
    let mut top = 0;
    loop {
        let k = pick(3);
        if k == 0 {
            b.next();
            pos = ahead(pos, 1);
            if top < pos {
                top = pos;
            }
        } else if k == 1 {
            let n = number();
            b.peek_ahead(n);
            let reach = pos + n + 1;
            if top < reach {
                top = reach;
            }
        } else {
            let n = number();
            b.fast_forward(n);
            pos = ahead(pos, n);
            if top < pos {
                top = pos;
            }
        }
        claim(drawn(&b) <= top, "the number of items drawn from the source");
    }
}
/// making a buffer or a cursor draws nothing
pub fn making_lazy<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    claim(drawn(&b) == 0, "the number of items drawn by making a buffer");
    any(&mut b);
    let before = drawn(&b);
    let c = b.cursor();
    claim(drawn(&c) == before, "the number of items drawn by making a cursor");
}
/// a cursor's peek draws no more either
pub fn cursor_lazy<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let before = drawn(&c);
    let reach = pos + c.position() + 1;
    if pick(2) == 0 {
        let n = number();
        c.peek_ahead(n);
        claim(drawn(&c) <= before || drawn(&c) <= reach + n, "the number of items drawn by a cursor's peek");
    } else {
        c.next();
        claim(drawn(&c) <= before || drawn(&c) <= reach, "the number of items drawn by a cursor's read");
    }
}

// ---------------------------------------------------------------- cursors leave their parent alone
pub fn cursor_quiet<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    any_cursor(&mut b.cursor());
    goes_on(&mut b, pos);
}
pub fn nested_quiet<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = c.position();
    any_cursor(&mut c.cursor());
    claim(c.position() == at, "the position of the parent cursor");
    goes_on(&mut c, pos + at);
}
pub fn nested_root<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    {
        let mut c = b.cursor();
        any_cursor(&mut c);
        any_cursor(&mut c.cursor());
    }
    goes_on(&mut b, pos);
}
/// two levels further down
pub fn deeply_nested_quiet<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = c.position();
    {
        let mut d = c.cursor();
        any_cursor(&mut d);
        any_cursor(&mut d.cursor());
    }
    claim(c.position() == at, "the position of the parent cursor");
    goes_on(&mut c, pos + at);
}

// ---------------------------------------------------------------- what cursors read
/// any operations on a cursor that starts `start` items in; everything it returns is claimed
fn follow<T, B: Buffer<T>>(c: &mut Cursor<T, B>, start: usize) -> usize {
    let mut idx = 0;
    while pick(2) == 0 {
        let k = pick(4);
        if k == 0 {
            let r = c.next();
            claim(is_item(&r, start + idx), "the item a cursor read");
            if r.is_some() {
                idx += 1;
            }
        } else if k == 1 {
            let n = number();
            claim(is_item(&c.peek_ahead(n), start + idx + n), "the item a cursor peeked at");
        } else if k == 2 {
            let n = number();
            c.fast_forward(n);
            idx += n;
        } else {
            claim(c.reset_internal(), "the result of reset_internal");
            idx = 0;
        }
        claim((*c).position() == idx, "the position a cursor reports");
    }
    idx
}
pub fn cursor_reads<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    claim(c.position() == 0, "the position of a new cursor");
    follow(&mut c, pos);
}
pub fn nested_reads<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = pos + c.position();
    let mut d = c.cursor();
    claim(d.position() == 0, "the position of a new cursor");
    follow(&mut d, at);
}
pub fn thrice_nested_reads<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let mut at = pos + c.position();
    let mut d = c.cursor();
    any_cursor(&mut d);
    at += d.position();
    let mut e = d.cursor();
    follow(&mut e, at);
}
/// skipping the parent ahead by the position commits what the cursor consumed
pub fn commits<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = x.into_buf();
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let n = c.position();
    b.fast_forward(n);
    claim(is_item(&b.next(), pos + n), "the item read after committing a cursor");
}
pub fn commits_nested<I: Iterator>(x: I)
where
    I::Item: Clone,
{
    let mut b = Buf::new(x);
    let pos = prefix(&mut b);
    let mut c = b.cursor();
    any_cursor(&mut c);
    let at = c.position();
    let mut d = c.cursor();
    any_cursor(&mut d);
    let n = d.position();
    c.fast_forward(n);
    claim(c.position() == at + n, "the position after committing a nested cursor");
    claim(is_item(&c.next(), pos + at + n), "the item read after committing a nested cursor");
}
