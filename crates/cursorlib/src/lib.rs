//! Histories of `array_init_cursor::Cursor`s against a model of the array: which positions were
//! filled, by which element. No dependency beyond the crate under test, so that it runs in miri.
use array_init_cursor::Cursor;
use std::cell::{Cell, RefCell};
use std::mem::MaybeUninit;

thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static MADE: Cell<u32> = const { Cell::new(0) };
}
fn dropped(id: u32) { DROPS.with(|d| d.borrow_mut().push(id)); }
fn drops() -> Vec<u32> { DROPS.with(|d| d.borrow().clone()) }

/// an element type: `id` tells the elements apart, `TRACKED` types log their drops
pub trait El: Sized + 'static {
    const NAME: &'static str;
    const TRACKED: bool;
    const DISTINCT: bool = true;
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
}
macro_rules! plain { ($($t:ty),*) => { $(impl El for $t {
    const NAME: &'static str = stringify!($t); const TRACKED: bool = false;
    fn make(id: u32) -> Self { id as $t } fn id(&self) -> u32 { *self as u32 }
})* } }
plain!(u8, u16, u64, u128);
impl El for bool { const NAME: &'static str = "bool"; const TRACKED: bool = false; const DISTINCT: bool = false; fn make(id: u32) -> Self { id % 3 == 1 } fn id(&self) -> u32 { *self as u32 } }
impl El for [u8; 3] { const NAME: &'static str = "[u8; 3]"; const TRACKED: bool = false; fn make(id: u32) -> Self { [id as u8, 7, 9] } fn id(&self) -> u32 { assert!(self[1] == 7 && self[2] == 9, "element bytes"); self[0] as u32 } }
impl El for (u8, u64, u16) { const NAME: &'static str = "(u8, u64, u16)"; const TRACKED: bool = false; fn make(id: u32) -> Self { (id as u8, 1 << 60, 77) } fn id(&self) -> u32 { assert!(self.1 == 1 << 60 && self.2 == 77, "element bytes"); self.0 as u32 } }
pub struct Small(u8);
impl Drop for Small { fn drop(&mut self) { dropped(self.0 as u32) } }
impl El for Small { const NAME: &'static str = "a one byte type with a destructor"; const TRACKED: bool = true; fn make(id: u32) -> Self { Small(id as u8) } fn id(&self) -> u32 { self.0 as u32 } }
pub struct Heap(Box<u32>, String);
impl Drop for Heap { fn drop(&mut self) { dropped(*self.0) } }
impl El for Heap { const NAME: &'static str = "a type with heap data"; const TRACKED: bool = true; fn make(id: u32) -> Self { Heap(Box::new(id), format!("element {id}")) } fn id(&self) -> u32 { assert!(self.1 == format!("element {}", self.0), "element text"); *self.0 } }
#[repr(align(64))]
pub struct Wide(u32, [u8; 70]);
impl Drop for Wide { fn drop(&mut self) { dropped(self.0) } }
impl El for Wide { const NAME: &'static str = "a type aligned to 64 bytes"; const TRACKED: bool = true; fn make(id: u32) -> Self { Wide(id, [id as u8; 70]) } fn id(&self) -> u32 { assert!(self.1 == [self.0 as u8; 70] && (self as *const _ as usize) % 64 == 0, "element bytes"); self.0 } }
pub struct Zero;
impl Drop for Zero { fn drop(&mut self) { dropped(0) } }
impl El for Zero { const NAME: &'static str = "a zero sized type with a destructor"; const TRACKED: bool = true; const DISTINCT: bool = false; fn make(_: u32) -> Self { Zero } fn id(&self) -> u32 { 0 } }
impl El for () { const NAME: &'static str = "()"; const TRACKED: bool = false; const DISTINCT: bool = false; fn make(_: u32) -> Self {} fn id(&self) -> u32 { 0 } }

pub struct World<'c> {
    choose: &'c mut dyn FnMut(usize) -> usize,
    /// element written at each position
    slots: Vec<Option<u32>>,
    log: Vec<String>,
    steps: usize,
}
impl World<'_> {
    fn make<T: El>(&mut self, at: usize) -> T {
        let id = MADE.with(|m| { m.set(m.get() + 1); m.get() });
        assert!(self.slots[at].is_none(), "harness: position {at} filled twice");
        let before = DROPS.with(|d| d.borrow().len());
        self.slots[at] = Some(T::make(id).id());
        DROPS.with(|d| d.borrow_mut().truncate(before));
        T::make(id)
    }
    fn fill<T: El, const L: usize>(&mut self, base: usize) -> [T; L] {
        let v: Vec<T> = (0..L).map(|i| self.make(base + i)).collect();
        v.try_into().ok().unwrap()
    }
}
pub trait Piece {
    fn range(&self) -> (usize, usize);
    fn step<'a>(self: Box<Self>, w: &mut World) -> Vec<Box<dyn Piece + 'a>> where Self: 'a;
    fn abandon(self: Box<Self>);
}
struct P<'a, T: El, const N: usize>(usize, Cursor<'a, T, N>);
macro_rules! pieces { ($($n:literal => [$(($l:literal, $r:literal)),*];)*) => { $(
    impl<'s, T: El> Piece for P<'s, T, $n> {
        fn range(&self) -> (usize, usize) { (self.0, $n) }
        fn step<'a>(self: Box<Self>, w: &mut World) -> Vec<Box<dyn Piece + 'a>> where Self: 'a {
            let P(base, c) = *self;
            w.steps += 1;
            let splits: &[(usize, usize)] = &[$(($l, $r)),*];
            match if w.steps > 24 { 0 } else { (w.choose)(7) } {
                0 => { w.log.push(format!("finish {base}..{}", base + $n)); let a = w.fill::<T, $n>(base); c.finish(a); vec![] }
                1 => { w.log.push(format!("assert_size {}", $n)); vec![Box::new(P::<T, $n>(base, c.assert_size::<$n>()))] }
                k => {
                    let i = (w.choose)(splits.len());
                    let mut c = Some(c);
                    let mut out: Vec<Box<dyn Piece + 'a>> = vec![];
                    let mut j = 0;
                    $(
                        if j == i {
                            let c = c.take().unwrap();
                            if k < 5 {
                                w.log.push(format!("split {base}..{} into {} and {}", base + $n, $l, $r));
                                let (l, r) = c.split::<$l, $r>();
                                out.push(Box::new(P::<T, $l>(base, l)));
                                out.push(Box::new(P::<T, $r>(base + $l, r)));
                            } else {
                                w.log.push(format!("write {} at {base}, {} left", $l, $r));
                                let a = w.fill::<T, $l>(base);
                                out.push(Box::new(P::<T, $r>(base + $l, c.write::<$l, $r>(a))));
                            }
                        }
                        j += 1;
                    )*
                    let _ = j;
                    out
                }
            }
        }
        fn abandon(self: Box<Self>) { drop(self.1) }
    }
)* } }
pieces! {
    0 => [(0, 0)];
    1 => [(0, 1), (1, 0)];
    2 => [(0, 2), (1, 1), (2, 0)];
    3 => [(0, 3), (1, 2), (2, 1), (3, 0)];
    4 => [(0, 4), (1, 3), (2, 2), (3, 1), (4, 0)];
    5 => [(0, 5), (1, 4), (2, 3), (3, 2), (4, 1), (5, 0)];
    6 => [(0, 6), (1, 5), (2, 4), (3, 3), (4, 2), (5, 1), (6, 0)];
    7 => [(0, 7), (1, 6), (2, 5), (3, 4), (4, 3), (5, 2), (6, 1), (7, 0)];
    8 => [(0, 8), (1, 7), (2, 6), (3, 5), (4, 4), (5, 3), (6, 2), (7, 1), (8, 0)];
    13 => [(5, 8), (8, 5), (6, 7), (0, 13), (13, 0)];
    21 => [(8, 13), (13, 8), (21, 0), (0, 21)];
}
#[repr(C)]
struct Frame<T, const N: usize> { before: [MaybeUninit<T>; 2], data: [MaybeUninit<T>; N], after: [MaybeUninit<T>; 2] }
fn untouched<T>(x: &[MaybeUninit<T>]) -> bool {
    let p = x.as_ptr() as *const u8;
    (0..std::mem::size_of_val(x)).all(|i| unsafe { p.add(i).read() } == 0xa5)
}
pub struct Bad { pub sig: String, pub msg: String }
#[derive(Default)]
pub struct Seen { pub ty: &'static str, pub len: usize, pub abandoned: bool, pub log: Vec<String> }
fn bad<R>(w: &World, t: &str, n: usize, sig: &str, msg: String) -> Result<R, Bad> {
    Err(Bad { sig: sig.into(), msg: format!("{msg}\n  {n} elements of {t}: {}", w.log.join("; ")) })
}
fn go<T: El, const N: usize>(choose: &mut dyn FnMut(usize) -> usize) -> Result<Seen, Bad> where for<'a> P<'a, T, N>: Piece {
    DROPS.with(|d| d.borrow_mut().clear());
    MADE.with(|m| m.set(0));
    let abandon = choose(4) == 3;
    let mut w = World { choose, slots: vec![None; N], log: vec![], steps: 0 };
    let mut f: Box<Frame<T, N>> = Box::new(unsafe { MaybeUninit::uninit().assume_init() });
    unsafe { std::ptr::write_bytes(&mut *f as *mut Frame<T, N> as *mut u8, 0xa5, std::mem::size_of::<Frame<T, N>>()) };
    let mut left = false;
    let mut panicked = false;
    {
        let mut live: Vec<Box<dyn Piece + '_>> = vec![Box::new(P::<T, N>(0, Cursor::new(&mut f.data)))];
        // the piece that is going to be dropped unfilled
        let mut doomed: Option<Box<dyn Piece + '_>> = None;
        while !live.is_empty() {
            let i = (w.choose)(live.len());
            let p = live.swap_remove(i);
            let (b, n) = p.range();
            if abandon && doomed.is_none() && (w.choose)(3) == 0 { w.log.push(format!("keep {b}..{} unfilled", b + n)); doomed = Some(p); continue; }
            if n == 0 && (w.choose)(2) == 0 {
                w.log.push(format!("drop the empty cursor at {b}"));
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.abandon())).is_err() { return bad(&w, T::NAME, N, "empty cursor panics", format!("dropping the empty cursor at {b} panics")); }
                continue;
            }
            live.extend(p.step(&mut w));
        }
        if let Some(p) = doomed {
            let (b, n) = p.range();
            left = n > 0;
            w.log.push(format!("drop {b}..{}", b + n));
            panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.abandon())).is_err();
        }
    }
    if left && !panicked { return bad(&w, T::NAME, N, "unfilled cursor dropped silently", "a cursor was dropped with positions left to fill, without a panic".into()); }
    if !left && panicked { return bad(&w, T::NAME, N, "complete cursor panics", "dropping a cursor without unfilled positions panics".into()); }
    let d = drops();
    if !d.is_empty() { return bad(&w, T::NAME, N, "elements dropped", format!("the cursor dropped the elements {d:?}")); }
    if !untouched(&f.before) || !untouched(&f.after) { return bad(&w, T::NAME, N, "outside the array", "bytes outside of the array changed".into()); }
    for k in 0..N {
        match w.slots[k] {
            None => if !untouched(&f.data[k..k + 1]) { return bad(&w, T::NAME, N, "unfilled position written", format!("position {k} changed, but nothing was written there")); },
            Some(id) => {
                let got = unsafe { f.data[k].assume_init_ref() }.id();
                if got != id { return bad(&w, T::NAME, N, "element position", format!("position {k} holds element {got} instead of {id}")); }
            }
        }
    }
    let filled: Vec<u32> = w.slots.iter().flatten().copied().collect();
    if !left && filled.len() != N { return bad(&w, T::NAME, N, "harness: not all filled", format!("{:?}", w.slots)); }
    // every element is owned exactly once
    for k in 0..N { if w.slots[k].is_some() { unsafe { f.data[k].assume_init_drop() }; } }
    let d = drops();
    if T::TRACKED && d != filled { return bad(&w, T::NAME, N, "ownership", format!("dropping the array drops {d:?} instead of {filled:?}")); }
    Ok(Seen { ty: T::NAME, len: N, abandoned: left, log: std::mem::take(&mut w.log) })
}
fn len<T: El>(c: &mut dyn FnMut(usize) -> usize) -> Result<Seen, Bad> {
    match c(11) { 0 => go::<T, 0>(c), 1 => go::<T, 1>(c), 2 => go::<T, 2>(c), 3 => go::<T, 3>(c), 4 => go::<T, 4>(c), 5 => go::<T, 5>(c), 6 => go::<T, 6>(c), 7 => go::<T, 7>(c), 8 => go::<T, 8>(c), 9 => go::<T, 13>(c), _ => go::<T, 21>(c) }
}
/// one history; `choose(n)` picks a number below n
pub fn history(c: &mut dyn FnMut(usize) -> usize) -> Result<Seen, Bad> {
    match c(12) {
        0 => len::<u8>(c), 1 => len::<u16>(c), 2 => len::<u64>(c), 3 => len::<u128>(c), 4 => len::<bool>(c), 5 => len::<[u8; 3]>(c), 6 => len::<(u8, u64, u16)>(c),
        7 => len::<Small>(c), 8 => len::<Heap>(c), 9 => len::<Wide>(c), 10 => len::<Zero>(c), _ => len::<()>(c),
    }
}
