//! C17: reported space usage equals the memory really owned.

use common::*;
use engine::{alloc, Prop, Src};
use std::fmt::Debug;
use std::hint::black_box;
use std::mem::size_of;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::SpaceUsage;

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "either a structure of one of 60 types (vectors, boxes, tuples, bit and integer vectors, rank and \
           select structures and their nestings) built with random sizes and spare capacity, or a history \
           of operations on a bit or integer vector; the bytes the allocator handed out for it are \
           compared with the reported heap bytes (after every operation). Non-trivial: at least 64 bytes \
           owned in at least two allocations, or 3 changes of the heap size",
    case,
    directed: &[],
};

/// Choices made in advance, so that building allocates nothing else.
struct Plan {
    xs: Vec<u64>,
    at: usize,
    depth: usize,
    parts: usize,
    /// Inside a long vector, where everything is small.
    many: bool,
}

impl Plan {
    fn next(&mut self) -> u64 {
        self.at += 1;
        self.xs[self.at % self.xs.len()].rotate_left((self.at / self.xs.len()) as u32)
    }
    fn below(&mut self, n: u64) -> usize {
        (self.next() % n) as usize
    }
    fn size(&mut self) -> usize {
        let n = if self.many { 12 } else { [3, 20, 200, 5000][self.below(4)] };
        self.below(n)
    }
}

trait Make: SpaceUsage {
    fn make(p: &mut Plan) -> Self;
}

macro_rules! make_prim {
    ($($t:ty)+) => { $(
        impl Make for $t {
            fn make(p: &mut Plan) -> Self { p.next() as $t }
        }
    )+ }
}
make_prim!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);

impl Make for () {
    fn make(_: &mut Plan) -> Self {}
}

/// A user's plain type.
#[derive(Clone, Copy, Debug)]
pub struct Point(pub u8, pub u32, pub u8);
succinct::impl_stack_only_space_usage!(Point);

impl Make for Point {
    fn make(p: &mut Plan) -> Self {
        Point(p.next() as u8, p.next() as u32, 0)
    }
}

static BORROWED: [u64; 4] = [1, 2, 3, 4];

impl Make for &'static [u64] {
    fn make(p: &mut Plan) -> Self {
        &BORROWED[..p.below(5)]
    }
}

impl Make for &'static u64 {
    fn make(_: &mut Plan) -> Self {
        &BORROWED[1]
    }
}

impl<B: Blk> Make for BitVector<B> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 1;
        match p.below(4) {
            0 => BitVector::new(),
            1 => BitVector::with_capacity(p.size() as u64),
            2 => BitVector::with_fill(p.size() as u64, true),
            _ => {
                let mut v = BitVector::new();
                for i in 0..p.size() {
                    v.push_bit(i % 3 == 0);
                }
                v
            }
        }
    }
}

impl<B: Blk> Make for IntVector<B> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 1;
        let k = 1 + p.below(B::BITS as u64);
        match p.below(4) {
            0 => IntVector::new(k),
            1 => IntVector::with_capacity(k, p.size() as u64),
            2 => IntVector::with_fill(k, p.size() as u64, B::of(0)),
            _ => {
                let mut v = IntVector::new(k);
                for i in 0..p.size() {
                    v.push(B::of(i as u64 & low(k)));
                }
                v
            }
        }
    }
}

impl<T: Make + BitVec> Make for JacobsonRank<T> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 2;
        JacobsonRank::new(T::make(p))
    }
}

impl<T: Make + BitVec<Block = u64>> Make for Rank9<T> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 1;
        Rank9::new(T::make(p))
    }
}

impl<T: Make + succinct::rank::RankSupport> Make for BinSearchSelect<T> {
    fn make(p: &mut Plan) -> Self {
        BinSearchSelect::new(T::make(p))
    }
}

impl<T: Make + Debug> Make for Vec<T> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 1;
        p.depth += 1;
        let long = p.depth == 1 && !T::is_stack_only() && p.below(4) == 0;
        let most = [30, 100, 300][p.below(3)];
        let n = match () {
            _ if T::is_stack_only() => p.size(),
            _ if long => p.below(most),
            _ => p.below(if p.depth > 2 { 3 } else { 8 }),
        };
        p.many |= long;
        let mut v = if p.below(2) == 0 { Vec::new() } else { Vec::with_capacity(n + p.below(20)) };
        for _ in 0..n {
            v.push(T::make(p));
        }
        p.depth -= 1;
        p.many &= !long;
        v
    }
}

impl<T: Make> Make for Box<T> {
    fn make(p: &mut Plan) -> Self {
        p.parts += 1;
        Box::new(T::make(p))
    }
}

macro_rules! make_tuple {
    ($($t:ident)+) => {
        impl<$($t: Make),+> Make for ($($t,)+) {
            fn make(p: &mut Plan) -> Self { ($($t::make(p),)+) }
        }
    }
}
make_tuple!(A);
make_tuple!(A B);
make_tuple!(A B C);
make_tuple!(A B C D);
make_tuple!(A B C D E);
make_tuple!(A B C D E F);
make_tuple!(A B C D E F G);
make_tuple!(A B C D E F G H);
make_tuple!(A B C D E F G H I);
make_tuple!(A B C D E F G H I J);
make_tuple!(A B C D E F G H I J K);
make_tuple!(A B C D E F G H I J K L);

/// Builds one and compares; whether it owned at least 64 bytes.
fn one<T: Make>(p: &mut Plan) -> bool {
    let before = alloc::live();
    // Without black_box, the compiler may leave allocations out.
    let x = black_box(T::make(p));
    let owned = alloc::live() - before;
    let name = std::any::type_name::<T>();
    report(name, &x, owned);
    drop(x);
    let left = alloc::live() - before;
    assert!(left == 0, "HARNESS: building {} leaked {} bytes", name, left);
    owned >= 64 && p.parts >= 2
}

fn report<T: SpaceUsage>(name: &str, x: &T, owned: isize) {
    let (h, t, st) = (x.heap_bytes(), x.total_bytes(), T::stack_bytes());
    assert!(h as isize == owned, "{} reports {} heap bytes, but owns {}", name, h, owned);
    assert!(st == size_of::<T>(), "{} reports {} stack bytes of {}", name, st, size_of::<T>());
    assert!(t == h + size_of::<T>(), "{} reports {} bytes in total, with {} on the heap", name, t, h);
    assert!(!T::is_stack_only() || h == 0, "{} is stack-only, with {} heap bytes", name, h);
}

macro_rules! types {
    ($($t:ty;)+) => {
        const TYPES: &[(&str, fn(&mut Plan) -> bool)] = &[$((stringify!($t), one::<$t>)),+];
    }
}

type Bv = BitVector<u64>;
type Iv = IntVector<u64>;
type E = u16;
type O = Vec<u8>;

types! {
    u8; u64; f32; (); isize; Point; &'static [u64]; &'static u64;
    BitVector<u8>; BitVector<u16>; BitVector<u32>; Bv; BitVector<usize>;
    IntVector<u8>; IntVector<u16>; IntVector<u32>; Iv; IntVector<usize>;
    Vec<u8>; Vec<u64>; Vec<()>; Vec<Point>; Vec<(u32, u8)>; Vec<Vec<u32>>; Vec<Vec<Vec<u16>>>;
    Vec<Bv>; Vec<IntVector<u8>>; Vec<Box<u32>>; Vec<Box<BitVector<u8>>>; Vec<(u8, Vec<u8>)>;
    Vec<JacobsonRank<BitVector<u16>>>; Vec<Rank9<Bv>>; Vec<&'static [u64]>;
    Box<u8>; Box<()>; Box<Bv>; Box<Box<Vec<u64>>>; Box<(u8, Box<u64>)>; Box<Rank9<Bv>>;
    JacobsonRank<u64>; JacobsonRank<Vec<u8>>; JacobsonRank<Vec<u64>>; JacobsonRank<Bv>;
    JacobsonRank<BitVector<u8>>; JacobsonRank<IntVector<u32>>; JacobsonRank<JacobsonRank<BitVector<u16>>>;
    Rank9<u64>; Rank9<Vec<u64>>; Rank9<Bv>; Rank9<Iv>; Rank9<JacobsonRank<Bv>>; Rank9<&'static [u64]>;
    BinSearchSelect<JacobsonRank<BitVector<u32>>>; BinSearchSelect<Rank9<Bv>>;
    JacobsonRank<BinSearchSelect<Rank9<Bv>>>; BinSearchSelect<u32>; Box<BinSearchSelect<Rank9<Bv>>>;
    (Bv,); (u8, Bv); (Bv, u8, Iv); (O, E, E, O); (Vec<u32>, u8, Box<u16>, Bv, Iv); (E, E, O, E, E, O);
    (O, E, E, E, E, E, O); (E, O, E, E, E, O, E, O); (E, E, E, E, E, E, E, E, O); (O, E, E, E, E, O, E, E, E, O);
    (E, E, E, E, O, E, E, E, E, E, O); (O, O, O, O, O, O, O, O, O, O, O, O); (E, E, E, E, E, E, E, E, E, E, E, E);
    ((O, (E, O)), E, (O,));
}

pub fn case(s: &mut Src) {
    match s.idx(4) {
        0 | 1 => {
            let n = 4 + s.size(20);
            let xs: Vec<u64> = (0..n).map(|_| s.draw(u64::MAX, |r| r.next())).collect();
            let (name, f) = *s.pick(TYPES);
            s.note(|| format!("{} from {:x?}", name, xs));
            let mut p = Plan { xs, at: 0, depth: 0, parts: 0, many: false };
            let big = f(&mut p);
            s.label("built");
            s.nontrivial_if(big);
        }
        2 => {
            s.label("bit vector history");
            with_block!(s, bits(s))
        }
        _ => {
            s.label("integer vector history");
            with_block!(s, ints(s))
        }
    }
}

/// Applies an operation and accounts for what it allocates.
macro_rules! step {
    ($owned:ident, $changes:ident, $v:ident, $op:expr) => {{
        let b = alloc::live();
        $op;
        let d = alloc::live() - b;
        $owned += d;
        $changes += (d != 0) as usize;
        report("the vector", &$v, $owned);
    }};
}

fn bits<B: Blk>(s: &mut Src) {
    let mut owned = 0;
    let mut changes = 0;
    let mut v: BitVector<B> = BitVector::new();
    let n = 3 + s.size(40);
    for _ in 0..n {
        let op = s.idx(12);
        let a = gen_len_big(s, 3000, 1 << 20, 40_000);
        s.note(|| format!("op {} with {}", op, a));
        step!(owned, changes, v, match op {
            0 => (0..a).for_each(|i| v.push_bit(i % 5 == 0)),
            1 => (0..a).for_each(|_| {
                v.pop_bit();
            }),
            2 => v.resize(a as u64, true),
            3 => v.truncate(a as u64),
            4 => v.block_resize(a / 8, B::of(7)),
            5 => v.reserve(a as u64),
            6 => v.reserve_exact(a as u64),
            7 => v.block_reserve(a / 8),
            8 => v.shrink_to_fit(),
            9 => v.clear(),
            10 => v.push_block(B::of(9)),
            _ => v = v.clone(),
        });
    }
    slices(&mut v);
    s.nontrivial_if(changes >= 3);
}

fn slices<B: Blk>(v: &mut BitVector<B>) {
    let n = v.bit_len();
    report("a slice", &BitSlice::new(&*v, 0..n / 2), 0);
    report("a reference", &&*v, 0);
    report("a tuple of references", &(&*v, &BORROWED[..]), 0);
    report("a mutable slice", &BitSliceMut::new(v, ..), 0);
}

fn ints<B: Blk>(s: &mut Src) {
    let mut owned = 0;
    let mut changes = 0;
    let k = gen_width(s, B::BITS);
    let mut v: IntVector<B> = IntVector::new(k);
    let n = 3 + s.size(40);
    for _ in 0..n {
        let op = s.idx(11);
        let a = gen_len_big(s, 3000, 1 << 20, 40_000) / k;
        s.note(|| format!("width {}: op {} with {}", k, op, a));
        step!(owned, changes, v, match op {
            0 => (0..a).for_each(|i| v.push(B::of(i as u64 & low(k)))),
            1 => (0..a).for_each(|_| {
                v.pop();
            }),
            2 => v.resize(a as u64, B::of(1)),
            3 => v.truncate(a as u64),
            4 => v.block_resize(a, B::of(7)),
            5 => v.reserve(a as u64),
            6 => v.reserve_exact(a as u64),
            7 => v.block_reserve(a),
            8 => v.shrink_to_fit(),
            9 => v.clear(),
            _ => v = v.clone(),
        });
        if v.len() > 0 {
            step!(owned, changes, v, v.set(0, B::of(1)));
        }
    }
    s.nontrivial_if(changes >= 3);
}
