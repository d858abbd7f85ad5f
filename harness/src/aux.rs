//! Records the word traits and the operator values. `aux OUT SEED COUNT`; no oracle here.
use hash_trie::results::*;
use hash_trie::traits::*;
use hash_trie::transformations::*;
use std::cell::RefCell;
use std::fmt::{Debug, Write as W};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn wide(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
}
fn pos(x: u128) -> String { let v: Vec<String> = (0..128).filter(|i| x >> i & 1 == 1).map(|i| i.to_string()).collect(); format!("[{}]", v.join(",")) }
fn err(e: BitError) -> i64 { match e { BitError::CountNotEqualToOne => -1, BitError::NotFound => -2, BitError::Found => -3, BitError::Range => -4 } }
trait Word: AsUsize + BitContains + BitIndex + BitInsert + BitMerge + BitRemove + CountOnes + LogB + MaxOnes + NthBit + Copy + Debug { const NAME: &'static str; fn w(self) -> u128; fn of(x: u128) -> Self; }
macro_rules! word { ($($t:ident)*) => { $(impl Word for $t { const NAME: &'static str = stringify!($t); fn w(self) -> u128 { self as u128 } fn of(x: u128) -> Self { x as $t } })* } }
word!(u8 u16 u32 u64 u128 usize);
fn emit(out: &mut String, head: String, f: impl FnOnce(&mut String)) {
    let mut body = String::new();
    match catch_unwind(AssertUnwindSafe(|| f(&mut body))) {
        Ok(()) => { let _ = writeln!(out, "{{{head}{body}}}"); }
        Err(_) => { let _ = writeln!(out, "{{{head},\"e\":\"panic\"}}"); }
    }
}
fn list(b: &mut String, nm: &str, v: Vec<String>) { let _ = write!(b, ",\"{nm}\":[{}]", v.join(",")); }
fn word<T: Word>(out: &mut String, a: u128, bs: &[u128]) {
    let a = T::of(a);
    emit(out, format!("\"op\":\"word\",\"w\":\"{}\",\"a\":{}", T::NAME, pos(a.w())), |o| {
        let b: Vec<T> = bs.iter().map(|b| T::of(*b)).collect();
        let ws = |r: Result<T, BitError>| match r { Ok(x) => pos(x.w()), Err(e) => format!("[{}]", err(e)) };
        list(o, "bs", b.iter().map(|b| pos(b.w())).collect());
        list(o, "con", b.iter().map(|b| a.bit_contains(*b).map(|x| x as i64).unwrap_or_else(err).to_string()).collect());
        list(o, "idx", b.iter().map(|b| a.bit_index(*b).map(|x| x.min(1 << 30) as i64).unwrap_or_else(err).to_string()).collect());
        list(o, "ins", b.iter().map(|b| ws(a.bit_insert(*b))).collect());
        list(o, "rem", b.iter().map(|b| ws(a.bit_remove(*b))).collect());
        list(o, "mrg", b.iter().map(|b| ws(a.bit_merge(*b))).collect());
        let _ = write!(o, ",\"cnt\":{}", a.count_ones_t().min(1 << 30));
    });
}
fn consts<T: Word>(out: &mut String) {
    let bits = std::mem::size_of::<T>() * 8;
    emit(out, format!("\"op\":\"consts\",\"w\":\"{}\",\"bits\":{bits}", T::NAME), |o| { let _ = write!(o, ",\"log\":{},\"max\":{}", T::log_b(), T::max_ones()); });
    let mut ns: Vec<usize> = (0..150).collect();
    ns.extend([255, 256, 257, 258, 511, 512, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 3, (1 << 40) + 7, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX]);
    for n in ns { emit(out, format!("\"op\":\"nth\",\"w\":\"{}\",\"bits\":{bits},\"n\":{}", T::NAME, n.min(1_000_000_000)), |o| { let _ = write!(o, ",\"res\":{}", match T::nth_bit(n) { Ok(x) => pos(x.w()), Err(e) => format!("[{}]", err(e)) }); }); }
    for v in 0..bits { emit(out, format!("\"op\":\"asu\",\"w\":\"{}\",\"v\":{v}", T::NAME), |o| { let _ = write!(o, ",\"got\":{}", T::of(v as u128).as_usize()); }); }
}
fn mask<F: Word + MaskLogB<T>, T: Word>(out: &mut String) {
    emit(out, format!("\"op\":\"mask\",\"w\":\"{}\",\"bits\":{},\"t\":\"{}\"", F::NAME, std::mem::size_of::<F>() * 8, T::NAME), |o| { let _ = write!(o, ",\"got\":{}", pos(<F as MaskLogB<T>>::mask_log_b().w())); });
}
fn wide<T: Word>(out: &mut String, rng: &mut Rng, count: usize) {
    let bits = std::mem::size_of::<T>() * 8;
    let full = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let singles: Vec<u128> = (0..bits).map(|i| 1u128 << i).collect();
    let mut xs: Vec<u128> = vec![0, full, full ^ 1, full >> 1, 1u128 << (bits - 1), 1, full / 3, full / 3 * 2, full ^ (1u128 << (bits / 2))];
    xs.extend(singles.iter().take(if count > 100 { bits } else { 8 }));
    xs.extend((1..bits).filter(|i| i % 8 == 0).map(|i| (1u128 << i) - 1));
    for k in 0..count { let a = rng.wide(); let b = rng.wide(); let c = rng.wide(); xs.push(full & match k % 4 { 0 => a, 1 => a & b, 2 => a | b, _ => a & b & c }) }
    for a in xs {
        let mut bs = singles.clone();
        bs.push(0); bs.push(full); bs.push(full & !a); bs.push(a);
        for k in 0..10 { let x = rng.wide(); let y = rng.wide(); bs.push(full & match k { 0 => x, 1 => x & !a, 2 => (1 << (x as usize % bits)) | (1 << (y as usize % bits)), 3 => !a & x & y, 4 => (!a & x) | (a & (1u128 << (y as usize % bits))), _ => (1 << (x as usize % bits)) | (1 << ((x as usize + 1) % bits)) }) }
        word::<T>(out, a, &bs);
    }
}

thread_local! { static SEEN: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }
fn saw(v: &[u32]) -> u32 { SEEN.with(|s| s.borrow_mut().extend_from_slice(v)); v.iter().fold(0, |a, x| a * 10 + x) }
const R: u32 = 100_000;
const CR: u32 = 7_777;
type Res = (i64, i64, u32);
fn mjr(r: MapJointTransformResult<u32, u32>) -> Res { match r { MapJointTransformResult::UnchangedLR(r) => (0, -1, r), MapJointTransformResult::UnchangedL(r) => (1, -1, r), MapJointTransformResult::UnchangedR(r) => (2, -1, r), MapJointTransformResult::Transformed(v, r) => (3, v as i64, r), MapJointTransformResult::Removed(r) => (4, -1, r) } }
fn sjr(r: SetJointTransformResult<u32>) -> Res { match r { SetJointTransformResult::UnchangedLR(r) => (0, -1, r), SetJointTransformResult::UnchangedL(r) => (1, -1, r), SetJointTransformResult::UnchangedR(r) => (2, -1, r), SetJointTransformResult::Removed(r) => (4, -1, r) } }
fn mtr<V: Into<u64>>(r: MapTransformResult<V, u32>) -> Res { match r { MapTransformResult::Unchanged(r) => (0, -1, r), MapTransformResult::Transformed(v, r) => (1, v.into() as i64, r), MapTransformResult::Removed(r) => (2, -1, r) } }
fn str_(r: SetTransformResult<u32>) -> Res { match r { SetTransformResult::Unchanged(r) => (0, -1, r), SetTransformResult::Removed(r) => (2, -1, r) } }
fn mmr(r: MapTransmuteResult<u32, u64, u32>) -> Res { match r { MapTransmuteResult::Transmuted(k, v, r) => (1, if k as u64 + 1 == v { v as i64 } else { -9 }, r), MapTransmuteResult::Removed(r) => (2, -1, r) } }
fn smr(r: SetTransmuteResult<u32, u32>) -> Res { match r { SetTransmuteResult::Transmuted(k, r) => (1, k as i64, r), SetTransmuteResult::Removed(r) => (2, -1, r) } }
fn mkmj(c: i64, x: u32) -> MapJointTransformResult<u32, u32> { match c { 0 => MapJointTransformResult::UnchangedLR(x + R), 1 => MapJointTransformResult::UnchangedL(x + R), 2 => MapJointTransformResult::UnchangedR(x + R), 3 => MapJointTransformResult::Transformed(x, x + R), _ => MapJointTransformResult::Removed(x + R) } }
fn mksj(c: i64, x: u32) -> SetJointTransformResult<u32> { match c { 0 => SetJointTransformResult::UnchangedLR(x + R), 1 => SetJointTransformResult::UnchangedL(x + R), 2 => SetJointTransformResult::UnchangedR(x + R), _ => SetJointTransformResult::Removed(x + R) } }
fn mkmt<V: From<u16>>(c: i64, x: u32) -> MapTransformResult<V, u32> { match c { 0 => MapTransformResult::Unchanged(x + R), 1 => MapTransformResult::Transformed(V::from(x as u16), x + R), _ => MapTransformResult::Removed(x + R) } }
fn mkst(c: i64, x: u32) -> SetTransformResult<u32> { if c == 0 { SetTransformResult::Unchanged(x + R) } else { SetTransformResult::Removed(x + R) } }
fn mkmm(c: i64, x: u32) -> MapTransmuteResult<u32, u64, u32> { if c == 1 { MapTransmuteResult::Transmuted(x, x as u64 + 1, x + R) } else { MapTransmuteResult::Removed(x + R) } }
fn mksm(c: i64, x: u32) -> SetTransmuteResult<u32, u32> { if c == 1 { SetTransmuteResult::Transmuted(x, x + R) } else { SetTransmuteResult::Removed(x + R) } }

/// one event: an operator of this kind, flipped `flips` times (`init`: built already flipped), called on `args`
fn call(out: &mut String, kind: &str, cst: i64, ans: i64, init: bool, flips: usize, args: &[u32], f: impl FnOnce() -> Res) {
    SEEN.with(|s| s.borrow_mut().clear());
    emit(out, format!("\"op\":\"call\",\"kind\":\"{kind}\",\"cst\":{cst},\"ans\":{ans},\"init\":{},\"flips\":{flips},\"args\":{args:?}", init as u8), |o| {
        let r = f();
        let _ = write!(o, ",\"got\":[{},{},{}],\"seen\":{:?}", r.0, r.1, r.2, SEEN.with(|s| s.borrow().clone()));
    });
}
macro_rules! flips { ($o:expr, $n:expr) => {{ let mut o = $o; for _ in 0..$n { o = o.flip(); } o }} }
fn operators(out: &mut String) {
    for t in 0..81u32 {
        let (k, v, l, w) = (t / 27, t / 9 % 3 + 3, t / 3 % 3, t % 3 + 3);
        let (k1, v1, l1, w1) = (k as u8, v as u64, l as u16, w as u32);
        let a4 = [k, v, l, w];
        let a2 = [k, l];
        for fl in 0..5usize {
            for c in 0..5i64 {
                let g = move |k: &u32, v: &u32, l: &u32, w: &u32| mkmj(c, saw(&[*k, *v, *l, *w]));
                for init in [false, true] { call(out, "mj", -1, c, init, fl, &a4, || mjr(flips!(MapJointTransform::Generic(g, init), fl).call(&k, &v, &l, &w))); }
                call(out, "mj", -1, c, false, fl, &a4, || mjr(flips!(new_map_joint_transform_generic(g), fl).call(&k, &v, &l, &w)));
            }
            macro_rules! cmj { ($c:expr, $f:ident, $e:ident) => {
                call(out, "mj", $c, -1, false, fl, &a4, || mjr(flips!($f::<u32, u32, u32>(CR), fl).call(&k, &v, &l, &w)));
                let o: MapJointTransform<u32, fn(&u32, &u32, &u32, &u32) -> MapJointTransformResult<u32, u32>> = MapJointTransform::$e(CR);
                call(out, "mj", $c, -1, false, fl, &a4, || mjr(flips!(o, fl).call(&k, &v, &l, &w)));
            } }
            cmj!(0, new_map_joint_transform_unchangedlr, UnchangedLR); cmj!(1, new_map_joint_transform_unchangedl, UnchangedL);
            cmj!(2, new_map_joint_transform_unchangedr, UnchangedR); cmj!(4, new_map_joint_transform_removed, Removed);
            if v == 3 && w == 3 {
                for c in [0, 1, 2, 4] {
                    let g = move |k: &u32, l: &u32| mksj(c, saw(&[*k, *l]));
                    for init in [false, true] { call(out, "sj", -1, c, init, fl, &a2, || sjr(flips!(SetJointTransform::Generic(g, init), fl).call(&k, &l))); }
                    call(out, "sj", -1, c, false, fl, &a2, || sjr(flips!(new_set_joint_transform_generic(g), fl).call(&k, &l)));
                }
                macro_rules! csj { ($c:expr, $f:ident, $e:ident) => {
                    call(out, "sj", $c, -1, false, fl, &a2, || sjr(flips!($f::<u32, u32>(CR), fl).call(&k, &l)));
                    let o: SetJointTransform<u32, fn(&u32, &u32) -> SetJointTransformResult<u32>> = SetJointTransform::$e(CR);
                    call(out, "sj", $c, -1, false, fl, &a2, || sjr(flips!(o, fl).call(&k, &l)));
                } }
                csj!(0, new_set_joint_transform_unchangedlr, UnchangedLR); csj!(1, new_set_joint_transform_unchangedl, UnchangedL);
                csj!(2, new_set_joint_transform_unchangedr, UnchangedR); csj!(4, new_set_joint_transform_removed, Removed);
            }
        }
        // pair operators with different types on the two sides; arguments are given in the order the (flipped) operator takes them
        let b4 = [l, w, k, v];
        let b2 = [l, k];
        macro_rules! tt { ($o:expr, $cst:expr, $ans:expr) => {{
            call(out, "tt", $cst, $ans, false, 0, &a4, || { let o = $o; mtr(o.call_transform_transmute(&k1, &v1, &l1, &w1)) });
            call(out, "tt", $cst, $ans, false, 1, &b4, || { let o = $o; let o = o.flip_transform_transmute(); mtr(o.call_transmute_transform(&l1, &w1, &k1, &v1)) });
            call(out, "tt", $cst, $ans, false, 2, &a4, || { let o = $o; let o = o.flip_transform_transmute(); let o = o.flip_transmute_transform(); mtr(o.call_transform_transmute(&k1, &v1, &l1, &w1)) });
            call(out, "tt", $cst, $ans, false, 3, &b4, || { let o = $o; let o = o.flip_transform_transmute(); let o = o.flip_transmute_transform(); let o = o.flip_transform_transmute(); mtr(o.call_transmute_transform(&l1, &w1, &k1, &v1)) });
        }} }
        macro_rules! mt { ($o:expr, $cst:expr, $ans:expr) => {{
            call(out, "mt", $cst, $ans, false, 0, &a4, || { let o = $o; mtr(o.call_transmute_transform(&k1, &v1, &l1, &w1)) });
            call(out, "mt", $cst, $ans, false, 1, &b4, || { let o = $o; let o = o.flip_transmute_transform(); mtr(o.call_transform_transmute(&l1, &w1, &k1, &v1)) });
            call(out, "mt", $cst, $ans, false, 2, &a4, || { let o = $o; let o = o.flip_transmute_transform(); let o = o.flip_transform_transmute(); mtr(o.call_transmute_transform(&k1, &v1, &l1, &w1)) });
        }} }
        macro_rules! um { ($o:expr, $cst:expr, $ans:expr) => {{
            call(out, "um", $cst, $ans, false, 0, &a4, || { let o = $o; mmr(o.call_transmute(&k1, &v1, &l1, &w1)) });
            call(out, "um", $cst, $ans, false, 1, &b4, || { let o = $o; let o = o.flip(); mmr(o.call_transmute(&l1, &w1, &k1, &v1)) });
            call(out, "um", $cst, $ans, false, 2, &a4, || { let o = $o; let o = o.flip(); let o = o.flip(); mmr(o.call_transmute(&k1, &v1, &l1, &w1)) });
        }} }
        macro_rules! st { ($o:expr, $cst:expr, $ans:expr) => {{
            call(out, "st", $cst, $ans, false, 0, &a2, || { let o = $o; str_(o.call_transmute(&k1, &l1)) });
            call(out, "st", $cst, $ans, false, 1, &b2, || { let o = $o; let o = o.flip_transmute(); str_(o.call_transmute(&l1, &k1)) });
            call(out, "st", $cst, $ans, false, 2, &a2, || { let o = $o; let o = o.flip_transmute(); let o = o.flip_transmute(); str_(o.call_transmute(&k1, &l1)) });
        }} }
        macro_rules! us { ($o:expr, $cst:expr, $ans:expr) => {{
            call(out, "us", $cst, $ans, false, 0, &a2, || { let o = $o; smr(o.call_transmute(&k1, &l1)) });
            call(out, "us", $cst, $ans, false, 1, &b2, || { let o = $o; let o = o.flip(); smr(o.call_transmute(&l1, &k1)) });
            call(out, "us", $cst, $ans, false, 2, &a2, || { let o = $o; let o = o.flip(); let o = o.flip(); smr(o.call_transmute(&k1, &l1)) });
        }} }
        for c in 0..3i64 {
            let g = move |k: &u8, v: &u64, l: &u16, w: &u32| mkmt::<u64>(c, saw(&[*k as u32, *v as u32, *l as u32, *w]));
            tt!(MapTransform::Generic(g), -1, c); tt!(new_map_transform_transmute_generic(g), -1, c);
            let g = move |k: &u8, v: &u64, l: &u16, w: &u32| mkmt::<u32>(c, saw(&[*k as u32, *v as u32, *l as u32, *w]));
            mt!(MapTransform::Generic(g), -1, c); mt!(new_map_transmute_transform_generic(g), -1, c);
            if c > 0 {
                let g = move |k: &u8, v: &u64, l: &u16, w: &u32| mkmm(c, saw(&[*k as u32, *v as u32, *l as u32, *w]));
                um!(MapTransmute::Generic(g), -1, c); um!(new_map_transmute_transmute_generic(g), -1, c);
                let g = move |k: &u8, l: &u16| mksm(c, saw(&[*k as u32, *l as u32]));
                us!(SetTransmute::Generic(g), -1, c); us!(new_set_transmute_transmute_generic(g), -1, c);
                let g = move |k: &u32, v: &u64| mkmm(c, saw(&[*k, *v as u32]));
                call(out, "um", -1, c, false, 0, &[k, v], || { let o: MapTransmute<u32, _> = MapTransmute::Generic(g); mmr(o.call(&k, &v1)) });
                call(out, "um", -1, c, false, 0, &[k, v], || mmr(new_map_transmute_generic(g).call(&k, &v1)));
                let g = move |k: &u32| mksm(c, saw(&[*k]));
                call(out, "us", -1, c, false, 0, &[k], || { let o: SetTransmute<u32, _> = SetTransmute::Generic(g); smr(o.call(&k)) });
                call(out, "us", -1, c, false, 0, &[k], || smr(new_set_transmute_generic(g).call(&k)));
            }
            if c != 1 {
                let g = move |k: &u8, l: &u16| mkst(c, saw(&[*k as u32, *l as u32]));
                st!(SetTransform::Generic(g), -1, c); st!(new_set_transform_transmute_generic(g), -1, c);
                let g = move |k: &u32| mkst(c, saw(&[*k]));
                call(out, "st", -1, c, false, 0, &[k], || { let o: SetTransform<u32, _> = SetTransform::Generic(g); str_(o.call(&k)) });
                call(out, "st", -1, c, false, 0, &[k], || str_(new_set_transform_generic(g).call(&k)));
            }
            let g = move |k: &u32, v: &u64| mkmt::<u64>(c, saw(&[*k, *v as u32]));
            call(out, "tt", -1, c, false, 0, &[k, v], || { let o: MapTransform<u32, _> = MapTransform::Generic(g); mtr(o.call(&k, &v1)) });
            call(out, "tt", -1, c, false, 0, &[k, v], || mtr(new_map_transform_generic(g).call(&k, &v1)));
        }
        tt!(new_map_transform_transmute_unchanged::<u8, u64, u16, u32, u32>(CR), 0, -1); tt!(new_map_transform_transmute_removed::<u8, u64, u16, u32, u32>(CR), 2, -1);
        mt!(new_map_transmute_transform_unchanged::<u8, u64, u16, u32, u32>(CR), 0, -1); mt!(new_map_transmute_transform_removed::<u8, u64, u16, u32, u32>(CR), 2, -1);
        um!(new_map_transmute_transmute_removed::<u8, u64, u16, u32, u32, u64, u32>(CR), 2, -1);
        st!(new_set_transform_transmute_unchanged::<u8, u16, u32>(CR), 0, -1); st!(new_set_transform_transmute_removed::<u8, u16, u32>(CR), 2, -1);
        us!(new_set_transmute_transmute_removed::<u8, u16, u32, u32>(CR), 2, -1);
        call(out, "tt", 0, -1, false, 0, &[k, v], || mtr(new_map_transform_unchanged::<u32, u64, u32>(CR).call(&k, &v1)));
        call(out, "tt", 2, -1, false, 0, &[k, v], || mtr(new_map_transform_removed::<u32, u64, u32>(CR).call(&k, &v1)));
        call(out, "um", 2, -1, false, 0, &[k, v], || mmr(new_map_transmute_removed::<u32, u64, u32, u64, u32>(CR).call(&k, &v1)));
        call(out, "st", 0, -1, false, 0, &[k], || str_(new_set_transform_unchanged::<u32, u32>(CR).call(&k)));
        call(out, "st", 2, -1, false, 0, &[k], || str_(new_set_transform_removed::<u32, u32>(CR).call(&k)));
        call(out, "us", 2, -1, false, 0, &[k], || smr(new_set_transmute_removed::<u32, u32, u32>(CR).call(&k)));
    }
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = String::new();
    let mut rng = Rng(a[3].parse().unwrap());
    let count: usize = a[4].parse().unwrap();
    if a[2] == "words" {
        let all: Vec<u128> = (0..256).collect();
        for x in 0..256u128 { word::<u8>(&mut out, x, &all); }
        consts::<u8>(&mut out); consts::<u16>(&mut out); consts::<u32>(&mut out); consts::<u64>(&mut out); consts::<u128>(&mut out); consts::<usize>(&mut out);
        macro_rules! m { ($f:ty: $($t:ty)*) => { $(mask::<$f, $t>(&mut out);)* } }
        m!(u8: u8 u16 u32 u64 u128 usize); m!(u16: u8 u16 u32 u64 u128 usize);
        m!(u32: u16 u32 u64 u128 usize); m!(u64: u16 u32 u64 u128 usize); m!(u128: u16 u32 u64 u128 usize); m!(usize: u16 u32 u64 u128 usize);
        wide::<u16>(&mut out, &mut rng, count); wide::<u32>(&mut out, &mut rng, count); wide::<u64>(&mut out, &mut rng, count); wide::<u128>(&mut out, &mut rng, count); wide::<usize>(&mut out, &mut rng, count);
    } else { operators(&mut out); }
    std::fs::File::create(&a[1]).unwrap().write_all(out.as_bytes()).unwrap();
}
