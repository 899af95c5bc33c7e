// Concrete differential test of the marshalling formats against an independent oracle (plain Rust).
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::VariableSizedElementSeq_v::*;
use crate::marshalling::KVPairFormat_v::*;
use crate::marshalling::math_v::usize_mult;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static CASES: AtomicU64 = AtomicU64::new(0);
static FAILS: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 16) as usize % n } }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

fn case<F: FnOnce() -> Result<(), String>>(label: impl Fn() -> String, f: F) {
    CASES.fetch_add(1, Ordering::SeqCst);
    *CUR.lock().unwrap() = label();
    let r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))),
    };
    if let Err(m) = r {
        if FAILS.fetch_add(1, Ordering::SeqCst) < 6 { println!("FAIL {} :: {}", label(), m); }
    }
}
macro_rules! eq { ($a:expr, $b:expr, $($m:tt)*) => {{ let a = $a; let b = $b; if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } }} }

pub trait El: IntFormattable<> + Debug + PartialEq + Copy {
    const N: usize; const NAME: &'static str; const MX: u64;
    fn of(x: u64) -> Self; fn le(self) -> Vec<u8>; fn un(b: &[u8]) -> Self; fn to(self) -> u64;
}
macro_rules! el { ($t:ty) => { impl El for $t {
    const N: usize = std::mem::size_of::<$t>(); const NAME: &'static str = stringify!($t); const MX: u64 = <$t>::MAX as u64;
    fn of(x: u64) -> Self { x as $t } fn le(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    fn un(b: &[u8]) -> Self { <$t>::from_le_bytes(b[..Self::N].try_into().unwrap()) } fn to(self) -> u64 { self as u64 }
} } }
el!(u8); el!(u16); el!(u32); el!(u64);

fn interesting(r: &mut Rng, k: usize) -> Vec<u64> {
    let mut v = vec![0u64, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x01020304, 0xfffe_fdfc, u32::MAX as u64, 1 << 32, 0x0102030405060708, u64::MAX, u64::MAX - 1, i64::MAX as u64];
    for _ in 0..k { v.push(r.next()); }
    v
}
fn same_outside(old: &[u8], new: &[u8], a: usize, b: usize) -> Result<(), String> {
    eq!(new.len(), old.len(), "length of the buffer");
    for i in 0..old.len() { if (i < a || i >= b) && old[i] != new[i] { return Err(format!("byte {} outside [{},{}) changed from {} to {}", i, a, b, old[i], new[i])); } }
    Ok(())
}

// ---------------------------------------------------------------- integers
fn ints<T: El>(r: &mut Rng, k: usize) {
    let f: IntFormat<T> = IntFormat::new();
    for x in interesting(r, 40 * k) {
        let v = T::of(x);
        for (pre, post) in [(0, 0), (1, 0), (0, 3), (3, 5), (r.below(9), r.below(9))] {
            let old = r.bytes(pre + T::N + post);
            case(|| format!("int {} value {:?} at {} of {}", T::NAME, v, pre, old.len()), || {
                eq!(f.exec_size(&v), T::N, "exec_size");
                eq!(f.exec_uniform_size(), T::N, "exec_uniform_size");
                eq!(T::exec_uniform_size(), T::N, "exec_uniform_size of the type");
                eq!(T::exec_max() as u64, T::MX, "exec_max");
                eq!(T::to_usize(v) as u64, v.to(), "to_usize");
                eq!(T::from_usize(v.to() as usize).to(), v.to(), "from_usize");
                eq!(T::to_le_bytes(v), v.le(), "to_le_bytes");
                eq!(T::from_le_bytes(&v.le()).to(), v.to(), "from_le_bytes");
                let mut d = old.clone();
                let end = f.exec_marshall(&v, &mut d, pre);
                eq!(end, pre + T::N, "end of the marshalled value");
                same_outside(&old, &d, pre, end)?;
                eq!(&d[pre..end], &v.le()[..], "marshalled bytes");
                let s = Slice { start: pre, end };
                eq!(f.exec_parse(&s, &d).to(), v.to(), "parse of the marshalled bytes");
                eq!(f.try_parse(&s, &d).map(|x| x.to()), Some(v.to()), "try_parse of the marshalled bytes");
                Ok(())
            });
        }
    }
    for _ in 0..(20 * k) {
        let n = r.below(T::N + 8); let d = r.bytes(n);
        for a in 0..=n { for b in a..=n {
            case(|| format!("int {} parse [{},{}) of {:?}", T::NAME, a, b, d), || {
                let s = Slice { start: a, end: b };
                let ok = b - a >= T::N;
                eq!(f.exec_parsable(&s, &d), ok, "exec_parsable");
                let want = if ok { Some(T::un(&d[a..]).to()) } else { None };
                eq!(f.try_parse(&s, &d).map(|x| x.to()), want, "try_parse");
                if ok { eq!(Some(f.exec_parse(&s, &d).to()), want, "exec_parse"); }
                Ok(())
            });
        } }
    }
}

// ---------------------------------------------------------------- sequences of uniform elements
fn elems<T: El>(d: &[u8]) -> Vec<u64> { d.chunks_exact(T::N).map(|c| T::un(c).to()).collect() }
fn uni<T: El>(r: &mut Rng, k: usize) {
    let f = UniformSizedElementSeqFormat::new(IntFormat::<T>::new());
    for it in 0..(25 * k) {
        let n = if it % 20 == 19 { 200 + r.below(200) } else { r.below(7 * T::N + 3) };
        let pre = r.below(5); let post = r.below(5);
        let old = r.bytes(pre + n + post);
        let s = Slice { start: pre, end: pre + n };
        let w = elems::<T>(&old[pre..pre + n]);
        case(|| format!("uniform<{}> read [{},{}) of {:?}", T::NAME, pre, pre + n, &old[..old.len().min(80)]), || {
            eq!(f.try_length(&s, &old), Some(w.len()), "try_length");
            eq!(f.exec_length(&s, &old), w.len(), "exec_length");
            eq!(f.exec_lengthable(&s, &old), true, "exec_lengthable");
            eq!(f.exec_parsable(&s, &old), true, "exec_parsable");
            eq!(f.try_parse(&s, &old).map(|v| v.iter().map(|x| x.to()).collect::<Vec<_>>()), Some(w.clone()), "try_parse");
            eq!(f.exec_parse(&s, &old).iter().map(|x| x.to()).collect::<Vec<_>>(), w.clone(), "exec_parse");
            eq!(f.exec_well_formed(&s, &old), false, "exec_well_formed");
            for i in [0usize, 1, 2, w.len().wrapping_sub(1), w.len(), w.len() + 1, w.len() / 2, usize::MAX, usize::MAX / 2 + 1, (usize::MAX / T::N).wrapping_add(1)] {
                let ok = i < w.len();
                eq!(f.exec_gettable(&s, &old, i), ok, "exec_gettable({})", i);
                eq!(f.exec_settable(&s, &old, i, &T::of(3)), ok, "exec_settable({})", i);
                eq!(f.exec_resizable(&s, &old, i), false, "exec_resizable({})", i);
                eq!(f.try_get(&s, &old, i).map(|x| (x.start, x.end)), if ok { Some((pre + i * T::N, pre + i * T::N + T::N)) } else { None }, "try_get({})", i);
                eq!(f.try_get_elt(&s, &old, i).map(|x| x.to()), if ok { Some(w[i]) } else { None }, "try_get_elt({})", i);
                if ok {
                    let g = f.exec_get(&s, &old, i); eq!((g.start, g.end), (pre + i * T::N, pre + i * T::N + T::N), "exec_get({})", i);
                    eq!(f.exec_get_elt(&s, &old, i).to(), w[i], "exec_get_elt({})", i);
                    let x = T::of(0x1122334455667788 ^ i as u64);
                    let mut d = old.clone();
                    f.exec_set(&s, &mut d, i, &x);
                    same_outside(&old, &d, pre + i * T::N, pre + i * T::N + T::N)?;
                    eq!(&d[pre + i * T::N..pre + i * T::N + T::N], &x.le()[..], "element {} after exec_set", i);
                }
            }
            Ok(())
        });
        let m = n / T::N; let vals: Vec<T> = (0..m).map(|_| T::of(r.next())).collect();
        case(|| format!("uniform<{}> write {:?} at {} of {}", T::NAME, &vals[..vals.len().min(20)], pre, old.len()), || {
            eq!(f.exec_size(&vals), m * T::N, "exec_size");
            let mut d = old.clone();
            let end = f.exec_marshall(&vals, &mut d, pre);
            eq!(end, pre + m * T::N, "end");
            same_outside(&old, &d, pre, end)?;
            eq!(d[pre..end].to_vec(), vals.iter().flat_map(|v| v.le()).collect::<Vec<u8>>(), "marshalled bytes");
            eq!(f.exec_parse(&Slice { start: pre, end }, &d).iter().map(|x| x.to()).collect::<Vec<_>>(), vals.iter().map(|x| x.to()).collect::<Vec<_>>(), "parse of the marshalled sequence");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- resizable sequences
fn resz<E: El, L: El>(r: &mut Rng, k: usize) {
    for it in 0..(18 * k) {
        let total = if it % 9 == 8 { 280 + r.below(60) } else { L::N + r.below(6 * E::N + 4) };
        let cap = (total - L::N) / E::N;
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<E>::new(), IntFormat::<L>::new(), total);
        let pre = r.below(4); let post = r.below(4); let extra = if r.below(3) == 0 { r.below(5) } else { 0 };
        let short = r.below(6) == 0 && total > 0;
        let n = if short { r.below(total) } else { total + extra };
        let mut buf = r.bytes(pre + n + post);
        let s = Slice { start: pre, end: pre + n };
        if !short {
            let want = match r.below(5) { 0 => 0, 1 => cap, 2 => cap + 1, 3 => r.below(cap + 2), _ => r.next() as usize };
            if r.below(6) != 0 { let b = L::of((want as u64).min(L::MX)).le(); buf[pre..pre + L::N].copy_from_slice(&b); }
        }
        let name = format!("resizable<{},{}> total {} slice [{},{})", E::NAME, L::NAME, total, pre, pre + n);
        let old = buf.clone();
        let at = |i: usize| pre + L::N + i * E::N;
        let len = if n >= L::N { L::un(&old[pre..]).to() } else { 0 };
        case(|| format!("{} read {:?}", name, &old[..old.len().min(60)]), || {
            let lengthable = n >= total;
            eq!(f.try_length(&s, &old).map(|x| x as u64), if lengthable { Some(len) } else { None }, "try_length");
            eq!(f.exec_lengthable(&s, &old), lengthable, "exec_lengthable");
            eq!(f.exec_well_formed(&s, &old), lengthable, "exec_well_formed");
            if lengthable { eq!(f.exec_length(&s, &old) as u64, len, "exec_length"); }
            let parsable = lengthable && len <= cap as u64;
            eq!(f.exec_parsable(&s, &old), parsable, "exec_parsable");
            let want = if parsable { Some((0..len as usize).map(|i| E::un(&old[at(i)..]).to()).collect::<Vec<_>>()) } else { None };
            eq!(f.try_parse(&s, &old).map(|v| v.iter().map(|x| x.to()).collect::<Vec<_>>()), want.clone(), "try_parse");
            if parsable { eq!(f.exec_parse(&s, &old).iter().map(|x| x.to()).collect::<Vec<_>>(), want.unwrap(), "exec_parse"); }
            for i in [0usize, 1, cap.wrapping_sub(1), cap, cap + 1, cap / 2, len as usize, usize::MAX] {
                let ok = lengthable && i < cap;
                eq!(f.exec_gettable(&s, &old, i), ok, "exec_gettable({})", i);
                eq!(f.exec_settable(&s, &old, i, &E::of(7)), ok, "exec_settable({})", i);
                eq!(f.exec_resizable(&s, &old, i), lengthable && i <= cap && i as u64 <= L::MX, "exec_resizable({})", i);
                eq!(f.try_get(&s, &old, i).map(|x| (x.start, x.end)), if ok { Some((at(i), at(i) + E::N)) } else { None }, "try_get({})", i);
                eq!(f.try_get_elt(&s, &old, i).map(|x| x.to()), if ok { Some(E::un(&old[at(i)..]).to()) } else { None }, "try_get_elt({})", i);
                if ok {
                    let g = f.exec_get(&s, &old, i); eq!((g.start, g.end), (at(i), at(i) + E::N), "exec_get({})", i);
                    eq!(f.exec_get_elt(&s, &old, i).to(), E::un(&old[at(i)..]).to(), "exec_get_elt({})", i);
                    let x = E::of(0x1122334455667788 ^ i as u64);
                    let mut d = old.clone();
                    f.exec_set(&s, &mut d, i, &x);
                    same_outside(&old, &d, at(i), at(i) + E::N)?;
                    eq!(&d[at(i)..at(i) + E::N], &x.le()[..], "element {} after exec_set", i);
                }
                if lengthable && i <= cap && i as u64 <= L::MX {
                    let mut d = old.clone();
                    f.resize(&s, &mut d, i);
                    same_outside(&old, &d, pre, pre + L::N)?;
                    eq!(L::un(&d[pre..]).to(), i as u64, "length after resize({})", i);
                }
            }
            if lengthable {
                let app = len < cap as u64 && len < L::MX;
                eq!(f.exec_appendable(&s, &old, &E::of(1)), app, "exec_appendable");
                if app {
                    let x = E::of(0x99aabbccddeeff01); let mut d = old.clone();
                    f.exec_append(&s, &mut d, &x);
                    let mut e = old.clone();
                    e[pre..pre + L::N].copy_from_slice(&L::of(len + 1).le());
                    e[at(len as usize)..at(len as usize) + E::N].copy_from_slice(&x.le());
                    eq!(&d, &e, "buffer after exec_append");
                }
                let mut d = old.clone();
                f.initialize(&s, &mut d);
                same_outside(&old, &d, pre, pre + L::N)?;
                eq!(f.exec_length(&s, &d), 0, "length after initialize");
            }
            Ok(())
        });
        if n >= total {
            let m = r.below(cap.min(L::MX as usize) + 1); let vals: Vec<E> = (0..m).map(|_| E::of(r.next())).collect();
            let m2 = cap.min(L::MX as usize); let full: Vec<E> = (0..m2).map(|_| E::of(r.next())).collect();
            for vals in [vals, full] {
                case(|| format!("{} write {:?}", name, &vals[..vals.len().min(20)]), || {
                    eq!(f.exec_size(&vals), total, "exec_size");
                    let mut d = old.clone();
                    let end = f.exec_marshall(&vals, &mut d, pre);
                    eq!(end, pre + total, "end");
                    same_outside(&old, &d, pre, pre + total)?;
                    eq!(d[pre..pre + L::N].to_vec(), L::of(vals.len() as u64).le(), "marshalled length");
                    for (i, v) in vals.iter().enumerate() { eq!(d[at(i)..at(i) + E::N].to_vec(), v.le(), "marshalled element {}", i); }
                    eq!(f.exec_parse(&Slice { start: pre, end }, &d).iter().map(|x| x.to()).collect::<Vec<_>>(), vals.iter().map(|x| x.to()).collect::<Vec<_>>(), "parse of the marshalled sequence");
                    Ok(())
                });
            }
            // a run of appends and sets against a plain vector
            case(|| format!("{} run of operations", name), || {
                let mut d = old.clone(); f.initialize(&s, &mut d);
                let mut v: Vec<u64> = vec![]; let mut rr = Rng(old.iter().fold(99991u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)) | 1);
                for _ in 0..40 {
                    let x = E::of(rr.next());
                    if rr.below(3) > 0 {
                        let app = v.len() < cap && (v.len() as u64) < L::MX;
                        eq!(f.exec_appendable(&s, &d, &x), app, "exec_appendable at {}", v.len());
                        if app { f.exec_append(&s, &mut d, &x); v.push(x.to()); }
                    } else if !v.is_empty() {
                        let i = rr.below(v.len());
                        if rr.below(4) == 0 { f.resize(&s, &mut d, i); v.truncate(i); }
                        else { f.exec_set(&s, &mut d, i, &x); v[i] = x.to(); }
                    }
                    same_outside(&old, &d, pre, pre + total)?;
                    eq!(f.try_parse(&s, &d).map(|w| w.iter().map(|x| x.to()).collect::<Vec<_>>()), Some(v.clone()), "contents");
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- variable-sized elements
fn var<E: El, B: El, L: El>(r: &mut Rng, k: usize) {
    for it in 0..(30 * k) {
        let mx = (B::MX.min(L::MX)).min(1 << 20) as usize;
        let total = (if it % 10 == 9 { 150 + r.below(100) } else { L::N + r.below(40) }).min(mx);
        if total < L::N { continue; }
        let f: VariableSizedElementSeqFormat<UniformSizedElementSeqFormat<IntFormat<E>>, B, L> =
            VariableSizedElementSeqFormat::new(UniformSizedElementSeqFormat::new(IntFormat::<E>::new()), IntFormat::<B>::new(), IntFormat::<L>::new(), total);
        let cap = (total - L::N) / B::N;
        let pre = r.below(4); let post = r.below(4); let extra = if r.below(3) == 0 { r.below(4) } else { 0 };
        let n = if r.below(8) == 0 && total > 0 { r.below(total) } else { total + extra };
        let s = Slice { start: pre, end: pre + n };
        let name = format!("variable<{},{},{}> total {} slice [{},{})", E::NAME, B::NAME, L::NAME, total, pre, pre + n);
        let mut old = r.bytes(pre + n + post);
        if n >= total && r.below(5) != 0 {
            // a table that is often well-formed and often wrong in one place
            let m = r.below(cap.min(5) + 1);
            let m2 = if r.below(8) == 0 { m + 1 + r.below(3) } else { m };
            old[pre..pre + L::N].copy_from_slice(&L::of((m2 as u64).min(L::MX)).le());
            let mut hi = total; let lo = L::N + m * B::N;
            for i in 0..m {
                let x = if hi >= lo { lo + r.below(hi - lo + 1) } else { hi };
                let x = match r.below(14) { 0 => x + 1, 1 => total + 1, 2 => r.below(lo.max(1)), 3 => hi + 1, 4 => lo, 5 => hi, 6 => lo.wrapping_sub(1), _ => x };
                let b = pre + L::N + i * B::N;
                old[b..b + B::N].copy_from_slice(&B::of((x as u64).min(B::MX)).le());
                hi = x.min(total);
            }
        }
        let old = old;
        let len = if n >= L::N { L::un(&old[pre..]).to() } else { 0 };
        let tab = |d: &[u8], i: usize| { let b = pre + L::N + i * B::N; B::un(&d[b..]).to() as usize };
        case(|| format!("{} read {:?}", name, &old[..old.len().min(70)]), || {
            let lengthable = n >= total;
            eq!(f.exec_total_size(), total, "exec_total_size");
            eq!(f.try_length(&s, &old).map(|x| x as u64), if lengthable { Some(len) } else { None }, "try_length");
            eq!(f.exec_lengthable(&s, &old), lengthable, "exec_lengthable");
            let wf = lengthable && len <= cap as u64 && {
                let m = len as usize;
                m == 0 || (tab(&old, 0) <= total && L::N + m * B::N <= tab(&old, m - 1) && (1..m).all(|i| tab(&old, i) <= tab(&old, i - 1)))
            };
            eq!(f.exec_well_formed(&s, &old), wf, "exec_well_formed");
            for i in [0usize, 1, 2, 3, 4, 5, cap.wrapping_sub(1), cap, (len as usize).wrapping_sub(1), len as usize, usize::MAX] {
                let ok = lengthable && (i as u64) < len && i < cap && {
                    let b = tab(&old, i); let e = if i == 0 { total } else { tab(&old, i - 1) };
                    b <= e && e <= total
                };
                let rng = if ok { Some((pre + tab(&old, i), pre + if i == 0 { total } else { tab(&old, i - 1) })) } else { None };
                eq!(f.try_get(&s, &old, i).map(|x| (x.start, x.end)), rng, "try_get({})", i);
                eq!(f.exec_gettable(&s, &old, i), ok, "exec_gettable({})", i);
                eq!(f.exec_settable(&s, &old, i, &vec![]), false, "exec_settable({})", i);
                eq!(f.exec_resizable(&s, &old, i), false, "exec_resizable({})", i);
                let want = rng.map(|(a, b)| elems::<E>(&old[a..b]));
                eq!(f.try_get_elt(&s, &old, i).map(|v| v.iter().map(|x| x.to()).collect::<Vec<_>>()), want.clone(), "try_get_elt({})", i);
                if let Some((a, b)) = rng {
                    let g = f.exec_get(&s, &old, i); eq!((g.start, g.end), (a, b), "exec_get({})", i);
                    eq!(f.exec_get_elt(&s, &old, i).iter().map(|x| x.to()).collect::<Vec<_>>(), want.unwrap(), "exec_get_elt({})", i);
                    eq!(f.exec_element_data_begin(&s, &old, i), a - pre, "exec_element_data_begin({})", i);
                    eq!(f.exec_element_data_end(&s, &old, i), b - pre, "exec_element_data_end({})", i);
                }
            }
            if wf { step::<E, B, L>(&f, &s, &old, total, &mut Rng(len * 7 + n as u64 * 31 + 1))?; }
            Ok(())
        });
        if n >= total {
            case(|| format!("{} run of appends", name), || {
                let mut d = old.clone(); f.initialize(&s, &mut d);
                eq!(f.exec_length(&s, &d), 0, "length after initialize");
                same_outside(&old, &d, pre, pre + L::N)?;
                let mut v: Vec<Vec<u64>> = vec![]; let mut rr = Rng(old.iter().fold(77u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)) | 1);
                for _ in 0..12 {
                    if let Some((nd, x)) = step::<E, B, L>(&f, &s, &d, total, &mut rr)? { v.push(x); d = nd; }
                    same_outside(&old, &d, pre, pre + total)?;
                    eq!(f.exec_length(&s, &d), v.len(), "length");
                    eq!(f.exec_well_formed(&s, &d), true, "exec_well_formed");
                    for (i, x) in v.iter().enumerate() { eq!(f.exec_get_elt(&s, &d, i).iter().map(|x| x.to()).collect::<Vec<_>>(), x.clone(), "element {}", i); }
                }
                Ok(())
            });
        }
    }
}
/// one append to a well-formed buffer, checked byte for byte
fn step<E: El, B: El, L: El>(f: &VariableSizedElementSeqFormat<UniformSizedElementSeqFormat<IntFormat<E>>, B, L>, s: &Slice, old: &Vec<u8>, total: usize, rr: &mut Rng) -> Result<Option<(Vec<u8>, Vec<u64>)>, String> {
    let pre = s.start; let m = L::un(&old[pre..]).to() as usize;
    let bound = if m == 0 { total } else { B::un(&old[pre + L::N + (m - 1) * B::N..]).to() as usize };
    let free = bound - (L::N + m * B::N);
    let fit = free.saturating_sub(B::N) / E::N;
    let cnt = match rr.below(6) { 0 => fit, 1 => fit + 1, 2 => 0, 3 => free / E::N + 1, _ => rr.below(fit.min(3) + 1) };
    let x: Vec<E> = (0..cnt).map(|_| E::of(rr.next())).collect();
    let sz = cnt * E::N;
    let ok = B::N + sz <= free;
    eq!(f.exec_appendable(s, old, &x), ok, "exec_appendable of {} bytes with {} free", sz, free);
    if !ok { return Ok(None); }
    let mut d = old.clone();
    f.exec_append(s, &mut d, &x);
    let mut e = old.clone();
    e[pre..pre + L::N].copy_from_slice(&L::of(m as u64 + 1).le());
    let t = pre + L::N + m * B::N; e[t..t + B::N].copy_from_slice(&B::of((bound - sz) as u64).le());
    let bytes: Vec<u8> = x.iter().flat_map(|v| v.le()).collect();
    e[pre + bound - sz..pre + bound].copy_from_slice(&bytes);
    eq!(&d, &e, "buffer after exec_append of {:?}", x);
    Ok(Some((d, x.iter().map(|v| v.to()).collect())))
}

// ---------------------------------------------------------------- key-value pairs
fn kv<K: KVTrait<LenType = L, KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>, DataFormat = UniformSizedElementSeqFormat<IntFormat<E>>>, L: El, E: El>(r: &mut Rng, k: usize) {
    let f: KVPairFormat<K> = KVPairFormat::new();
    for it in 0..(60 * k) {
        let key = { let n = match it % 7 { 0 => 0, 1 => 255, _ => r.below(9) }; r.bytes(n) };
        let value: Vec<E> = (0..(if it % 11 == 0 { 0 } else { r.below(7) })).map(|_| E::of(r.next())).collect();
        let pre = r.below(5); let post = r.below(5);
        let size = L::N + key.len() + value.len() * E::N;
        let old = r.bytes(pre + size + post);
        case(|| format!("kv<{},{}> write key {:?} value {:?} at {}", L::NAME, E::NAME, key, value, pre), || {
            let p: KVPair<K> = KVPair { key: key.clone(), value: value.clone() };
            eq!(f.exec_size(&p), size, "exec_size");
            let mut d = old.clone();
            let end = f.exec_marshall(&p, &mut d, pre);
            eq!(end, pre + size, "end");
            same_outside(&old, &d, pre, end)?;
            let mut want = L::of(key.len() as u64).le(); want.extend(&key); want.extend(value.iter().flat_map(|v| v.le()));
            eq!(d[pre..end].to_vec(), want, "marshalled bytes");
            let q = f.exec_parse(&Slice { start: pre, end }, &d);
            eq!((q.key.clone(), q.value.iter().map(|x| x.to()).collect::<Vec<_>>()), (key.clone(), value.iter().map(|x| x.to()).collect::<Vec<_>>()), "parse of the marshalled pair");
            Ok(())
        });
        let n = r.below(L::N + 14); let mut d = r.bytes(pre + n + post);
        if n >= L::N && r.below(5) != 0 { let q = r.below(2); let kl = r.below(n - L::N + 2 + q); d[pre..pre + L::N].copy_from_slice(&L::of(kl as u64).le()); }
        let d = d;
        case(|| format!("kv<{},{}> read [{},{}) of {:?}", L::NAME, E::NAME, pre, pre + n, d), || {
            let s = Slice { start: pre, end: pre + n };
            let kl = if n >= L::N { L::un(&d[pre..]).to() } else { 0 };
            let ok = n >= L::N && kl <= (n - L::N) as u64;
            let want = if ok { let a = pre + L::N; let b = a + kl as usize; Some((d[a..b].to_vec(), elems::<E>(&d[b..pre + n]))) } else { None };
            eq!(f.exec_parsable(&s, &d), ok, "exec_parsable");
            eq!(f.try_parse(&s, &d).map(|q| (q.key.clone(), q.value.iter().map(|x| x.to()).collect::<Vec<_>>())), want.clone(), "try_parse");
            if ok { let q = f.exec_parse(&s, &d); eq!(Some((q.key.clone(), q.value.iter().map(|x| x.to()).collect::<Vec<_>>())), want, "exec_parse"); }
            Ok(())
        });
    }
}

fn slices(r: &mut Rng, k: usize) {
    for _ in 0..(200 * k) {
        let (a, l) = (r.below(50), r.below(50)); let s = Slice { start: a, end: a + l };
        let x = r.below(l + 1); let y = x + r.below(l - x + 1);
        let q = r.next() as usize % 20; let v = r.bytes(q);
        case(|| format!("slice [{},{}) cut [{},{})", a, a + l, x, y), || {
            eq!(s.len(), l, "len");
            let t = Slice::all(&v); eq!((t.start, t.end), (0, v.len()), "all");
            let t = s.subslice(x, y); eq!((t.start, t.end), (a + x, a + y), "subslice");
            let t = s.xslice(&Slice { start: x, end: y }); eq!((t.start, t.end), (a + x, a + y), "xslice");
            let t = s.drop(x); eq!((t.start, t.end), (a + x, a + l), "drop");
            Ok(())
        });
    }
}
fn maths(r: &mut Rng, k: usize) {
    for _ in 0..(100 * k) {
        let a = r.below(1 << 30); let b = r.below(1 << 30);
        case(|| format!("usize_mult({}, {})", a, b), || { eq!(usize_mult(a, b), a * b, "product"); Ok(()) });
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[2].parse().unwrap(); let k: usize = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASES.load(Ordering::SeqCst);
            if c == last.0 { last.1 += 1; } else { last = (c, 0); }
            if last.1 > 40 { println!("FAIL {} :: does not return within 20 s", CUR.lock().unwrap()); println!("CASES {} FAILS 1", c); std::process::exit(1); }
        }
    });
    let r = &mut Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..5 { r.next(); }
    match args[1].as_str() {
        "M01" => { ints::<u8>(r, k); ints::<u16>(r, k); ints::<u32>(r, k); ints::<u64>(r, k); }
        "M02" => { uni::<u8>(r, k); uni::<u16>(r, k); uni::<u32>(r, k); uni::<u64>(r, k); }
        "M03" => {
            resz::<u8, u8>(r, k); resz::<u16, u8>(r, k); resz::<u32, u8>(r, k); resz::<u64, u8>(r, k);
            resz::<u8, u16>(r, k); resz::<u16, u16>(r, k); resz::<u32, u32>(r, k); resz::<u64, u64>(r, k); resz::<u8, u64>(r, k); resz::<u32, u64>(r, k); resz::<u16, u32>(r, k);
        }
        "M04" => {
            var::<u8, u8, u8>(r, k); var::<u16, u8, u8>(r, k); var::<u8, u16, u8>(r, k); var::<u8, u8, u16>(r, k); var::<u8, u16, u16>(r, k);
            var::<u32, u16, u32>(r, k); var::<u8, u32, u16>(r, k); var::<u64, u32, u32>(r, k); var::<u8, u64, u64>(r, k); var::<u16, u64, u32>(r, k);
        }
        "M05" => { kv::<crate::K8, u8, u8>(r, k); kv::<crate::K16, u16, u8>(r, k); kv::<crate::K32, u32, u8>(r, k); kv::<crate::K8x2, u8, u16>(r, k); kv::<crate::K16x4, u16, u32>(r, k); }
        "M06" => slices(r, k),
        "M07" => maths(r, k),
        _ => {}
    }
    println!("CASES {} FAILS {}", CASES.load(Ordering::SeqCst), FAILS.load(Ordering::SeqCst));
    std::process::exit(if FAILS.load(Ordering::SeqCst) > 0 { 1 } else { 0 });
}
