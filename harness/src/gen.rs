//! Series generators. All random choices come from proptest; a shape expands its generated seed deterministically.
use crate::engine::Case;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// In [0,1), a pure function of (seed, index)
pub fn unit(seed: u64, i: u64) -> f64 {
    (mix(seed ^ mix(i)) >> 11) as f64 / (1u64 << 53) as f64
}

#[derive(Clone, PartialEq)]
pub struct Series(pub Vec<f64>);
impl std::fmt::Debug for Series {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "n={} ", self.0.len())?;
        if self.0.len() <= 40 {
            write!(f, "{:?}", self.0)
        } else {
            write!(f, "{:?}..{:?}", &self.0[..20], &self.0[self.0.len() - 6..])
        }
    }
}
impl Serialize for Series {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().map(|x| F(*x)))
    }
}
impl<'de> Deserialize<'de> for Series {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Series(Vec::<F>::deserialize(d)?.into_iter().map(|f| f.0).collect()))
    }
}
/// An f64 written as its bits, with the decimal for the reader
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F(pub f64);
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{:016x} {:e}", self.0.to_bits(), self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let hex = s.split(' ').next().unwrap_or("");
        u64::from_str_radix(hex, 16).map(|b| F(f64::from_bits(b))).map_err(serde::de::Error::custom)
    }
}

impl Series {
    pub fn smaller(&self) -> Vec<Series> {
        let v = &self.0;
        let n = v.len();
        let mut out = Vec::new();
        // remove big pieces first
        let mut size = n / 2;
        while size >= 1 {
            let mut at = 0;
            let mut made = 0;
            while at < n && made < if n > 20000 { 6 } else { 16 } {
                let end = (at + size).min(n);
                if end - at < n {
                    let mut c = v[..at].to_vec();
                    c.extend_from_slice(&v[end..]);
                    out.push(Series(c));
                }
                at = end;
                made += 1;
            }
            // large series would take too much memory
            size = if n > 20000 && size < n / 500 { 0 } else { size / 2 };
        }
        // then simpler values
        if n <= 4096 {
            let all: Vec<f64> = v.iter().map(|x| x.round()).collect();
            if all != *v {
                out.push(Series(all));
            }
        }
        if n <= 64 {
            for i in 0..n {
                for s in [0.0, 1.0, v[0], v[i].round(), (v[i] / 2.0).trunc()] {
                    if s != v[i] && (s.abs() < v[i].abs() || s == v[i].round() || (s == v[0] && i > 0 && v[i - 1] == v[0])) {
                        let mut c = v.clone();
                        c[i] = s;
                        out.push(Series(c));
                    }
                }
            }
        }
        out.retain(|s| !s.0.is_empty());
        out
    }
}
impl Case for Series {
    fn smaller(&self) -> Vec<Self> {
        Series::smaller(self)
    }
}

#[derive(Clone, Debug)]
pub enum Scale {
    /// integers between lo and hi, both of which appear
    Ints(f64, f64),
    /// centre, amplitude, decimals kept
    Dec(f64, f64, i32),
    /// centre, amplitude
    Real(f64, f64),
    /// magnitudes spread over 10^a .. 10^b, both signs
    Mixed(f64, f64),
}

const I: fn(f64, f64) -> Scale = Scale::Ints;
pub fn int_scales() -> Vec<Scale> {
    let p = |e: i32| 2f64.powi(e);
    vec![
        I(0.0, 1.0), I(0.0, 3.0), I(1.0, 5.0), I(0.0, 100.0), I(0.0, 255.0), I(0.0, 256.0), I(1.0, 255.0), I(254.0, 255.0),
        I(250.0, 260.0), I(-1.0, 255.0), I(-1.0, 1.0), I(-5.0, 5.0), I(-128.0, 127.0), I(-255.0, -250.0), I(-300.0, -1.0),
        I(0.0, 32767.0), I(0.0, 32768.0), I(-32768.0, 32767.0), I(-32769.0, 32767.0), I(-32769.0, 0.0), I(-32768.0, 200.0),
        I(32760.0, 32770.0), I(0.0, 65535.0), I(40000.0, 40100.0), I(1000.0, 1100.0), I(-100000.0, 100000.0),
        I(0.0, p(31) - 1.0), I(0.0, p(31)), I(p(31) - 4.0, p(31) + 4.0), I(-p(31), p(31) - 1.0), I(-p(31) - 1.0, 0.0),
        I(-p(31) - 3.0, -p(31) + 3.0), I(0.0, p(32)), I(p(32) - 2.0, p(32) + 2.0), I(1.7304e9, 1.7304e9 + 100.0),
        I(0.0, p(53)), I(p(53) - 8.0, p(53)), I(-p(53), p(53)),
    ]
}
/// Integers no 64 bit integer type holds, or only with care
pub fn wide_int_scales() -> Vec<Scale> {
    let p = |e: i32| 2f64.powi(e);
    vec![
        I(p(62), p(63) - 1024.0), I(-p(63), 0.0), I(-p(63), p(62)), I(0.0, p(63)), I(p(63), p(64)), I(-p(64), p(63)),
        I(0.0, p(70)), I(-p(100), p(100)), I(p(63) - 4096.0, p(63) + 4096.0), I(1e18, 1e19),
    ]
}
fn real_scales() -> Vec<Scale> {
    use Scale::*;
    vec![
        Dec(50.0, 50.0, 1), Dec(50.0, 50.0, 2), Dec(0.5, 0.5, 3), Dec(0.0, 10.0, 2), Dec(1000.0, 3.0, 1), Dec(100.0, 0.5, 5),
        Dec(20.0, 5.0, 6), Dec(1.0, 0.001, 7), Dec(123456.0, 1000.0, 2), Dec(-40.0, 20.0, 1), Dec(0.05, 0.04, 4), Dec(7.0, 6.0, 0),
        Real(100.0, 1.0), Real(100.0, 30.0), Real(100.0, 99.0), Real(0.0, 1.0), Real(0.0, 1000.0), Real(-500.0, 20.0),
        Real(1e6, 1e5), Real(1e6, 1.0), Real(3e9, 1e9), Real(1e-3, 1e-3), Real(1e-2, 5e-3), Real(0.3, 0.2), Real(1e4, 0.01),
    ]
}
fn extreme_scales() -> Vec<Scale> {
    use Scale::*;
    vec![
        Real(1e-5, 5e-6), Real(1e-7, 1e-7), Real(0.0, 1e-10), Real(1e-20, 1e-21), Real(1e-40, 1e-41), Real(0.0, 1e-100), Real(1e-300, 1e-301),
        Real(1e10, 1e9), Real(1e12, 1.0), Real(1e15, 1e14), Real(-1e18, 1e17), Real(1e20, 1e19), Real(0.0, 1e25), Real(1e30, 1e29),
        Mixed(-6.0, 6.0), Mixed(-2.0, 12.0), Mixed(-20.0, 20.0), Mixed(0.0, 15.0),
    ]
}
fn monstrous_scales() -> Vec<Scale> {
    use Scale::*;
    vec![Real(1e39, 1e38), Real(0.0, 1e40), Real(1e100, 1e99), Real(0.0, 1e200), Real(1e250, 1e240), Mixed(-200.0, 200.0), Mixed(30.0, 45.0)]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Domain {
    /// magnitudes f32 handles
    F32,
    /// any finite magnitude up to 1e250
    Any,
    /// integers up to 2^53 only
    Ints,
    /// integers of any size
    WideInts,
    /// strictly positive, well away from zero, moderate: errors are meaningful percentages
    Tame,
}
fn scale(dom: Domain) -> BoxedStrategy<Scale> {
    let sel = |v: Vec<Scale>| proptest::sample::select(v);
    match dom {
        Domain::Ints => sel(int_scales()).boxed(),
        Domain::WideInts => Union::new_weighted(vec![(3, sel(int_scales()).boxed()), (2, sel(wide_int_scales()).boxed())]).boxed(),
        Domain::F32 => Union::new_weighted(vec![
            (4, sel(int_scales()).boxed()),
            (1, sel(wide_int_scales()).boxed()),
            (6, sel(real_scales()).boxed()),
            (2, sel(extreme_scales().into_iter().filter(|s| !matches!(s, Scale::Real(c, a) if (*c != 0.0 && c.abs() < 1e-30) || *a < 1e-30)).collect()).boxed()),
        ])
        .boxed(),
        Domain::Any => Union::new_weighted(vec![
            (4, sel(int_scales()).boxed()),
            (2, sel(wide_int_scales()).boxed()),
            (6, sel(real_scales()).boxed()),
            (2, sel(extreme_scales()).boxed()),
            (1, sel(monstrous_scales()).boxed()),
        ])
        .boxed(),
        Domain::Tame => sel(vec![
            Scale::Dec(50.0, 40.0, 1), Scale::Dec(50.0, 40.0, 2), Scale::Real(100.0, 30.0), Scale::Real(100.0, 5.0), Scale::Real(1000.0, 900.0),
            Scale::Real(-500.0, 200.0), Scale::Real(3.0, 2.0), Scale::Ints(10.0, 250.0), Scale::Ints(100.0, 30000.0), Scale::Ints(50000.0, 900000.0),
            Scale::Real(1e6, 5e5), Scale::Dec(20.0, 5.0, 3),
        ])
        .boxed(),
    }
}

pub const SHAPES: u8 = 14;
#[derive(Clone, Debug)]
pub struct Seg {
    pub shape: u8,
    pub weight: u16,
    pub seed: u64,
    pub p: f64,
}
impl Seg {
    /// Value in [-1,1] for sample i of n. `state` carries the walk.
    fn fill(&self, n: usize, out: &mut Vec<f64>) {
        let s = self.seed;
        let u = |i: usize| unit(s, i as u64);
        let tau = std::f64::consts::TAU;
        let p = self.p;
        let mut walk = 2.0 * u(1 << 20) - 1.0;
        let level = |k: u64, levels: f64| (unit(s, k) * levels).floor() / (levels - 1.0).max(1.0) * 2.0 - 1.0;
        for i in 0..n {
            let x = i as f64;
            let nf = n.max(2) as f64;
            let v = match self.shape {
                0 => 2.0 * u(0) - 1.0,
                1 => -1.0 + 2.0 * x / (nf - 1.0),
                2 => 1.0 - 2.0 * x / (nf - 1.0),
                3 => (tau * (x / nf * (1.0 + (p * 12.0).floor()) + u(0))).sin(),
                4 => {
                    let k = 1.0 + (p * 6.0).floor();
                    ((tau * x * k / nf).sin() + 0.5 * (tau * x * 3.0 * k / nf + 1.0).sin() + 0.25 * (tau * x * p * 0.37).cos()) / 1.75
                }
                5 => {
                    walk += (2.0 * u(i) - 1.0) * (0.002 + 0.2 * p * p);
                    walk = walk.clamp(-1.0, 1.0);
                    walk
                }
                6 => 2.0 * u(i) - 1.0,
                // steps: a few levels, long runs
                7 => level((x / (2.0 + 60.0 * p)).floor() as u64, 2.0 + (u(7) * 6.0).floor()),
                // flat with rare spikes
                8 => if u(i) < 0.01 + 0.05 * p { 2.0 * u(i + (1 << 30)) - 1.0 } else { -0.8 },
                // runs of random length: change with a probability
                9 => {
                    if i == 0 || u(i) < 0.02 + 0.4 * p {
                        walk = level(i as u64 + (1 << 31), 2.0 + (u(9) * 30.0).floor());
                    }
                    walk
                }
                // repeated short pattern
                10 => {
                    let k = 2 + (p * 14.0) as usize;
                    2.0 * u(i % k) - 1.0
                }
                // slow trend plus a little noise
                11 => -0.9 + 1.7 * x / nf + 0.1 * p * u(i),
                // exponential growth
                12 => 2.0 * ((x / nf) * (2.0 + 6.0 * p) - (2.0 + 6.0 * p)).exp() - 1.0,
                // sparse: mostly the lowest value
                _ => if u(i) < 0.2 * p { 2.0 * u(i + (1 << 29)) - 1.0 } else { -1.0 },
            };
            out.push(v);
        }
    }
}

fn apply(scale: &Scale, f: f64, i: usize, seed: u64) -> f64 {
    let f = f.clamp(-1.0, 1.0);
    match scale {
        Scale::Ints(lo, hi) => {
            // halves first: hi - lo may be huge but is finite here
            let v = (lo + (f * 0.5 + 0.5) * (hi - lo)).round();
            v.clamp(*lo, *hi)
        }
        Scale::Dec(c, a, d) => {
            let m = 10f64.powi(*d);
            ((c + a * f) * m).round() / m
        }
        Scale::Real(c, a) => c + a * f,
        Scale::Mixed(a, b) => {
            let e = a + (b - a) * (f * 0.5 + 0.5);
            let s = if unit(seed, i as u64) < 0.5 { -1.0 } else { 1.0 };
            s * 10f64.powf(e)
        }
    }
}

fn special(k: u8, lo: f64, hi: f64, v: f64, dom: Domain) -> f64 {
    let all = [
        lo, hi, lo - 1.0, hi + 1.0, 0.0, -0.0, v, 255.0, 256.0, -1.0, 32767.0, 32768.0, -32768.0, -32769.0, 2147483647.0, 2147483648.0, -2147483648.0,
        -2147483649.0, 65535.0, 65536.0, 1.0, 9007199254740992.0, 127.0, 128.0, -128.0, -129.0,
        // fractions
        v + 0.5, 0.1, hi + 0.25, 1e-9, -0.5, 255.5, 32767.5, 1e-20,
    ];
    let ints_only = 26;
    match dom {
        Domain::Ints | Domain::WideInts => all[k as usize % ints_only],
        Domain::Tame => [lo, hi, lo * 0.5, hi * 1.5, v][k as usize % 5],
        _ => all[k as usize % all.len()],
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Len {
    /// mostly up to ~600, boundaries up to 2049
    Small,
    /// boundaries up to 5000
    Medium,
    /// includes frames around 2^16 and 2^17
    Large,
    Max(usize),
    Range(usize, usize),
}
pub fn length(l: Len) -> BoxedStrategy<usize> {
    let b = |v: &[usize]| proptest::sample::select(v.to_vec()).boxed();
    let bounds_small: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 31, 32, 33, 63, 64, 65, 100, 101, 126, 127, 128, 129, 130, 143, 144, 145, 191, 192, 255, 256, 257, 287, 288, 289, 299, 300, 301, 399, 400, 401, 499, 500, 511, 512, 513];
    let bounds_med: &[usize] = &[575, 576, 577, 599, 600, 767, 768, 769, 999, 1000, 1023, 1024, 1025, 1151, 1152, 1295, 1296, 2047, 2048, 2049, 2186, 2187, 2188];
    match l {
        Len::Small => Union::new_weighted(vec![(3, (1usize..=40).boxed()), (3, b(bounds_small)), (4, (41usize..=400).boxed()), (2, (401usize..=700).boxed()), (1, b(bounds_med))]).boxed(),
        Len::Medium => Union::new_weighted(vec![(2, b(bounds_small)), (3, (100usize..=1500).boxed()), (3, b(bounds_med)), (2, (1500usize..=4200).boxed()), (1, b(&[4095, 4096, 4097, 5000, 8191, 8192]))]).boxed(),
        Len::Large => Union::new_weighted(vec![(3, (8192usize..=33000).boxed()), (1, b(&[65535, 65536, 65537])), (1, b(&[131071, 131072])), (1, (117000usize..=131072).boxed())]).boxed(),
        Len::Max(m) => Union::new_weighted(vec![(1, (1usize..=m).boxed()), (1, b(&bounds_small.iter().chain(bounds_med).copied().filter(|x| *x <= m).collect::<Vec<_>>()))]).boxed(),
        Len::Range(a, z) => (a..=z).boxed(),
    }
}

fn seg() -> impl Strategy<Value = Seg> {
    (0..SHAPES, 1u16..100, any::<u64>(), 0.0f64..1.0).prop_map(|(shape, weight, seed, p)| Seg { shape, weight, seed, p })
}

pub fn build(n: usize, segs: &[Seg], sc: &Scale, edits: &[(u32, u8)], dom: Domain) -> Vec<f64> {
    let total: u32 = segs.iter().map(|s| s.weight as u32).sum();
    let mut norm = Vec::with_capacity(n);
    for (k, s) in segs.iter().enumerate() {
        let left = n - norm.len();
        let len = if k + 1 == segs.len() { left } else { (n * s.weight as usize / total as usize).min(left) };
        s.fill(len, &mut norm);
    }
    let seed = segs[0].seed;
    let mut v: Vec<f64> = norm.iter().enumerate().map(|(i, f)| apply(sc, *f, i, seed)).collect();
    let lo = v.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    for (pos, k) in edits {
        // positions cluster at both ends
        let i = match pos % 5 {
            0 => 0,
            1 => n - 1,
            2 => (*pos as usize / 5) % n.min(4),
            3 => n - 1 - (*pos as usize / 5) % n.min(4),
            _ => (*pos as usize / 5) % n,
        };
        v[i] = special(*k, lo, hi, v[i], dom);
    }
    v
}

pub fn series(dom: Domain, len: Len) -> BoxedStrategy<Series> {
    let segs = prop_oneof![3 => proptest::collection::vec(seg(), 1..=1), 2 => proptest::collection::vec(seg(), 2..=4)];
    let edits = prop_oneof![
        5 => Just(Vec::new()),
        4 => proptest::collection::vec((any::<u32>(), any::<u8>()), 1..=3),
        1 => proptest::collection::vec((any::<u32>(), any::<u8>()), 4..=12)
    ];
    (length(len), segs, scale(dom), edits)
        .prop_map(move |(n, segs, sc, edits)| Series(build(n, &segs, &sc, &edits, dom)))
        .boxed()
}

/// Bit patterns: any f64 at all
pub fn any_bits() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => any::<u64>().prop_map(f64::from_bits),
        2 => -1e6f64..1e6,
        1 => proptest::sample::select(vec![0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::MIN,
            f64::from_bits(0x7ff0000000000001), f64::from_bits(0xfff8000000000123), f64::from_bits(1), f64::EPSILON])
    ]
    .boxed()
}

/// Allowed errors in thousandths, weighted to the whole percentages the tools accept
pub fn bound_milli() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => (0u32..=50).prop_map(|p| p * 10),
        3 => proptest::sample::select(vec![0u32, 1, 2, 5, 10, 20, 30, 50, 100, 500]),
        2 => 0u32..=500,
    ]
    .boxed()
}
/// The bound as the tools compute it
pub fn bound_f32(milli: u32) -> f32 {
    if milli % 10 == 0 {
        (milli / 10) as f32 / 100.0
    } else {
        milli as f32 / 1000.0
    }
}
pub fn mape(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for (x, y) in a.iter().zip(b) {
        if x != y {
            s += ((y - x) / x).abs();
        }
    }
    s / a.len() as f64
}
pub fn range(v: &[f64]) -> (f64, f64) {
    v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)))
}
pub fn is_constant(v: &[f64]) -> bool {
    v.iter().all(|x| *x == v[0])
}
