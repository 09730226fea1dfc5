//! C01-C06, C12, C13, C24, C29, C30, C33, C34: what compressing one frame promises.
use crate::engine::*;
use crate::gen::*;
use crate::refcodec as rc;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const SLACK: f64 = 1.0 + 1e-9;

/// Compress one chunk, write the stream out, read it back, decompress.
pub fn through_file(data: &[f64], c: Compressor, err: f32, level: usize) -> Result<(Vec<u8>, Vec<f64>), String> {
    guarded("compress/decompress", || {
        let mut cs = CompressedStream::new();
        cs.compress_chunk_bounded_with(data, c, err, level);
        let bytes = cs.to_bytes();
        let out = CompressedStream::from_bytes(&bytes).decompress();
        (bytes, out)
    })
}
fn same_len(a: &[f64], b: &[f64]) -> Res {
    if a.len() != b.len() {
        return Err(format!("{} samples in, {} out", a.len(), b.len()));
    }
    Ok(())
}
pub fn first_diff(a: &[f64], b: &[f64]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} samples expected, {} found", a.len(), b.len()));
    }
    a.iter().zip(b).position(|(x, y)| x != y).map(|i| format!("sample {i} of {}: expected {:?}, found {:?}", a.len(), a[i], b[i]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bounded {
    pub data: Series,
    pub milli: u32,
    pub level: usize,
}
impl Case for Bounded {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.data.smaller().into_iter().map(|data| Bounded { data, ..self.clone() }).collect();
        if self.level > 0 {
            v.push(Bounded { level: 0, ..self.clone() });
        }
        v
    }
}
fn bounded(dom: Domain, len: Len) -> BoxedStrategy<Bounded> {
    (series(dom, len), bound_milli(), prop_oneof![3 => Just(0usize), 3 => 1usize..=6]).prop_map(|(data, milli, level)| Bounded { data, milli, level }).boxed()
}
/// The first part, which is what a sample level looks at, is unlike the rest
fn misleading(dom: Domain) -> BoxedStrategy<Bounded> {
    const SAMPLE: [usize; 7] = [128, 4096, 2048, 1024, 512, 256, 128];
    (1usize..=6, prop_oneof![4 => 4usize..=6, 1 => 1usize..=3], any::<bool>(), -2i64..=20, 1usize..700)
        .prop_flat_map(move |(la, lb, small, off, rest)| {
            let level = if small { lb } else { la };
            let pre = (SAMPLE[level] as i64 + off) as usize;
            (series(dom, Len::Range(pre, pre)), series(dom, Len::Range(rest, rest)), bound_milli(), Just(level), 0u8..3)
        })
        .prop_map(|(a, b, milli, level, keep)| {
            let mut v = a.0;
            if keep == 0 {
                // same order of magnitude
                let (lo, hi) = range(&v);
                let (bl, bh) = range(&b.0);
                let s = if bh > bl { (hi - lo) / (bh - bl) } else { 1.0 };
                if s.is_finite() && s > 0.0 {
                    v.extend(b.0.iter().map(|x| lo + (x - bl) * s).filter(|x| x.is_finite()));
                } else {
                    v.extend(b.0);
                }
            } else {
                v.extend(b.0);
            }
            Bounded { data: Series(v), milli, level }
        })
        .boxed()
}
fn note_frame(bytes: &[u8], obs: &mut Obs) {
    if let Ok(f) = rc::parse_file(bytes) {
        for fr in &f.frames {
            obs.class(format!("chose-{}", ["noop", "fft", "idw", "constant", "polynomial", "auto", "rle"].get(fr.compressor as usize).unwrap_or(&"?")));
        }
    }
}

pub fn check_auto_bound(c: &Bounded, obs: &mut Obs) -> Res {
    let bound = bound_f32(c.milli);
    let (bytes, out) = through_file(&c.data.0, Compressor::Auto, bound, c.level)?;
    same_len(&c.data.0, &out)?;
    obs.nontrivial = !is_constant(&c.data.0);
    note_frame(&bytes, obs);
    obs.class(format!("level-{}", c.level));
    let e = mape(&c.data.0, &out);
    if e > 0.0 {
        obs.class("lossy");
    }
    if !(e <= bound as f64 * SLACK) {
        return Err(format!("auto, allowed error {bound}, level {}: error {e} over {} samples", c.level, out.len()));
    }
    Ok(())
}
const RULE_NC: &str = "proptest series, allowed error and sample level; non-trivial: the series is not constant";

pub fn c01() -> Vec<Part> {
    vec![
        part("general", RULE_NC, (14000, 300000), || bounded(Domain::Any, Len::Small), check_auto_bound),
        part("percentages", RULE_NC, (2600, 50000), || bounded(Domain::Tame, Len::Medium), check_auto_bound),
        part("misleading-prefix", "the part a sample level looks at differs from the rest; non-trivial: not constant", (1800, 40000),
            || prop_oneof![2 => misleading(Domain::Any), 3 => misleading(Domain::Tame)], check_auto_bound),
        part("large-frames", RULE_NC, (16, 600), || bounded(Domain::Tame, Len::Large), check_auto_bound),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Which {
    pub data: Series,
    pub which: u8,
    pub level: usize,
    pub milli: u32,
}
impl Case for Which {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Which { data, ..self.clone() }).collect()
    }
}
fn which(dom: Domain, len: Len, w: std::ops::Range<u8>, milli: BoxedStrategy<u32>) -> BoxedStrategy<Which> {
    (series(dom, len), w, 0usize..=6, milli).prop_map(|(data, which, level, milli)| Which { data, which, level, milli }).boxed()
}
const LOSSY: [(Compressor, &str); 4] = [(Compressor::Auto, "auto"), (Compressor::Polynomial, "polynomial"), (Compressor::Idw, "idw"), (Compressor::FFT, "fft")];

fn check_lossless(c: &Which, obs: &mut Obs) -> Res {
    let (comp, name) = LOSSY[c.which as usize % 3];
    let (bytes, out) = through_file(&c.data.0, comp, 0.0, c.level)?;
    obs.nontrivial = !is_constant(&c.data.0);
    obs.class(name);
    note_frame(&bytes, obs);
    match first_diff(&c.data.0, &out) {
        Some(d) => Err(format!("{name} at error 0 (level {}): {d}", c.level)),
        None => Ok(()),
    }
}
pub fn c02() -> Vec<Part> {
    let zero = || Just(0u32).boxed();
    vec![
        part("any-values", "series of any magnitude; non-trivial: not constant", (9000, 200000), move || which(Domain::Any, Len::Max(300), 0..3, zero()), check_lossless),
        part("integers", "integers around the stored widths; non-trivial: not constant", (9000, 200000), move || which(Domain::WideInts, Len::Max(300), 0..3, zero()), check_lossless),
        part("longer", "no inverse-distance; non-trivial: not constant", (1500, 30000), move || which(Domain::Any, Len::Medium, 0..2, zero()), check_lossless),
        part("large-frames", "auto and polynomial; non-trivial: not constant", (12, 400), move || which(Domain::F32, Len::Large, 0..2, zero()), check_lossless),
    ]
}

pub const FFT_CAP: &str = "fft-frequency-cap";
/// Frequencies the bounded search holds when it gives up
pub fn fft_cap(n: usize) -> usize {
    let base = (n / 100).max(3);
    base + 17 * (base / 2).max(1) + 5 * (base / 10).max(1)
}
/// Frequencies of the frame by strength (f64), for the padded frame
fn spectrum(data: &[f64]) -> Vec<rc::C> {
    let p = rc::padded(data);
    let mut s = rc::dft_real(&p);
    s.truncate(p.len() / 2 + 1);
    s
}
fn check_explicit(c: &Which, obs: &mut Obs) -> Res {
    let (comp, name) = LOSSY[c.which as usize];
    let bound = bound_f32(c.milli);
    obs.nontrivial = !is_constant(&c.data.0);
    obs.class(name);
    let (bytes, out) = through_file(&c.data.0, comp, bound, 0)?;
    same_len(&c.data.0, &out)?;
    let e = mape(&c.data.0, &out);
    // the target is met to 0.1%: rounded for the interpolations, truncated for FFT
    let milli = c.milli as f64 / 1000.0;
    let limit = if comp == Compressor::FFT { ((bound as f64 * 1000.0).floor() + 1.0) / 1000.0 } else { milli.max(bound as f64) };
    if e <= limit * SLACK {
        if e > 0.0 {
            obs.class(format!("{name}-lossy"));
        }
        return Ok(());
    }
    if comp != Compressor::FFT {
        return Err(format!("{name}, allowed error {bound}: error {e} over {} samples", out.len()));
    }
    // FFT is over: only acceptable as the known finding, its search ended with all the frequencies it may hold
    let reported = guarded("fft", || Compressor::FFT.get_compress_bounded_results(&c.data.0, bound as f64))?.error;
    if reported <= limit {
        return Err(format!("fft, allowed error {bound}: reported {reported}, really {e} over {} samples", out.len()));
    }
    let n = c.data.0.len();
    let file = rc::parse_file(&bytes)?;
    let (held, pre) = match rc::parse_payload(file.frames[0].compressor, &file.frames[0].data)? {
        rc::Payload::Fft { freqs, min, max } => {
            if min == max {
                // one value for everything: the range of the data is nothing in single precision
                let (lo, hi) = range(&c.data.0);
                if lo as f32 == hi as f32 {
                    obs.known.push(FFT_CAP);
                    return Ok(());
                }
                return Err("fft frame of a single value for data with a range".into());
            }
            (freqs, rc::padding(n).0)
        }
        _ => return Err("not an fft frame".into()),
    };
    let spec = spectrum(&c.data.0);
    let cap = fft_cap(n).min(spec.len());
    let strongest = spec.iter().map(|c| c.0.hypot(c.1)).fold(0.0, f64::max);
    if held.len() < cap {
        let mut left: Vec<f64> = spec.iter().map(|c| c.0.hypot(c.1)).collect();
        held.iter().for_each(|f| left[f.0 as usize] = 0.0);
        let left = left.into_iter().fold(0.0, f64::max);
        if left > 1e-5 * strongest {
            return Err(format!("fft, allowed error {bound}: error {e} with {} of at most {cap} frequencies, one of relative strength {} left out", held.len(), left / strongest));
        }
    }
    // Could that many frequencies have done it comfortably?
    let size = rc::padded(&c.data.0).len();
    let mut order: Vec<usize> = (0..spec.len()).collect();
    order.sort_by(|a, b| spec[*b].0.hypot(spec[*b].1).total_cmp(&spec[*a].0.hypot(spec[*a].1)));
    let mut full = vec![(0.0, 0.0); size];
    for k in order.iter().take(cap) {
        full[*k] = spec[*k];
        if *k > 0 {
            full[size - *k] = (spec[*k].0, -spec[*k].1);
        }
    }
    let (lo, hi) = range(&c.data.0);
    let t = rc::dft(&full, true);
    let ideal: Vec<f64> = t[pre..pre + n].iter().map(|c| ((c.0 / size as f64 * 1e5).round() / 1e5).clamp(lo, hi)).collect();
    let ideal_err = mape(&c.data.0, &ideal);
    // what single precision may add to the error of each sample, relative to the sample; where the rounding to five
    // digits is close to a tie, a whole digit
    let mag = 1e-5 * order.iter().take(cap).map(|k| spec[*k].0.hypot(spec[*k].1)).sum::<f64>() / size as f64 * 2.0;
    let noise: f64 = (0..n)
        .map(|i| {
            let x = c.data.0[i];
            if x == 0.0 {
                return f64::INFINITY;
            }
            let v = t[pre + i].0 / size as f64 * 1e5;
            let tie = (v - v.floor() - 0.5).abs() < 1e5 * mag;
            (mag + if tie { 1e-5 } else { 0.0 }) / x.abs()
        })
        .sum::<f64>()
        / n as f64;
    if ideal_err + noise <= 0.5 * bound as f64 {
        return Err(format!("fft, allowed error {bound}: error {e}, but its {cap} strongest frequencies give {ideal_err}"));
    }
    obs.known.push(FFT_CAP);
    Ok(())
}
pub fn c03() -> Vec<Part> {
    vec![
        part("polynomial", "non-trivial: not constant", (9000, 200000), || which(Domain::Any, Len::Small, 1..2, bound_milli()), check_explicit),
        part("polynomial-percentages", "non-trivial: not constant", (2500, 60000), || which(Domain::Tame, Len::Medium, 1..2, bound_milli()), check_explicit),
        part("idw", "non-trivial: not constant", (4000, 80000), || prop_oneof![2 => which(Domain::Any, Len::Max(350), 2..3, bound_milli()), 1 => which(Domain::Tame, Len::Max(900), 2..3, bound_milli())], check_explicit),
        part("fft", "non-trivial: not constant", (8000, 160000), || prop_oneof![2 => which(Domain::F32, Len::Small, 3..4, bound_milli()), 3 => which(Domain::Tame, Len::Small, 3..4, bound_milli())], check_explicit),
        part("fft-percentages", "non-trivial: not constant", (1500, 40000), || which(Domain::Tame, Len::Medium, 3..4, bound_milli()), check_explicit),
        part("large-frames", "non-trivial: not constant", (12, 300), || prop_oneof![which(Domain::Tame, Len::Large, 1..2, bound_milli()), which(Domain::Tame, Len::Large, 3..4, bound_milli())], check_explicit),
        part("known-fft", "white noise no 22 steps of frequencies can follow at 1%: the recorded finding", (2, 2), || (0u32..2).prop_map(|k| Which {
            data: Series((0..512).map(|i| 1.0 + 99.0 * unit(77 + k as u64, i)).collect()), which: 3, level: 0, milli: 10 }), check_explicit),
    ]
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exact {
    pub data: Series,
    pub comp: u8,
}
impl Case for Exact {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Exact { data, ..self.clone() }).collect()
    }
}
/// Runs: palette of values, run lengths; repetition of values is the point
fn runs(dom: Domain, max_runs: usize, max_len: usize) -> BoxedStrategy<Series> {
    (series(dom, Len::Range(1, 12)), proptest::collection::vec((any::<u16>(), prop_oneof![3 => Just(1usize), 4 => 1usize..=6, 1 => 1usize..=max_len]), 1..=max_runs))
        .prop_map(|(pal, rs)| {
            let mut v = Vec::new();
            for (k, len) in rs {
                let x = pal.0[k as usize % pal.0.len()];
                v.extend(std::iter::repeat_n(x, len));
            }
            Series(v)
        })
        .boxed()
}
/// Long runs between a few values
fn long_runs() -> BoxedStrategy<Series> {
    (series(Domain::Any, Len::Range(2, 12)), proptest::collection::vec((any::<u16>(), prop_oneof![1 => 1usize..=20, 3 => 1usize..=20000, 1 => 30000usize..=70000]), 2..=12))
        .prop_map(|(pal, rs)| {
            let mut v = Vec::new();
            for (k, len) in rs {
                v.extend(std::iter::repeat_n(pal.0[k as usize % pal.0.len()], len));
            }
            Series(v)
        })
        .boxed()
}
fn check_exact(c: &Exact, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let (comp, name) = [(Compressor::RLE, "rle"), (Compressor::Constant, "constant"), (Compressor::Noop, "noop")][c.comp as usize % 3];
    obs.class(name);
    let data: Vec<f64> = match comp {
        Compressor::Constant => vec![d[0]; d.len()],
        Compressor::Noop => d.iter().copied().filter(|x| x.abs() < 9.2e18).collect(),
        _ => d.clone(),
    };
    if data.is_empty() {
        return Ok(());
    }
    obs.nontrivial = comp == Compressor::Constant || !is_constant(&data);
    let expect: Vec<f64> = if comp == Compressor::Noop { data.iter().map(|x| x.round()).collect() } else { data.clone() };
    let one = guarded(name, || {
        let mut cs = CompressedStream::new();
        cs.compress_chunk_with(&data, comp);
        CompressedStream::from_bytes(&cs.to_bytes()).decompress()
    })?;
    if let Some(d) = first_diff(&expect, &one) {
        return Err(format!("{name}: {d}"));
    }
    // the bounded entry point of a lossless compressor, and the bare compressor
    let two = guarded(name, || {
        let b = comp.compress_bounded(&data, 0.05);
        comp.decompress(data.len(), &b)
    })?;
    if let Some(d) = first_diff(&expect, &two) {
        return Err(format!("{name} through the bounded entry point: {d}"));
    }
    Ok(())
}
pub fn c04() -> Vec<Part> {
    let ex = |s: BoxedStrategy<Series>, k: std::ops::Range<u8>| (s, k).prop_map(|(data, comp)| Exact { data, comp }).boxed();
    vec![
        part("widths", "integers around the stored widths, all three compressors; non-trivial: not constant (any for the constant compressor)", (60000, 1500000),
            move || ex(series(Domain::WideInts, Len::Range(1, 60)), 0..3), check_exact),
        part("any-values", "series of any magnitude; non-trivial as above", (40000, 800000), move || ex(series(Domain::Any, Len::Small), 0..3), check_exact),
        part("runs", "run structures over a small palette, run-length only; non-trivial: more than one run", (30000, 600000),
            move || ex(prop_oneof![runs(Domain::Any, 60, 400), runs(Domain::WideInts, 300, 90)].boxed(), 0..1), check_exact),
        part("long", "run starts beyond 8, 16 and 17 bits; non-trivial: more than one run", (60, 1500),
            move || ex(prop_oneof![runs(Domain::Any, 40, 9000), series(Domain::F32, Len::Large), runs(Domain::Ints, 900, 500)].boxed(), 0..3), check_exact),
    ]
}

// ---------------------------------------------------------------- C05

pub const ALL: [(Compressor, &str); 7] = [
    (Compressor::Noop, "noop"), (Compressor::FFT, "fft"), (Compressor::Idw, "idw"), (Compressor::Constant, "constant"),
    (Compressor::Polynomial, "polynomial"), (Compressor::RLE, "rle"), (Compressor::Auto, "auto"),
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FrameSpec {
    pub data: Series,
    pub comp: u8,
    /// None: the unbounded entry point
    pub milli: Option<u32>,
    pub level: usize,
}
impl FrameSpec {
    pub fn compressor(&self) -> (Compressor, &'static str) {
        ALL[self.comp as usize % ALL.len()]
    }
    pub fn add_to(&self, cs: &mut CompressedStream) {
        let c = self.compressor().0;
        match self.milli {
            Some(m) => cs.compress_chunk_bounded_with(&self.data.0, c, bound_f32(m), self.level),
            // auto has no unbounded form
            None if c == Compressor::Auto => cs.compress_chunk(&self.data.0),
            None => cs.compress_chunk_with(&self.data.0, c),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frames(pub Vec<FrameSpec>);
impl Case for Frames {
    fn smaller(&self) -> Vec<Self> {
        let mut out = Vec::new();
        let n = self.0.len();
        let mut k = n / 2;
        while k >= 1 && k >= n / 2000 {
            // of long streams only some pieces
            for at in (0..n).step_by(k).take(if n > 2000 { 4 } else { n }) {
                let mut v = self.0.clone();
                v.drain(at..(at + k).min(n));
                if !v.is_empty() {
                    out.push(Frames(v));
                }
            }
            k /= 2;
        }
        for i in 0..n.min(6) {
            for s in self.0[i].data.smaller().into_iter().take(200) {
                let mut v = self.0.clone();
                v[i].data = s;
                out.push(Frames(v));
            }
        }
        out
    }
}
pub fn frame_spec(dom: Domain, len: Len) -> BoxedStrategy<FrameSpec> {
    (series(dom, len), 0u8..7, proptest::option::weighted(0.7, bound_milli()), 0usize..=6)
        .prop_map(|(mut data, comp, milli, level)| {
            if comp == 2 {
                data.0.truncate(400); // inverse distance is quadratic
            }
            FrameSpec { data, comp, milli, level }
        })
        .boxed()
}
pub fn frames(dom: Domain, len: Len, count: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Frames> {
    proptest::collection::vec(frame_spec(dom, len), count).prop_map(Frames).boxed()
}
fn check_frames(c: &Frames, obs: &mut Obs) -> Res {
    let whole = guarded("stream", || {
        let mut cs = CompressedStream::new();
        c.0.iter().for_each(|f| f.add_to(&mut cs));
        cs.decompress()
    })?;
    obs.nontrivial = c.0.len() > 1 || c.0[0].data.0.len() > 1;
    let mut at = 0;
    for (i, f) in c.0.iter().enumerate() {
        obs.class(f.compressor().1);
        let alone = guarded("frame", || {
            let mut cs = CompressedStream::new();
            f.add_to(&mut cs);
            cs.decompress()
        })?;
        let n = f.data.0.len();
        if alone.len() != n {
            return Err(format!("{} frame of {n} samples decompresses to {}", f.compressor().1, alone.len()));
        }
        if at + n > whole.len() || whole[at..at + n].iter().zip(&alone).any(|(a, b)| !crate::props_format::same(*a, *b)) {
            return Err(format!("frame {i} ({}) of the stream differs from the same frame alone", f.compressor().1));
        }
        at += n;
    }
    if at != whole.len() {
        return Err(format!("{at} samples in, {} out", whole.len()));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Order {
    pub n: usize,
    pub comp: u8,
    pub step: u32,
    pub milli: u32,
}
impl Case for Order {
    fn smaller(&self) -> Vec<Self> {
        [self.n / 2, self.n - self.n / 8, self.n - self.n.min(1)].into_iter().filter(|n| *n > 0 && *n < self.n).map(|n| Order { n, ..self.clone() }).collect()
    }
}
/// A strictly increasing series: positions can be recognised after a lossy round trip
fn check_order(c: &Order, obs: &mut Obs) -> Res {
    let step = 1.0 + c.step as f64;
    let data: Vec<f64> = (0..c.n).map(|i| 1000.0 + step * i as f64).collect();
    let (comp, name) = ALL[c.comp as usize % 7];
    if comp == Compressor::Constant {
        return Ok(());
    }
    obs.nontrivial = c.n > 1;
    obs.class(name);
    let (_, out) = through_file(&data, comp, bound_f32(c.milli), 0)?;
    same_len(&data, &out)?;
    if matches!(comp, Compressor::Noop | Compressor::RLE | Compressor::Polynomial) {
        // a straight line is exact for all of these (to the rounding of the interpolation)
        for (i, (a, b)) in data.iter().zip(&out).enumerate() {
            if (a - b).abs() > 1.01e-5 + 1e-9 * a.abs() {
                return Err(format!("{name}: sample {i} of {} is {b}, expected {a}", c.n));
            }
        }
    } else {
        // the approximation follows the trend: halves keep their order
        let h = c.n / 2;
        if h >= 8 {
            let a: f64 = out[..h].iter().sum::<f64>() / h as f64;
            let b: f64 = out[c.n - h..].iter().sum::<f64>() / h as f64;
            if a >= b {
                return Err(format!("{name}: the first half of an increasing series averages {a}, the second {b}"));
            }
        }
    }
    Ok(())
}
pub fn c05() -> Vec<Part> {
    vec![
        part("streams", "1 to 6 frames with their own compressor, error and level; non-trivial: more than one sample or frame", (5000, 120000),
            || frames(Domain::F32, Len::Small, 1..=6), check_frames),
        part("long-streams", "7 to 300 small frames; all non-trivial", (150, 3000),
            || prop_oneof![frames(Domain::F32, Len::Range(1, 9), 7..=70), frames(Domain::F32, Len::Range(1, 40), 7..=40), frames(Domain::F32, Len::Range(1, 4), 60..=300)], check_frames),
        part("every-length", "single frames, all lengths to 4200; non-trivial: more than one sample", (5000, 100000),
            || prop_oneof![frames(Domain::F32, Len::Range(1, 700), 1..=1), frames(Domain::Tame, Len::Medium, 1..=1)], check_frames),
        part("large-frames", "frames around 2^16 and 2^17 samples", (16, 300), || frames(Domain::Tame, Len::Large, 1..=2), check_frames),
        part("order", "increasing straight lines; non-trivial: two samples or more", (4000, 60000),
            || (prop_oneof![length(Len::Small), length(Len::Max(1200))], 0u8..7, 0u32..2000, bound_milli()).prop_map(|(n, comp, step, milli)| Order { n, comp, step, milli }), check_order),
        part("order-large", "increasing straight lines of up to 2^17 samples; all non-trivial", (40, 800),
            || (length(Len::Large), proptest::sample::select(vec![0u8, 1, 4, 5, 5, 6]), 0u32..2000, bound_milli()).prop_map(|(n, comp, step, milli)| Order { n, comp, step, milli }), check_order),
    ]
}

// ---------------------------------------------------------------- C06

fn check_range(c: &FrameSpec, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let (comp, name) = match c.comp % 4 {
        0 => (Compressor::Polynomial, "polynomial"),
        1 => (Compressor::Idw, "idw"),
        2 => (Compressor::FFT, "fft"),
        _ => (Compressor::Auto, "auto"),
    };
    let out = guarded(name, || {
        let mut cs = CompressedStream::new();
        match c.milli {
            None if comp != Compressor::Auto => cs.compress_chunk_with(d, comp),
            m => cs.compress_chunk_bounded_with(d, comp, bound_f32(m.unwrap_or(30)), c.level),
        }
        CompressedStream::from_bytes(&cs.to_bytes()).decompress()
    })?;
    same_len(d, &out)?;
    obs.nontrivial = !is_constant(d);
    obs.class(name);
    let (lo, hi) = range(d);
    let single = matches!(comp, Compressor::FFT | Compressor::Auto);
    let (lo32, hi32) = ((lo as f32) as f64, (hi as f32) as f64);
    for (i, x) in out.iter().enumerate() {
        let ok = (*x >= lo && *x <= hi) || (single && *x >= lo32.min(lo) && *x <= hi32.max(hi));
        if !ok {
            return Err(format!("{name}: sample {i} is {x:?}, outside {lo:?}..{hi:?}"));
        }
        if *x > lo && *x < hi && i % 7 == 0 && out[i] != d[i] {
            obs.sub += 1;
        }
    }
    if matches!(comp, Compressor::Polynomial | Compressor::Idw) {
        for i in [0, d.len() - 1] {
            if (out[i] - d[i]).abs() > 0.51e-5 + 1e-14 * d[i].abs() {
                return Err(format!("{name}: end point {i} is {:?}, was {:?}", out[i], d[i]));
            }
        }
    }
    Ok(())
}
impl Case for FrameSpec {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| FrameSpec { data, ..self.clone() }).collect()
    }
}
pub fn c06() -> Vec<Part> {
    vec![
        part("any-values", "non-trivial: not constant; inner_checks counts interpolated samples", (12000, 250000), || frame_spec(Domain::F32, Len::Max(600)), check_range),
        part("percentages", "non-trivial: not constant", (4000, 80000), || frame_spec(Domain::Tame, Len::Max(1500)), check_range),
        part("large-frames", "as above, frames of up to 2^17 samples, but no inverse distance (quadratic)", (12, 240),
            || frame_spec(Domain::Tame, Len::Large).prop_map(|mut f| { f.comp = [0, 0, 6, 6, 3, 3, 7][f.comp as usize % 7]; f }), check_range),
    ]
}

// ---------------------------------------------------------------- C12

fn size_of(comp: Compressor, d: &[f64], bound: f64) -> Result<(usize, Vec<f64>), String> {
    guarded("candidate", || {
        let b = comp.compress_bounded(d, bound);
        let out = comp.decompress(d.len(), &b);
        (b.len(), out)
    })
}
fn check_smallest(c: &Bounded, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let bound = bound_f32(c.milli);
    let bytes = guarded("auto", || {
        let mut cs = CompressedStream::new();
        cs.compress_chunk_bounded_with(d, Compressor::Auto, bound, 0);
        cs.to_bytes()
    })?;
    let f = rc::parse_file(&bytes)?;
    let got = f.frames[0].data.len();
    note_frame(&bytes, obs);
    if is_constant(d) {
        if got > 16 {
            return Err(format!("constant frame of {} samples takes {got} bytes", d.len()));
        }
        obs.nontrivial = d.len() > 1;
        return Ok(());
    }
    obs.nontrivial = true;
    for (comp, name) in [(Compressor::RLE, "rle"), (Compressor::Polynomial, "polynomial"), (Compressor::FFT, "fft")] {
        let (size, out) = size_of(comp, d, bound as f64)?;
        let e = mape(d, &out);
        // clearly within the bound
        if out.len() == d.len() && e <= bound as f64 * (1.0 - 1e-9) {
            obs.class(format!("eligible-{name}"));
            if got > size {
                return Err(format!("allowed error {bound}: auto takes {got} bytes, {name} {size} with error {e}, for {} samples", d.len()));
            }
        }
    }
    Ok(())
}
pub fn c12() -> Vec<Part> {
    vec![
        part("general", "non-trivial: not constant, or constant with several samples", (8000, 160000), || bounded(Domain::Any, Len::Small), check_smallest),
        part("percentages", "as above", (1500, 30000), || bounded(Domain::Tame, Len::Medium), check_smallest),
        part("runs", "series with few levels", (3000, 60000), || (runs(Domain::Any, 80, 30), bound_milli()).prop_map(|(data, milli)| Bounded { data, milli, level: 0 }), check_smallest),
        part("long-runs", "series of up to some 300000 samples in few runs", (24, 480), || (long_runs(), bound_milli(), any::<bool>()).prop_map(|(data, milli, exact)| Bounded { data, milli: if exact { 0 } else { milli }, level: 0 }), check_smallest),
        part("large-frames", "series of up to 2^17 samples", (10, 200), || bounded(Domain::Tame, Len::Large), check_smallest),
        part("constant", "constant frames of all lengths and values; non-trivial: several samples", (1000, 20000),
            || (series(Domain::Any, Len::Range(1, 1)), prop_oneof![6 => length(Len::Small), 6 => length(Len::Medium), 1 => Just(131072usize)], bound_milli(), 0usize..=6)
                .prop_map(|(s, n, milli, _)| Bounded { data: Series(vec![s.0[0]; n]), milli, level: 0 }), check_smallest),
    ]
}

// ---------------------------------------------------------------- C30

fn check_sampled(c: &Bounded, obs: &mut Obs) -> Res {
    const SAMPLE: [usize; 7] = [usize::MAX, 4096, 2048, 1024, 512, 256, 128];
    const LIST: [Compressor; 3] = [Compressor::FFT, Compressor::Polynomial, Compressor::RLE];
    let d = &c.data.0;
    let bound = bound_f32(c.milli);
    let auto = |level: usize| {
        guarded("auto", || {
            let mut cs = CompressedStream::new();
            cs.compress_chunk_bounded_with(d, Compressor::Auto, bound, level);
            cs.to_bytes()
        })
    };
    let bytes = auto(c.level)?;
    if is_constant(d) || d.len() < SAMPLE[c.level] {
        obs.class("nothing to sample");
        if bytes != auto(0)? {
            return Err(format!("sample level {} (of {} samples) changes a frame of {} samples", c.level, SAMPLE[c.level], d.len()));
        }
        return Ok(());
    }
    obs.nontrivial = true;
    note_frame(&bytes, obs);
    let frame = rc::parse_file(&bytes)?.frames.remove(0);
    let chosen = [(rc::FFT, Compressor::FFT), (rc::POLYNOMIAL, Compressor::Polynomial), (rc::RLE, Compressor::RLE)].into_iter().find(|x| x.0 == frame.compressor).map(|x| x.1);
    // the candidates that may count as the smallest within the bound
    let smallest = |d: &[f64]| -> Result<Vec<Compressor>, String> {
        let mut fit = Vec::new();
        let mut least = usize::MAX;
        for comp in LIST {
            let (size, out) = size_of(comp, d, bound as f64)?;
            let e = mape(d, &out);
            if e <= bound as f64 * (1.0 - 1e-9) {
                least = least.min(size);
            }
            if e <= bound as f64 * (1.0 + 1e-9) {
                fit.push((comp, size));
            }
        }
        Ok(fit.into_iter().filter(|f| f.1 <= least).map(|f| f.0).collect())
    };
    let sampled = smallest(&d[..SAMPLE[c.level]])?;
    let on_all = smallest(d)?;
    let mut accepted = Vec::new();
    for comp in &sampled {
        let (_, out) = size_of(*comp, d, bound as f64)?;
        let e = mape(d, &out);
        if e <= bound as f64 * (1.0 + 1e-9) {
            accepted.push(*comp);
        }
        if !(e <= bound as f64 * (1.0 - 1e-9)) {
            obs.class("not within the bound on all");
            accepted.extend(&on_all);
        } else if !on_all.contains(comp) {
            obs.class("another is smaller on all");
        }
    }
    for comp in &accepted {
        let whole = guarded("candidate", || comp.compress_bounded(d, bound as f64))?;
        if chosen == Some(*comp) && frame.data == whole {
            return Ok(());
        }
    }
    Err(format!(
        "allowed error {bound}, level {}: {} for {} samples, expected one of {accepted:?} ({sampled:?} on the first {}, {on_all:?} on all)",
        c.level, chosen.map_or("another".into(), |c| format!("{c:?}")), d.len(), SAMPLE[c.level]
    ))
}
pub fn c30() -> Vec<Part> {
    let rule = "non-trivial: not constant, and at least as long as the sample";
    vec![
        part("unlike-rest", rule, (1600, 30000), || prop_oneof![2 => misleading(Domain::Any), 3 => misleading(Domain::Tame)], check_sampled),
        part("general", rule, (1500, 30000), || bounded(Domain::Tame, Len::Medium).prop_map(|mut b| { if b.level == 0 { b.level = 1 + b.data.0.len() % 6 } b }), check_sampled),
        part("large-frames", rule, (24, 500), || prop_oneof![2 => bounded(Domain::Tame, Len::Large), 1 => bounded(Domain::WideInts, Len::Range(4096, 20000))].prop_map(|mut b| { if b.level == 0 { b.level = 1 + b.data.0.len() % 6 } b }), check_sampled),
        part("boundaries", "frames of one sample more or less than the sample; non-trivial: as above", (800, 16000),
            || (1usize..=6, -2i64..=1).prop_flat_map(|(level, off)| {
                let n = ((4096i64 >> (level - 1)) + off) as usize;
                (prop_oneof![series(Domain::Tame, Len::Range(n, n)), series(Domain::Any, Len::Range(n, n))], bound_milli()).prop_map(move |(data, milli)| Bounded { data, milli, level })
            }), check_sampled),
    ]
}

// ---------------------------------------------------------------- C13

fn check_reported(c: &Which, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let (comp, name) = [(Compressor::FFT, "fft"), (Compressor::Polynomial, "polynomial"), (Compressor::Idw, "idw"), (Compressor::RLE, "rle"), (Compressor::Constant, "constant"), (Compressor::Noop, "noop")][c.which as usize % 6];
    let data: Vec<f64> = match comp {
        // (what they do not hold exactly is an error as any other)
        Compressor::Constant if c.milli % 3 > 0 => vec![d[0]; d.len()],
        Compressor::Noop if c.milli % 3 > 0 => d.iter().map(|x| x.round()).collect(),
        _ => d.clone(),
    };
    let bound = bound_f32(c.milli) as f64;
    let (err, out) = guarded(name, || {
        let r = comp.get_compress_bounded_results(&data, bound);
        (r.error, comp.decompress(data.len(), &r.compressed_data))
    })?;
    same_len(&data, &out)?;
    let real = mape(&data, &out);
    obs.nontrivial = !is_constant(&data);
    obs.class(name);
    if real > 0.0 {
        obs.class(format!("{name}-lossy"));
    }
    let same = (err - real).abs() <= 1e-9 * real.abs() + 1e-15 || (err == real) || (err.is_nan() && real.is_nan());
    if !same {
        return Err(format!("{name}, allowed error {bound}: reported error {err}, really {real}, for {} samples", data.len()));
    }
    Ok(())
}
pub fn c13() -> Vec<Part> {
    vec![
        part("any-values", "non-trivial: not constant", (16000, 300000), || prop_oneof![3 => which(Domain::F32, Len::Max(700), 0..2, bound_milli()), 1 => which(Domain::F32, Len::Max(300), 2..6, bound_milli())], check_reported),
        part("percentages", "non-trivial: not constant", (2500, 50000), || which(Domain::Tame, Len::Medium, 0..2, bound_milli()), check_reported),
        part("integers", "non-trivial: not constant", (6000, 100000), || which(Domain::WideInts, Len::Max(300), 0..6, bound_milli()), check_reported),
        part("nearly-constant", "ranges that vanish in single precision; non-trivial: not constant", (6000, 60000),
            || (series(Domain::Tame, Len::Max(400)), 0u8..3, bound_milli(), 1i32..14).prop_map(|(s, which, milli, k)| {
                let c = s.0[0].abs().max(1.0) * 10f64.powi(k / 2);
                let e = 10f64.powi(-k);
                Which { data: Series(s.0.iter().map(|x| c + x * e).collect()), which, level: 0, milli }
            }), check_reported),
        part("large-frames", "non-trivial: not constant", (10, 200), || which(Domain::Tame, Len::Large, 0..2, bound_milli()), check_reported),
    ]
}

// ---------------------------------------------------------------- C24

/// How many frequencies a frame was to get
#[derive(Clone, Copy, PartialEq)]
enum Count {
    Bounded,
    Default,
    Chosen(usize),
}
fn check_spectrum(c: &FrameSpec, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let (payload, out) = guarded("fft", || {
        let b = match c.milli {
            Some(m) => Compressor::FFT.compress_bounded(d, bound_f32(m) as f64),
            None => Compressor::FFT.compress(d),
        };
        let out = Compressor::FFT.decompress(d.len(), &b);
        (b, out)
    })?;
    obs.class(if c.milli.is_some() { "bounded" } else { "unbounded" });
    spectrum_holds(d, &payload, &out, if c.milli.is_some() { Count::Bounded } else { Count::Default }, obs)
}
fn spectrum_holds(d: &[f64], payload: &[u8], out: &[f64], count: Count, obs: &mut Obs) -> Res {
    let n = d.len();
    same_len(d, out)?;
    let (lo, hi) = range(d);
    let p = rc::parse_payload(rc::FFT, payload)?;
    let rc::Payload::Fft { freqs, max, min } = &p else { return Err("not an fft frame".into()) };
    if *max != hi as f32 || *min != lo as f32 {
        return Err(format!("stored range {min}..{max}, data {lo}..{hi}"));
    }
    obs.class(if n >= 128 { "padded" } else { "unpadded" });
    if max != min {
        let spec = spectrum(d);
        let strength: Vec<f64> = spec.iter().map(|c| c.0.hypot(c.1)).collect();
        let strongest = strength.iter().copied().fold(0.0, f64::max);
        // single precision transform of the padded frame
        let size = rc::padded(d).len() as f64;
        let rms = (d.iter().map(|x| x * x).sum::<f64>() / n as f64).sqrt();
        let amp = d.iter().fold(0f64, |a, x| a.max(x.abs()));
        let tol = 2e-6 * strongest + 1e-6 * (rms * size.sqrt() + amp) * size.log2().max(1.0);
        let mut seen = vec![false; spec.len()];
        for (pos, re, im) in freqs {
            let k = *pos as usize;
            if k >= spec.len() || seen[k] {
                return Err(format!("frequency {k} of {} stored twice or out of range", spec.len()));
            }
            seen[k] = true;
            obs.sub += 1;
            let off = (spec[k].0 - *re as f64).hypot(spec[k].1 - *im as f64);
            if off > tol {
                return Err(format!("frequency {k}: stored ({re},{im}), the transform of the {n} samples has {:?}", spec[k]));
            }
        }
        if freqs.is_empty() {
            return Err("no frequencies stored for data with a range".into());
        }
        // a frame with a single frequency may be just the mean
        let weakest = freqs.iter().map(|f| strength[f.0 as usize]).fold(f64::INFINITY, f64::min);
        let missing = strength.iter().enumerate().filter(|(k, _)| !seen[*k]).map(|(_, s)| *s).fold(0.0, f64::max);
        if count == Count::Chosen(1) {
            if seen[0] && freqs.len() == 1 {
                // just the mean
            } else {
                return Err(format!("asked for one frequency, {} stored: {:?}", freqs.len(), freqs.first()));
            }
        } else if missing > weakest + 2.0 * tol {
            return Err(format!("a frequency of strength {missing} left out, one of {weakest} stored ({} of {})", freqs.len(), spec.len()));
        }
        let want = match count {
            Count::Bounded => None,
            Count::Default => Some((n / 100).max(3).min(spec.len())),
            Count::Chosen(k) => Some(k.min(spec.len())),
        };
        if let Some(want) = want {
            if freqs.len() > want || freqs.len() != want && missing > 2.0 * tol {
                return Err(format!("{} frequencies stored, {want} expected for {n} samples", freqs.len()));
            }
        }
        obs.nontrivial = freqs.len() < spec.len();
    }
    let (want, tol) = rc::decode(&p, n)?;
    let amp = d.iter().fold(0f64, |a, x| a.max(x.abs()));
    for i in 0..n {
        if (want[i] - out[i]).abs() > tol + 1e-6 * amp {
            return Err(format!("sample {i} of {n}: decompressed {}, the inverse transform gives {}", out[i], want[i]));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num(pub usize);
impl Case for Num {}
fn check_padding(c: &Num, obs: &mut Obs) -> Res {
    let n = c.0;
    obs.nontrivial = true;
    let next = guarded("next_size", || atsc::utils::next_size(n))?;
    if next != rc::smooth_above(n) {
        return Err(format!("next size after {n}: {next}, expected {}", rc::smooth_above(n)));
    }
    let p = atsc::utils::prev_power_of_two(n);
    let want = if n == 0 { 0 } else { 1usize << (usize::BITS - 1 - n.leading_zeros()) };
    if p != want {
        return Err(format!("power of two at or below {n}: {p}, expected {want}"));
    }
    if n <= 20000 && n > 0 {
        let d: Vec<f64> = (0..n).map(|i| 5.0 + i as f64).collect();
        let g = guarded("gibbs", || atsc::compressor::fft::FFT::gibbs_sizing(&d))?;
        let size = rc::smooth_above(n);
        let pre = (size - n) / 2;
        if g.len() != size || g[pre..pre + n] != d[..] || g[..pre].iter().any(|x| *x != d[0]) || g[pre + n..].iter().any(|x| *x != d[n - 1]) {
            return Err(format!("padding of {n} samples is wrong"));
        }
    }
    Ok(())
}
pub fn c24() -> Vec<Part> {
    let f32_frames = |len| frame_spec(Domain::F32, len);
    vec![
        part("any-values", "non-trivial: some frequencies are discarded; inner_checks counts coefficients compared", (8000, 200000), move || f32_frames(Len::Small), check_spectrum),
        part("percentages", "as above", (2500, 50000), || frame_spec(Domain::Tame, Len::Medium), check_spectrum),
        part("large-frames", "as above, including frames whose positions need more than 16 bits", (8, 120), || frame_spec(Domain::Tame, Len::Large), check_spectrum),
        part("padding", "padded sizes and padding contents for a length; all non-trivial", (4000, 60000), || prop_oneof![1usize..5000, 1usize..200000].prop_map(Num), check_padding),
    ]
}

// ---------------------------------------------------------------- C28

fn check_stats(c: &Series, obs: &mut Obs) -> Res {
    use atsc::optimizer::utils::{Bitdepth, DataStats};
    let d = &c.0;
    let s = guarded("DataStats::new", || DataStats::new(d))?;
    let max = d.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let min = d.iter().copied().fold(f64::INFINITY, f64::min);
    let whole = d.iter().all(|x| x.fract() == 0.0);
    obs.nontrivial = max > min;
    obs.class(if whole { "whole numbers" } else { "fractions" });
    if s.max != max || s.min != min {
        return Err(format!("range {}..{} reported, it is {min}..{max}", s.min, s.max));
    }
    for (what, loc, v) in [("maximum", s.max_loc, max), ("minimum", s.min_loc, min)] {
        let want = d.iter().position(|x| *x == v);
        if Some(loc) != want {
            return Err(format!("{what} {v} reported at {loc}, first at {want:?}"));
        }
    }
    let n = d.len() as f64;
    let sum: f64 = d.iter().map(|x| x / n).sum();
    let all: f64 = d.iter().map(|x| x.abs() / n).sum();
    if !((s.mean - sum).abs() <= (n + 4.0) * 4.0 * f64::EPSILON * all + f64::MIN_POSITIVE * n) {
        return Err(format!("mean of {} samples reported as {}, it is {sum}", d.len(), s.mean));
    }
    if s.fractional == whole {
        return Err(format!("fractional {} reported", s.fractional));
    }
    let inside = |lo: f64, hi: f64| whole && min >= lo && max <= hi;
    let want = if inside(0.0, 255.0) {
        Bitdepth::U8
    } else if inside(i16::MIN.into(), i16::MAX.into()) {
        Bitdepth::I16
    } else if inside(i32::MIN.into(), i32::MAX.into()) {
        Bitdepth::I32
    } else {
        Bitdepth::F64
    };
    if s.bitdepth != want {
        return Err(format!("{:?} recommended for {} {min}..{max}, the smallest exact one is {want:?}", s.bitdepth, if whole { "whole numbers" } else { "fractions in" }));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rounding {
    pub x: f64,
    pub lo: f64,
    pub hi: f64,
    pub digits: u32,
}
impl Case for Rounding {}
fn check_rounding(c: &Rounding, obs: &mut Obs) -> Res {
    use atsc::utils::*;
    let digits = c.digits % 10;
    let p = 10f64.powi(digits as i32);
    let x = c.x;
    obs.nontrivial = (x * p).fract() != 0.0;
    let r = guarded("round_f64", || round_f64(x, digits))?;
    let eps = x.abs() * 1e-15 + 1e-300;
    if (r - x).abs() > 0.5 / p + eps || ((r * p) - (r * p).round()).abs() > (r * p).abs() * 1e-15 {
        return Err(format!("{x} rounded to {digits} decimals gives {r}"));
    }
    let (lo, hi) = (c.lo.min(c.hi), c.lo.max(c.hi));
    let l = guarded("round_and_limit_f64", || round_and_limit_f64(x, lo, hi, digits))?;
    if l != r.clamp(lo, hi) {
        return Err(format!("{x} rounded to {digits} decimals in {lo}..{hi} gives {l}, without limits {r}"));
    }
    if x >= 0.0 && digits <= 6 {
        let u = guarded("f64_to_u64", || f64_to_u64(x, digits as usize))?;
        // exactly the digits before the cut
        let scaled = x * p;
        if !(u as f64 <= scaled && (scaled - u as f64) < 1.0) {
            return Err(format!("{x} with {digits} decimals as an integer gives {u}"));
        }
    }
    Ok(())
}
pub fn c28() -> Vec<Part> {
    let stat = |dom, len| series(dom, len);
    vec![
        part("any-values", "series of any magnitude; non-trivial: not constant", (50000, 1000000), move || prop_oneof![2 => stat(Domain::Any, Len::Small), 2 => stat(Domain::F32, Len::Small), 1 => stat(Domain::Tame, Len::Small)], check_stats),
        part("whole-numbers", "whole numbers of any size; non-trivial: not constant", (50000, 1000000), move || prop_oneof![1 => stat(Domain::Ints, Len::Small), 1 => stat(Domain::WideInts, Len::Small)], check_stats),
        part("large", "up to 2^17 samples; non-trivial: not constant", (60, 1200), move || prop_oneof![stat(Domain::Any, Len::Large), stat(Domain::WideInts, Len::Large)], check_stats),
        part("edges", "numbers around the limits of the integer types; non-trivial: not constant", (100000, 2000000), || {
            let edge = || proptest::sample::select(vec![0.0, 255.0, -32768.0, 32767.0, -2147483648.0, 2147483647.0, 4294967295.0, 65535.0, -128.0, 127.0, 9223372036854775807.0, -9223372036854775808.0, 1e300]);
            let near = (edge(), -2i8..3, prop_oneof![6 => Just(0.0), 1 => Just(0.5), 1 => Just(1e-9)]).prop_map(|(e, d, f)| e + d as f64 + f);
            proptest::collection::vec(near, 1..6).prop_map(Series)
        }, check_stats),
        part("rounding", "rounding of a number to 0 to 9 decimals; non-trivial: there is something to round", (100000, 2000000), || {
            let x = || prop_oneof![3 => -1000.0..1000.0f64, 1 => -1e9..1e9f64, 1 => (-100000i32..100000).prop_map(|k| k as f64 / 64.0), 1 => (-3000i32..3000).prop_map(f64::from), 1 => -1e-4..1e-4f64];
            (x(), x(), x(), 0u32..10).prop_map(|(x, lo, hi, digits)| Rounding { x, lo, hi, digits })
        }, check_rounding),
    ]
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Asked {
    pub data: Series,
    /// 0 FFT, 1 polynomial, 2 IDW
    pub kind: u8,
    pub count: usize,
}
impl Case for Asked {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.data.smaller().into_iter().map(|data| Asked { data, ..self.clone() }).collect();
        v.extend([1, self.count / 2, self.count - 1].into_iter().filter(|k| *k >= 1 && *k < self.count).map(|count| Asked { count, ..self.clone() }));
        v
    }
}
fn asked(dom: Domain, len: Len, kinds: std::ops::Range<u8>) -> BoxedStrategy<Asked> {
    (series(dom, len), kinds, prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], any::<u32>())
        .prop_map(|(data, kind, how, r)| {
            let n = data.0.len();
            let r = r as usize;
            let count = match how {
                0 => 1 + r % n.min(40),
                1 => 1 + r % n,
                _ => 1 + r % (2 * n + 3),
            };
            Asked { data, kind, count }
        })
        .boxed()
}
fn check_asked(c: &Asked, obs: &mut Obs) -> Res {
    use atsc::compressor::{fft, polynomial as poly};
    let d = &c.data.0;
    let n = d.len();
    obs.class(["fft", "polynomial", "idw"][c.kind as usize % 3]);
    if c.kind % 3 == 0 {
        let (b, out) = guarded("fft_set", || {
            let b = fft::fft_set(d, c.count);
            let out = fft::fft_to_data(n, &b);
            (b, out)
        })?;
        return spectrum_holds(d, &b, &out, Count::Chosen(c.count), obs).map_err(|e| format!("{} frequencies asked for: {e}", c.count));
    }
    let idw = c.kind % 3 == 2;
    let (b, out) = guarded("compress_hinted", || {
        let stats = atsc::optimizer::utils::DataStats::new(d);
        let kind = if idw { poly::PolynomialType::Idw } else { poly::PolynomialType::Polynomial };
        let mut p = poly::Polynomial::new(n, stats.min, stats.max, kind, stats.bitdepth);
        p.compress_hinted(d, c.count);
        let b = p.to_bytes();
        let out = poly::to_data(n, &b);
        (b, out)
    })?;
    same_len(d, &out)?;
    let (lo, hi) = range(d);
    let p = rc::parse_payload(if idw { rc::IDW } else { rc::POLYNOMIAL }, &b)?;
    let rc::Payload::Poly { points, min, max, step, .. } = &p else { return Err("another kind of frame".into()) };
    let ctx = |e: String| format!("{} points asked for of {n} samples: {e}", c.count);
    if (*min, *max) != (lo, hi) {
        return Err(ctx(format!("stored range {min}..{max}, data {lo}..{hi}")));
    }
    if min != max {
        let pos = rc::positions(n, (*step).max(1) as usize);
        if pos.len() != points.len() {
            return Err(ctx(format!("{} stored, {} in steps of {step}", points.len(), pos.len())));
        }
        if points.len() < c.count.min(n) {
            return Err(ctx(format!("only {} stored", points.len())));
        }
        if points.len() > (2 * c.count).max(n / 255 + 1) + 1 {
            return Err(ctx(format!("{} stored", points.len())));
        }
        for (at, v) in pos.iter().zip(points) {
            obs.sub += 1;
            if d[*at] != *v {
                return Err(ctx(format!("{v} stored for sample {at}, which is {}", d[*at])));
            }
            // at least rounded to five decimals
            if (out[*at] - v).abs() > 5.1e-6 + 1e-12 * v.abs() {
                return Err(ctx(format!("stored sample {at} of {v} is rebuilt as {}", out[*at])));
            }
        }
        obs.nontrivial = points.len() < n;
    }
    if let Some(k) = out.iter().position(|x| !(*x >= lo && *x <= hi)) {
        return Err(ctx(format!("sample {k} is rebuilt as {}, outside {lo}..{hi}", out[k])));
    }
    let (want, tol) = rc::decode(&p, n)?;
    if let Some(k) = (0..n).find(|k| !((want[*k] - out[*k]).abs() <= tol)) {
        return Err(ctx(format!("sample {k} is rebuilt as {}, the interpolation gives {}", out[k], want[k])));
    }
    Ok(())
}
pub fn c29() -> Vec<Part> {
    vec![
        part("any-values", "any number of frequencies or points; non-trivial: fewer are stored than the frame has; inner_checks counts coefficients and points compared", (20000, 400000), || prop_oneof![
            3 => asked(Domain::F32, Len::Small, 0..2), 1 => asked(Domain::F32, Len::Max(300), 2..3)], check_asked),
        part("percentages", "as above", (3000, 60000), || prop_oneof![3 => asked(Domain::Tame, Len::Medium, 0..2), 1 => asked(Domain::Tame, Len::Range(200, 1500), 2..3)], check_asked),
        part("integers", "as above, whole numbers", (10000, 200000), || asked(Domain::WideInts, Len::Max(400), 0..3), check_asked),
        part("large-frames", "as above", (12, 240), || asked(Domain::Tame, Len::Large, 0..2), check_asked),
    ]
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ladder {
    pub data: Series,
    pub kind: u8,
    pub millis: Vec<u32>,
}
impl Case for Ladder {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.data.smaller().into_iter().map(|data| Ladder { data, ..self.clone() }).collect();
        for i in 0..self.millis.len() {
            let mut l = self.clone();
            l.millis.remove(i);
            v.push(l);
        }
        v
    }
}
fn ladder(dom: Domain, len: Len, kinds: std::ops::Range<u8>) -> BoxedStrategy<Ladder> {
    (series(dom, len), kinds, proptest::collection::vec(bound_milli(), 2..5)).prop_map(|(data, kind, millis)| Ladder { data, kind, millis }).boxed()
}
fn stored_count(compressor: u32, b: &[u8]) -> Result<usize, String> {
    Ok(match rc::parse_payload(compressor, b)? {
        rc::Payload::Poly { points, .. } => points.len(),
        rc::Payload::Fft { freqs, .. } => freqs.len(),
        _ => return Err("another kind of frame".into()),
    })
}
fn check_ladder(c: &Ladder, obs: &mut Obs) -> Res {
    use atsc::compressor::{fft, polynomial as poly};
    let d = &c.data.0;
    let n = d.len();
    let (comp, code, name) = [(Compressor::FFT, rc::FFT, "fft"), (Compressor::Polynomial, rc::POLYNOMIAL, "polynomial"), (Compressor::Idw, rc::IDW, "idw")][c.kind as usize % 3];
    obs.class(name);
    let mut millis = c.millis.clone();
    millis.sort();
    // what the smallest number, a hundredth of the samples and at least three, gives
    let base = (n / 100).max(3);
    let (least, least_err) = guarded("smallest number", || {
        if code == rc::FFT {
            let b = fft::fft_set(d, base);
            let out = fft::fft_to_data(n, &b);
            Ok::<_, String>((stored_count(code, &b)?, mape(d, &out)))
        } else {
            let stats = atsc::optimizer::utils::DataStats::new(d);
            let kind = if code == rc::IDW { poly::PolynomialType::Idw } else { poly::PolynomialType::Polynomial };
            let mut p = poly::Polynomial::new(n, stats.min, stats.max, kind, stats.bitdepth);
            p.compress_hinted(d, base);
            let b = p.to_bytes();
            let out = poly::to_data(n, &b);
            Ok((stored_count(code, &b)?, mape(d, &out)))
        }
    })??;
    let mut before: Option<(u32, usize)> = None;
    for m in &millis {
        obs.sub += 1;
        let bound = bound_f32(*m) as f64;
        let b = guarded(name, || comp.compress_bounded(d, bound))?;
        let count = stored_count(code, &b)?;
        if let Some((was, k)) = before {
            if count > k {
                return Err(format!("{name}: {count} stored of {n} samples for an allowed error of {}, {k} for {}", bound, bound_f32(was)));
            }
            if count < k {
                obs.nontrivial = true;
            }
        }
        // (the error is looked at in steps of 0.1%)
        if least_err <= bound - 0.0006 && count > least {
            return Err(format!("{name}: {count} stored of {n} samples for an allowed error of {bound}, {least} keep it to {least_err}"));
        }
        if least_err <= bound - 0.0006 {
            obs.class("the smallest number");
        }
        before = Some((*m, count));
    }
    Ok(())
}
pub fn c33() -> Vec<Part> {
    let rule = "non-trivial: a larger allowed error stores less; inner_checks counts compressions";
    vec![
        part("any-values", rule, (14000, 280000), || prop_oneof![3 => ladder(Domain::F32, Len::Max(700), 0..2), 1 => ladder(Domain::F32, Len::Max(300), 2..3)], check_ladder),
        part("percentages", rule, (2500, 50000), || prop_oneof![3 => ladder(Domain::Tame, Len::Medium, 0..2), 1 => ladder(Domain::Tame, Len::Max(400), 2..3)], check_ladder),
        part("integers", rule, (6000, 120000), || ladder(Domain::WideInts, Len::Max(300), 0..3), check_ladder),
        part("large-frames", rule, (10, 200), || ladder(Domain::Tame, Len::Large, 0..2), check_ladder),
    ]
}

// ---------------------------------------------------------------- C34

fn check_compact(c: &Which, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let pick = c.which % 8;
    let (comp, name) = [(Compressor::RLE, "rle"), (Compressor::Polynomial, "polynomial"), (Compressor::Idw, "idw"), (Compressor::FFT, "fft"), (Compressor::Constant, "constant"), (Compressor::Noop, "noop"), (Compressor::Auto, "auto"), (Compressor::RLE, "rle")][pick as usize];
    let data: Vec<f64> = if comp == Compressor::Constant { vec![d[0]; d.len()] } else { d.clone() };
    let n = data.len();
    let bound = bound_f32(c.milli);
    let with_bound = comp == Compressor::Auto || c.milli % 2 == 0;
    obs.class(name);
    let bytes = guarded(name, || {
        let mut cs = CompressedStream::new();
        if with_bound {
            cs.compress_chunk_bounded_with(&data, comp, bound, c.level);
        } else {
            cs.compress_chunk_with(&data, comp);
        }
        cs.to_bytes()
    })?;
    let frame = rc::parse_file(&bytes)?.frames.remove(0);
    let payload = rc::parse_payload(frame.compressor, &frame.data)?;
    let runs = 1 + data.windows(2).filter(|w| w[0] != w[1]).count();
    let smallest = [rc::Width::U8, rc::Width::I16, rc::Width::I32, rc::Width::F64].into_iter().find(|w| data.iter().all(|x| w.fits(*x))).unwrap();
    // what is stored without an allowed error
    let least = (n / 100).max(3);
    let of_width = |w: rc::Width| {
        if w == smallest {
            Ok(())
        } else {
            Err(format!("{name}: values of {n} samples stored as {w:?}, {smallest:?} holds them"))
        }
    };
    obs.nontrivial = runs > 1;
    match payload {
        rc::Payload::Rle { width, runs: stored } => {
            obs.class("runs");
            of_width(width)?;
            let at: usize = stored.iter().map(|r| r.1.len()).sum();
            if at > runs {
                return Err(format!("{name}: {at} positions stored for {runs} runs of {n} samples"));
            }
            let mut values: Vec<u64> = data.iter().map(|x| x.to_bits()).collect();
            values.sort();
            values.dedup();
            if stored.len() > values.len() {
                return Err(format!("{name}: {} values stored, {} distinct ones in {n} samples", stored.len(), values.len()));
            }
            if n > 2 * runs {
                obs.class("runs of several samples");
            }
        }
        rc::Payload::Constant { width, .. } => of_width(width)?,
        rc::Payload::Poly { width, points, .. } => {
            of_width(width)?;
            if points.len() > n {
                return Err(format!("{name}: {} points for {n} samples", points.len()));
            }
            // at even steps, of at most 255 samples
            if !with_bound && points.len() > rc::positions(n, (n / least).clamp(1, 255)).len() {
                return Err(format!("{name}: {} points for {n} samples without an allowed error", points.len()));
            }
        }
        rc::Payload::Fft { freqs, .. } => {
            let half = rc::padding(n).1 / 2 + 1;
            if !with_bound && freqs.len() > least {
                return Err(format!("{name}: {} frequencies for {n} samples without an allowed error", freqs.len()));
            }
            let mut at: Vec<u32> = freqs.iter().map(|f| f.0).collect();
            at.sort();
            at.dedup();
            if at.len() < freqs.len() || at.iter().any(|p| *p as usize >= half) {
                return Err(format!("{name}: {} frequencies at {} places stored for {n} samples, the last at {:?} of {half}", freqs.len(), at.len(), at.last()));
            }
        }
        rc::Payload::Noop(v) => {
            if v.len() != n {
                return Err(format!("{name}: {} numbers stored for {n} samples", v.len()));
            }
        }
    }
    // the frame holds its payload and little else
    let overhead = bytes.len() - frame.data.len();
    if overhead > 40 {
        return Err(format!("{name}: a stream of one frame takes {overhead} bytes more than the frame's data"));
    }
    Ok(())
}
pub fn c34() -> Vec<Part> {
    let rule = "non-trivial: not constant";
    vec![
        part("any-values", rule, (30000, 600000), || which(Domain::F32, Len::Max(400), 0..8, bound_milli()), check_compact),
        part("integers", rule, (30000, 600000), || which(Domain::WideInts, Len::Max(400), 0..8, bound_milli()), check_compact),
        part("percentages", rule, (2500, 50000), || prop_oneof![3 => which(Domain::Tame, Len::Medium, 0..2, bound_milli()), 3 => which(Domain::Tame, Len::Medium, 3..8, bound_milli())], check_compact),
        part("large-frames", rule, (24, 480), || prop_oneof![which(Domain::Tame, Len::Large, 0..2, bound_milli()), which(Domain::Tame, Len::Large, 3..8, bound_milli())], check_compact),
        part("small", "any small whole numbers, many repeated; non-trivial: not constant", (60000, 1000000), || (proptest::collection::vec(prop_oneof![3 => 0i32..3, 1 => -2i32..3, 1 => proptest::sample::select(vec![255i32, 256, -1, -32768, -32769, 32767, 32768, i32::MIN, i32::MAX])], 1..14), 0u8..8, bound_milli(), 0usize..=6)
            .prop_map(|(v, which, milli, level)| Which { data: Series(v.into_iter().map(f64::from).collect()), which, level, milli }), check_compact),
    ]
}
