//! An independent reader and writer of the version 1 file format, written from the format description.
//! Nothing here uses the code under test.

pub const NOOP: u32 = 0;
pub const FFT: u32 = 1;
pub const IDW: u32 = 2;
pub const CONSTANT: u32 = 3;
pub const POLYNOMIAL: u32 = 4;
pub const RLE: u32 = 6;

#[derive(Debug, Clone, PartialEq)]
pub struct Frame {
    pub frame_size: u64,
    pub samples: usize,
    pub compressor: u32,
    pub data: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct File {
    pub version: u32,
    pub count: u8,
    pub frames: Vec<Frame>,
}

pub struct Rd<'a> {
    b: &'a [u8],
    at: usize,
}
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, at: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.at + n > self.b.len() {
            return Err(format!("out of bytes at {}", self.at));
        }
        let s = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    /// unsigned variable length integer
    pub fn uint(&mut self) -> R<u64> {
        match self.u8()? {
            251 => Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as u64),
            252 => Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64),
            253 => Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            b @ 0..=250 => Ok(b as u64),
            b => Err(format!("bad integer marker {b}")),
        }
    }
    /// signed, zigzag
    pub fn int(&mut self) -> R<i64> {
        let u = self.uint()?;
        Ok(if u & 1 == 0 { (u >> 1) as i64 } else { !((u >> 1) as i64) })
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn f32(&mut self) -> R<f32> {
        Ok(f32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn done(&self) -> bool {
        self.at == self.b.len()
    }
}
#[derive(Default)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn uint(&mut self, v: u64) {
        if v < 251 {
            self.0.push(v as u8)
        } else if v <= u16::MAX as u64 {
            self.0.push(251);
            self.0.extend((v as u16).to_le_bytes())
        } else if v <= u32::MAX as u64 {
            self.0.push(252);
            self.0.extend((v as u32).to_le_bytes())
        } else {
            self.0.push(253);
            self.0.extend(v.to_le_bytes())
        }
    }
    pub fn int(&mut self, v: i64) {
        self.uint(((v << 1) ^ (v >> 63)) as u64)
    }
    pub fn f64(&mut self, v: f64) {
        self.0.extend(v.to_le_bytes())
    }
    pub fn f32(&mut self, v: f32) {
        self.0.extend(v.to_le_bytes())
    }
}

pub fn parse_file(b: &[u8]) -> R<File> {
    let mut r = Rd::new(b);
    if r.take(4)? != b"BRRO" {
        return Err("bad magic".into());
    }
    let version = u32::from_le_bytes(r.take(4)?.try_into().unwrap());
    let count = r.u8()?;
    let n = r.uint()? as usize;
    let mut frames = Vec::new();
    for _ in 0..n {
        let frame_size = r.uint()?;
        let samples = r.uint()? as usize;
        let compressor = r.uint()? as u32;
        let len = r.uint()? as usize;
        frames.push(Frame { frame_size, samples, compressor, data: r.take(len)?.to_vec() });
    }
    if !r.done() {
        return Err("bytes left over".into());
    }
    Ok(File { version, count, frames })
}
pub fn write_file(f: &File) -> Vec<u8> {
    let mut w = Wr::default();
    w.0.extend(b"BRRO");
    w.0.extend(f.version.to_le_bytes());
    w.u8(f.count);
    w.uint(f.frames.len() as u64);
    for fr in &f.frames {
        w.uint(fr.frame_size);
        w.uint(fr.samples as u64);
        w.uint(fr.compressor as u64);
        w.uint(fr.data.len() as u64);
        w.0.extend(&fr.data);
    }
    w.0
}

/// Width in which values are stored
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Width {
    F64,
    I32,
    I16,
    U8,
}
pub const WIDTHS: [Width; 4] = [Width::F64, Width::I32, Width::I16, Width::U8];
impl Width {
    pub fn code(self) -> u64 {
        match self {
            Width::F64 => 0,
            Width::I32 => 1,
            Width::I16 => 2,
            Width::U8 => 3,
        }
    }
    pub fn fits(self, v: f64) -> bool {
        let int = v == v.trunc();
        match self {
            Width::F64 => true,
            Width::I32 => int && v >= i32::MIN as f64 && v <= i32::MAX as f64,
            Width::I16 => int && v >= i16::MIN as f64 && v <= i16::MAX as f64,
            Width::U8 => int && (0.0..=255.0).contains(&v),
        }
    }
    fn read(self, r: &mut Rd) -> R<f64> {
        let check = |v: i64, lo: i64, hi: i64| if v < lo || v > hi { Err(format!("{v} does not fit the stored width")) } else { Ok(v as f64) };
        match self {
            Width::F64 => r.f64(),
            Width::I32 => check(r.int()?, i32::MIN as i64, i32::MAX as i64),
            Width::I16 => check(r.int()?, i16::MIN as i64, i16::MAX as i64),
            Width::U8 => Ok(r.u8()? as f64),
        }
    }
    fn write(self, w: &mut Wr, v: f64) {
        match self {
            Width::F64 => w.f64(v),
            Width::I32 | Width::I16 => w.int(v as i64),
            Width::U8 => w.u8(v as u8),
        }
    }
    fn from(code: u64) -> R<Width> {
        match code {
            0 => Ok(Width::F64),
            1 => Ok(Width::I32),
            2 => Ok(Width::I16),
            3 => Ok(Width::U8),
            c => Err(format!("unknown width {c}")),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Payload {
    Constant { width: Width, value: f64 },
    Noop(Vec<i64>),
    Rle { width: Width, runs: Vec<(f64, Vec<usize>)> },
    Poly { idw: bool, width: Width, points: Vec<f64>, min: f64, max: f64, step: u8 },
    Fft { freqs: Vec<(u32, f32, f32)>, max: f32, min: f32 },
}

pub fn parse_payload(compressor: u32, b: &[u8]) -> R<Payload> {
    let mut r = Rd::new(b);
    let id = if matches!(compressor, IDW | POLYNOMIAL) { r.uint()? } else { r.u8()? as u64 };
    let expect = |want: u64| if id == want { Ok(()) } else { Err(format!("compressor id {id}, expected {want}")) };
    let p = match compressor {
        CONSTANT => {
            expect(30)?;
            let width = Width::from(r.uint()?)?;
            Payload::Constant { width, value: width.read(&mut r)? }
        }
        NOOP => {
            expect(250)?;
            let n = r.uint()?;
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(r.int()?);
            }
            Payload::Noop(v)
        }
        RLE => {
            expect(60)?;
            let width = Width::from(r.uint()?)?;
            let n = r.uint()?;
            let mut runs = Vec::new();
            for _ in 0..n {
                let v = width.read(&mut r)?;
                let k = r.uint()?;
                let mut at = Vec::new();
                for _ in 0..k {
                    at.push(r.uint()? as usize);
                }
                runs.push((v, at));
            }
            Payload::Rle { width, runs }
        }
        POLYNOMIAL | IDW => {
            expect(if compressor == IDW { 1 } else { 0 })?;
            let width = Width::from(r.uint()?)?;
            let n = r.uint()?;
            let mut points = Vec::new();
            for _ in 0..n {
                points.push(width.read(&mut r)?);
            }
            Payload::Poly { idw: compressor == IDW, width, points, min: r.f64()?, max: r.f64()?, step: r.u8()? }
        }
        FFT => {
            expect(15)?;
            let n = r.uint()?;
            let mut freqs = Vec::new();
            for _ in 0..n {
                let pos = r.uint()?;
                if pos > u32::MAX as u64 {
                    return Err("frequency position over 32 bits".into());
                }
                freqs.push((pos as u32, r.f32()?, r.f32()?));
            }
            Payload::Fft { freqs, max: r.f32()?, min: r.f32()? }
        }
        c => return Err(format!("unknown compressor {c}")),
    };
    if !r.done() {
        return Err("bytes left over in the payload".into());
    }
    Ok(p)
}
pub fn write_payload(p: &Payload) -> (u32, Vec<u8>) {
    let mut w = Wr::default();
    let c = match p {
        Payload::Constant { width, value } => {
            w.u8(30);
            w.uint(width.code());
            width.write(&mut w, *value);
            CONSTANT
        }
        Payload::Noop(v) => {
            w.u8(250);
            w.uint(v.len() as u64);
            v.iter().for_each(|x| w.int(*x));
            NOOP
        }
        Payload::Rle { width, runs } => {
            w.u8(60);
            w.uint(width.code());
            w.uint(runs.len() as u64);
            for (v, at) in runs {
                width.write(&mut w, *v);
                w.uint(at.len() as u64);
                at.iter().for_each(|x| w.uint(*x as u64));
            }
            RLE
        }
        Payload::Poly { idw, width, points, min, max, step } => {
            w.uint(*idw as u64);
            w.uint(width.code());
            w.uint(points.len() as u64);
            points.iter().for_each(|x| width.write(&mut w, *x));
            w.f64(*min);
            w.f64(*max);
            w.u8(*step);
            if *idw {
                IDW
            } else {
                POLYNOMIAL
            }
        }
        Payload::Fft { freqs, max, min } => {
            w.u8(15);
            w.uint(freqs.len() as u64);
            for (pos, re, im) in freqs {
                w.uint(*pos as u64);
                w.f32(*re);
                w.f32(*im);
            }
            w.f32(*max);
            w.f32(*min);
            FFT
        }
    };
    (c, w.0)
}

fn limit(x: f64, min: f64, max: f64) -> f64 {
    let r = (x * 1e5).round() / 1e5;
    if r < min {
        min
    } else if r > max {
        max
    } else {
        r
    }
}

/// Positions of the stored points of a polynomial / inverse distance frame
pub fn positions(n: usize, step: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).step_by(step).collect();
    if *v.last().unwrap() != n - 1 {
        v.push(n - 1);
    }
    v
}

/// The samples of a frame, and how far off the code under test may be (absolute) because of arithmetic order
pub fn decode(p: &Payload, n: usize) -> R<(Vec<f64>, f64)> {
    match p {
        Payload::Constant { value, .. } => Ok((vec![*value; n], 0.0)),
        Payload::Noop(v) => {
            if v.len() != n {
                return Err(format!("{} values for {n} samples", v.len()));
            }
            Ok((v.iter().map(|x| *x as f64).collect(), 0.0))
        }
        Payload::Rle { runs, .. } => {
            let mut starts: Vec<(usize, f64)> = Vec::new();
            for (v, at) in runs {
                starts.extend(at.iter().map(|a| (*a, *v)));
            }
            starts.sort_by_key(|s| s.0);
            if starts.is_empty() || starts[0].0 != 0 || starts.last().unwrap().0 >= n || starts.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err("run starts do not partition the frame".into());
            }
            let mut out = Vec::with_capacity(n);
            let mut k = 0;
            for i in 0..n {
                if k + 1 < starts.len() && starts[k + 1].0 == i {
                    k += 1;
                }
                out.push(starts[k].1);
            }
            Ok((out, 0.0))
        }
        Payload::Poly { idw, points, min, max, step, .. } => {
            if min == max {
                return Ok((vec![*max; n], 0.0));
            }
            if points.len() == n {
                return Ok((points.clone(), 0.0));
            }
            let pos = positions(n, (*step).max(1) as usize);
            if pos.len() != points.len() {
                return Err(format!("{} points stored, {} expected for step {step}", points.len(), pos.len()));
            }
            let mag = points.iter().fold(0f64, |a, x| a.max(x.abs()));
            let tol = 1.01e-5 + 1e-9 * mag;
            let m = pos.len();
            let mut out = Vec::with_capacity(n);
            if *idw {
                for i in 0..n {
                    let v = if let Some(k) = pos.iter().position(|p| *p == i) {
                        points[k]
                    } else {
                        let (mut a, mut b) = (0.0, 0.0);
                        for (p, v) in pos.iter().zip(points) {
                            let d = i as f64 - *p as f64;
                            a += v / (d * d);
                            b += 1.0 / (d * d);
                        }
                        a / b
                    };
                    out.push(limit(v, *min, *max));
                }
            } else {
                let mut k = 0;
                for i in 0..n {
                    while k + 2 < m && pos[k + 1] <= i {
                        k += 1;
                    }
                    let (x0, x1) = (pos[k] as f64, pos[k + 1] as f64);
                    let (v0, v1) = (points[k], points[k + 1]);
                    let t = (i as f64 - x0) / (x1 - x0);
                    let v = if k >= 1 && k + 2 < m {
                        let (xp, vp) = (pos[k - 1] as f64, points[k - 1]);
                        let (xn, vn) = (pos[k + 2] as f64, points[k + 2]);
                        let m0 = (v1 - vp) / (x1 - xp) * (x1 - x0);
                        let m1 = (vn - v0) / (xn - x0) * (x1 - x0);
                        let (t2, t3) = (t * t, t * t * t);
                        v0 * (2.0 * t3 - 3.0 * t2 + 1.0) + m0 * (t3 - 2.0 * t2 + t) + v1 * (3.0 * t2 - 2.0 * t3) + m1 * (t3 - t2)
                    } else {
                        v0 + (v1 - v0) * t
                    };
                    out.push(limit(v, *min, *max));
                }
            }
            Ok((out, tol))
        }
        Payload::Fft { freqs, max, min } => {
            if min == max {
                return Ok((vec![*max as f64; n], 0.0));
            }
            let (pre, size) = padding(n);
            let mut spec = vec![(0.0, 0.0); size];
            let mut mag = 0.0;
            for (pos, re, im) in freqs {
                let p = *pos as usize;
                if p > size / 2 {
                    return Err(format!("frequency {p} of {size}"));
                }
                spec[p] = (*re as f64, *im as f64);
                if p > 0 {
                    spec[size - p] = (*re as f64, -(*im as f64));
                }
                mag += (*re as f64).hypot(*im as f64) * if p == 0 { 1.0 } else { 2.0 };
            }
            let t = dft(&spec, true);
            let (lo, hi) = (*min as f64, *max as f64);
            let out = t[pre..pre + n].iter().map(|c| limit(c.0 / size as f64, lo, hi)).collect();
            Ok((out, 1.01e-5 + 4e-6 * mag / size as f64))
        }
    }
}

/// (samples in front, padded size) of an FFT frame
pub fn padding(n: usize) -> (usize, usize) {
    if n < 128 {
        return (0, n);
    }
    let size = smooth_above(n);
    ((size - n) / 2, size)
}
/// Smallest 2^a * 3^b over n
pub fn smooth_above(n: usize) -> usize {
    let mut best = usize::MAX;
    let mut p3 = 1usize;
    while p3 <= 3 * n.max(1) {
        let mut v = p3;
        while v <= n {
            v *= 2;
        }
        best = best.min(v);
        p3 *= 3;
    }
    best
}
pub fn padded(data: &[f64]) -> Vec<f64> {
    let (pre, size) = padding(data.len());
    let mut v = vec![data[0]; pre];
    v.extend_from_slice(data);
    v.resize(size, *data.last().unwrap());
    v
}

pub type C = (f64, f64);
/// Discrete Fourier transform (unnormalised), radix 2 and 3 steps, direct otherwise
pub fn dft(x: &[C], inverse: bool) -> Vec<C> {
    let n = x.len();
    let sign = if inverse { 1.0 } else { -1.0 };
    let tw: Vec<C> = (0..n).map(|k| (sign * std::f64::consts::TAU * k as f64 / n as f64).sin_cos()).map(|(s, c)| (c, s)).collect();
    fn rec(x: &[C], start: usize, stride: usize, n: usize, tw: &[C], full: usize) -> Vec<C> {
        let p = if n == 1 {
            return vec![x[start]];
        } else if n % 2 == 0 {
            2
        } else if n % 3 == 0 {
            3
        } else {
            // direct
            let u = full / n;
            return (0..n)
                .map(|k| {
                    let (mut a, mut b) = (0.0, 0.0);
                    for j in 0..n {
                        let w = tw[(j * k % n) * u];
                        let v = x[start + j * stride];
                        a += v.0 * w.0 - v.1 * w.1;
                        b += v.0 * w.1 + v.1 * w.0;
                    }
                    (a, b)
                })
                .collect();
        };
        let m = n / p;
        let parts: Vec<Vec<C>> = (0..p).map(|r| rec(x, start + r * stride, stride * p, m, tw, full)).collect();
        let u = full / n;
        (0..n)
            .map(|k| {
                let (mut a, mut b) = (0.0, 0.0);
                for (r, part) in parts.iter().enumerate() {
                    let w = tw[(r * k % n) * u];
                    let v = part[k % m];
                    a += v.0 * w.0 - v.1 * w.1;
                    b += v.0 * w.1 + v.1 * w.0;
                }
                (a, b)
            })
            .collect()
    }
    rec(x, 0, 1, n, &tw, n)
}
pub fn dft_real(x: &[f64]) -> Vec<C> {
    dft(&x.iter().map(|v| (*v, 0.0)).collect::<Vec<_>>(), false)
}
