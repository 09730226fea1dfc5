//! C07-C11, C14, C15: streams, files, plans, metrics.
use crate::engine::*;
use crate::gen::*;
use crate::props_codec::*;
use crate::refcodec as rc;
use crate::scratch::Scratch;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// First difference between two computed series: bit for bit, except that the sign of a computed NaN is left to the compiler
pub fn value_diff(a: &[f64], b: &[f64]) -> Option<String> {
    let norm = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| if x.is_nan() { f64::NAN } else { *x }).collect() };
    bit_diff(&norm(a), &norm(b))
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// First difference in the bits of two series
pub fn bit_diff(a: &[f64], b: &[f64]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} samples expected, {} found", a.len(), b.len()));
    }
    (0..a.len()).find(|i| a[*i].to_bits() != b[*i].to_bits()).map(|i| {
        format!("sample {i} of {}: expected {:?} ({:016x}), found {:?} ({:016x})", a.len(), a[i], a[i].to_bits(), b[i], b[i].to_bits())
    })
}

// ---------------------------------------------------------------- C07

fn check_reload(c: &Frames, obs: &mut Obs) -> Res {
    let (count, direct, bytes) = guarded("stream", || {
        let mut cs = CompressedStream::new();
        c.0.iter().for_each(|f| f.add_to(&mut cs));
        (cs.header.get_frame_count(), cs.decompress(), cs.to_bytes())
    })?;
    let n = c.0.len();
    obs.nontrivial = n != 1;
    obs.class(match n {
        0 => "no frames",
        1 => "1 frame",
        2..=9 => "2-9 frames",
        10..=255 => "10-255 frames",
        _ => "over 255 frames",
    });
    let want = n.min(255) as u8;
    if count != want {
        return Err(format!("the header counts {count} frames of {n}"));
    }
    let f = rc::parse_file(&bytes).map_err(|e| format!("the stream of {n} frames does not follow the format: {e}"))?;
    if f.version != 1 || f.count != want || f.frames.len() != n {
        return Err(format!("version {}, count {}, {} frames written for a stream of {n} frames", f.version, f.count, f.frames.len()));
    }
    for (i, (fr, spec)) in f.frames.iter().zip(&c.0).enumerate() {
        if fr.samples != spec.data.0.len() {
            return Err(format!("frame {i} of {} samples is stored as {}", spec.data.0.len(), fr.samples));
        }
    }
    let (again, count2, bytes2) = guarded("reloaded stream", || {
        let mut cs = CompressedStream::from_bytes(&bytes);
        (cs.decompress(), cs.header.get_frame_count(), cs.to_bytes())
    })?;
    if let Some(d) = value_diff(&direct, &again) {
        return Err(format!("reloaded stream of {n} frames: {d}"));
    }
    if count2 != want {
        return Err(format!("the reloaded header counts {count2} frames of {n}"));
    }
    if bytes2 != bytes {
        return Err(format!("a reloaded stream of {n} frames is written differently: {} and {} bytes", bytes.len(), bytes2.len()));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub frames: Frames,
    /// save and reload before adding frame i
    pub reload: Vec<bool>,
}
impl Case for History {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.frames.smaller().into_iter().map(|frames| History { frames, ..self.clone() }).collect();
        for i in 0..self.reload.len() {
            if self.reload[i] {
                let mut h = self.clone();
                h.reload[i] = false;
                v.push(h);
            }
        }
        v
    }
}
fn check_history(c: &History, obs: &mut Obs) -> Res {
    let reloads = c.reload.iter().take(c.frames.0.len()).filter(|r| **r).count();
    obs.nontrivial = reloads > 0 && c.frames.0.len() > 1;
    obs.sub = reloads as u64;
    let (a, b) = guarded("stream history", || {
        let mut whole = CompressedStream::new();
        let mut cs = CompressedStream::new();
        for (i, f) in c.frames.0.iter().enumerate() {
            f.add_to(&mut whole);
            if c.reload.get(i).copied().unwrap_or(false) {
                cs = CompressedStream::from_bytes(&cs.to_bytes());
            }
            f.add_to(&mut cs);
        }
        (whole.to_bytes(), cs.to_bytes())
    })?;
    if a != b {
        return Err(format!("a stream of {} frames reloaded {reloads} times while it was written differs from the one written in one go", c.frames.0.len()));
    }
    Ok(())
}
fn tiny_frames(count: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Frames> {
    // few distinct frames, repeated: the number of frames is the point
    (frames(Domain::F32, Len::Range(1, 12), 1..=4), count, any::<u64>())
        .prop_map(|(pal, n, seed)| Frames((0..n).map(|i| pal.0[(mix(seed ^ i as u64) % pal.0.len() as u64) as usize].clone()).collect()))
        .boxed()
}
pub fn c07() -> Vec<Part> {
    vec![
        part("streams", "0 to 8 frames, all compressors; non-trivial: other than one frame", (20000, 400000), || frames(Domain::Any, Len::Max(300), 0..=8), check_reload),
        part("many-frames", "up to 700 frames, mostly around 255; all non-trivial", (600, 12000),
            || prop_oneof![2 => tiny_frames(240..=270), 1 => tiny_frames(250..=258), 1 => tiny_frames(20..=700)], check_reload),
        part("most-frames", "around 2^16 frames; all non-trivial", (3, 40), || tiny_frames(65500..=65800), check_reload),
        part("large-frames", "frames up to 2^17 samples; non-trivial: several frames", (40, 600), || frames(Domain::F32, Len::Large, 1..=3), check_reload),
        part("history", "streams saved and reloaded between frames; non-trivial: reloaded at least once", (6000, 120000),
            || (frames(Domain::F32, Len::Max(150), 1..=7), proptest::collection::vec(any::<bool>(), 7)).prop_map(|(frames, reload)| History { frames, reload }), check_history),
        part("history-many", "as above with over 250 frames", (100, 2000),
            || (tiny_frames(245..=262), proptest::collection::vec(proptest::bool::weighted(0.05), 262)).prop_map(|(frames, reload)| History { frames, reload }), check_history),
    ]
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    pub frames: Frames,
    pub magic: [u8; 4],
    pub version: u32,
    pub seed: u64,
}
impl Case for Damage {
    fn smaller(&self) -> Vec<Self> {
        self.frames.smaller().into_iter().map(|frames| Damage { frames, ..self.clone() }).collect()
    }
}
fn accepts(b: &[u8]) -> bool {
    guarded("read", || CompressedStream::from_bytes(b).decompress()).is_ok()
}
fn check_damage(c: &Damage, obs: &mut Obs) -> Res {
    let (bytes, out) = guarded("stream", || {
        let mut cs = CompressedStream::new();
        c.frames.0.iter().for_each(|f| f.add_to(&mut cs));
        let out = cs.decompress();
        (cs.to_bytes(), out)
    })?;
    let n = bytes.len();
    obs.nontrivial = !c.frames.0.is_empty();
    // cut short: everywhere when short, else at both ends and at random points
    let cuts: Vec<usize> = if n <= 700 {
        (0..n).collect()
    } else {
        (0..60).chain(n - 60..n).chain((0..120).map(|i| (mix(c.seed ^ i) % n as u64) as usize)).collect()
    };
    for k in cuts {
        obs.sub += 1;
        if let Ok(s) = guarded("read", || CompressedStream::from_bytes(&bytes[..k])) {
            let got = guarded("decompress", || s.decompress()).map(|v| v.len());
            return Err(format!("{k} of {n} bytes were accepted as a stream ({got:?} samples)"));
        }
    }
    if c.magic != *b"BRRO" {
        let mut b = bytes.clone();
        b[..4].copy_from_slice(&c.magic);
        if guarded("read", || CompressedStream::from_bytes(&b)).is_ok() {
            return Err(format!("a stream starting with {:?} was accepted", c.magic));
        }
    }
    for i in 0..4 {
        let mut b = bytes.clone();
        b[i] ^= 1 << (mix(c.seed ^ i as u64) % 8);
        if guarded("read", || CompressedStream::from_bytes(&b)).is_ok() {
            return Err(format!("a stream starting with {:?} was accepted", &b[..4]));
        }
    }
    let mut b = bytes.clone();
    b[4..8].copy_from_slice(&c.version.to_le_bytes());
    let ok = accepts(&b);
    if ok != (c.version <= 1) {
        return Err(format!("version {}: accepted {ok}", c.version));
    }
    let mut b = bytes.clone();
    b[4..8].copy_from_slice(&0u32.to_le_bytes());
    for b in [&bytes, &b] {
        let got = guarded("read", || CompressedStream::from_bytes(b).decompress())?;
        if let Some(d) = value_diff(&out, &got) {
            return Err(format!("a complete stream of version {}: {d}", b[4]));
        }
    }
    Ok(())
}
fn versions() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..6,
        2 => proptest::sample::select(vec![2u32, 255, 256, 257, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX, u32::MAX - 1]),
        2 => any::<u32>(),
        2 => (1u32..32).prop_map(|b| 1 | (1 << b)),
    ]
    .boxed()
}
fn magics() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        2 => any::<[u8; 4]>(),
        2 => proptest::sample::select(vec![*b"BRRo", *b"brro", *b"BRR0", *b"WBRO", *b"RIFF", *b"BRO\0", *b"ORRB", *b"\0\0\0\0", *b"BRRP", *b"ARRO", *b"BQRO", *b"BRSO"]),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reader {
    pub frames: Frames,
    pub cut: usize,
    pub magic: [u8; 4],
    pub tail: Vec<u8>,
}
impl Case for Reader {}
fn check_reader(c: &Reader, obs: &mut Obs) -> Res {
    let bytes = guarded("stream", || {
        let mut cs = CompressedStream::new();
        c.frames.0.iter().for_each(|f| f.add_to(&mut cs));
        cs.to_bytes()
    })?;
    obs.nontrivial = true;
    let dir = Scratch::new();
    let p = dir.path("a.bro");
    let read = |content: &[u8]| -> Result<Result<Option<Vec<u8>>, ()>, String> {
        std::fs::write(&p, content).map_err(|e| e.to_string())?;
        guarded("read_file", || atsc::utils::readers::bro_reader::read_file(&p).map_err(|_| ()))
    };
    match read(&bytes)? {
        Ok(Some(b)) if b == bytes => {}
        o => return Err(format!("a complete file of {} bytes is read as {:?}", bytes.len(), o.map(|b| b.map(|b| b.len())))),
    }
    // a file of another kind: no content of it is handed out
    let mut foreign = c.magic.to_vec();
    foreign.extend(&c.tail);
    if c.magic != *b"BRRO" {
        if let Ok(Some(_)) = read(&foreign)? {
            return Err(format!("a file starting with {:?} is taken for a compressed file", c.magic));
        }
    }
    // cut short: whatever is handed out is not taken for a stream
    let cut = c.cut % bytes.len();
    if let Ok(Some(b)) = read(&bytes[..cut])? {
        if b != bytes[..cut] {
            return Err(format!("the reader changes a file of {cut} bytes"));
        }
        if guarded("read", || CompressedStream::from_bytes(&b)).is_ok() {
            return Err(format!("{cut} of {} bytes in a file were accepted as a stream", bytes.len()));
        }
    }
    let missing = guarded("read_file", || atsc::utils::readers::bro_reader::read_file(&dir.path("missing.bro")).map_err(|_| ()))?;
    if missing.is_ok() {
        return Err("reading a missing file succeeds".into());
    }
    Ok(())
}
pub fn c08() -> Vec<Part> {
    vec![
        part("damage", "streams of 0 to 4 frames, every cut of the short ones, changed magic and version; non-trivial: at least one frame; inner_checks counts cuts", (10000, 200000),
            || (frames(Domain::F32, Len::Range(1, 60), 0..=4), magics(), versions(), any::<u64>()).prop_map(|(frames, magic, version, seed)| Damage { frames, magic, version, seed }), check_damage),
        part("damage-longer", "as above with longer frames", (1500, 30000),
            || (frames(Domain::F32, Len::Max(1200), 1..=3), magics(), versions(), any::<u64>()).prop_map(|(frames, magic, version, seed)| Damage { frames, magic, version, seed }), check_damage),
        part("damage-many", "as above with around 255 frames", (60, 1000),
            || (tiny_frames(250..=260), magics(), versions(), any::<u64>()).prop_map(|(frames, magic, version, seed)| Damage { frames, magic, version, seed }), check_damage),
        part("damage-large", "as above with frames of up to 2^17 samples", (4, 80),
            || (frames(Domain::Tame, Len::Large, 1..=2), magics(), versions(), any::<u64>()).prop_map(|(frames, magic, version, seed)| Damage { frames, magic, version, seed }), check_damage),
        part("reader", "files read from disk: complete, cut, of another kind, missing; all non-trivial", (6000, 100000),
            || (frames(Domain::F32, Len::Range(1, 40), 0..=3), any::<usize>(), magics(), proptest::collection::vec(any::<u8>(), 0..40))
                .prop_map(|(frames, cut, magic, tail)| Reader { frames, cut, magic, tail }), check_reader),
    ]
}

// ---------------------------------------------------------------- C09

/// Compare decompression with the reference decoder
fn against_reference(bytes: &[u8], got: &[f64], obs: &mut Obs) -> Res {
    let f = rc::parse_file(bytes)?;
    let mut at = 0;
    for (i, fr) in f.frames.iter().enumerate() {
        let p = rc::parse_payload(fr.compressor, &fr.data).map_err(|e| format!("frame {i}: {e}"))?;
        let (want, tol) = rc::decode(&p, fr.samples).map_err(|e| format!("frame {i}: {e}"))?;
        if at + fr.samples > got.len() {
            return Err(format!("{} samples decompressed, frame {i} ends at {}", got.len(), at + fr.samples));
        }
        for (k, w) in want.iter().enumerate() {
            let g = got[at + k];
            let same = if tol == 0.0 { *w == g || (w.is_nan() && g.is_nan()) } else { (w - g).abs() <= tol };
            if !same {
                return Err(format!("frame {i} (compressor {}, {} samples), sample {k}: the format says {w:?}, decompressed {g:?}", fr.compressor, fr.samples));
            }
        }
        obs.sub += want.len() as u64;
        at += fr.samples;
    }
    if at != got.len() {
        return Err(format!("{} samples decompressed, the file holds {at}", got.len()));
    }
    Ok(())
}
fn check_format(c: &Frames, obs: &mut Obs) -> Res {
    let (bytes, out) = guarded("stream", || {
        let mut cs = CompressedStream::new();
        c.0.iter().for_each(|f| f.add_to(&mut cs));
        let out = cs.decompress();
        (cs.to_bytes(), out)
    })?;
    obs.nontrivial = c.0.iter().any(|f| !is_constant(&f.data.0));
    c.0.iter().for_each(|f| obs.class(f.compressor().1));
    against_reference(&bytes, &out, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    pub frames: Vec<ForeignFrame>,
    pub version: u32,
}
/// A frame as an independent encoder may write it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForeignFrame {
    pub kind: u8,
    pub wider: u8,
    pub n: usize,
    pub values: Series,
    pub step: u8,
    pub seed: u64,
    pub size: u64,
}
impl Case for Foreign {
    fn smaller(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.frames.len() {
            if self.frames.len() > 1 {
                let mut f = self.clone();
                f.frames.remove(i);
                out.push(f);
            }
            for v in self.frames[i].values.smaller().into_iter().take(200) {
                let mut f = self.clone();
                f.frames[i].values = v;
                out.push(f);
            }
            for n in [self.frames[i].n / 2, self.frames[i].n.saturating_sub(1)] {
                if n > 0 && n < self.frames[i].n {
                    let mut f = self.clone();
                    f.frames[i].n = n;
                    out.push(f);
                }
            }
        }
        out
    }
}
fn foreign_payload(f: &ForeignFrame) -> (rc::Payload, usize) {
    let v = &f.values.0;
    let fitting = |vals: &[f64]| {
        let fit: Vec<rc::Width> = rc::WIDTHS.into_iter().filter(|w| vals.iter().all(|x| w.fits(*x))).collect();
        fit[f.wider as usize % fit.len()]
    };
    match f.kind % 6 {
        0 => {
            let value = v[0];
            (rc::Payload::Constant { width: fitting(&[value]), value }, f.n)
        }
        1 => {
            let vals: Vec<i64> = v.iter().map(|x| (*x).clamp(-9e18, 9e18) as i64).collect();
            let n = vals.len();
            (rc::Payload::Noop(vals), n)
        }
        2 => {
            // runs of values[k % len], grouped by value, in an order of the encoder's choice
            let mut starts = vec![0usize];
            for i in 1..f.n {
                if unit(f.seed, i as u64) < 0.3 {
                    starts.push(i);
                }
            }
            let mut runs: Vec<(f64, Vec<usize>)> = Vec::new();
            for (k, s) in starts.iter().enumerate() {
                let x = v[(mix(f.seed ^ (k as u64) << 20) % v.len() as u64) as usize];
                match runs.iter_mut().find(|r| r.0 == x) {
                    Some(r) => r.1.push(*s),
                    None => runs.push((x, vec![*s])),
                }
            }
            if f.seed % 3 == 0 {
                runs.reverse();
            }
            let vals: Vec<f64> = runs.iter().map(|r| r.0).collect();
            (rc::Payload::Rle { width: fitting(&vals), runs }, f.n)
        }
        3 | 4 => {
            // points every `step` samples and at the end
            let n = f.n.max(4);
            let step = (f.step.max(1) as usize).min(n - 1).max(1);
            let pos = rc::positions(n, step);
            let points: Vec<f64> = (0..pos.len()).map(|i| v[i % v.len()]).collect();
            let (lo, hi) = range(&points);
            let (lo, hi) = if lo == hi { (lo - 1.0, hi + 1.0) } else { (lo, hi) };
            (rc::Payload::Poly { idw: f.kind % 6 == 4, width: fitting(&points), points, min: lo, max: hi, step: step as u8 }, n)
        }
        _ => {
            let n = f.n;
            let size = rc::padding(n).1;
            let half = size / 2;
            let count = 1 + (mix(f.seed) % 12) as usize;
            let mut freqs: Vec<(u32, f32, f32)> = Vec::new();
            for i in 0..count {
                let p = if i == 0 { 0 } else { (mix(f.seed ^ (i as u64) << 8) % (half as u64 + 1)) as u32 };
                if freqs.iter().any(|q| q.0 == p) {
                    continue;
                }
                let a = size as f32 * (10.0 - i as f32 * 0.5);
                let re = a * (2.0 * unit(f.seed, 100 + i as u64) as f32 - 1.0);
                let im = if p == 0 || (size % 2 == 0 && p as usize == half) { 0.0 } else { a * (2.0 * unit(f.seed, 200 + i as u64) as f32 - 1.0) };
                freqs.push((p, re, im));
            }
            let w = 1.0 + (f.seed % 40) as f32;
            (rc::Payload::Fft { freqs, max: w, min: -w }, n)
        }
    }
}
fn check_foreign(c: &Foreign, obs: &mut Obs) -> Res {
    let mut frames = Vec::new();
    for f in &c.frames {
        let (p, n) = foreign_payload(f);
        let (compressor, data) = rc::write_payload(&p);
        obs.class(["constant", "noop", "rle", "polynomial", "idw", "fft"][f.kind as usize % 6]);
        frames.push(rc::Frame { frame_size: f.size, samples: n, compressor, data });
    }
    obs.nontrivial = frames.iter().any(|f| f.samples > 1);
    let file = rc::File { version: c.version, count: frames.len() as u8, frames };
    let bytes = rc::write_file(&file);
    let got = guarded("decompress", || CompressedStream::from_bytes(&bytes).decompress())?;
    against_reference(&bytes, &got, obs)
}
fn foreign() -> BoxedStrategy<Foreign> {
    let frame = (0u8..6, any::<u8>(), prop_oneof![3 => 1usize..60, 3 => 1usize..500, 1 => proptest::sample::select(vec![127usize, 128, 129, 255, 256, 257, 512, 1000])],
        prop_oneof![2 => series(Domain::WideInts, Len::Range(1, 40)), 2 => series(Domain::F32, Len::Range(1, 40)), 1 => series(Domain::Ints, Len::Range(1, 120))],
        prop_oneof![1u8..12, 1u8..=255], any::<u64>(), any::<u32>())
        .prop_map(|(kind, wider, n, values, step, seed, size)| {
            let n = if kind % 6 == 4 { n.min(200) } else { n };
            ForeignFrame { kind, wider, n, values, step, seed, size: size as u64 }
        });
    (proptest::collection::vec(frame, 1..=3), 0u32..=1).prop_map(|(frames, version)| Foreign { frames, version }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Golden(pub usize);
impl Case for Golden {}
pub struct GoldenFile {
    pub name: String,
    pub bytes: Vec<u8>,
    pub samples: Vec<f64>,
}
pub fn golden_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("golden")
}
pub fn load_golden() -> Vec<GoldenFile> {
    let mut names: Vec<_> = std::fs::read_dir(golden_dir())
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "bro")).collect())
        .unwrap_or_default();
    names.sort();
    names
        .iter()
        .map(|p| {
            let s = std::fs::read(p.with_extension("f64")).expect("golden samples");
            GoldenFile {
                name: p.file_name().unwrap().to_string_lossy().into_owned(),
                bytes: std::fs::read(p).expect("golden file"),
                samples: s.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect(),
            }
        })
        .collect()
}
/// Writes the corpus: run once, the result is committed.
pub fn make_golden() {
    let dir = golden_dir();
    std::fs::create_dir_all(&dir).unwrap();
    let segs = |shape: u8, seed: u64| vec![Seg { shape, weight: 1, seed, p: 0.4 }];
    let mut made = 0;
    let mut put = |name: String, cs: CompressedStream| {
        let out = cs.decompress();
        std::fs::write(dir.join(format!("{name}.bro")), cs.to_bytes()).unwrap();
        std::fs::write(dir.join(format!("{name}.f64")), out.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
        made += 1;
    };
    let scales = [Scale::Ints(0.0, 200.0), Scale::Ints(-300.0, 300.0), Scale::Ints(-100000.0, 5.0), Scale::Dec(50.0, 40.0, 2), Scale::Real(1e10, 1e9)];
    for (c, name) in ALL {
        for (k, sc) in scales.iter().enumerate() {
            for n in [1usize, 7, 130, 600] {
                if c == Compressor::Idw && n > 200 {
                    continue;
                }
                for err in [None, Some(0.0f32), Some(0.05)] {
                    if err.is_none() != !matches!(c, Compressor::Auto | Compressor::FFT | Compressor::Polynomial | Compressor::Idw) && !(err == Some(0.0) && c == Compressor::Auto) && err != Some(0.05) {
                        continue;
                    }
                    let d = build(n, &segs([5, 7, 3, 11, 9][k], 40 + k as u64), sc, &[], Domain::Any);
                    let d = if c == Compressor::Constant { vec![d[0]; n] } else { d };
                    let mut cs = CompressedStream::new();
                    match err {
                        None => cs.compress_chunk_with(&d, c),
                        Some(e) => cs.compress_chunk_bounded_with(&d, c, e, 0),
                    }
                    put(format!("{name}-{k}-{n}-{}", err.map(|e| (e * 100.0) as i32).unwrap_or(-1)), cs);
                }
            }
        }
    }
    // streams of several frames
    for k in 0..6u64 {
        let mut cs = CompressedStream::new();
        for (i, (c, _)) in ALL.iter().enumerate() {
            let d = build(20 + 30 * i, &segs(((k as usize + i) % SHAPES as usize) as u8, k), &scales[(k as usize + i) % scales.len()], &[], Domain::Any);
            cs.compress_chunk_bounded_with(&d, *c, 0.03, 0);
        }
        put(format!("stream-{k}"), cs);
    }
    eprintln!("{made} golden files");
}
fn check_golden(files: &[GoldenFile], c: &Golden, obs: &mut Obs) -> Res {
    if files.is_empty() {
        return Ok(());
    }
    let g = &files[c.0 % files.len()];
    obs.nontrivial = true;
    let got = guarded("decompress", || CompressedStream::from_bytes(&g.bytes).decompress())?;
    if got.len() != g.samples.len() {
        return Err(format!("{}: {} samples, {} expected", g.name, got.len(), g.samples.len()));
    }
    let f = rc::parse_file(&g.bytes)?;
    let mut at = 0;
    for fr in &f.frames {
        // transforms may round differently on another processor
        let amp = g.samples[at..at + fr.samples].iter().fold(0f64, |a, x| a.max(x.abs()));
        let tol = match fr.compressor {
            rc::FFT => 1.01e-5 + 1e-6 * amp,
            rc::POLYNOMIAL | rc::IDW => 1.01e-5 + 1e-12 * amp,
            _ => 0.0,
        };
        for i in at..at + fr.samples {
            if (got[i] - g.samples[i]).abs() > tol {
                return Err(format!("{}: sample {i} was {:?}, is now {:?}", g.name, g.samples[i], got[i]));
            }
        }
        at += fr.samples;
    }
    Ok(())
}
pub fn c09() -> Vec<Part> {
    let files = Arc::new(load_golden());
    let n = files.len().max(1);
    vec![
        part("library-frames", "streams of the library, all compressors, against the reference decoder; non-trivial: not all constant; inner_checks counts samples", (16000, 300000),
            || prop_oneof![3 => frames(Domain::Any, Len::Max(200), 1..=3), 2 => frames(Domain::F32, Len::Small, 1..=1), 1 => frames(Domain::Tame, Len::Max(1300), 1..=1)]
                .prop_map(|mut f| {
                    // single precision transforms hold no huge magnitudes
                    for s in &mut f.0 {
                        if matches!(s.compressor().0, Compressor::FFT) && s.data.0.iter().any(|x| x.abs() > 1e30) {
                            s.comp = 4;
                        }
                    }
                    f
                }), check_format),
        part("large-frames", "as above, up to 2^17 samples", (24, 300), || frames(Domain::Tame, Len::Large, 1..=1).prop_map(|mut f| { if f.0[0].comp == 2 { f.0[0].comp = 1 } f }), check_format),
        part("independent-encoder", "frames of any legal layout (wider values, other run orders, other steps, versions 0 and 1); non-trivial: a frame of more than one sample", (40000, 800000), foreign, check_foreign),
        part("golden", "files written by an earlier build (golden/); all non-trivial", (2000, 4000), move || (0..n).prop_map(Golden), move |c, obs| check_golden(&files, c, obs)),
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Repeat {
    pub frames: Frames,
    pub order: u64,
}
impl Case for Repeat {
    fn smaller(&self) -> Vec<Self> {
        self.frames.smaller().into_iter().map(|frames| Repeat { frames, ..self.clone() }).collect()
    }
}
fn one(f: &FrameSpec) -> (Vec<u8>, Vec<u64>) {
    let mut cs = CompressedStream::new();
    f.add_to(&mut cs);
    let out = bits(&cs.decompress());
    (cs.to_bytes(), out)
}
fn check_repeat(c: &Repeat, obs: &mut Obs) -> Res {
    let fs = &c.frames.0;
    obs.nontrivial = fs.iter().any(|f| !is_constant(&f.data.0));
    fs.iter().for_each(|f| obs.class(f.compressor().1));
    let first: Vec<_> = guarded("first", || fs.iter().map(one).collect::<Vec<_>>())?;
    // again, in another order, with the decompression of other bytes in between
    let mut order: Vec<usize> = (0..fs.len()).chain(0..fs.len()).collect();
    order.sort_by_key(|i| mix(c.order ^ *i as u64));
    for (k, i) in order.iter().enumerate() {
        let other = &first[(mix(c.order ^ (k as u64) << 9) % fs.len() as u64) as usize];
        let again = guarded("decompress", || bits(&CompressedStream::from_bytes(&other.0).decompress()))?;
        if again != other.1 {
            return Err("the same bytes decompress to different samples".into());
        }
        let r = guarded("again", || one(&fs[*i]))?;
        if r != first[*i] {
            return Err(format!("frame {i} ({}): compressed again after other work, {} then {} bytes differ", fs[*i].compressor().1, first[*i].0.len(), r.0.len()));
        }
        obs.sub += 1;
    }
    // in parallel
    let par: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = fs.iter().map(|f| s.spawn(move || guarded("thread", || one(f)))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, p) in par.into_iter().enumerate() {
        if p? != first[i] {
            return Err(format!("frame {i} ({}) differs when compressed next to other threads", fs[i].compressor().1));
        }
    }
    Ok(())
}
fn check_process(c: &Repeat, obs: &mut Obs) -> Res {
    use std::io::Write;
    obs.nontrivial = c.frames.0.iter().any(|f| !is_constant(&f.data.0));
    let here: Vec<_> = guarded("here", || c.frames.0.iter().map(one).collect::<Vec<_>>())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = std::process::Command::new(exe)
        .arg("--child")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    child.stdin.take().unwrap().write_all(&serde_json::to_vec(&c.frames).unwrap()).map_err(|e| e.to_string())?;
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let there: Vec<(Vec<u8>, Vec<u64>)> = serde_json::from_slice(&out.stdout).map_err(|e| format!("child: {e} ({})", out.status))?;
    obs.sub = there.len() as u64;
    for (i, (a, b)) in here.iter().zip(&there).enumerate() {
        if a != b {
            return Err(format!("frame {i} ({}) differs in another process", c.frames.0[i].compressor().1));
        }
    }
    Ok(())
}
pub fn child() {
    let f: Frames = serde_json::from_reader(std::io::stdin()).expect("frames");
    let out: Vec<_> = f.0.iter().rev().map(one).collect();
    let out: Vec<_> = out.into_iter().rev().collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}
pub fn c10() -> Vec<Part> {
    let rep = |f: BoxedStrategy<Frames>| (f, any::<u64>()).prop_map(|(mut frames, order)| {
        // now and then a frame like another one in length, ends, range and sum
        let n = frames.0.len();
        if order % 3 == 0 && n > 1 {
            let (i, j) = ((order / 3) as usize % n, (order / 300) as usize % n);
            if i != j {
                let mut f = frames.0[i].clone();
                let m = f.data.0.len();
                if m > 3 {
                    match order / 7 % 3 {
                        0 => f.data.0[1..m - 1].reverse(),
                        1 => f.data.0[1..m - 1].rotate_left(1),
                        _ => f.data.0.swap(1, m - 2),
                    }
                }
                frames.0[j] = f;
            }
        }
        Repeat { frames, order }
    });
    vec![
        part("repeat", "2 to 5 frames compressed again in another order, and in parallel threads; non-trivial: not all constant; inner_checks counts repetitions", (2500, 50000),
            move || rep(prop_oneof![3 => frames(Domain::Any, Len::Max(300), 2..=5), 1 => frames(Domain::Tame, Len::Medium, 2..=3)].boxed()), check_repeat),
        part("runs", "run-length and automatic compression of repeating values", (2500, 50000),
            move || rep((frames(Domain::WideInts, Len::Max(200), 2..=4)).prop_map(|mut f| { f.0.iter_mut().for_each(|x| x.comp = if x.comp % 2 == 0 { 5 } else { 6 }); f }).boxed()), check_repeat),
        part("large-frames", "as \"repeat\", two frames of up to 2^17 samples", (4, 80), move || rep(frames(Domain::Tame, Len::Large, 2..=2)), check_repeat),
        part("processes", "8 to 16 frames compressed in a new process; non-trivial: not all constant; inner_checks counts frames", (500, 6000),
            move || rep(frames(Domain::Any, Len::Max(400), 8..=16)), check_process),
    ]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlanCase {
    pub n: usize,
    pub seed: u64,
    /// positions and kinds of values that are not finite
    pub bad: Vec<(u32, u8)>,
    /// runs of values that are not finite: start, length
    pub runs: Vec<(u32, u16)>,
    pub comp: u8,
}
impl Case for PlanCase {
    fn smaller(&self) -> Vec<Self> {
        let mut v = Vec::new();
        for n in [self.n / 2, self.n.saturating_sub(512), self.n.saturating_sub(1)] {
            if n < self.n {
                v.push(PlanCase { n, ..self.clone() });
            }
        }
        for i in 0..self.bad.len() {
            let mut c = self.clone();
            c.bad.remove(i);
            v.push(c);
        }
        for i in 0..self.runs.len() {
            let mut c = self.clone();
            c.runs.remove(i);
            v.push(c);
        }
        v
    }
}
fn not_finite(k: u8) -> f64 {
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, f64::from_bits(0x7ff0000000000001), f64::from_bits(0xffffffffffffffff)][k as usize % 6]
}
fn check_plan(c: &PlanCase, obs: &mut Obs) -> Res {
    let mut d: Vec<f64> = (0..c.n)
        .map(|i| match mix(c.seed ^ i as u64) % 16 {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MAX,
            3 => f64::from_bits(1),
            _ => unit(c.seed, i as u64) * 1e6 + i as f64,
        })
        .collect();
    if c.n > 0 {
        for (p, k) in &c.bad {
            let i = match p % 4 {
                0 => 0,
                1 => c.n - 1,
                _ => *p as usize % c.n,
            };
            d[i] = not_finite(*k);
        }
        for (s, l) in &c.runs {
            let s = *s as usize % c.n;
            for (k, x) in d.iter_mut().skip(s).take(*l as usize).enumerate() {
                *x = not_finite(k as u8);
            }
        }
    }
    let want: Vec<f64> = d.iter().copied().filter(|x| x.is_finite()).collect();
    obs.nontrivial = want.len() > 512 || want.len() < d.len();
    obs.class(match want.len() {
        0 => "empty",
        1..=512 => "one short frame",
        513..=131072 => "up to 131072",
        _ => "over 131072",
    });
    let mut plan = guarded("plan", || OptimizerPlan::plan(&d))?;
    let cleaned = guarded("clean", || OptimizerPlan::clean_data(&d))?;
    for got in [&plan.data, &cleaned] {
        if let Some(x) = value_diff(&want, got) {
            return Err(format!("{} samples, {} finite: {x}", d.len(), want.len()));
        }
    }
    let comp = ALL[c.comp as usize % 7].0;
    for set in [false, true] {
        if set {
            plan.set_compressor(comp);
        }
        let ex = guarded("execution", || plan.get_execution())?;
        let sizes: Vec<usize> = ex.iter().map(|e| e.1.len()).collect();
        let mut at = 0;
        for (i, (k, s)) in ex.iter().enumerate() {
            let what = format!("frame {i} of {} for {} samples ({:?}...)", ex.len(), want.len(), &sizes[..sizes.len().min(12)]);
            if s.is_empty() || s.len() > 131072 {
                return Err(format!("{what}: {} samples", s.len()));
            }
            if at + s.len() > want.len() || (0..s.len()).any(|j| !same(s[j], want[at + j])) {
                return Err(format!("{what} does not continue the data at {at}"));
            }
            at += s.len();
            let last = i + 1 == ex.len();
            let good = (s.len().is_power_of_two() && s.len() >= 512) || (last && s.len() <= 512);
            if !good {
                return Err(format!("{what} has {} samples", s.len()));
            }
            if i > 0 && s.len() > sizes[i - 1] {
                return Err(format!("{what} is larger than the one before"));
            }
            if set && **k != comp {
                return Err(format!("{what} is not for the compressor that was set"));
            }
        }
        if at != want.len() {
            return Err(format!("the plan covers {at} of {} samples ({sizes:?})", want.len()));
        }
        obs.sub += ex.len() as u64;
    }
    Ok(())
}
pub fn c11() -> Vec<Part> {
    let plan = |n: BoxedStrategy<usize>| {
        (n, any::<u64>(), proptest::collection::vec((any::<u32>(), any::<u8>()), 0..6), proptest::collection::vec((any::<u32>(), 0u16..700), 0..3), any::<u8>())
            .prop_map(|(n, seed, bad, runs, comp)| PlanCase { n, seed, bad, runs, comp })
    };
    let around = || {
        prop_oneof![
            (0u32..=17, -2i64..=2).prop_map(|(e, d)| ((1i64 << e) + d).max(0) as usize),
            (0u32..=8, 0u32..=16, -2i64..=2).prop_map(|(a, b, d)| ((512i64 << a) + (1i64 << b) + d).max(0) as usize),
        ]
    };
    vec![
        part("lengths", "all lengths to 6000, with values that are not finite; non-trivial: more than 512 finite samples, or some dropped; inner_checks counts frames", (40000, 500000),
            move || plan(prop_oneof![1 => 0usize..20, 2 => 0usize..1100, 3 => 0usize..6000].boxed()), check_plan),
        part("long", "up to 4 full frames and around powers of two", (3000, 60000),
            move || plan(prop_oneof![3 => around().boxed(), 2 => (6000usize..140000).boxed(), 1 => (131072usize..530000).boxed(), 1 => (1usize..5, -3i64..600).prop_map(|(k, d)| (131072 * k as i64 + d) as usize).boxed()].boxed()), check_plan),
    ]
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub a: Series,
    pub b: Series,
}
impl Case for Pair {
    fn smaller(&self) -> Vec<Self> {
        let n = self.a.0.len();
        let mut v = Vec::new();
        let mut k = n / 2;
        while k >= 1 {
            // of long series only some pieces
            for at in (0..n).step_by(k).take(if n > 1000 { 12 } else { n }) {
                let (mut a, mut b) = (self.a.0.clone(), self.b.0.clone());
                a.drain(at..(at + k).min(a.len()));
                b.drain(at..(at + k).min(b.len()));
                if !a.is_empty() && !b.is_empty() {
                    v.push(Pair { a: Series(a), b: Series(b) });
                }
            }
            k = if n > 20000 && k < n / 200 { 0 } else { k / 2 };
        }
        v
    }
}
/// Sum with the error of each addition carried along
fn ksum(v: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for x in v {
        let t = s + x;
        c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
        s = t;
    }
    s + c
}
fn check_metrics(c: &Pair, obs: &mut Obs) -> Res {
    use atsc::utils::error as e;
    let (a, b) = (&c.a.0, &c.b.0);
    let all: [(&str, fn(&[f64], &[f64]) -> f64, e::ErrorMethod); 5] = [
        ("mse", e::error_mse, e::ErrorMethod::Mse),
        ("nmse", e::error_nmsqe, e::ErrorMethod::Nmse),
        ("mae", e::error_mae, e::ErrorMethod::Mae),
        ("mape", e::error_mape, e::ErrorMethod::Mape),
        ("smape", e::error_smape, e::ErrorMethod::Smape),
    ];
    if a.len() != b.len() {
        obs.nontrivial = true;
        for (name, f, m) in &all {
            if guarded(name, || f(a, b)).is_ok() || guarded(name, || m.clone().error(a, b)).is_ok() {
                return Err(format!("{name} of {} and {} samples is not refused", a.len(), b.len()));
            }
        }
        if guarded("default", || e::calculate_error(a, b)).is_ok() {
            return Err(format!("the error of {} and {} samples is not refused", a.len(), b.len()));
        }
        return Ok(());
    }
    let n = a.len() as f64;
    let equal = a == b;
    obs.nontrivial = !equal;
    let it = || a.iter().copied().zip(b.iter().copied());
    let sq = ksum(it().map(|(x, y)| (y - x) * (y - x)));
    let rf = ksum(a.iter().map(|x| x * x));
    let ab = ksum(it().map(|(x, y)| (y - x).abs()));
    let pc = ksum(it().map(|(x, y)| if x == y { 0.0 } else { ((y - x) / x).abs() }));
    let want = [Some(sq / n), if rf > 0.0 { Some(sq / rf) } else { None }, Some(ab / n), Some(pc / n), None];
    let some_ref = a.iter().any(|x| *x != 0.0);
    // sums that leave the range of f64 mean nothing
    let sums = [sq, rf, ab, ksum(it().map(|(x, y)| x.abs() + y.abs()))];
    let in_range = |s: &f64| *s == 0.0 || (s.is_finite() && *s < 1e300 && *s > 1e-290);
    if !sums.iter().all(in_range) || (sq == 0.0 && !equal) || (rf == 0.0 && a.iter().any(|x| *x != 0.0)) {
        obs.class("out-of-range");
        obs.nontrivial = false;
        return Ok(());
    }
    for ((name, f, m), want) in all.iter().zip(want) {
        let got = guarded(name, || f(a, b))?;
        let got2 = guarded(name, || m.clone().error(a, b))?;
        if !same(got, got2) {
            return Err(format!("{name}: {got} directly, {got2} as error method"));
        }
        if let Some(w) = want {
            if w.is_finite() && w < 1e300 && (w == 0.0 || w > 1e-290) {
                // plain summation of n terms of one sign
                if (got - w).abs() > 1e-15 * (n + 8.0) * w {
                    return Err(format!("{name} of {n} samples is {got}, by definition {w}"));
                }
            }
        }
        if some_ref {
            if !(got >= 0.0) {
                return Err(format!("{name} is {got}"));
            }
            // squares of tiny differences vanish
            if (got == 0.0) != equal && (equal || (want.map_or(true, |w| w > 1e-290)) && it().any(|(x, y)| (x - y).abs() > 1e-140 && (x - y).abs() > 1e-140 * x.abs())) {
                return Err(format!("{name} is {got}, the series are {}", if equal { "equal" } else { "different" }));
            }
        }
    }
    let d = guarded("default", || e::calculate_error(a, b))?;
    let mape = guarded("mape", || e::error_mape(a, b))?;
    if !same(d, mape) {
        return Err(format!("the default error is {d}, the mean absolute percentage error {mape}"));
    }
    let (s, r) = guarded("smape", || (e::error_smape(a, b), e::error_smape(b, a)))?;
    if some_ref {
        if (s - r).abs() > 1e-12 * s.abs() {
            return Err(format!("smape is {s} one way, {r} the other"));
        }
        if s > 1.0 + 1e-12 {
            return Err(format!("smape is {s}"));
        }
    }
    Ok(())
}
fn pairs() -> BoxedStrategy<Pair> {
    pairs_of(prop_oneof![3 => series(Domain::F32, Len::Max(300)), 1 => series(Domain::Any, Len::Range(1, 40)), 1 => series(Domain::Ints, Len::Range(1, 30))].boxed())
}
fn pairs_of(s: BoxedStrategy<Series>) -> BoxedStrategy<Pair> {
    (s, 0u8..8, any::<u64>(), series(Domain::F32, Len::Range(1, 300)))
        .prop_map(|(a, mode, seed, other)| {
            let v = &a.0;
            let u = |i: usize| unit(seed, i as u64);
            let b: Vec<f64> = match mode {
                0 => v.clone(),
                // one sample differs
                1 => {
                    let mut b = v.clone();
                    let i = [0, b.len() - 1, (seed % b.len() as u64) as usize][(seed % 3) as usize];
                    b[i] += 1.0 + b[i].abs() * 0.1;
                    b
                }
                2 => v.iter().enumerate().map(|(i, x)| x * (1.0 + 0.1 * (u(i) - 0.5))).collect(),
                3 => v.iter().enumerate().map(|(i, x)| x + u(i)).collect(),
                4 => v.iter().map(|x| -x).collect(),
                5 => v.iter().enumerate().map(|(i, x)| if u(i) < 0.5 { 0.0 } else { *x }).collect(),
                6 => (0..v.len()).map(|i| other.0[i % other.0.len()]).collect(),
                // lengths differ
                _ => {
                    let mut b = v.clone();
                    if seed % 2 == 0 || b.len() < 2 {
                        b.push(b[0]);
                    } else {
                        b.pop();
                    }
                    b
                }
            };
            Pair { a, b: Series(b) }
        })
        .boxed()
}
pub fn c14() -> Vec<Part> {
    vec![part("pairs", "pairs of series: equal, one sample different, scaled, shifted, negated, zeroed, unrelated, of different length; non-trivial: not equal", (200000, 4000000), pairs, check_metrics),
        part("long-pairs", "as above, up to some 200000 samples", (60, 1200), || pairs_of(prop_oneof![1 => series(Domain::F32, Len::Medium), 2 => series(Domain::F32, Len::Large), 1 => series(Domain::Tame, Len::Range(65536, 200000))].boxed()), check_metrics)]
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wbro {
    pub data: Series,
    /// samples written in bulk before the rest is added one by one is not part of the interface; sizes around chunks are
    pub cut: usize,
    pub magic: [u8; 12],
}
impl Case for Wbro {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Wbro { data, ..self.clone() }).collect()
    }
}
fn check_wbro(c: &Wbro, obs: &mut Obs) -> Res {
    use wavbrro::wavbrro::WavBrro;
    let d = &c.data.0;
    obs.nontrivial = !d.is_empty();
    obs.class(match d.len() {
        0 => "empty",
        1..=2047 => "one chunk",
        2048 => "a full chunk",
        _ => "several chunks",
    });
    let dir = Scratch::new();
    let (pa, pb, pc) = (dir.path("a.wbro"), dir.path("b.wbro"), dir.path("c.wbro"));
    for (p, n) in [(&pa, c.cut * 37 % 90000), (&pb, c.cut * 91 % 90000), (&pc, c.cut * 53 % 90000)] {
        // files that are written over
        if n % 3 != 0 {
            std::fs::write(p, vec![b'W'; n]).map_err(|e| e.to_string())?;
        }
    }
    let count = guarded("write", || {
        WavBrro::to_file_with_data(&pa, d);
        let mut w = WavBrro::new();
        d.iter().for_each(|x| w.add_sample(*x));
        w.to_file(&pb);
        w.sample_count
    })?;
    if count as usize != d.len() {
        return Err(format!("{count} samples counted, {} added", d.len()));
    }
    let (a, b) = (std::fs::read(&pa).map_err(|e| e.to_string())?, std::fs::read(&pb).map_err(|e| e.to_string())?);
    if a != b {
        return Err(format!("{} samples added one by one give another file than written at once", d.len()));
    }
    let back = guarded("read", || WavBrro::from_file(&pa).map_err(|e| e.to_string()))??;
    if let Some(x) = bit_diff(d, &back) {
        return Err(format!("WBRO file of {} samples: {x}", d.len()));
    }
    // read, count, go on adding
    let more = guarded("extend", || {
        let mut w = WavBrro::from_bytes(&{
            let mut v = rkyv_aligned(a.len() - 12);
            v.copy_from_slice(&a[12..]);
            v
        });
        let n = w.sample_count;
        d.iter().take(c.cut).for_each(|x| w.add_sample(*x));
        w.to_file(&pc);
        (n, w.sample_count, w.get_samples())
    })?;
    let k = c.cut.min(d.len());
    let want: Vec<f64> = d.iter().chain(d.iter().take(k)).copied().collect();
    if more.0 as usize != d.len() || more.1 as usize != want.len() {
        return Err(format!("{} then {} samples counted, {} then {} expected", more.0, more.1, d.len(), want.len()));
    }
    if let Some(x) = bit_diff(&want, &more.2) {
        return Err(format!("samples added after reading: {x}"));
    }
    let back = guarded("read", || WavBrro::from_file(&pc).map_err(|e| e.to_string()))??;
    if let Some(x) = bit_diff(&want, &back) {
        return Err(format!("file written after reading and adding: {x}"));
    }
    // files that are none
    if &c.magic[0..4] != b"WBRO" || &c.magic[8..12] != b"WBRO" {
        let mut f = a.clone();
        f[..12].copy_from_slice(&c.magic);
        std::fs::write(&pb, &f).map_err(|e| e.to_string())?;
        if guarded("foreign", || WavBrro::from_file(&pb).is_ok())? {
            return Err(format!("a file starting with {:?} is read", c.magic));
        }
    }
    for short in [0, 1, 4, 11] {
        std::fs::write(&pb, &a[..short]).map_err(|e| e.to_string())?;
        if guarded("short", || WavBrro::from_file(&pb).is_ok())? {
            return Err(format!("a file of {short} bytes is read"));
        }
    }
    if guarded("missing", || WavBrro::from_file(&dir.path("none.wbro")).is_ok())? {
        return Err("a missing file is read".into());
    }
    Ok(())
}
/// Memory aligned for the archive
fn rkyv_aligned(n: usize) -> AlignedBytes {
    AlignedBytes { words: vec![0u64; n / 8 + 1], n }
}
struct AlignedBytes {
    words: Vec<u64>,
    n: usize,
}
impl std::ops::Deref for AlignedBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        // any bytes are valid, and the words outlive the slice
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.n) }
    }
}
impl std::ops::DerefMut for AlignedBytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.words.as_mut_ptr() as *mut u8, self.n) }
    }
}
pub fn wide_samples(max_chunks: usize) -> BoxedStrategy<Series> {
    // the palette is generated, the length is around chunk boundaries
    let n = prop_oneof![
        3 => 0usize..40,
        2 => 0usize..2100,
        4 => (1usize..=max_chunks, -2i64..=2).prop_map(|(k, d)| (2048 * k as i64 + d) as usize),
        1 => 0usize..(2048 * max_chunks),
    ];
    wide_samples_of(n.boxed())
}
pub fn wide_samples_of(n: BoxedStrategy<usize>) -> BoxedStrategy<Series> {
    (proptest::collection::vec(any_bits(), 1..40), n, any::<u64>())
        .prop_map(|(pal, n, seed)| Series((0..n).map(|i| if i < pal.len() { pal[i] } else { let p = pal[(mix(seed ^ i as u64) % pal.len() as u64) as usize]; if i % 3 == 0 { f64::from_bits(p.to_bits() ^ i as u64) } else { p } }).collect()))
        .boxed()
}
pub fn c15() -> Vec<Part> {
    let wb = |s: BoxedStrategy<Series>| {
        (s, prop_oneof![0usize..5, 0usize..4100], prop_oneof![
            2 => Just(*b"WBRO0000WBRx"), 2 => Just(*b"xBRO0000WBRO"), 1 => Just(*b"RIFF0000WAVE"), 1 => Just(*b"WBRO0000WBRR"), 1 => Just(*b"BRRO\x01\0\0\0\0\0\0\0"),
            2 => any::<[u8; 12]>(), 2 => (0usize..8, 1u8..=255).prop_map(|(i, x)| { let mut m = *b"WBRO0000WBRO"; m[if i < 4 { i } else { i + 4 }] ^= x; m })])
            .prop_map(|(data, cut, magic)| Wbro { data, cut, magic })
    };
    vec![
        part("files", "any bit patterns, lengths around multiples of 2048; non-trivial: not empty", (6000, 100000), move || wb(wide_samples(4)), check_wbro),
        part("long", "up to 70 chunks", (150, 3000), move || wb(wide_samples(70)), check_wbro),
        part("longest", "250 to 600 chunks", (3, 60), move || wb(wide_samples_of((250usize..600, -2i64..=2).prop_map(|(k, d)| (2048 * k as i64 + d) as usize).boxed())), check_wbro),
    ]
}

// ---------------------------------------------------------------- C32

/// The samples of a WBRO file, read as the format says: a header of 12 bytes; at the end the offset and number of
/// the chunks, the number of samples and their kind; offsets count from where they stand
fn wbro_read(b: &[u8]) -> Result<Vec<f64>, String> {
    let body = b.get(12..).ok_or("no header")?;
    if &b[..4] != b"WBRO" || &b[8..12] != b"WBRO" {
        return Err(format!("header {:?}", &b[..12]));
    }
    let word = |at: usize| -> Result<u32, String> {
        body.get(at..at + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or(format!("nothing at {at} of {} bytes", body.len()))
    };
    let from = |at: usize| -> Result<usize, String> {
        usize::try_from(at as i64 + word(at)? as i32 as i64).map_err(|_| format!("the offset at {at} leads out of the file"))
    };
    let root = body.len().checked_sub(16).ok_or("no root")?;
    let (chunks, count, kind) = (word(root + 4)? as usize, word(root + 8)? as usize, body[root + 12]);
    if kind != 5 {
        return Err(format!("samples of kind {kind}"));
    }
    let mut out = Vec::new();
    for k in 0..chunks {
        let at = from(root)? + 8 * k;
        let n = word(at + 4)? as usize;
        if n == 0 || n > 2048 || (k + 1 < chunks && n != 2048) {
            return Err(format!("{n} samples in chunk {k} of {chunks}"));
        }
        let start = from(at)?;
        let bytes = body.get(start..start + 8 * n).ok_or(format!("chunk {k} leads out of the file"))?;
        out.extend(bytes.chunks_exact(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())));
    }
    if out.len() != count {
        return Err(format!("{} samples in the chunks, {count} counted", out.len()));
    }
    Ok(out)
}
fn wbro_write(d: &[f64]) -> Vec<u8> {
    let mut body: Vec<u8> = Vec::new();
    let chunks: Vec<(usize, usize)> = d
        .chunks(2048)
        .map(|c| {
            let at = body.len();
            c.iter().for_each(|x| body.extend(x.to_le_bytes()));
            (at, c.len())
        })
        .collect();
    let table = body.len();
    for (at, n) in &chunks {
        let here = body.len();
        body.extend((*at as i32 - here as i32).to_le_bytes());
        body.extend((*n as u32).to_le_bytes());
    }
    let root = body.len();
    body.extend((table as i32 - root as i32).to_le_bytes());
    body.extend((chunks.len() as u32).to_le_bytes());
    body.extend((d.len() as u32).to_le_bytes());
    body.extend([5, 0, 0, 0]);
    [b"WBRO0000WBRO".to_vec(), body].concat()
}
fn check_wbro_form(c: &Wbro, obs: &mut Obs) -> Res {
    use wavbrro::wavbrro::WavBrro;
    let d = &c.data.0;
    obs.nontrivial = !d.is_empty();
    obs.class(match d.len() {
        0 => "empty",
        1..=2048 => "one chunk",
        _ => "several chunks",
    });
    let dir = Scratch::new();
    let (p, q) = (dir.path("a.wbro"), dir.path("b.wbro"));
    guarded("write", || {
        if c.cut % 2 == 0 {
            WavBrro::to_file_with_data(&p, d);
        } else {
            let mut w = WavBrro::new();
            d.iter().for_each(|x| w.add_sample(*x));
            w.to_file(&p);
        }
    })?;
    let bytes = std::fs::read(&p).map_err(|e| e.to_string())?;
    let got = wbro_read(&bytes).map_err(|e| format!("WBRO file of {} samples: {e}", d.len()))?;
    if let Some(x) = bit_diff(d, &got) {
        return Err(format!("WBRO file of {} samples, by the format: {x}", d.len()));
    }
    // bytes 4 to 7 of the header are not told by every writer
    let mut foreign = wbro_write(d);
    match c.cut % 3 {
        0 => foreign[4..8].copy_from_slice(&(d.len() as u32).to_le_bytes()),
        1 => foreign[4..8].copy_from_slice(&c.magic[4..8]),
        _ => {}
    }
    std::fs::write(&q, &foreign).map_err(|e| e.to_string())?;
    let back = guarded("read", || WavBrro::from_file(&q).map_err(|e| e.to_string()))??;
    if let Some(x) = bit_diff(d, &back) {
        return Err(format!("WBRO file of another writer: {x}"));
    }
    Ok(())
}
fn check_earlier(c: &Golden, obs: &mut Obs) -> Res {
    use wavbrro::wavbrro::WavBrro;
    let mut names: Vec<_> = std::fs::read_dir(golden_dir()).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "wbro")).collect();
    names.sort();
    if names.is_empty() {
        return Err("no WBRO files in golden/".into());
    }
    let p = &names[c.0 % names.len()];
    let want = wbro_read(&std::fs::read(p).map_err(|e| e.to_string())?)?;
    obs.nontrivial = true;
    let got = guarded("read", || WavBrro::from_file(p).map_err(|e| e.to_string()))??;
    match bit_diff(&want, &got) {
        Some(x) => Err(format!("{}: {x}", p.display())),
        None => Ok(()),
    }
}
pub fn c32() -> Vec<Part> {
    let wb = |s: BoxedStrategy<Series>| (s, 0usize..6, any::<[u8; 12]>()).prop_map(|(data, cut, magic)| Wbro { data, cut, magic });
    let rule = "written and read back by the format, and the other way round; non-trivial: not empty";
    vec![
        part("files", rule, (12000, 240000), move || wb(wide_samples(4)), check_wbro_form),
        part("long", rule, (150, 3000), move || wb(wide_samples(70)), check_wbro_form),
        part("earlier", "files that came with the repository (golden/); all non-trivial", (60, 60), || (0usize..3).prop_map(Golden), check_earlier),
    ]
}
