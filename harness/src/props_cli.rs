//! C20-C23: the command line tools, run in scratch directories.
use crate::engine::*;
use crate::gen::*;
use crate::props_codec::*;
use crate::props_format::bit_diff;
use crate::scratch::Scratch;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use wavbrro::wavbrro::WavBrro;

fn tool(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("VERIF_CLI").unwrap_or_else(|_| "/verif/target/cli/release".into())).join(name)
}
/// Runs a tool; true when it succeeded.
fn run(name: &str, args: &[String], cwd: &Path) -> Result<bool, String> {
    run_limited(name, args, cwd, None, None)
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
/// Runs a tool that can not write more than a number of bytes to a file: beyond them writes are cut short
/// and then fail, or (second field) the tool is stopped
fn run_limited(name: &str, args: &[String], cwd: &Path, limit: Option<(u64, bool)>, printed: Option<&Path>) -> Result<bool, String> {
    let mut command = Command::new(tool(name));
    if let Some((bytes, stop)) = limit {
        use std::os::unix::process::CommandExt;
        unsafe {
            command.pre_exec(move || {
                signal(SIGXFSZ, if stop { 0 } else { 1 });
                if setrlimit(RLIMIT_FSIZE, &[bytes, bytes]) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let stdout = match printed {
        Some(p) => Stdio::from(std::fs::File::create(p).map_err(|e| e.to_string())?),
        None => Stdio::null(),
    };
    // neither the logging nor the time zone changes what a tool does
    let k = args.iter().flat_map(|a| a.bytes()).fold(7u64, |h, b| mix(h ^ b as u64));
    match k % 8 {
        0 => command.env("RUST_LOG", "trace"),
        1 => command.env("RUST_LOG", "debug"),
        2 => command.env("RUST_LOG", "info"),
        _ => command.env_remove("RUST_LOG"),
    };
    match k / 8 % 4 {
        0 => command.env("TZ", "<+1245>-12:45"),
        1 => command.env("TZ", "PST8PDT,M3.2.0,M11.1.0"),
        2 => command.env("TZ", "UTC"),
        _ => command.env_remove("TZ"),
    };
    let mut child = command
        .args(args.iter().map(|a| crate::scratch::os(a)))
        .current_dir(cwd)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(stdout)
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot run {name}: {e}"))?;
    let start = Instant::now();
    let mut nap = 200;
    loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            return Ok(s.success());
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("{name} {args:?} does not end"));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(5000);
    }
}
fn run_to_success(name: &str, args: &[String], cwd: &Path) -> Res {
    if !run(name, args, cwd)? {
        return Err(format!("{name} {args:?} fails"));
    }
    Ok(())
}
/// Every file below a directory
fn listing(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                out.insert(p.strip_prefix(dir).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    out
}
fn names_of(m: &BTreeMap<String, Vec<u8>>) -> Vec<&str> {
    m.keys().map(|s| s.as_str()).collect()
}
fn wbro_bytes(d: &[f64]) -> Result<Vec<u8>, String> {
    let dir = Scratch::new();
    let p = dir.path("x.wbro");
    guarded("writing WBRO", || WavBrro::to_file_with_data(&p, d))?;
    std::fs::read(&p).map_err(|e| e.to_string())
}
fn read_wbro(p: &Path) -> Result<Vec<f64>, String> {
    guarded("reading WBRO", || WavBrro::from_file(p).map_err(|e| e.to_string()))?
}
fn args(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// What an earlier run left at this place: shorter or longer than anything written now, or nothing
fn stale(seed: u64) -> Option<Vec<u8>> {
    let s = mix(seed ^ 0x57a1e);
    match s % 5 {
        0 => Some((0..20000 + (s >> 8) % 3000).map(|i| (i % 251) as u8).collect()),
        1 => Some(b"# an old and long file\n".repeat(4000)),
        2 => Some(vec![b'7'; ((s >> 8) % 30) as usize]),
        _ => None,
    }
}
fn leave_stale(p: &Path, seed: u64, obs: &mut Obs) -> Res {
    if let Some(b) = stale(seed) {
        std::fs::write(p, b).map_err(|e| e.to_string())?;
        obs.class("over an old output");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Options {
    pub comp: Option<u8>,
    pub error: Option<u8>,
    pub level: Option<u8>,
    pub long: bool,
    pub verbose: bool,
}
const COMPRESSORS: [(&str, Compressor); 7] = [
    ("auto", Compressor::Auto), ("noop", Compressor::Noop), ("fft", Compressor::FFT), ("constant", Compressor::Constant),
    ("polynomial", Compressor::Polynomial), ("idw", Compressor::Idw), ("rle", Compressor::RLE),
];
impl Options {
    fn compressor(&self) -> Compressor {
        COMPRESSORS[self.comp.unwrap_or(0) as usize % 7].1
    }
    fn to_args(&self) -> Vec<String> {
        let mut v = Vec::new();
        if let Some(c) = self.comp {
            let name = COMPRESSORS[c as usize % 7].0;
            if self.long {
                v.push(format!("--compressor={name}"));
            } else {
                v.extend(args(&["--compressor", name]));
            }
        }
        if let Some(e) = self.error {
            if self.long {
                v.push(format!("--error={e}"));
            } else {
                v.extend([String::from("-e"), e.to_string()]);
            }
        }
        if let Some(l) = self.level {
            if self.long {
                v.extend([String::from("--compression-selection-sample-level"), l.to_string()]);
            } else {
                v.extend([String::from("-c"), l.to_string()]);
            }
        }
        if self.verbose {
            v.push("--verbose".into());
        }
        v
    }
    /// What the library gives: per frame the input and the output
    fn library(&self, data: &[f64], default_error: u8) -> Result<Vec<(Vec<f64>, Vec<f64>)>, String> {
        let c = self.compressor();
        let bound = self.error.unwrap_or(default_error) as f32 / 100.0;
        let level = self.level.unwrap_or(0) as usize;
        guarded("library", || {
            let mut plan = OptimizerPlan::plan(data);
            plan.set_compressor(c);
            plan.get_execution()
                .into_iter()
                .map(|(_, d)| {
                    let mut cs = CompressedStream::new();
                    match c {
                        Compressor::Noop | Compressor::Constant | Compressor::RLE => cs.compress_chunk_with(d, c),
                        _ => cs.compress_chunk_bounded_with(d, c, bound, level),
                    }
                    (d.to_vec(), CompressedStream::from_bytes(&cs.to_bytes()).decompress())
                })
                .collect()
        })
    }
    /// Judges restored samples against the library and the promise of the option
    fn judge(&self, data: &[f64], got: &[f64], default_error: u8, obs: &mut Obs) -> Res {
        let frames = self.library(data, default_error)?;
        let error = self.error.unwrap_or(default_error);
        let clean: Vec<f64> = data.iter().copied().filter(|x| x.is_finite()).collect();
        if got.len() != clean.len() {
            return Err(format!("{} samples restored from {} ({} of them finite)", got.len(), data.len(), clean.len()));
        }
        let want: Vec<f64> = frames.iter().flat_map(|f| f.1.iter().copied()).collect();
        if let Some(d) = crate::props_format::value_diff(&want, got) {
            return Err(format!("{:?}: the tool and the library differ, {d}", self));
        }
        let bounded = matches!(self.compressor(), Compressor::Auto | Compressor::Polynomial | Compressor::Idw);
        let mut at = 0;
        for (input, _) in &frames {
            let out = &got[at..at + input.len()];
            at += input.len();
            if (bounded && error == 0) || self.compressor() == Compressor::RLE {
                if let Some(d) = first_diff(input, out) {
                    return Err(format!("{self:?}: not restored exactly: {d}"));
                }
            } else if bounded {
                let e = mape(input, out);
                if !(e <= error as f64 / 100.0 * (1.0 + 1e-6)) {
                    return Err(format!("{self:?}: error {e} in a frame of {} samples, {error}% allowed", input.len()));
                }
                if e > 0.0 {
                    obs.class("lossy");
                }
            }
        }
        Ok(())
    }
}
fn options(compressors: u8) -> BoxedStrategy<Options> {
    (
        prop_oneof![2 => Just(None), 2 => Just(Some(0u8)), 4 => (0..compressors).prop_map(Some)],
        prop_oneof![2 => Just(None), 2 => Just(Some(0u8)), 4 => (0u8..=50).prop_map(Some)],
        prop_oneof![2 => Just(None), 3 => (0u8..=6).prop_map(Some)],
        any::<bool>(),
        proptest::bool::weighted(0.1),
    )
        .prop_map(|(comp, error, level, long, verbose)| Options { comp, error, level, long, verbose })
        .boxed()
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub data: Series,
    pub opts: Options,
    /// 0 WBRO, 1 CSV with default names, 2 CSV with other names, 3 CSV without header
    pub source: u8,
    pub name: u8,
    pub seed: u64,
}
impl Case for Job {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.data.smaller().into_iter().map(|data| Job { data, ..self.clone() }).collect();
        if self.opts.verbose {
            v.push(Job { opts: Options { verbose: false, ..self.opts.clone() }, ..self.clone() });
        }
        if self.source != 0 {
            v.push(Job { source: 0, ..self.clone() });
        }
        v
    }
}
const STEMS: [&str; 10] = ["data", "a.b", "with space", "UPPER", "x-1_2", "naïve", "no \u{fffd} text\u{fffd}", "測定", ".hidden.", "a,b;c&d"];
fn text_of(x: f64) -> String {
    format!("{x}")
}
fn check_job(c: &Job, obs: &mut Obs) -> Res {
    let mut data = c.data.0.clone();
    if c.opts.compressor() == Compressor::Idw {
        data.truncate(500);
    }
    if c.opts.compressor() == Compressor::Constant {
        let x = data.iter().copied().find(|x| x.is_finite()).unwrap_or(1.0);
        data.iter_mut().filter(|v| v.is_finite()).for_each(|v| *v = x);
    }
    obs.nontrivial = data.iter().filter(|x| x.is_finite()).count() > 1;
    obs.class(COMPRESSORS[c.opts.comp.unwrap_or(0) as usize % 7].0);
    let source = c.source % 4;
    obs.class(["wbro", "csv", "csv-fields", "csv-no-header"][source as usize]);
    let dir = Scratch::new();
    let place = ["", "", "./", "in.v1/", "in.v1/../", "/"][(c.seed / 16 % 6) as usize];
    let sub = if place == "in.v1/" { place } else { "" };
    std::fs::create_dir(dir.path("in.v1")).map_err(|e| e.to_string())?;
    let stem = format!("{sub}{}", STEMS[c.name as usize % STEMS.len()]);
    let (input, extra) = match source {
        0 => {
            let f = format!("{stem}.wbro");
            std::fs::write(dir.path(&f), wbro_bytes(&data)?).map_err(|e| e.to_string())?;
            (f, vec![])
        }
        k => {
            let f = format!("{stem}.csv");
            // columns are named exactly as given, next to others of nearly the same name
            let pick = |n: u64| (mix(c.seed ^ n) % 10) as usize;
            let value = ["reading", "reading", "value", " value", "Value", "my value", "valeur \u{e9}", "a=b", "\"q\"", "0"][pick(41)];
            let when = ["when", "when", "time", " time", "Time", "t ", "timestamp", "0 s", "ts=", "\"t\""][pick(42)];
            let others: Vec<&str> = ["value", " value", "Value", "reading", "value "].into_iter().filter(|o| *o != value && *o != when).take(pick(43) % 4).collect();
            let quoted = |n: &str| if n.contains('"') { format!("\"{}\"", n.replace('"', "\"\"")) } else { n.to_string() };
            let fields = format!("{when},{value}");
            let (head, extra) = match k {
                1 => ("host,time,value\n".to_string(), args(&["--csv"])),
                2 => {
                    let before = others.iter().map(|o| format!("{o},")).collect::<String>();
                    (
                        format!("{before}{},host,{}\n", quoted(value), quoted(when)),
                        if c.opts.long { args(&["--csv", &format!("--fields={fields}")]) } else { args(&["--csv", "--fields", &fields]) },
                    )
                }
                _ => (String::new(), args(&["--csv", "--no-header"])),
            };
            let mut s = head;
            for (i, x) in data.iter().enumerate() {
                let x = text_of(*x);
                match k {
                    1 => s += &format!("h,{},{x}\n", 1000 + i),
                    2 => s += &format!("{}{x},\"h,{i}\",{}\n", format!("{},", i + 7).repeat(others.len()), 1000 + i),
                    _ => s += &format!("{x}\n"),
                }
            }
            std::fs::write(dir.path(&f), s).map_err(|e| e.to_string())?;
            (f, extra)
        }
    };
    let before = listing(dir.dir());
    leave_stale(&dir.path(&format!("{stem}.bro")), c.seed, obs)?;
    let mut a = extra;
    a.extend(c.opts.to_args());
    let given = match place {
        "/" => dir.path(&input).to_string_lossy().into_owned(),
        "in.v1/" => input.clone(),
        p => format!("{p}{input}"),
    };
    if c.seed % 2 == 0 {
        a.push(given);
    } else {
        a.insert(0, given);
    }
    run_to_success("atsc", &a, dir.dir())?;
    let after = listing(dir.dir());
    let bro = format!("{stem}.bro");
    if after.len() != 2 || after.get(&input) != before.get(&input) || !after.contains_key(&bro) {
        return Err(format!("atsc {a:?} leaves {:?} (input changed: {})", names_of(&after), after.get(&input) != before.get(&input)));
    }
    // restored in a directory of its own
    let out = Scratch::new();
    std::fs::create_dir(out.path("in.v1")).map_err(|e| e.to_string())?;
    std::fs::write(out.path(&bro), &after[&bro]).map_err(|e| e.to_string())?;
    leave_stale(&out.path(&format!("{stem}.wbro")), c.seed ^ 99, obs)?;
    let given = match place {
        "/" => out.path(&bro).to_string_lossy().into_owned(),
        "in.v1/" => bro.clone(),
        p => format!("{p}{bro}"),
    };
    let u = if c.seed % 3 == 0 { args(&[&given, "-u"]) } else { args(&["-u", &given]) };
    run_to_success("atsc", &u, out.dir())?;
    let restored = listing(out.dir());
    let wbro = format!("{stem}.wbro");
    if restored.len() != 2 || restored.get(&bro) != after.get(&bro) || !restored.contains_key(&wbro) {
        return Err(format!("atsc {u:?} leaves {:?} (input changed: {})", names_of(&restored), restored.get(&bro) != after.get(&bro)));
    }
    let got = read_wbro(&out.path(&wbro))?;
    c.opts.judge(&data, &got, 3, obs).map_err(|e| format!("atsc {a:?}: {e}"))
}
/// Series with values that are not finite here and there
fn dirty(s: BoxedStrategy<Series>) -> BoxedStrategy<Series> {
    (s, prop_oneof![2 => Just(0u8), 1 => 1u8..5], any::<u64>())
        .prop_map(|(mut s, k, seed)| {
            for j in 0..k {
                let n = s.0.len() as u64;
                let i = (mix(seed ^ j as u64) % n) as usize;
                s.0[i] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][(mix(seed ^ (j as u64) << 8) % 3) as usize];
            }
            s
        })
        .boxed()
}
fn job(s: BoxedStrategy<Series>) -> BoxedStrategy<Job> {
    (s, options(7), 0u8..4, 0u8..6, any::<u64>()).prop_map(|(data, opts, source, name, seed)| Job { data, opts, source, name, seed }).boxed()
}
pub fn c20() -> Vec<Part> {
    vec![
        part("round-trips", "compress, decompress, compare with the library: WBRO and CSV inputs, all options; non-trivial: two finite samples or more", (1600, 30000),
            || job(prop_oneof![
                3 => dirty(series(Domain::F32, Len::Max(300))),
                2 => dirty(series(Domain::Tame, Len::Max(700))),
                1 => dirty(series(Domain::Any, Len::Max(120))),
                1 => Just(Series(vec![])),
                1 => dirty(series(Domain::WideInts, Len::Range(1, 60)))].boxed()), check_job),
        part("several-frames", "as above with 513 to 6000 samples", (800, 15000), || job(dirty(prop_oneof![3 => series(Domain::Tame, Len::Range(513, 2600)), 1 => series(Domain::F32, Len::Range(513, 6000))].boxed())), check_job),
        part("large", "as above, over the largest frame", (24, 300), || job(dirty(series(Domain::Tame, Len::Range(60000, 140000)))), check_job),
        part("largest", "as above, several of the largest frame", (2, 60), || job(dirty(series(Domain::Tame, Len::Range(200000, 400000)))), check_job),
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad {
    pub data: Series,
    pub kind: u8,
    pub cut: usize,
    pub seed: u64,
}
impl Case for Bad {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Bad { data, ..self.clone() }).collect()
    }
}
fn bro_bytes(d: &[f64]) -> Result<Vec<u8>, String> {
    guarded("compress", || {
        let mut cs = CompressedStream::new();
        for c in d.chunks(512) {
            cs.compress_chunk_bounded_with(c, Compressor::Auto, 0.03, 0);
        }
        cs.to_bytes()
    })
}
fn csv_text(d: &[f64]) -> String {
    let mut s = String::from("time,value\n");
    for (i, x) in d.iter().enumerate() {
        s += &format!("{i},{}\n", text_of(*x));
    }
    s
}
const BAD_OPTIONS: [&[&str]; 18] = [
    &["-e", "51"], &["-e", "255"], &["-e", "256"], &["-e", "100"], &["-e", "-1"], &["--error=51"], &["-e", "abc"], &["-e", "3.5"], &["-e", "60"],
    &["-c", "7"], &["-c", "255"], &["-c", "-1"], &["--compression-selection-sample-level=7"], &["-c", "9"],
    &["--compressor", "zip"], &["--compressor", "FFTX"], &["--compressor", ""], &["--unknown"],
];
fn foreign_bytes(seed: u64) -> Vec<u8> {
    let pool: [&[u8]; 11] = [
        b"", b"x", b"BRR", b"hello, this is a text file\n", b"BRRo\x01\0\0\0\x01\x01", b"RIFF\0\0\0\0WAVEfmt ", b"WBRO0000WBRx\0\0\0\0\0\0\0\0", b"xBRO0000WBRO\0\0\0\0",
        b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", b"WBRO0000", b"BRSO\x01\0\0\0\0\0",
    ];
    let mut v = pool[(seed % pool.len() as u64) as usize].to_vec();
    if seed % 7 == 0 {
        v.extend((0..seed % 100).map(|i| mix(seed ^ i) as u8));
    }
    v
}
fn check_bad(c: &Bad, obs: &mut Obs) -> Res {
    obs.nontrivial = true;
    let d = &c.data.0;
    let dir = Scratch::new();
    let write = |n: &str, b: &[u8]| std::fs::write(dir.path(n), b).map_err(|e| e.to_string());
    let k = c.seed as usize;
    // must the command fail, or may it skip the file
    let mut must_fail = true;
    let (what, a): (String, Vec<String>) = match c.kind % 9 {
        0 => {
            let o = BAD_OPTIONS[k % BAD_OPTIONS.len()];
            let mut a = args(o);
            match c.cut % 3 {
                0 => {
                    write("in.wbro", &wbro_bytes(d)?)?;
                    a.push("in.wbro".into());
                }
                1 => {
                    write("in.csv", csv_text(d).as_bytes())?;
                    a.extend(args(&["--csv", "in.csv"]));
                }
                _ => {
                    write("in.bro", &bro_bytes(d)?)?;
                    a.extend(args(&["-u", "in.bro"]));
                }
            }
            ("option out of range".into(), a)
        }
        1 => {
            write("other.wbro", &wbro_bytes(d)?)?;
            let a = [&["in.wbro"][..], &["-u", "in.bro"], &["--csv", "in.csv"], &["--csv", "--no-header", "in.csv"], &[], &["no/such/dir"]][k % 6];
            ("missing input".into(), args(a))
        }
        2 => {
            // compressing something that is no WBRO file
            let b = match k % 4 {
                0 => bro_bytes(d)?,
                1 => csv_text(d).into_bytes(),
                2 => {
                    let mut b = wbro_bytes(d)?;
                    let i = [0, 1, 2, 3, 8, 9, 10, 11][(c.cut / 2) % 8];
                    b[i] ^= 1 << (c.cut % 8);
                    b
                }
                _ => foreign_bytes(c.cut as u64),
            };
            write("in.wbro", &b)?;
            ("compressing a file of another kind".into(), args(&["in.wbro"]))
        }
        3 => {
            // decompressing something that is no compressed file
            let b = match k % 3 {
                0 => wbro_bytes(d)?,
                1 => csv_text(d).into_bytes(),
                _ => foreign_bytes(c.cut as u64),
            };
            must_fail = false;
            write("in.bro", &b)?;
            ("decompressing a file of another kind".into(), args(&["-u", "in.bro"]))
        }
        4 => {
            let b = bro_bytes(d)?;
            write("in.bro", &b[..c.cut % b.len()])?;
            (format!("decompressing {} of {} bytes", c.cut % b.len(), b.len()), args(&["-u", "in.bro"]))
        }
        5 => {
            let mut b = bro_bytes(d)?;
            let v = [2u32, 3, 256, 257, 1 << 16, 1 << 24, u32::MAX][k % 7];
            b[4..8].copy_from_slice(&v.to_le_bytes());
            write("in.bro", &b)?;
            (format!("decompressing a file of version {v}"), args(&["-u", "in.bro"]))
        }
        6 => {
            let mut t = csv_text(d);
            let bad = ["5,abc\n", "5\n", "5,6,7\n", "5,\n", "5,1.2.3\n", "5,\"x\n"][k % 6];
            t += bad;
            if c.cut % 2 == 0 {
                t += "6,1.5\n";
            }
            write("in.csv", t.as_bytes())?;
            (format!("CSV with a row {bad:?}"), args(&["--csv", "in.csv"]))
        }
        7 => {
            write("in.csv", csv_text(d).as_bytes())?;
            let a = [&["--csv", "--fields", "time,price", "in.csv"][..], &["--csv", "--fields", "when,value", "in.csv"], &["--csv", "--no-header", "in.csv"], &["--csv", "--fields=Time,value", "in.csv"]][k % 4];
            ("CSV without the column".into(), args(a))
        }
        _ => {
            // undecodable bytes
            let mut t = csv_text(d).into_bytes();
            t.extend(b"7,1\xff\xfe\n8,2\n");
            write("in.csv", &t)?;
            ("CSV that is not text".into(), args(&["--csv", "in.csv"]))
        }
    };
    obs.class(["options", "missing", "compress-foreign", "decompress-foreign", "truncated", "newer", "csv-row", "csv-column", "csv-bytes"][c.kind as usize % 9]);
    if c.kind % 9 != 1 {
        // outputs of an earlier run stay as they are
        for (i, f) in ["in.bro", "in.wbro"].iter().enumerate() {
            if !dir.path(f).exists() {
                leave_stale(&dir.path(f), c.seed ^ (c.cut as u64) << 8 ^ i as u64, obs)?;
            }
        }
    }
    let before = listing(dir.dir());
    let ok = run("atsc", &a, dir.dir())?;
    let after = listing(dir.dir());
    if after != before {
        return Err(format!("{what}: atsc {a:?} leaves {:?}, before it was {:?}", names_of(&after), names_of(&before)));
    }
    if ok && must_fail {
        return Err(format!("{what}: atsc {a:?} succeeds"));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Folder {
    /// 0 compress, 1 decompress, 2 CSV
    pub mode: u8,
    pub good: Vec<(Series, u8)>,
    pub bad: Vec<(u8, u64)>,
    /// directories inside the directory
    #[serde(default)]
    pub subs: Vec<u8>,
    pub opts: Options,
}
impl Case for Folder {
    fn smaller(&self) -> Vec<Self> {
        let mut v = Vec::new();
        for i in 0..self.subs.len() {
            let mut f = self.clone();
            f.subs.remove(i);
            v.push(f);
        }
        for i in 0..self.good.len() {
            let mut f = self.clone();
            f.good.remove(i);
            v.push(f);
        }
        for i in 0..self.bad.len() {
            let mut f = self.clone();
            f.bad.remove(i);
            v.push(f);
        }
        for i in 0..self.good.len() {
            for s in self.good[i].0.smaller().into_iter().take(20) {
                let mut f = self.clone();
                f.good[i].0 = s;
                v.push(f);
            }
        }
        v
    }
}
fn check_folder(c: &Folder, obs: &mut Obs) -> Res {
    let mode = c.mode % 3;
    let dir = Scratch::new();
    std::fs::create_dir(dir.path("in")).map_err(|e| e.to_string())?;
    let write = |n: &str, b: &[u8]| std::fs::write(dir.path(&format!("in/{n}")), b).map_err(|e| e.to_string());
    let (ext_in, ext_out) = [("wbro", "bro"), ("bro", "wbro"), ("csv", "bro")][mode as usize];
    let mut flags = args([&[][..], &["-u"], &["--csv"]][mode as usize]);
    if mode != 1 {
        flags.extend(c.opts.to_args());
    }
    let mut expect = BTreeMap::new();
    for (i, (s, k)) in c.good.iter().enumerate() {
        let first = ["z", "m", "a"][*k as usize % 3];
        let name = match k / 3 % 12 {
            0 => format!("{first}{i}.dat"),
            1 => format!("{first}{i}"),
            2 => format!("{first}{i}.part.{ext_in}"),
            3 => format!("{first}{i}.{}", ext_in.to_uppercase()),
            4 => format!(".{first}{i}.{ext_in}"),
            5 => format!(".{first}{i}"),
            6 => format!("{first} {i}..{ext_in}"),
            // names that are no text
            7 => format!("{first}\u{fffd}{i}.{ext_in}"),
            8 => format!("{first}{i}.\u{fffd}{ext_in}"),
            _ => format!("{first}{i}.{ext_in}"),
        };
        let b = match mode {
            0 => wbro_bytes(&s.0)?,
            1 => bro_bytes(&s.0)?,
            _ => csv_text(&s.0).into_bytes(),
        };
        write(&name, &b)?;
        // the same file alone
        let alone = Scratch::new();
        std::fs::write(alone.path(&name), &b).map_err(|e| e.to_string())?;
        let mut a = flags.clone();
        a.push(name.clone());
        run_to_success("atsc", &a, alone.dir())?;
        let out = Path::new(&name).with_extension(ext_out).to_string_lossy().into_owned();
        leave_stale(&dir.path(&format!("in/{out}")), *k as u64 ^ (i as u64) << 10 ^ (s.0.len() as u64) << 20, obs)?;
        let made = std::fs::read(alone.path(&out)).map_err(|e| format!("atsc {a:?} gives no {out}: {e}"))?;
        expect.insert(out, made);
        expect.insert(name, b);
    }
    for (i, (k, seed)) in c.bad.iter().enumerate() {
        let base = c.good.first().map(|g| g.0 .0.clone()).unwrap_or_else(|| vec![1.0, 2.0, 3.5]);
        let b = match (mode, k % 4) {
            (1, 0) => {
                // cut in the middle
                let b = bro_bytes(&base)?;
                b[..(4 + *seed as usize % (b.len() - 4))].to_vec()
            }
            (1, 1) => {
                let mut b = bro_bytes(&base)?;
                b[4] = 9;
                b
            }
            (2, 0) => (csv_text(&base) + "1,x\n").into_bytes(),
            (2, 1) => (csv_text(&base) + "1,2,3\n").into_bytes(),
            _ => foreign_bytes(*seed),
        };
        let name = format!("{}bad{i}{}", ["0", "n", "zz", ".", "\u{fffd}"][*seed as usize % 5], [".txt", "", ".a.b", &format!(".{ext_in}")][if k % 2 == 0 { 3 } else { (*seed / 4) as usize % 4 }]);
        write(&name, &b)?;
        expect.insert(name, b);
    }
    for (i, k) in c.subs.iter().enumerate() {
        let first = ["0", "n", "zz", "\u{fffd}"][*k as usize % 4];
        let sub = match k / 3 % 4 {
            0 => format!("{first}sub{i}"),
            1 => format!("{first}sub{i}.{ext_out}"),
            _ => format!("{first}sub{i}.{ext_in}"),
        };
        std::fs::create_dir(dir.path(&format!("in/{sub}"))).map_err(|e| e.to_string())?;
        // what lies in them is not part of the directory, be it fit or unfit
        for (n, fit) in [("fit", true), ("unfit", false)] {
            if k / 12 % 3 == 0 || (k / 12 % 3 == 1) == fit {
                let name = format!("{sub}/{n}.{ext_in}");
                let b = match (fit, mode) {
                    (false, _) => foreign_bytes(*k as u64),
                    (_, 0) => wbro_bytes(&[1.0, 2.0, 3.5])?,
                    (_, 1) => bro_bytes(&[1.0, 2.0, 3.5])?,
                    _ => csv_text(&[1.0, 2.0, 3.5]).into_bytes(),
                };
                write(&name, &b)?;
                expect.insert(name, b);
            }
        }
    }
    obs.nontrivial = !c.good.is_empty() && c.good.len() + c.bad.len() + c.subs.len() > 1;
    if !c.subs.is_empty() {
        obs.class("with sub-directories");
    }
    obs.class(["compress", "decompress", "csv"][mode as usize]);
    if !c.bad.is_empty() {
        obs.class("with unfit files");
    }
    let mut a = flags;
    a.push("in".into());
    run("atsc", &a, dir.dir())?;
    let after = listing(&dir.path("in"));
    for (n, b) in &expect {
        match after.get(n) {
            None => return Err(format!("atsc {a:?}: no {n} among {:?}", names_of(&after))),
            Some(x) if x != b => return Err(format!("atsc {a:?}: {n} differs from what the file alone gives")),
            _ => {}
        }
    }
    if after.len() != expect.len() {
        return Err(format!("atsc {a:?} leaves {:?}, expected {:?}", names_of(&after), names_of(&expect)));
    }
    obs.sub = expect.len() as u64;
    Ok(())
}
pub fn c21() -> Vec<Part> {
    let subs = || prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 1..4)];
    let data = || prop_oneof![3 => series(Domain::Tame, Len::Range(1, 60)), 1 => series(Domain::Tame, Len::Range(500, 1500))];
    vec![
        part("failures", "options out of range, missing, foreign, truncated, newer and malformed inputs; all non-trivial", (3000, 60000),
            move || (data(), 0u8..9, any::<usize>(), any::<u64>()).prop_map(|(data, kind, cut, seed)| Bad { data, kind, cut, seed }), check_bad),
        part("directories", "0 to 5 fit and 0 to 4 unfit files; non-trivial: a fit file and another one; inner_checks counts files compared", (700, 12000),
            move || (0u8..3, proptest::collection::vec((data(), any::<u8>()), 0..6), proptest::collection::vec((any::<u8>(), any::<u64>()), 0..5), subs(), options(7))
                .prop_map(|(mode, good, bad, subs, opts)| Folder { mode, good, bad, subs, opts }), check_folder),
        part("full-directories", "10 to 150 small fit files and up to 20 unfit ones; all non-trivial", (8, 160),
            move || (0u8..3, proptest::collection::vec((series(Domain::Tame, Len::Range(1, 12)), any::<u8>()), 10..150), proptest::collection::vec((any::<u8>(), any::<u64>()), 0..20), subs(), options(7))
                .prop_map(|(mode, good, bad, subs, opts)| Folder { mode, good, bad, subs, opts }), check_folder),
    ]
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pipeline {
    pub values: Series,
    /// milliseconds of the day
    pub ms: Vec<i64>,
    pub day: i64,
    pub opts: Options,
    /// bit 0: --output-wavbrro, bit 1: --no-compression, bit 2: no --output-vsri
    pub flags: u8,
    /// 0: next to the input, 1: another name, 2: another directory
    pub place: u8,
    pub seed: u64,
}
impl Case for Pipeline {
    fn smaller(&self) -> Vec<Self> {
        let n = self.ms.len();
        let mut v = Vec::new();
        let mut k = n / 2;
        while k >= 1 && k >= n / 2000 {
            for at in (0..n).step_by(k).take(if n > 3000 { 6 } else { n }) {
                let mut p = self.clone();
                p.ms.drain(at..(at + k).min(n));
                p.values.0.drain(at..(at + k).min(n));
                if !p.ms.is_empty() {
                    v.push(p);
                }
            }
            k /= 2;
        }
        v
    }
}
fn check_pipeline(c: &Pipeline, obs: &mut Obs) -> Res {
    let n = c.ms.len().min(c.values.0.len());
    let (ms, mut values) = (&c.ms[..n], c.values.0[..n].to_vec());
    let mut opts = c.opts.clone();
    opts.comp = opts.comp.map(|k| k % 6); // no rle here
    opts.verbose = false;
    if opts.compressor() == Compressor::Constant {
        values.iter_mut().for_each(|v| *v = c.values.0[0]);
    }
    if opts.compressor() == Compressor::Idw && n > 500 {
        opts.comp = None;
    }
    obs.nontrivial = n > 1;
    obs.class(COMPRESSORS[opts.comp.unwrap_or(0) as usize % 7].0);
    let secs: Vec<i32> = ms.iter().zip(&values).filter(|(_, v)| v.is_finite()).map(|(m, _)| (m / 1000) as i32).collect();
    let finite: Vec<f64> = values.iter().copied().filter(|v| v.is_finite()).collect();
    let dir = Scratch::new();
    std::fs::create_dir(dir.path("out")).map_err(|e| e.to_string())?;
    let layout = if c.seed % 5 < 3 { 0 } else { c.seed / 5 % 5 };
    obs.class(["plain columns", "swapped columns", "more columns", "quoted", "CRLF"][layout as usize]);
    let mut text = String::from(["timestamp,value\n", "value,timestamp\n", "host,timestamp,time,value,unit\n", "\"timestamp\",\"value\"\n", "timestamp,value\r\n"][layout as usize]);
    for (m, v) in ms.iter().zip(&values) {
        let (t, v) = (c.day * 86_400_000 + m, text_of(*v));
        text += &match layout {
            1 => format!("{v},{t}\n"),
            2 => format!("\"a,\n{v}\",{t},12:00,{v},%\n"),
            3 => format!("\"{t}\",\"{v}\"\n"),
            4 => format!("{t},{v}\r\n"),
            _ => format!("{t},{v}\n"),
        };
    }
    let input = ["in.csv", "in.csv", "d.1/in.csv", "d.1/x.y.csv", "a b.csv", "\u{6e2c}\u{5b9a}.csv", ".in.csv"][(c.seed / 32 % 7) as usize];
    std::fs::create_dir(dir.path("d.1")).map_err(|e| e.to_string())?;
    std::fs::write(dir.path(input), &text).map_err(|e| e.to_string())?;
    let (vsri, wavbrro, compress) = (c.flags & 4 == 0, c.flags & 1 != 0, c.flags & 2 == 0);
    let mut a = opts.to_args();
    if vsri {
        a.push("--output-vsri".into());
    }
    if wavbrro {
        a.push("--output-wavbrro".into());
    }
    if !compress {
        a.push("--no-compression".into());
    }
    let base = [input.trim_end_matches(".csv"), "other", "out/series"][c.place as usize % 3];
    if c.place % 3 != 0 {
        let o = if c.seed % 2 == 0 { base.to_string() } else { format!("{base}.bro") };
        a.extend(if opts.long { args(&["--output", &o]) } else { args(&["-o", &o]) });
    }
    a.push(if c.seed / 128 % 4 == 0 { dir.path(input).to_string_lossy().into_owned() } else { input.into() });
    let mut expect = vec![input.to_string()];
    if compress {
        expect.push(format!("{base}.bro"));
    }
    if vsri {
        expect.push(format!("{base}.vsri"));
    }
    if wavbrro {
        expect.push(format!("{base}.wavbro"));
    }
    for (i, f) in expect.iter().enumerate().skip(1) {
        leave_stale(&dir.path(f), c.seed ^ (i as u64) << 40, obs)?;
    }
    expect.sort();
    run_to_success("csv-compressor", &a, dir.dir())?;
    let after = listing(dir.dir());
    if names_of(&after) != expect {
        return Err(format!("csv-compressor {a:?} leaves {:?}, expected {expect:?}", names_of(&after)));
    }
    if after[input] != text.as_bytes() {
        return Err(format!("csv-compressor {a:?} changes its input"));
    }
    if wavbrro {
        let got = read_wbro(&dir.path(&format!("{base}.wavbro")))?;
        if let Some(d) = bit_diff(&finite, &got) {
            return Err(format!("csv-compressor {a:?}, WBRO output: {d}"));
        }
    }
    if vsri {
        let p = dir.path(&format!("{base}.vsri"));
        let v = guarded("load", || vsri::Vsri::load(p.to_str().unwrap()).map_err(|e| e.to_string()))??;
        let got = guarded("get_all_timestamps", || v.get_all_timestamps())?;
        if got != secs {
            let i = got.iter().zip(&secs).position(|(a, b)| a != b).unwrap_or(got.len().min(secs.len()));
            return Err(format!("csv-compressor {a:?}, index: {} timestamps of {}, number {i} is {:?}, expected {:?}", got.len(), secs.len(), got.get(i), secs.get(i)));
        }
    }
    if !compress || !vsri || finite.is_empty() {
        return Ok(());
    }
    obs.class("restored");
    let (u, target) = match c.seed % 3 {
        0 => (args(&["-u", &format!("{base}.bro")]), base.to_string()),
        1 => (args(&["-u", "-o", "out/back", &format!("{base}.bro")]), "out/back".to_string()),
        _ => (args(&[&format!("{base}.bro"), "-u", "--output-csv", "--output=back.csv"]), "back".to_string()),
    };
    for (i, e) in ["wbro", "csv"].iter().enumerate() {
        let p = dir.path(&format!("{target}.{e}"));
        if !p.exists() {
            leave_stale(&p, c.seed ^ (i as u64 + 9) << 40, obs)?;
        }
    }
    run_to_success("csv-compressor", &u, dir.dir())?;
    let end = listing(dir.dir());
    let mut names: Vec<String> = after.keys().cloned().chain([format!("{target}.wbro"), format!("{target}.csv")]).collect();
    names.sort();
    names.dedup();
    if names_of(&end) != names {
        return Err(format!("csv-compressor {u:?} leaves {:?}, expected {names:?}", names_of(&end)));
    }
    for (f, b) in &after {
        if *f != format!("{target}.csv") && end[f] != *b {
            return Err(format!("csv-compressor {u:?} changes {f}"));
        }
    }
    let wb = read_wbro(&dir.path(&format!("{target}.wbro")))?;
    opts.judge(&finite, &wb, 5, obs).map_err(|e| format!("csv-compressor {a:?}: {e}"))?;
    let text = String::from_utf8(end[&format!("{target}.csv")].clone()).map_err(|e| e.to_string())?;
    let mut lines = text.lines();
    if lines.next() != Some("timestamp,value") {
        return Err(format!("the restored CSV starts with {:?}", text.lines().next()));
    }
    let rows: Vec<(i64, f64)> = lines
        .map(|l| {
            let (t, v) = l.split_once(',').ok_or(format!("restored row {l:?}"))?;
            Ok((t.parse().map_err(|_| format!("restored row {l:?}"))?, v.parse().map_err(|_| format!("restored row {l:?}"))?))
        })
        .collect::<Result<_, String>>()?;
    if rows.len() != secs.len() {
        return Err(format!("csv-compressor {a:?}: {} rows restored of {}", rows.len(), secs.len()));
    }
    for (i, r) in rows.iter().enumerate() {
        if r.0 != secs[i] as i64 {
            return Err(format!("csv-compressor {a:?}: row {i} restored at {}, was at second {}", r.0, secs[i]));
        }
        if r.1 != wb[i] {
            return Err(format!("csv-compressor {a:?}: row {i} restored as {}, the samples hold {}", r.1, wb[i]));
        }
    }
    Ok(())
}
fn day_ms(max: usize) -> BoxedStrategy<Vec<i64>> {
    let step = prop_oneof![3 => proptest::sample::select(vec![1000i64, 2000, 5000, 10000, 15000, 30000, 60000]), 1 => 1i64..3000, 1 => proptest::sample::select(vec![100i64, 250, 500, 999, 1001, 1])];
    let bit = (step, prop_oneof![Just(0i64), 1i64..120_000, proptest::sample::select(vec![1000i64, 30000, 60000])], prop_oneof![2 => 1usize..6, 2 => 1usize..60, 1 => 1usize..max.max(2)]);
    (prop_oneof![2 => 0i64..60_000, 2 => 0i64..80_000_000, 1 => 86_000_000i64..86_400_000], proptest::collection::vec(bit, 1..7), prop_oneof![4 => Just(0i64), 1 => 1i64..999])
        .prop_map(move |(start, bits, jitter)| {
            let mut t = (start + jitter).min(86_399_999);
            let mut v = vec![t];
            'all: for (step, gap, count) in bits {
                t += gap.max(1) * (gap > 0) as i64;
                for _ in 0..count {
                    t += step;
                    if t >= 86_400_000 || v.len() >= max {
                        break 'all;
                    }
                    v.push(t);
                }
            }
            v
        })
        .boxed()
}
fn whole_day() -> BoxedStrategy<Vec<i64>> {
    (prop_oneof![Just(1000i64), Just(500i64), 400i64..1500], 0i64..2000, prop_oneof![Just(0i64), 0i64..20_000_000], prop_oneof![Just(200_000usize), 60_000usize..180_000])
        .prop_map(|(step, start, gap, max)| {
            let v: Vec<i64> = (0..).map(|i| start + i * step + if i > 40_000 { gap } else { 0 }).take_while(|t| *t < 86_400_000).take(max).collect();
            v
        })
        .boxed()
}
fn pipeline(dom: Domain, max: usize) -> BoxedStrategy<Pipeline> {
    pipeline_of(day_ms(max), dom)
}
fn pipeline_of(ms: BoxedStrategy<Vec<i64>>, dom: Domain) -> BoxedStrategy<Pipeline> {
    (ms, prop_oneof![1 => Just(0i64), 4 => 0i64..30000, 1 => -20000i64..0], options(6), prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => 0u8..8], 0u8..3, any::<u64>())
        .prop_flat_map(move |(ms, day, opts, flags, place, seed)| {
            let n = ms.len();
            (dirty_rarely(series(dom, Len::Range(n, n))), Just(ms), Just((day, opts, flags, place, seed)))
        })
        .prop_map(|(values, ms, (day, opts, flags, place, seed))| Pipeline { values, ms, day, opts, flags, place, seed })
        .boxed()
}
fn dirty_rarely(s: BoxedStrategy<Series>) -> BoxedStrategy<Series> {
    prop_oneof![5 => s.clone(), 1 => dirty(s)].boxed()
}
pub fn c22() -> Vec<Part> {
    vec![
        part("pipelines", "CSV to index, WBRO and compressed file and back, all options and output places; non-trivial: two rows or more", (1500, 25000),
            || prop_oneof![2 => pipeline(Domain::F32, 200), 2 => pipeline(Domain::Tame, 400)], check_pipeline),
        part("long", "as above with up to 5000 rows", (200, 4000), || pipeline(Domain::Tame, 5000), check_pipeline),
        part("whole-days", "as above, one or two samples in every second of up to a day", (3, 60), || pipeline_of(whole_day(), Domain::Tame), check_pipeline),
    ]
}

// ---------------------------------------------------------------- C25

/// Input csv-compressor can not work with
fn check_unfit(c: &Bad, obs: &mut Obs) -> Res {
    obs.nontrivial = true;
    let d = &c.data.0;
    let n = d.len();
    let dir = Scratch::new();
    let write = |n: &str, b: &[u8]| std::fs::write(dir.path(n), b).map_err(|e| e.to_string());
    let (k, cut) = (c.seed as usize, c.cut);
    let at = cut % (n + 1);
    let ts = |i: usize| 86_400_000i64 * 19000 + 1000 * (i as i64 + 5);
    let good = |i: usize| format!("{},{}\n", ts(i), text_of(d[i]));
    // all rows with another one put before row `at`
    let with_row = |header: &str, row: &[u8]| {
        let mut v = header.as_bytes().to_vec();
        for i in 0..n {
            if i == at {
                v.extend(row);
            }
            v.extend(good(i).bytes());
        }
        if at == n {
            v.extend(row);
        }
        v
    };
    let mut must_fail = true;
    let mut unpack = false;
    let what = match c.kind % 10 {
        0 => {
            write("in.csv", &with_row("timestamp,value\n", b""))?;
            "option out of range"
        }
        1 => "missing input",
        2 => {
            let t = ts(at.max(1) - 1);
            let row: Vec<u8> = match k % 11 {
                0 => format!("{t},abc\n").into(),
                1 => format!("{t}\n").into(),
                2 => format!("{t},1,2\n").into(),
                3 => format!("{t},\n").into(),
                4 => format!("{t},1.2.3\n").into(),
                5 => format!("{t}.5,1\n").into(),
                6 => b"now,1\n".to_vec(),
                7 => b",1\n".to_vec(),
                8 => b"99999999999999999999,1\n".to_vec(),
                9 => format!("{t},1_000\n").into(),
                _ => [t.to_string().as_bytes(), b",1\xff\xfe\n"].concat(),
            };
            write("in.csv", &with_row("timestamp,value\n", &row))?;
            "malformed row"
        }
        3 => {
            let h = ["time,value\n", "timestamp,values\n", "Timestamp,value\n", "timestamp,VALUE\n", "timestamp, value\n", "a,b\n"][k % 6];
            write("in.csv", &with_row(h, if n == 0 { b"1000,1\n" } else { b"" }))?;
            "missing column"
        }
        4 => {
            // a row from the past, one second or more
            if n == 0 {
                return Ok(());
            }
            let i = at.max(1);
            let back = 1 + mix(c.seed) as i64 % (ts(i - 1) % 86_400_000 / 1000).max(1);
            let row = format!("{},7.5\n", ts(i - 1) - back.abs().max(1) * 1000);
            let mut v = b"timestamp,value\n".to_vec();
            for j in 0..n {
                if j == i {
                    v.extend(row.bytes());
                }
                v.extend(good(j).bytes());
            }
            if i == n {
                v.extend(row.bytes());
            }
            write("in.csv", &v)?;
            "a timestamp in the past"
        }
        5 => {
            unpack = true;
            let b = bro_bytes(d)?;
            write("in.bro", &b[..cut % b.len()])?;
            "truncated"
        }
        6 => {
            unpack = true;
            let mut b = bro_bytes(d)?;
            b[4..8].copy_from_slice(&[2u32, 3, 256, 1 << 16, u32::MAX][k % 5].to_le_bytes());
            write("in.bro", &b)?;
            "newer version"
        }
        7 => {
            unpack = true;
            must_fail = false;
            write("in.bro", &match k % 3 {
                0 => wbro_bytes(d)?,
                1 => csv_text(d).into_bytes(),
                _ => foreign_bytes(cut as u64),
            })?;
            "a file of another kind"
        }
        8 => {
            unpack = true;
            write("in.bro", &bro_bytes(d)?)?;
            "no index"
        }
        _ => {
            unpack = true;
            write("in.bro", &bro_bytes(d)?)?;
            let rows = format!("1,0,5,{n}\n");
            write("in.vsri", &match k % 5 {
                0 => b"BRRO\x01\0\0\0".to_vec(),
                1 => b"x\n9\n".to_vec(),
                2 => format!("5\nlast\n{rows}").into_bytes(),
                3 => format!("5\n9\n1,0,5\n{rows}").into_bytes(),
                _ => format!("5\n9\n1;0;5;{n}\n").into_bytes(),
            })?;
            "unreadable index"
        }
    };
    let mut a = if unpack { args(&["-u", "in.bro"]) } else { args(&["in.csv", "--output-vsri", "--output-wavbrro"]) };
    match c.kind % 10 {
        0 => a.extend(args([&["-e", "51"][..], &["-e", "255"], &["--error=100"], &["-e", "2.5"], &["-c", "7"], &["-c", "9"], &["--compressor", "zip"], &["--nothing"]][k % 8])),
        1 => a = args([&["in.csv"][..], &["-u", "in.bro"], &[], &["."], &["-u", "."], &["no/such/in.csv", "--output-vsri"]][k % 6]),
        _ if !unpack && k % 2 == 0 => a.truncate(1),
        _ => {}
    }
    if cut % 4 == 0 && !a.is_empty() {
        a.push("--output=res".into());
    }
    obs.class(what);
    if c.kind % 10 != 1 {
        for (i, f) in ["in.bro", "in.wbro", "in.wavbro", "in.csv", "res.wbro", "res.csv", "res.bro", "res.vsri"].iter().enumerate() {
            if !dir.path(f).exists() {
                leave_stale(&dir.path(f), c.seed ^ (cut as u64) << 8 ^ (i as u64) << 50, obs)?;
            }
        }
    }
    let before = listing(dir.dir());
    let ok = run("csv-compressor", &a, dir.dir())?;
    let after = listing(dir.dir());
    if let Some(f) = after.keys().chain(before.keys()).find(|f| after.get(*f) != before.get(*f)) {
        return Err(format!("{what}: csv-compressor {a:?} touches {f}"));
    }
    if ok && must_fail {
        return Err(format!("{what}: csv-compressor {a:?} succeeds"));
    }
    Ok(())
}
pub fn c25() -> Vec<Part> {
    vec![
        part("failures", "options out of range, missing and malformed input, missing columns, timestamps in the past, truncated, newer and foreign files, missing and unreadable indexes; all non-trivial", (4000, 80000),
            || (prop_oneof![3 => series(Domain::Tame, Len::Range(1, 60)), 1 => series(Domain::Tame, Len::Range(500, 1500)), 1 => Just(Series(vec![]))], 0u8..10, any::<usize>(), any::<u64>())
                .prop_map(|(data, kind, cut, seed)| Bad { data, kind, cut, seed }), check_unfit),
    ]
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wav {
    pub data: Series,
    /// 0 plain format chunk, 1 extensible, 2 plain and another chunk before the samples
    pub layout: u8,
    pub rate: u32,
    pub sub: bool,
    /// bytes of a file that is no WAV
    pub foreign: Option<Vec<u8>>,
}
impl Case for Wav {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Wav { data, ..self.clone() }).collect()
    }
}
fn wav_bytes(c: &Wav) -> Vec<u8> {
    let mut fmt: Vec<u8> = Vec::new();
    let tag: u16 = if c.layout % 3 == 1 { 0xfffe } else { 1 };
    fmt.extend(tag.to_le_bytes());
    fmt.extend(4u16.to_le_bytes());
    fmt.extend(c.rate.to_le_bytes());
    fmt.extend((c.rate * 8).to_le_bytes());
    fmt.extend(8u16.to_le_bytes());
    fmt.extend(16u16.to_le_bytes());
    if c.layout % 3 == 1 {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend(16u16.to_le_bytes());
        fmt.extend(0xfu32.to_le_bytes());
        fmt.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    }
    let mut body = b"WAVE".to_vec();
    let mut chunk = |id: &[u8; 4], d: &[u8]| {
        body.extend(id);
        body.extend((d.len() as u32).to_le_bytes());
        body.extend(d);
    };
    chunk(b"fmt ", &fmt);
    if c.layout % 3 == 2 {
        chunk(b"LIST", b"INFOIART\x04\0\0\0abcd");
    }
    chunk(b"data", &c.data.0.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect::<Vec<u8>>());
    let mut out = b"RIFF".to_vec();
    out.extend((body.len() as u32).to_le_bytes());
    out.extend(body);
    out
}
fn check_wav(c: &Wav, obs: &mut Obs) -> Res {
    let dir = Scratch::new();
    let (mut with_option, mut any_nan) = (mix(c.rate as u64) % 3 == 0, true);
    let mut c = c.clone();
    if with_option && mix(c.rate as u64 ^ 5) % 2 == 0 {
        c.data.0.retain(|x| !x.is_nan());
    }
    any_nan &= c.data.0.iter().any(|x| x.is_nan());
    with_option &= c.foreign.is_none() || c.rate % 2 == 0;
    let c = &c;
    let at = if c.sub { ["sub/metric.1", "my.wavs/metric", "wav/wav-1", "a b/.wav.x"][c.rate as usize % 4] } else { ["metric", "wave", "x.wav.2", "UP"][c.rate as usize % 4] };
    let name = &format!("{at}.wav");
    if let Some((d, _)) = at.split_once('/') {
        std::fs::create_dir(dir.path(d)).map_err(|e| e.to_string())?;
    }
    let old = stale(c.rate as u64 / 4);
    if let Some(b) = &old {
        obs.class("over an old output");
        std::fs::write(dir.path(&format!("{at}.wbro")), b).map_err(|e| e.to_string())?;
    }
    let bytes = c.foreign.clone().unwrap_or_else(|| wav_bytes(c));
    std::fs::write(dir.path(name), &bytes).map_err(|e| e.to_string())?;
    let (mut ok, mut printed) = (false, String::new());
    if with_option {
        obs.class("--validate");
        let out = Scratch::new();
        let a = if c.rate / 8 % 2 == 0 { args(&[name, "--validate"]) } else { args(&["--validate", name]) };
        ok |= run_limited("wav2wbro", &a, dir.dir(), None, Some(&out.path("printed")))?;
        printed = std::fs::read_to_string(out.path("printed")).unwrap_or_default();
    } else {
        ok |= run("wav2wbro", &args(&[name]), dir.dir())?;
    }
    let after = listing(dir.dir());
    if after.get(name) != Some(&bytes) {
        return Err("wav2wbro changes its input".into());
    }
    if let Some(f) = &c.foreign {
        obs.nontrivial = true;
        obs.class("foreign");
        let kept = after.get(&format!("{at}.wbro")) == old.as_ref();
        if ok || !kept || after.len() != 1 + old.is_some() as usize {
            return Err(format!("a file of {} bytes starting with {:?} that is no WAV or cut short: success {ok}, files {:?}", f.len(), &f[..f.len().min(12)], names_of(&after)));
        }
        return Ok(());
    }
    let want: Vec<f64> = c.data.0.iter().copied().filter(|x| !x.is_nan()).collect();
    obs.nontrivial = want.len() > 1;
    obs.class(["plain", "extensible", "extra chunk"][c.layout as usize % 3]);
    if want.len() < c.data.0.len() {
        obs.class("with NaN");
    }
    let out = format!("{at}.wbro");
    if with_option {
        if ok == any_nan {
            return Err(format!("wav2wbro --validate of {} samples, {} of them NaN: success {ok}", c.data.0.len(), c.data.0.len() - want.len()));
        }
        if ok && printed.contains("match") {
            return Err(format!("wav2wbro --validate of {} samples, none of them NaN, prints {printed:?}", c.data.0.len()));
        }
        ok = true;
    }
    if !ok || after.len() != 2 || !after.contains_key(&out) {
        return Err(format!("wav2wbro of {} samples: success {ok}, files {:?}", c.data.0.len(), names_of(&after)));
    }
    let got = read_wbro(&dir.path(&out))?;
    if let Some(d) = bit_diff(&want, &got) {
        return Err(format!("converted WAV of {} samples: {d}", c.data.0.len()));
    }
    Ok(())
}
pub fn c23() -> Vec<Part> {
    let wav = |s: BoxedStrategy<Series>| (s, 0u8..3, prop_oneof![Just(8000u32), 1u32..48000], any::<bool>()).prop_map(|(data, layout, rate, sub)| Wav { data, layout, rate, sub, foreign: None });
    vec![
        part("files", "any bit patterns as 4-channel 16 bit WAV; non-trivial: two samples or more that are not NaN", (4000, 80000), move || wav(crate::props_format::wide_samples(3)), check_wav),
        part("long", "as above, up to 40 chunks of 2048", (300, 5000), move || wav(crate::props_format::wide_samples(40)), check_wav),
        part("longest", "as above, up to 300 chunks", (6, 100), move || wav(crate::props_format::wide_samples_of((60000usize..620_000).boxed())), check_wav),
        part("damaged", "WAV files cut short at any point; all non-trivial", (1500, 25000), move || (wav(prop_oneof![3 => crate::props_format::wide_samples(1), 1 => crate::props_format::wide_samples(3)].boxed()), any::<u32>()).prop_map(|(mut w, at)| {
            if w.data.0.is_empty() {
                w.data.0.push(1.5);
            }
            let b = wav_bytes(&w);
            // nearer to the beginning half of the time
            let n = if at % 2 == 0 { b.len().min(120) } else { b.len() };
            w.foreign = Some(b[..(at as usize / 2) % n].to_vec());
            w
        }), check_wav),
        part("foreign", "files that are no WAV; all non-trivial", (1500, 20000),
            || (prop_oneof![
                    2 => any::<u64>().prop_map(foreign_bytes),
                    1 => proptest::collection::vec(any::<u8>(), 0..64),
                    1 => (proptest::collection::vec(any::<u8>(), 0..64), 0usize..8, 1u8..=255).prop_map(|(t, i, x)| { let mut b = b"RIFF\x24\0\0\0WAVEfmt ".to_vec(); b[if i < 4 { i } else { i + 4 }] ^= x; b.extend(t); b })], any::<bool>())
                .prop_map(|(b, sub)| {
                    // cut what would be a WAV after all
                    let b = if b.len() >= 12 && &b[..4] == b"RIFF" && &b[8..12] == b"WAVE" { b[..11].to_vec() } else { b };
                    Wav { data: Series(vec![]), layout: 0, rate: 8000 + b.len() as u32, sub, foreign: Some(b) }
                }), check_wav),
    ]
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Full {
    pub data: Series,
    /// what is run
    pub job: u8,
    /// what fails
    pub fault: u8,
    pub opts: Options,
    pub at: u32,
    pub seed: u64,
}
impl Case for Full {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.data.smaller().into_iter().filter(|d| !d.0.is_empty()).map(|data| Full { data, ..self.clone() }).collect();
        if self.opts.comp.is_some() {
            v.push(Full { opts: Options { comp: None, ..self.opts.clone() }, ..self.clone() });
        }
        v
    }
}
/// A tool that can not write its whole output says so
fn check_full(c: &Full, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let mut opts = c.opts.clone();
    opts.verbose = false;
    if matches!(opts.compressor(), Compressor::Constant) || (opts.compressor() == Compressor::Idw && d.len() > 500) {
        opts.comp = None;
    }
    let ts = |i: usize| 86_400_000i64 * 19000 + 1000 * (i as i64 + if d.len() > 10000 { 0 } else { (c.seed % 40) as i64 * (i as i64 / 7) });
    let csv: String = d.iter().enumerate().fold("timestamp,value\n".into(), |s, (i, v)| s + &format!("{},{}\n", ts(i), text_of(*v)));
    let (name, inputs, a, outputs): (&str, Vec<(&str, Vec<u8>)>, Vec<String>, Vec<&str>) = match c.job % 6 {
        0 => ("atsc", vec![("in.wbro", wbro_bytes(d)?)], [opts.to_args(), args(&["in.wbro"])].concat(), vec!["in.bro"]),
        1 => ("atsc", vec![("in.csv", csv.replace("timestamp", "time").into_bytes())], [opts.to_args(), args(&["--csv", "in.csv"])].concat(), vec!["in.bro"]),
        2 => ("atsc", vec![("in.bro", bro_bytes(d)?)], args(&["-u", "in.bro"]), vec!["in.wbro"]),
        3 => {
            opts.comp = opts.comp.map(|k| k % 6).filter(|k| *k != 3);
            let (mut a, mut o) = (opts.to_args(), vec![]);
            if c.seed & 1 == 0 {
                a.push("--output-vsri".into());
                o.push("in.vsri");
            }
            if c.seed & 2 == 0 || o.is_empty() && c.seed & 4 == 0 {
                a.push("--output-wavbrro".into());
                o.push("in.wavbro");
            }
            if c.seed & 4 == 0 && !o.is_empty() {
                a.push("--no-compression".into());
            } else {
                o.push("in.bro");
            }
            a.push("in.csv".into());
            ("csv-compressor", vec![("in.csv", csv.into_bytes())], a, o)
        }
        4 => {
            let mut v = vsri::Vsri::new("unused");
            for i in 0..d.len() {
                guarded("update_for_point", || v.update_for_point((ts(i).rem_euclid(86_400_000) / 1000) as i32).map_err(|_| "refused"))??;
            }
            let dir = Scratch::new();
            let p = dir.path("x.vsri");
            guarded("flush_to", || v.flush_to(&p).map_err(|e| e.to_string()))??;
            let index = std::fs::read(&p).map_err(|e| e.to_string())?;
            ("csv-compressor", vec![("in.bro", bro_bytes(d)?), ("in.vsri", index)], args(&["-u", "in.bro"]), vec!["in.wbro", "in.csv"])
        }
        _ => ("wav2wbro", vec![("in.wav", wav_bytes(&Wav { data: c.data.clone(), layout: 0, rate: 8000, sub: false, foreign: None }))], args(&["in.wav"]), vec!["in.wbro"]),
    };
    obs.class(["atsc WBRO", "atsc CSV", "atsc -u", "csv-compressor", "csv-compressor -u", "wav2wbro"][c.job as usize % 6]);
    let make = || -> Result<Scratch, String> {
        let dir = Scratch::new();
        for (n, b) in &inputs {
            std::fs::write(dir.path(n), b).map_err(|e| e.to_string())?;
        }
        Ok(dir)
    };
    // what is written when nothing fails
    let whole = make()?;
    run_to_success(name, &a, whole.dir())?;
    let want = listing(whole.dir());
    if let Some(o) = outputs.iter().find(|o| !want.contains_key(**o)) {
        return Err(format!("{name} {a:?} does not write {o}"));
    }
    let dir = make()?;
    let victim = outputs[c.seed as usize / 64 % outputs.len()];
    let mut limit = None;
    let what;
    match c.fault % 4 {
        0 | 1 => {
            // around the sizes of the outputs, or anywhere below
            let n = want[victim].len() as u64;
            let max = outputs.iter().map(|o| want[*o].len() as u64).max().unwrap_or(0);
            let l = match c.at % 4 {
                0 => (n + u64::from(c.at / 4 % 5)).saturating_sub(2),
                1 => u64::from(c.at / 4) % (n + 1),
                2 => (max + u64::from(c.at / 4 % 3)).saturating_sub(1),
                _ => u64::from(c.at / 4) % (max + 1),
            };
            limit = Some((l, c.fault % 4 == 1));
            what = format!("with room for {l} bytes in a file");
            obs.class(if max <= l { "room enough" } else { "no room" });
            obs.nontrivial = max > l;
        }
        2 => {
            std::os::unix::fs::symlink("/dev/full", dir.path(victim)).map_err(|e| e.to_string())?;
            what = format!("with {victim} on a full device");
            obs.class("full device");
            obs.nontrivial = true;
        }
        _ => {
            std::fs::create_dir(dir.path(victim)).map_err(|e| e.to_string())?;
            what = format!("with a directory at {victim}");
            obs.class("a directory in the way");
            obs.nontrivial = true;
        }
    }
    let ok = run_limited(name, &a, dir.dir(), limit, None)?;
    let sizes: Vec<(&str, usize)> = outputs.iter().map(|o| (*o, want[*o].len())).collect();
    for (n, b) in &inputs {
        if !outputs.contains(n) && std::fs::read(dir.path(n)).ok().as_ref() != Some(b) {
            return Err(format!("{name} {a:?} {what} changes {n}"));
        }
    }
    if ok {
        for o in &outputs {
            // (what went to the device is not read back: it never ends)
            let p = dir.path(o);
            let got = if p.is_file() { std::fs::read(&p).ok() } else { None };
            if got.as_ref() != Some(&want[*o]) {
                return Err(format!("{name} {a:?} {what} succeeds, but {o} has {:?} bytes of {} (outputs {sizes:?})", got.map(|g| g.len()), want[*o].len()));
            }
        }
    } else if !obs.nontrivial {
        return Err(format!("{name} {a:?} {what} fails, outputs {sizes:?}"));
    }
    Ok(())
}
pub fn c26() -> Vec<Part> {
    let full = |s: BoxedStrategy<Series>| (s, 0u8..6, 0u8..4, options(7), any::<u32>(), any::<u64>()).prop_map(|(data, job, fault, opts, at, seed)| Full { data, job, fault, opts, at, seed });
    vec![
        part("short", "series of up to 200 samples; non-trivial: an output can not be written completely", (1500, 25000), move || full(series(Domain::Tame, Len::Range(1, 200))), check_full),
        part("long", "as above with up to 6000 samples", (250, 4000), move || full(series(Domain::Tame, Len::Range(1000, 6000))), check_full),
        part("longest", "as above with up to 80000 samples", (4, 80), move || full(series(Domain::Tame, Len::Range(20000, 80000))), check_full),
    ]
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dump {
    pub data: Series,
    /// 0 WBRO, 1 CSV, 2 CSV without header, 3 decompression
    pub job: u8,
    pub opts: Options,
    pub seed: u64,
}
impl Case for Dump {
    fn smaller(&self) -> Vec<Self> {
        self.data.smaller().into_iter().map(|data| Dump { data, ..self.clone() }).collect()
    }
}
/// The samples a run prints
fn check_dump(c: &Dump, obs: &mut Obs) -> Res {
    let d = &c.data.0;
    let mut opts = c.opts.clone();
    opts.verbose = false;
    if matches!(opts.compressor(), Compressor::Constant) || (opts.compressor() == Compressor::Idw && d.len() > 500) {
        opts.comp = None;
    }
    obs.nontrivial = d.len() > 1;
    obs.class(["WBRO", "CSV", "CSV without header", "decompression"][c.job as usize % 4]);
    let rows = |head: &str, time: bool| d.iter().enumerate().fold(head.to_string(), |s, (i, v)| if time { s + &format!("{i},{}\n", text_of(*v)) } else { s + &format!("{}\n", text_of(*v)) });
    let (input, bytes, mut a, label) = match c.job % 4 {
        0 => ("in.wbro", wbro_bytes(d)?, opts.to_args(), "Input"),
        1 => ("in.csv", rows("time,value\n", true).into_bytes(), [opts.to_args(), args(&["--csv"])].concat(), "Input"),
        2 => ("in.csv", rows("", false).into_bytes(), [opts.to_args(), args(&["--csv", "--no-header"])].concat(), "Input"),
        _ => {
            let clean: Vec<f64> = d.iter().copied().filter(|x| x.is_finite()).collect();
            ("in.bro", bro_bytes(&clean)?, args(&["-u"]), "Output")
        }
    };
    let output = if c.job % 4 == 3 { "in.wbro" } else { "in.bro" };
    let at = c.seed as usize % (a.len() + 1);
    a.push(input.into());
    let (quiet, loud, printed) = (Scratch::new(), Scratch::new(), Scratch::new());
    for dir in [&quiet, &loud] {
        std::fs::write(dir.path(input), &bytes).map_err(|e| e.to_string())?;
    }
    run_to_success("atsc", &a, quiet.dir())?;
    // not between an option and its value
    let at = if at > 0 && a[at - 1].starts_with('-') && !a[at - 1].contains('=') { 0 } else { at };
    a.insert(at, "--verbose".into());
    if !run_limited("atsc", &a, loud.dir(), None, Some(&printed.path("out")))? {
        return Err(format!("atsc {a:?} fails"));
    }
    let (quiet, loud) = (listing(quiet.dir()), listing(loud.dir()));
    if quiet != loud {
        return Err(format!("atsc {a:?} leaves {:?}, without --verbose {:?} (or other contents)", names_of(&loud), names_of(&quiet)));
    }
    let text = std::fs::read_to_string(printed.path("out")).map_err(|e| e.to_string())?;
    let lists: Vec<&str> = text.split(&format!("{label}=[")).skip(1).collect();
    if lists.len() != 1 {
        return Err(format!("atsc {a:?} prints {} lists of samples", lists.len()));
    }
    let list = lists[0].split(']').next().unwrap_or("");
    let got: Vec<f64> = list.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| format!("atsc {a:?} prints the sample {x:?}"))).collect::<Result<_, String>>()?;
    let want = if label == "Input" {
        d.clone()
    } else {
        let dir = Scratch::new();
        std::fs::write(dir.path("x"), &loud[output]).map_err(|e| e.to_string())?;
        read_wbro(&dir.path("x"))?
    };
    if got.len() != want.len() {
        return Err(format!("atsc {a:?} prints {} samples of {}", got.len(), want.len()));
    }
    match got.iter().zip(&want).position(|(g, w)| g != w && !(g.is_nan() && w.is_nan())) {
        Some(i) => Err(format!("atsc {a:?} prints sample {i} as {}, it is {}", got[i], want[i])),
        None => Ok(()),
    }
}
pub fn c27() -> Vec<Part> {
    let dump = |s: BoxedStrategy<Series>| (s, 0u8..4, options(7), any::<u64>()).prop_map(|(data, job, opts, seed)| Dump { data, job, opts, seed });
    vec![
        part("any-values", "series of any magnitude, NaN and infinities; non-trivial: two samples or more", (1200, 20000), move || dump(prop_oneof![
            3 => dirty(series(Domain::F32, Len::Range(1, 300))),
            1 => dirty(series(Domain::Any, Len::Range(1, 100))),
            1 => dirty(series(Domain::WideInts, Len::Range(1, 60)))].boxed()), check_dump),
        part("several-frames", "as above, up to 3000 samples", (300, 5000), move || dump(dirty(series(Domain::Tame, Len::Range(500, 3000)))), check_dump),
        part("long", "as above, up to 150000 samples", (4, 80), move || dump(dirty(series(Domain::Tame, Len::Range(20000, 150000)))), check_dump),
    ]
}
