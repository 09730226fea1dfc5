//! C19: CSV input.
use crate::engine::*;
use crate::gen::*;
use crate::scratch::Scratch;
use atsc::csv::{read_samples, read_samples_with_headers, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    pub values: Series,
    pub columns: usize,
    pub value_at: usize,
    pub time_at: usize,
    pub time_name: String,
    pub value_name: String,
    pub seed: u64,
    /// 0: \n, 1: \r\n, 2: \r
    pub eol: u8,
    pub final_eol: bool,
    pub header: bool,
    /// what is wrong with the file
    pub fault: u8,
    pub fault_at: usize,
}
impl Case for Table {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = self.values.smaller().into_iter().map(|values| Table { values, ..self.clone() }).collect();
        if self.eol != 0 {
            v.push(Table { eol: 0, ..self.clone() });
        }
        if self.columns > 2 {
            v.push(Table { columns: self.columns - 1, ..self.clone() });
        }
        v
    }
}
const FAULTS: [&str; 12] = [
    "none", "none", "none", "none", "not a number", "row too short", "row too long", "invalid utf-8", "no value column", "no time column", "empty value", "missing file",
];
/// A way to write exactly this number
fn notation(v: f64, k: u64) -> String {
    if v.is_nan() {
        return ["NaN", "nan", "NAN"][k as usize % 3].into();
    }
    if v.is_infinite() {
        let s = ["inf", "Infinity", "INF", "infinity"][k as usize % 4];
        return format!("{}{s}", if v < 0.0 { "-" } else if k % 2 == 0 { "" } else { "+" });
    }
    match k % 8 {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 if v >= 0.0 && v.is_sign_positive() => format!("+{v}"),
        3 if v == v.trunc() && v.abs() < 1e15 => format!("{v:.3}"),
        4 if v == v.trunc() && v.abs() < 1e15 => format!("{v:.0}."),
        5 if v.abs() < 1.0 && v.abs() > 1e-10 => format!("{v}").replacen("0.", ".", 1),
        6 if v.is_sign_positive() && v.abs() < 1e15 => format!("000{v}"),
        7 => format!("{v:?}"),
        _ => format!("{v}"),
    }
}
const TEXTS: [&str; 21] = [LONG_TEXT, "# note", "#", "//", "'x'", "\tq", "%", "", "a", "12.5", "hello world", "a,b", "say \"hi\"", "two\nlines", "ünïcödé", "x;y", " 7 ", "-", "NaN", "\"", "1e5"];
/// (not often in a table that is not wide)
const LONG_TEXT: &str = concat!("lorem, \"ipsum\" ", "..........0123456789..........0123456789..........0123456789..........0123456789..........0123456789..........0123456789",
    "..........0123456789..........0123456789..........0123456789..........0123456789..........0123456789..........0123456789");
const NOT_NUMBERS: [&str; 14] = ["abc", "1.2.3", "1,5", "--1", "1e", "0x10", "12abc", "e5", "1_000", "1 2", "one", "+-1", ".", "1.5f"];

struct Built {
    bytes: Vec<u8>,
    time: String,
    value: String,
}
fn quote(s: &str, force: bool) -> String {
    if force || s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
/// A name close to this one which is neither it nor the other one
fn near(name: &str, other: &str, k: u64) -> String {
    let n = match k % 10 {
        0 => name.to_uppercase(),
        1 => name.to_lowercase(),
        2 => format!(" {name}"),
        3 => format!("{name} "),
        4 => format!("{name}s"),
        5 => format!("no {name}"),
        6 => name.chars().take(name.chars().count() - 1).collect(),
        7 => name.chars().skip(1).collect(),
        8 => format!("\"{name}\""),
        _ => format!("{name}.1"),
    };
    if n == name || n == other {
        format!("{name}2")
    } else {
        n
    }
}
fn build_table(c: &Table) -> Built {
    let cols = c.columns.max(if c.header { 2 } else { 1 });
    let value_at = if c.header { c.value_at % cols } else { 0 };
    let time_at = if c.header { (value_at + 1 + c.time_at % (cols - 1)) % cols } else { usize::MAX };
    let eol = ["\n", "\r\n", "\r"][c.eol as usize % 3];
    let r = |i: usize, j: usize| mix(c.seed ^ (i as u64) << 20 ^ (j as u64) << 4);
    let fault = FAULTS[c.fault as usize % FAULTS.len()];
    let mut lines: Vec<Vec<u8>> = Vec::new();
    if c.header {
        let names: Vec<String> = (0..cols)
            .map(|j| {
                let name = if j == value_at && fault == "no value column" {
                    near(&c.value_name, &c.time_name, r(8, j))
                } else if j == time_at && fault == "no time column" {
                    near(&c.time_name, &c.value_name, r(8, j))
                } else if j == value_at {
                    c.value_name.clone()
                } else if j == time_at {
                    c.time_name.clone()
                } else {
                    // close to the real names, but not one of them
                    match r(0, j) % 5 {
                        0 => format!("extra{j}"),
                        1 => String::from("a,b"),
                        2 | 3 => near(&c.value_name, &c.time_name, r(9, j)),
                        _ => near(&c.time_name, &c.value_name, r(9, j)),
                    }
                };
                quote(&name, r(7, j) % 5 == 0)
            })
            .collect();
        lines.push(names.join(",").into_bytes());
    }
    let rows = c.values.0.len();
    let fault_row = if rows == 0 { 0 } else { c.fault_at % rows };
    for (i, v) in c.values.0.iter().enumerate() {
        let mut fields: Vec<Vec<u8>> = (0..cols)
            .map(|j| {
                let s = if j == value_at {
                    let s = notation(*v, r(i + 1, j));
                    quote(&s, r(i, j + 50) % 6 == 0)
                } else if j == time_at {
                    quote(&format!("{}", 1_700_000_000u64 + i as u64), r(i, j + 50) % 6 == 0)
                } else {
                    quote(TEXTS[r(i + 1, j) as usize % TEXTS.len()], r(i, j + 50) % 6 == 0)
                };
                s.into_bytes()
            })
            .collect();
        if i == fault_row {
            match fault {
                "not a number" => fields[value_at] = quote(NOT_NUMBERS[r(3, 3) as usize % NOT_NUMBERS.len()], r(4, 4) % 2 == 0).into_bytes(),
                "empty value" => fields[value_at] = b"\"\"".to_vec(),
                // the first row of a file without header sets the number of columns
                "row too short" if cols > 1 => {
                    fields.pop();
                }
                "row too long" => fields.push(b"1".to_vec()),
                "invalid utf-8" => {
                    let j = r(5, 5) as usize % cols;
                    fields[j] = vec![b'1', 0xff, 0xfe];
                }
                _ => {}
            }
        }
        lines.push(fields.join(&b","[..]));
    }
    let mut bytes = lines.join(eol.as_bytes());
    if c.final_eol && !lines.is_empty() {
        bytes.extend(eol.as_bytes());
    }
    Built { bytes, time: c.time_name.clone(), value: c.value_name.clone() }
}
fn check_table(c: &Table, obs: &mut Obs) -> Res {
    let fault = FAULTS[c.fault as usize % FAULTS.len()];
    let rows = c.values.0.len();
    let cols = c.columns.max(if c.header { 2 } else { 1 });
    let b = build_table(c);
    let dir = Scratch::new();
    let p = dir.path("data.csv");
    if fault != "missing file" {
        std::fs::write(&p, &b.bytes).map_err(|e| e.to_string())?;
    }
    let got = guarded("reading the CSV", || if c.header { read_samples_with_headers(&p, &b.time, &b.value) } else { read_samples(&p) })?;
    obs.nontrivial = rows > 1;
    // which fault is really there
    let fault = match fault {
        "none" | "missing file" => fault,
        "no value column" | "no time column" => if c.header { fault } else { "none" },
        _ if rows == 0 => "none",
        "row too short" if cols == 1 => "none",
        // a ragged only row of a file without header is its first row: nothing to compare it with
        "row too short" | "row too long" if !c.header && rows == 1 => "none",
        f => f,
    };
    obs.class(fault);
    obs.class(if c.header { "header" } else { "no header" });
    let text = || String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(300)]).into_owned();
    let show = |e: &Result<Vec<atsc::csv::Sample>, Error>| match e {
        Ok(v) => format!("{} samples", v.len()),
        Err(e) => format!("error {e:?}"),
    };
    let right = match fault {
        "none" => match &got {
            Ok(v) => {
                let g: Vec<f64> = v.iter().map(|s| s.value).collect();
                if g.len() != rows {
                    return Err(format!("{rows} rows, {} samples read from {:?}", g.len(), text()));
                }
                for i in 0..rows {
                    let (a, b) = (c.values.0[i], g[i]);
                    if !(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())) {
                        return Err(format!("row {i} holds {a:?}, read {b:?} from {:?}", text()));
                    }
                }
                true
            }
            _ => false,
        },
        "missing file" => matches!(got, Err(Error::OpenFileFailed)),
        "not a number" | "empty value" => matches!(got, Err(Error::ParsingValueFailed)),
        "no value column" => matches!(got, Err(Error::ValueFieldNotFound)),
        "no time column" => matches!(got, Err(Error::TimestampFieldNotFound)),
        _ => got.is_err(),
    };
    if !right {
        return Err(format!("{fault}: {} from {:?}", show(&got), text()));
    }
    Ok(())
}
fn names() -> BoxedStrategy<(String, String)> {
    prop_oneof![
        2 => Just(("time".to_string(), "value".to_string())),
        1 => Just(("timestamp".to_string(), "value".to_string())),
        1 => Just(("value".to_string(), "time".to_string())),
        1 => Just(("t".to_string(), "v".to_string())),
        1 => Just(("Time (s)".to_string(), "CPU %".to_string())),
        1 => Just(("zeit, ms".to_string(), "wert \"neu\"".to_string())),
        1 => Just(("时间".to_string(), "值".to_string())),
    ]
    .boxed()
}
fn table(values: BoxedStrategy<Series>) -> BoxedStrategy<Table> {
    table_of(values, prop_oneof![20 => 1usize..6, 1 => 6usize..20].boxed())
}
fn table_of(values: BoxedStrategy<Series>, columns: BoxedStrategy<usize>) -> BoxedStrategy<Table> {
    (values, (columns, 0usize..100_000, 0usize..100_000), names(), any::<u64>(), (0u8..3, any::<bool>(), proptest::bool::weighted(0.7)), (0u8..12, any::<usize>()))
        .prop_map(|(values, (columns, value_at, time_at), (time_name, value_name), seed, (eol, final_eol, header), (fault, fault_at))| Table {
            values, columns, value_at, time_at, time_name, value_name, seed, eol, final_eol, header, fault, fault_at,
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Garbage {
    pub bytes: Vec<u8>,
    pub header: bool,
}
impl Case for Garbage {
    fn smaller(&self) -> Vec<Self> {
        let n = self.bytes.len();
        let mut out = Vec::new();
        let mut k = n / 2;
        while k >= 1 {
            for at in (0..n).step_by(k) {
                let mut b = self.bytes.clone();
                b.drain(at..(at + k).min(n));
                out.push(Garbage { bytes: b, ..self.clone() });
            }
            k /= 2;
        }
        out
    }
}
fn check_garbage(c: &Garbage, obs: &mut Obs) -> Res {
    let dir = Scratch::new();
    let p = dir.path("data.csv");
    std::fs::write(&p, &c.bytes).map_err(|e| e.to_string())?;
    obs.nontrivial = !c.bytes.is_empty();
    let got = guarded("reading the CSV", || if c.header { read_samples_with_headers(&p, "time", "value") } else { read_samples(&p) })
        .map_err(|e| format!("{e} for {:?}", String::from_utf8_lossy(&c.bytes)))?;
    // without quotes the rows are the lines that are not empty
    if let Ok(v) = got {
        obs.class("accepted");
        if !c.bytes.contains(&b'"') {
            let rows = c.bytes.split(|b| *b == b'\n' || *b == b'\r').filter(|l| !l.is_empty()).count() - c.header as usize;
            if v.len() != rows {
                return Err(format!("{rows} rows, {} samples from {:?}", v.len(), String::from_utf8_lossy(&c.bytes)));
            }
        }
    } else {
        obs.class("refused");
    }
    // a directory is not a readable file
    if guarded("directory", || read_samples(dir.dir()).is_ok() || read_samples_with_headers(dir.dir(), "time", "value").is_ok())? {
        return Err("a directory is read as CSV".into());
    }
    Ok(())
}
pub fn c19() -> Vec<Part> {
    let any_values = || proptest::collection::vec(any_bits(), 0..12).prop_map(|v| Series(v.into_iter().map(|x| if x.is_nan() { f64::NAN } else { x }).collect())).boxed();
    vec![
        part("tables", "tables with 1 to 5 columns, quoting, all line ends, number notations, and at most one fault; non-trivial: two rows or more", (60000, 1000000),
            move || table(prop_oneof![2 => any_values(), 2 => series(Domain::Any, Len::Range(1, 30)), 1 => series(Domain::WideInts, Len::Range(1, 30))].boxed()), check_table),
        part("long", "as above with up to 3000 rows", (1500, 20000), move || table(series(Domain::Any, Len::Range(200, 3000))), check_table),
        part("wide", "as above with up to 400 columns", (1500, 20000), move || table_of(series(Domain::Any, Len::Range(1, 12)), prop_oneof![6usize..70, 250usize..260, 100usize..400].boxed()), check_table),
        part("longest", "as above with up to 140000 rows", (3, 60), move || table_of(series(Domain::F32, Len::Range(60000, 140000)), (1usize..4).boxed()), check_table),
        part("garbage", "random text over the characters that matter: no panic, and no row lost without quotes; non-trivial: not empty", (60000, 1000000),
            || (proptest::collection::vec(prop_oneof![
                    6 => proptest::sample::select(b"0123456789.,,\n\n\"-e".to_vec()),
                    1 => any::<u8>()], 0..40), 0u8..3)
                .prop_map(|(bytes, h)| {
                    let mut b = bytes;
                    if h == 2 {
                        let mut w = b"time,value\n".to_vec();
                        w.extend(b);
                        b = w;
                    }
                    Garbage { bytes: b, header: h > 0 }
                }), check_garbage),
    ]
}
