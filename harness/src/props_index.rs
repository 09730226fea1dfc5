//! C16-C18, C31: the VSRI time index, against a plain list of timestamps.
use crate::engine::*;
use crate::gen::*;
use crate::scratch::Scratch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vsri::Vsri;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Times {
    pub ts: Vec<i32>,
    pub seed: u64,
}
impl Case for Times {
    fn smaller(&self) -> Vec<Self> {
        shrink_times(&self.ts).into_iter().map(|ts| Times { ts, ..self.clone() }).collect()
    }
}
fn shrink_times(ts: &[i32]) -> Vec<Vec<i32>> {
    let n = ts.len();
    let mut out = Vec::new();
    let mut k = n / 2;
    while k >= 1 {
        // of long series only some pieces
        for at in (0..n).step_by(k).take(if n > 400 { 24 } else { n }) {
            let mut v = ts.to_vec();
            v.drain(at..(at + k).min(n));
            out.push(v);
        }
        k = if n > 20000 && k < n / 500 { 0 } else { k / 2 };
    }
    if n > 0 && ts[0] > 0 {
        out.push(ts.iter().map(|t| t - ts[0]).collect());
    }
    out
}
#[derive(Clone, Copy, Debug)]
pub struct Bit {
    gap: i32,
    step: i32,
    count: u16,
}
/// The queries go a little past the last timestamp
const TOP: i32 = i32::MAX - 1000;
/// Non-decreasing timestamps: regular stretches, gaps, single points, repeated points
pub fn times(max_bits: usize) -> BoxedStrategy<Times> {
    let step = prop_oneof![
        4 => proptest::sample::select(vec![1i32, 2, 5, 10, 15, 20, 30, 60]),
        1 => Just(0i32),
        2 => 0i32..70,
        1 => 1i32..4000,
    ];
    let gap = prop_oneof![
        3 => proptest::sample::select(vec![0i32, 1, 2, 5, 10, 15, 20, 30, 60, 120]),
        3 => 0i32..100,
        1 => 0i32..5000,
    ];
    let count = prop_oneof![4 => 0u16..5, 3 => 0u16..30, 1 => 0u16..300];
    let bit = (gap, step, count).prop_map(|(gap, step, count)| Bit { gap, step, count });
    // stretches that take over the step of the one before, shifted by a little
    let start = prop_oneof![3 => 0i32..200, 2 => 0i32..86400, 1 => Just(0i32), 1 => 1_600_000_000i32..1_700_000_000];
    // now and then with very large gaps and steps, as far as 32 bits reach
    let wide = prop_oneof![5 => Just(0i32), 1 => Just(86_400i32), 1 => Just(1_000_000i32), 1 => Just(100_000_000i32), 1 => Just(1_500_000_000i32)];
    (start, proptest::collection::vec((bit, 0u8..6), 0..=max_bits), any::<u64>(), 0u8..12, wide)
        .prop_map(|(start, bits, seed, empty, wide)| {
            let mut ts: Vec<i32> = Vec::new();
            let mut bits = bits;
            if wide > 0 {
                for (i, (b, _)) in bits.iter_mut().enumerate() {
                    let r = mix(seed ^ (i as u64) << 20);
                    match r % 4 {
                        0 => b.gap = (mix(r) % wide as u64) as i32,
                        1 => b.step = (mix(r) % wide as u64) as i32,
                        _ => {}
                    }
                }
            }
            if empty == 0 && bits.is_empty() {
                return Times { ts, seed };
            }
            let mut t = start;
            ts.push(t);
            let mut prev_step: i32 = 1;
            for (b, rel) in bits {
                // the next stretch may begin one step, a multiple of it, or a broken step later
                let gap = match rel {
                    0 => prev_step,
                    1 => prev_step.saturating_mul(2),
                    2 => (prev_step / 2).max(0),
                    3 => prev_step.saturating_add(1),
                    _ => b.gap,
                };
                let step = if rel == 1 || rel == 3 { prev_step } else { b.step };
                let Some(u) = t.checked_add(gap).filter(|u| *u < TOP) else { continue };
                t = u;
                ts.push(t);
                for _ in 0..b.count {
                    let Some(u) = t.checked_add(step).filter(|u| *u < TOP) else { break };
                    t = u;
                    ts.push(t);
                }
                prev_step = step;
            }
            Times { ts, seed }
        })
        .boxed()
}
/// A few long stretches, up to a day of seconds each
pub fn days(max_bits: usize) -> BoxedStrategy<Times> {
    let step = prop_oneof![4 => Just(1i32), 3 => proptest::sample::select(vec![0i32, 2, 5, 10, 15, 20, 30, 60]), 1 => 1i32..400];
    let count = prop_oneof![4 => 200u32..3000, 3 => 3000u32..33000, 1 => 32760u32..32775, 1 => 65530u32..65545, 1 => Just(86400u32), 1 => 33000u32..90000];
    let gap = prop_oneof![2 => 0i32..4, 2 => 0i32..100, 1 => 0i32..100000];
    (prop_oneof![Just(0i32), 0i32..86400, 1_600_000_000i32..1_700_000_000], proptest::collection::vec((gap, step, count), 1..=max_bits), any::<u64>())
        .prop_map(|(start, bits, seed)| {
            let mut t = start;
            let mut ts = Vec::new();
            for (gap, step, count) in bits {
                // single points between some of the stretches
                let count = if mix(seed ^ ts.len() as u64) % 4 == 0 { count % 4 } else { count };
                t += gap;
                ts.push(t);
                for _ in 0..count {
                    t += step;
                    ts.push(t);
                }
            }
            Times { ts, seed }
        })
        .boxed()
}
/// Hardly any two points apart by the same step, so that an index has hundreds to thousands of segments
pub fn ragged(max: usize) -> BoxedStrategy<Times> {
    let jitter = prop_oneof![3 => 2i32..20, 2 => 20i32..400, 1 => Just(2i32)];
    (prop_oneof![Just(0i32), 0i32..86400, 1_600_000_000i32..1_700_000_000], 400..=max, jitter, prop_oneof![Just(0i32), 1i32..60], any::<u64>(), 0u8..3)
        .prop_map(|(start, n, jitter, step, seed, runs)| {
            let mut t = start;
            let mut ts = vec![t];
            let mut k = 0u64;
            while ts.len() < n {
                k += 1;
                let r = mix(seed ^ k << 8);
                let gap = step + (r % jitter as u64) as i32;
                // now and then a stretch of one step
                let times = if runs > 0 && r >> 40 & 15 == 0 { 1 + (r >> 20) % 30 } else { 1 };
                for _ in 0..times {
                    t += gap;
                    ts.push(t);
                }
            }
            Times { ts, seed }
        })
        .boxed()
}
fn index(ts: &[i32]) -> Result<Vsri, String> {
    let mut v = Vsri::new("unused");
    for (i, t) in ts.iter().enumerate() {
        guarded("update_for_point", || v.update_for_point(*t).is_ok())?
            .then_some(())
            .ok_or(format!("point {i} at {t} after {:?} is refused", i.checked_sub(1).map(|k| ts[k])))?;
    }
    Ok(v)
}
/// Lines of the index: greedy, a second point fixes the step
pub fn segments(ts: &[i32]) -> Vec<(i32, i32)> {
    let mut out: Vec<(i32, i32)> = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        let start = ts[i];
        let mut end = start;
        let mut k = i + 1;
        if k < ts.len() {
            let step = ts[k] - start;
            while k < ts.len() && ts[k] - end == step {
                end = ts[k];
                k += 1;
            }
        }
        out.push((start, end));
        i = k;
    }
    out
}
fn describe(ts: &[i32]) -> String {
    let s = format!("{ts:?}");
    if s.len() > 300 {
        format!("{} timestamps {}...", ts.len(), &s[..300])
    } else {
        s
    }
}
/// Timestamps to ask about
fn probes(ts: &[i32], seed: u64) -> Vec<i32> {
    let Some((first, last)) = ts.first().zip(ts.last()) else { return (-2..5).collect() };
    let (lo, hi) = (first - 3, last + 3);
    if hi - lo <= 600 {
        return (lo..=hi).collect();
    }
    let mut out = vec![lo, lo + 1, lo + 2, hi - 2, hi - 1, hi];
    for i in 0..ts.len().min(150) {
        let k = if ts.len() <= 150 { i } else { (mix(seed ^ i as u64) % ts.len() as u64) as usize };
        for d in -2..=2 {
            out.push(ts[k] + d);
        }
        if k > 0 {
            out.push(ts[k - 1] + (ts[k] - ts[k - 1]) / 2);
        }
    }
    out.extend((0..100).map(|i| lo + (mix(seed ^ (i + 7000)) % (hi - lo) as u64) as i32));
    out.retain(|y| *y >= lo && *y <= hi);
    out
}
fn check_contents(v: &Vsri, ts: &[i32], seed: u64, obs: &mut Obs) -> Res {
    let ctx = || describe(ts);
    let n = ts.len();
    let count = guarded("get_sample_count", || v.get_sample_count())?;
    if count as usize != n {
        return Err(format!("{count} samples reported for {}", ctx()));
    }
    let all = guarded("get_all_timestamps", || v.get_all_timestamps())?;
    if all != ts {
        let at = all.iter().zip(ts).position(|(a, b)| a != b).unwrap_or(all.len().min(n));
        return Err(format!("timestamp {at} listed as {:?}, indexed {:?}: {}", all.get(at), ts.get(at), ctx()));
    }
    if n > 0 && (v.min() != ts[0] || v.max() != ts[n - 1]) {
        return Err(format!("reported range {}..{} for {}", v.min(), v.max(), ctx()));
    }
    for (i, t) in ts.iter().enumerate() {
        let got = guarded("get_time", || v.get_time(i as i32))?;
        if got != Some(*t) {
            return Err(format!("position {i} has time {got:?}, indexed {t}: {}", ctx()));
        }
    }
    for y in probes(ts, seed) {
        obs.sub += 1;
        let got = guarded("get_sample", || v.get_sample(y))?;
        let present = ts.binary_search(&y).is_ok();
        let good = match got {
            None => !present,
            Some(p) => p >= 0 && ts.get(p as usize) == Some(&y),
        };
        if !good {
            return Err(format!("looking up {y} gives {got:?} in {}", ctx()));
        }
    }
    Ok(())
}
fn check_record(c: &Times, obs: &mut Obs) -> Res {
    let v = index(&c.ts)?;
    obs.nontrivial = segments(&c.ts).len() > 1;
    check_contents(&v, &c.ts, c.seed, obs)?;
    // and at a point in its history
    if c.ts.len() > 2 {
        let k = 1 + (mix(c.seed) % (c.ts.len() as u64 - 1)) as usize;
        check_contents(&index(&c.ts[..k])?, &c.ts[..k], c.seed, obs)?;
    }
    Ok(())
}
pub fn c16() -> Vec<Part> {
    vec![
        part("histories", "regular stretches, gaps, single and repeated points; non-trivial: several segments; inner_checks counts look-ups", (60000, 1200000), || times(8), check_record),
        part("long", "as above, up to 60 stretches", (3000, 60000), || times(60), check_record),
        part("days", "stretches of up to a day of seconds; non-trivial: several segments", (120, 2500), || days(5), check_record),
        part("ragged", "up to 5000 points of irregular steps, hundreds to thousands of segments; all non-trivial", (150, 3000), || ragged(5000), check_record),
        part("small", "any small non-decreasing sequences; non-trivial: several segments", (60000, 1000000),
            || (0i32..6, proptest::collection::vec(prop_oneof![2 => 0i32..4, 1 => 0i32..9], 0..10), any::<u64>()).prop_map(|(s, d, seed)| {
                let mut t = s;
                let mut ts = vec![t];
                for x in d { t += x; ts.push(t); }
                Times { ts, seed }
            }), check_record),
    ]
}

// ---------------------------------------------------------------- C17

fn neighbours(v: &Vsri, ts: &[i32], y: i32) -> Res {
    let ctx = || describe(ts);
    let present = ts.binary_search(&y).is_ok();
    let (first, last) = (ts[0], ts[ts.len() - 1]);
    if y <= last {
        let got = guarded("get_this_or_next", || v.get_this_or_next(y))?;
        let want = ts.partition_point(|t| *t < y) as i32;
        let good = if present { got.is_some_and(|p| ts.get(p as usize) == Some(&y)) } else { got == Some(want) };
        if !good {
            return Err(format!("this or next of {y} is {got:?}, expected {want}: {}", ctx()));
        }
    } else {
        let got = guarded("get_this_or_next", || v.get_this_or_next(y))?;
        if got.is_some() {
            return Err(format!("this or next of {y}, after the end, is {got:?}: {}", ctx()));
        }
    }
    if y <= last {
        let got = guarded("get_this_or_previous", || v.get_this_or_previous(y))?;
        let k = ts.partition_point(|t| *t <= y) as i32 - 1;
        let good = if y < first { got.is_none() } else if present { got.is_some_and(|p| ts.get(p as usize) == Some(&y)) } else { got == Some(k) };
        if !good {
            return Err(format!("this or previous of {y} is {got:?}, expected {k}: {}", ctx()));
        }
    }
    Ok(())
}
fn overlap(v: &Vsri, ts: &[i32], segs: &[(i32, i32)], a: i32, b: i32) -> Res {
    let got = guarded("is_empty", || v.is_empty([a, b]))?;
    let want = !segs.iter().any(|s| a <= s.1 && b >= s.0);
    if got != want {
        return Err(format!("range {a}..{b} reported {} over segments {:?} of {}", if got { "empty" } else { "not empty" }, &segs[..segs.len().min(12)], describe(ts)));
    }
    Ok(())
}
fn check_queries(c: &Times, obs: &mut Obs) -> Res {
    let ts = &c.ts;
    let v = index(ts)?;
    let segs = segments(ts);
    obs.nontrivial = segs.len() > 1;
    obs.class(match segs.len() {
        0 => "no segment",
        1 => "one segment",
        2..=5 => "2-5 segments",
        _ => "more segments",
    });
    let ps = probes(ts, c.seed);
    if !ts.is_empty() {
        for y in &ps {
            obs.sub += 1;
            neighbours(&v, ts, *y)?;
        }
    }
    // ranges between edges of segments and other points
    let mut edges: Vec<i32> = Vec::new();
    let some = segs.len().min(12);
    let from = if segs.len() > some { (mix(c.seed) % (segs.len() - some) as u64) as usize } else { 0 };
    for (s, e) in segs.iter().skip(from).take(some).chain(segs.last()) {
        for d in -1..=1 {
            edges.push(s + d);
            edges.push(e + d);
        }
    }
    edges.extend((0..12).map(|i| ps[(mix(c.seed ^ (i + 99)) % ps.len() as u64) as usize]));
    edges.sort();
    edges.dedup();
    for (i, a) in edges.iter().enumerate() {
        for b in &edges[i..] {
            obs.sub += 1;
            overlap(&v, ts, &segs, *a, *b)?;
        }
    }
    Ok(())
}
pub fn c17() -> Vec<Part> {
    vec![
        part("histories", "all queries at and between indexed timestamps and segment edges; non-trivial: several segments; inner_checks counts queries", (40000, 800000), || times(6), check_queries),
        part("long", "as above, up to 60 stretches", (2500, 50000), || times(60), check_queries),
        part("days", "stretches of up to a day of seconds; non-trivial: several segments", (120, 2500), || days(5), check_queries),
        part("ragged", "up to 5000 points of irregular steps, hundreds to thousands of segments; all non-trivial", (250, 5000), || ragged(5000), check_queries),
        part("small", "any small non-decreasing sequences; non-trivial: several segments", (50000, 1000000),
            || (0i32..6, proptest::collection::vec(prop_oneof![2 => 0i32..4, 1 => 0i32..9], 0..9), any::<u64>()).prop_map(|(s, d, seed)| {
                let mut t = s;
                let mut ts = vec![t];
                for x in d { t += x; ts.push(t); }
                Times { ts, seed }
            }), check_queries),
    ]
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub ts: Vec<i32>,
    /// before adding point i: bit 0 restart, bit 1 a point in the past is tried, bit 2 flush() instead of flush_to()
    pub ops: Vec<u8>,
    pub seed: u64,
}
impl Case for Life {
    fn smaller(&self) -> Vec<Self> {
        let mut v: Vec<_> = shrink_times(&self.ts).into_iter().map(|ts| Life { ts, ..self.clone() }).collect();
        for i in (0..self.ops.len()).filter(|_| self.ops.len() <= 100) {
            if self.ops[i] != 0 {
                let mut l = self.clone();
                l.ops[i] = 0;
                v.push(l);
            }
        }
        v
    }
}
/// Everything an index can be asked
fn answers(v: &Vsri, ts: &[i32], seed: u64) -> Result<Vec<Option<i32>>, String> {
    guarded("queries", || {
        let mut out = vec![Some(v.get_sample_count()), Some(v.min()), Some(v.max())];
        out.extend(v.get_all_timestamps().into_iter().map(Some));
        out.extend((0..ts.len() as i32 + 2).map(|x| v.get_time(x)));
        for y in probes(ts, seed).into_iter().take(250) {
            out.extend([v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y), v.get_next_sample(y), v.get_previous_sample(y)]);
            for b in [y, y + 1, y + 7, y + 100] {
                out.push(Some(v.is_empty([y, b]) as i32));
            }
        }
        out
    })
}
fn check_life(c: &Life, obs: &mut Obs) -> Res {
    let dir = Scratch::new();
    let mut whole = Vsri::new("never-written");
    // a base name is any name or a longer path
    let name = ["metric", "my metric", "cpu_load", "a,b=c", "mètre", "x", ".hidden", "d.1/metric"][(mix(c.seed ^ 77) % 8) as usize];
    let _ = std::fs::create_dir(dir.path("d.1"));
    let mut base = dir.path(name);
    // an index of another series is already at the places written to
    let junk = |p: &std::path::Path, k: u64| {
        if mix(c.seed ^ k) % 3 == 0 {
            let n = mix(c.seed ^ k ^ 5) % 200;
            let _ = std::fs::write(p, "0\n9000000\n".to_string() + &(0..n).map(|i| format!("7,{i},{},2\n", i * 100)).collect::<String>());
        }
    };
    junk(&base.with_extension("vsri"), 1);
    junk(&dir.path("end.vsri"), 2);
    let mut v = Vsri::new(base.to_str().unwrap());
    let (mut restarts, mut refused) = (0u64, 0u64);
    for (i, t) in c.ts.iter().enumerate() {
        let op = c.ops.get(i % c.ops.len().max(1)).copied().unwrap_or(0);
        if op & 2 != 0 && i > 0 {
            let past = c.ts[i - 1] - 1 - (mix(c.seed ^ i as u64) % 50) as i32;
            let before = answers(&v, &c.ts[..i], c.seed)?;
            if guarded("update_for_point", || v.update_for_point(past).is_ok())? {
                return Err(format!("a point at {past} is accepted after {}", c.ts[i - 1]));
            }
            if answers(&v, &c.ts[..i], c.seed)? != before {
                return Err(format!("a refused point at {past} changes the index of {}", describe(&c.ts[..i])));
            }
            refused += 1;
        }
        if op & 1 != 0 {
            let before = answers(&v, &c.ts[..i], c.seed)?;
            let path = if op & 4 != 0 {
                guarded("flush", || v.flush().map_err(|e| e.to_string()))??;
                base.with_extension("vsri")
            } else {
                let p = dir.path(&format!("copy-{i}.vsri"));
                junk(&p, 3 + i as u64);
                guarded("flush_to", || v.flush_to(&p).map_err(|e| e.to_string()))??;
                // the loaded index belongs to this file from here on
                base = p.clone();
                p
            };
            v = guarded("load", || Vsri::load(path.to_str().unwrap()).map_err(|e| e.to_string()))??;
            if answers(&v, &c.ts[..i], c.seed)? != before {
                return Err(format!("an index of {} answers differently after writing and loading it", describe(&c.ts[..i])));
            }
            for y in probes(&c.ts[..i], c.seed).into_iter().take(10) {
                let got = guarded("get_sample_location", || Vsri::get_sample_location(path.to_str().unwrap(), y))?;
                let good = match got {
                    Some(p) => c.ts[..i].get(p as usize) == Some(&y),
                    None => !c.ts[..i].contains(&y),
                };
                if !good {
                    return Err(format!("location of {y} in the file is {got:?}, in {}", describe(&c.ts[..i])));
                }
            }
            restarts += 1;
        }
        for (k, x) in [(0, &mut v), (1, &mut whole)] {
            if !guarded("update_for_point", || x.update_for_point(*t).is_ok())? {
                return Err(format!("point {i} at {t} is refused {} in {}", if k == 0 { "after restarts" } else { "" }, describe(&c.ts)));
            }
        }
    }
    obs.nontrivial = restarts + refused > 0;
    if restarts > 0 {
        obs.class("restarted");
    }
    if refused > 0 {
        obs.class("refused");
    }
    obs.sub = restarts + refused;
    if answers(&v, &c.ts, c.seed)? != answers(&whole, &c.ts, c.seed)? {
        return Err(format!("after {restarts} restarts and {refused} refused points the index of {} answers differently", describe(&c.ts)));
    }
    let p = dir.path("end.vsri");
    guarded("flush_to", || v.flush_to(&p).map_err(|e| e.to_string()))??;
    let l = guarded("load", || Vsri::load(p.to_str().unwrap()).map_err(|e| e.to_string()))??;
    check_contents(&l, &c.ts, c.seed, obs)?;
    if Vsri::load(dir.path("none.vsri").to_str().unwrap()).is_ok() {
        return Err("a missing index loads".into());
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Instant {
    pub secs: i64,
    pub nanos: u32,
}
impl Case for Instant {
    fn smaller(&self) -> Vec<Self> {
        [Instant { nanos: 0, ..self.clone() }, Instant { secs: self.secs / 2, ..self.clone() }, Instant { secs: self.secs - self.secs.signum(), ..self.clone() }]
            .into_iter()
            .filter(|i| i.secs != self.secs || i.nanos != self.nanos)
            .collect()
    }
}
fn check_day(c: &Instant, obs: &mut Obs) -> Res {
    let elapsed = c.secs.rem_euclid(86400);
    obs.nontrivial = elapsed > 0;
    let got = guarded("day_elapsed_seconds", || vsri::day_elapsed_seconds(c.secs))?;
    if got as i64 != elapsed {
        return Err(format!("{got} seconds elapsed in the day at {}, really {elapsed}", c.secs));
    }
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(c.secs, c.nanos).ok_or("instant out of range")?;
    let got = guarded("start_day_ts", || vsri::start_day_ts(dt))?;
    if got != c.secs - elapsed {
        return Err(format!("the day of {} starts at {got}, really {}", c.secs, c.secs - elapsed));
    }
    Ok(())
}
pub fn c18() -> Vec<Part> {
    let life = |t: BoxedStrategy<Times>| {
        (t, proptest::collection::vec(prop_oneof![4 => Just(0u8), 3 => 0u8..8], 1..40)).prop_map(|(t, ops)| Life { ts: t.ts, ops, seed: t.seed })
    };
    let secs = || prop_oneof![
        3 => -4_000_000_000i64..8_000_000_000,
        2 => (-40000i64..60000, -2i64..=2).prop_map(|(d, o)| d * 86400 + o),
        2 => (0i64..60000, 0i64..24, -1i64..=1).prop_map(|(d, h, o)| d * 86400 + h * 3600 + o),
        1 => -5_000_000_000_000i64..5_000_000_000_000,
    ];
    vec![
        part("lives", "histories with restarts and refused points; non-trivial: at least one of them; inner_checks counts them and look-ups", (6000, 120000), move || life(times(5)), check_life),
        part("days-of-seconds", "as above, stretches of up to a day of seconds, one restart", (60, 1200), || (days(4), 0u8..8, any::<u32>()).prop_map(|(t, op, at)| {
            let mut ops = vec![0; t.ts.len()];
            ops[at as usize % t.ts.len()] = op;
            Life { ts: t.ts, ops, seed: t.seed }
        }), check_life),
        part("ragged", "as above, up to 5000 points of irregular steps, up to three restarts", (60, 1200), || (ragged(5000), proptest::collection::vec((0u8..8, any::<u32>()), 1..=3)).prop_map(|(t, some)| {
            let mut ops = vec![0; t.ts.len()];
            for (op, at) in some { ops[at as usize % t.ts.len()] = op; }
            Life { ts: t.ts, ops, seed: t.seed }
        }), check_life),
        part("small", "short histories, as above", (20000, 400000), move || life((0i32..6, proptest::collection::vec(0i32..6, 0..8), any::<u64>()).prop_map(|(s, d, seed)| {
                let mut t = s;
                let mut ts = vec![t];
                for x in d { t += x; ts.push(t); }
                Times { ts, seed }
            }).boxed()), check_life),
        part("days", "instants, many at the edges of days and hours; non-trivial: not midnight", (400000, 8000000), move || (secs(), prop_oneof![Just(0u32), 0u32..1_000_000_000]).prop_map(|(secs, nanos)| Instant { secs, nanos }), check_day),
    ]
}

// ---------------------------------------------------------------- C31

/// Lines of an index file: (rate, first position, first timestamp, samples)
type Line = [i64; 4];
fn lines_of(text: &str) -> Result<(i64, i64, Vec<Line>), String> {
    let bad = |l: &str| format!("line {l:?} of an index file");
    if !text.is_empty() && !text.ends_with('\n') {
        return Err(format!("an index file ends with {:?}", &text[text.len().saturating_sub(20)..]));
    }
    let mut it = text.lines();
    let mut head = || it.next().and_then(|l| l.parse::<i64>().ok()).ok_or(bad("1 or 2"));
    let (min, max) = (head()?, head()?);
    let mut out = Vec::new();
    for l in it {
        let v: Vec<i64> = l.split(',').map(|x| x.parse::<i64>()).collect::<Result<_, _>>().map_err(|_| bad(l))?;
        out.push(v.try_into().map_err(|_| bad(l))?);
    }
    Ok((min, max, out))
}
/// One line per run: the second point of a run fixes its rate
fn runs_of(ts: &[i32]) -> Vec<Line> {
    let mut out: Vec<Line> = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        let step = ts.get(i + 1).map_or(0, |b| b - ts[i]);
        let mut k = i + 1;
        while k < ts.len() && ts[k] - ts[k - 1] == step {
            k += 1;
        }
        out.push([step as i64, i as i64, ts[i] as i64, (k - i) as i64]);
        i = k;
    }
    out
}
fn check_form(c: &Life, obs: &mut Obs) -> Res {
    let dir = Scratch::new();
    let mut v = Vsri::new(dir.path("metric").to_str().unwrap());
    let mut writes = 0u64;
    let n = c.ts.len();
    for i in 0..=n {
        let op = if i == n { 1 } else { c.ops.get(i % c.ops.len().max(1)).copied().unwrap_or(0) };
        if op & 1 != 0 {
            let p = dir.path("written.vsri");
            guarded("flush_to", || v.flush_to(&p).map_err(|e| e.to_string()))??;
            let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let (min, max, lines) = lines_of(&text)?;
            let ts = &c.ts[..i];
            let (first, last) = (ts.first().copied().unwrap_or(0), ts.last().copied().unwrap_or(0));
            if (min, max) != (first as i64, last as i64) {
                return Err(format!("an index file starts with {min} and {max} for {}", describe(ts)));
            }
            let mut at = 0i64;
            for l in &lines {
                if l[1] != at || l[3] < 1 {
                    return Err(format!("line {l:?} of an index file, {at} samples before it: {}", describe(ts)));
                }
                for k in 0..l[3] {
                    if ts.get((at + k) as usize).map(|t| *t as i64) != Some(l[2] + k * l[0]) {
                        return Err(format!("line {l:?} of an index file, sample {k} is {:?}: {}", ts.get((at + k) as usize), describe(ts)));
                    }
                }
                at += l[3];
            }
            if at != i as i64 {
                return Err(format!("an index file of {} lines holds {at} samples of {}", lines.len(), describe(ts)));
            }
            let most = runs_of(ts).len();
            if lines.len() > most {
                return Err(format!("{} lines for {most} runs of {}", lines.len(), describe(ts)));
            }
            if op & 2 != 0 {
                v = guarded("load", || Vsri::load(p.to_str().unwrap()).map_err(|e| e.to_string()))??;
            }
            writes += 1;
        }
        if i < n && !guarded("update_for_point", || v.update_for_point(c.ts[i]).is_ok())? {
            return Err(format!("point {i} at {} is refused in {}", c.ts[i], describe(&c.ts)));
        }
    }
    let runs = runs_of(&c.ts).len();
    obs.nontrivial = runs > 1 && n > runs;
    obs.class(match runs { 0 | 1 => "one run", 2..=10 => "2-10 runs", _ => "more runs" });
    obs.sub = writes;
    Ok(())
}
/// An index file of another writer: runs may be cut where this one would not; then more points come
fn check_foreign(c: &Life, obs: &mut Obs) -> Res {
    let dir = Scratch::new();
    let n = c.ts.len();
    let held = if n == 0 { 0 } else { (mix(c.seed ^ 91) % (n as u64 + 1)) as usize };
    let ts = &c.ts[..held];
    let mut lines: Vec<Line> = Vec::new();
    for l in runs_of(ts) {
        let mut l = l;
        let mut k = 0u64;
        while l[3] > 1 && mix(c.seed ^ (l[1] as u64) << 8 ^ k) % 4 == 0 {
            k += 1;
            let cut = 1 + (mix(c.seed ^ (l[1] as u64) << 9 ^ k) % (l[3] as u64 - 1)) as i64;
            lines.push([if cut == 1 { 0 } else { l[0] }, l[1], l[2], cut]);
            l = [l[0], l[1] + cut, l[2] + cut * l[0], l[3] - cut];
        }
        if l[3] == 1 {
            l[0] = 0;
        }
        lines.push(l);
    }
    let (first, last) = (ts.first().copied().unwrap_or(0), ts.last().copied().unwrap_or(0));
    let text = format!("{first}\n{last}\n") + &lines.iter().map(|l| format!("{},{},{},{}\n", l[0], l[1], l[2], l[3])).collect::<String>();
    let p = dir.path("foreign.vsri");
    std::fs::write(&p, &text).map_err(|e| e.to_string())?;
    let mut v = guarded("load", || Vsri::load(p.to_str().unwrap()).map_err(|e| e.to_string()))??;
    check_contents(&v, ts, c.seed, obs)?;
    let segs: Vec<(i32, i32)> = lines.iter().map(|l| (l[2] as i32, (l[2] + l[0] * (l[3] - 1)) as i32)).collect();
    if held > 0 {
        for y in probes(ts, c.seed).into_iter().take(100) {
            neighbours(&v, ts, y)?;
            for d in [0, 1, 7, 100] {
                overlap(&v, ts, &segs, y, y + d)?;
            }
        }
    }
    for (i, t) in c.ts.iter().enumerate().skip(held) {
        if !guarded("update_for_point", || v.update_for_point(*t).is_ok())? {
            return Err(format!("point {i} at {t} is refused after loading {text:?}"));
        }
    }
    obs.nontrivial = lines.len() > 1;
    if lines.len() > runs_of(ts).len() {
        obs.class("runs cut");
    }
    if held < n {
        obs.class("continued");
    }
    check_contents(&v, &c.ts, c.seed, obs)
}
pub fn c31() -> Vec<Part> {
    let ops = || proptest::collection::vec(prop_oneof![4 => Just(0u8), 3 => 0u8..4], 1..40);
    let sparse = |t: Times| {
        let n = t.ts.len();
        let mut ops = vec![0; n.max(1)];
        for k in 0..3u64 {
            ops[(mix(t.seed ^ k) % n.max(1) as u64) as usize] = (mix(t.seed ^ k ^ 50) % 4) as u8;
        }
        Life { ts: t.ts, ops, seed: t.seed }
    };
    let rule = "non-trivial: several runs, one of several points; inner_checks counts files written";
    vec![
        part("written", rule, (40000, 800000), move || (times(8), ops()).prop_map(|(t, ops)| Life { ts: t.ts, ops, seed: t.seed }), check_form),
        part("written-days", rule, (80, 1600), move || days(5).prop_map(sparse), check_form),
        part("written-ragged", rule, (80, 1600), move || ragged(5000).prop_map(sparse), check_form),
        part("loaded", "index files of another writer, then continued; non-trivial: several lines; inner_checks counts look-ups", (30000, 600000), move || times(8).prop_map(|t| Life { ts: t.ts, ops: vec![], seed: t.seed }), check_foreign),
        part("loaded-long", "as above, up to 60 stretches", (3000, 60000), move || times(60).prop_map(|t| Life { ts: t.ts, ops: vec![], seed: t.seed }), check_foreign),
    ]
}
