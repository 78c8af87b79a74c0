//! Short concurrent histories of the two settings, and a checker of whether each setting's part
//! of a history could have happened one operation at a time (linearizability of a register).
//! Used natively and under Miri; needs only std and colorz.
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, Colorize, Style};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MODES: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
pub const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    SetMode(Mode),
    /// set_coloring_mode_from_env
    SetEnv,
    GetMode,
    SetDefault(Stream),
    GetDefault,
    /// should_color of no stream / of a stream, by function, by style, by formatting a value
    Decide(Option<Stream>, u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Res {
    Done,
    Mode(Mode),
    Stream(Stream),
    Colored(bool),
}
#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub thread: usize,
    pub op: Op,
    pub res: Res,
    pub call: u32,
    pub ret: u32,
}

/// What does not change during the process.
#[derive(Clone, Copy, Debug)]
pub struct World {
    /// do stdout and stderr take basic colors
    pub stdout: bool,
    pub stderr: bool,
    pub strip: bool,
    /// what the environment asks for
    pub env: Option<Mode>,
}

/// everything happens between two readings of one clock; reading it orders what was before and after
pub static CLOCK: AtomicU32 = AtomicU32::new(0);

pub fn perform(op: Op) -> Res {
    match op {
        Op::SetMode(m) => {
            mode::set_coloring_mode(m);
            Res::Done
        }
        Op::SetEnv => {
            #[cfg(feature = "f-std")]
            mode::set_coloring_mode_from_env();
            Res::Done
        }
        Op::GetMode => Res::Mode(mode::get_coloring_mode()),
        Op::SetDefault(s) => {
            mode::set_default_stream(s);
            Res::Done
        }
        Op::GetDefault => Res::Stream(mode::get_default_stream()),
        Op::Decide(s, 0) => Res::Colored(mode::should_color(s, &[ColorKind::Ansi])),
        Op::Decide(s, 1) => Res::Colored(Style::new().fg(ansi::Red).should_color(s)),
        Op::Decide(s, _) => {
            let t = "x".red().stream_opt(s).to_string();
            Res::Colored(t != "x")
        }
    }
}
pub fn timed(thread: usize, op: Op) -> Event {
    let call = CLOCK.fetch_add(1, Ordering::SeqCst);
    let res = perform(op);
    let ret = CLOCK.fetch_add(1, Ordering::SeqCst);
    Event { thread, op, res, call, ret }
}

impl World {
    fn by_stream(&self, s: Stream) -> bool {
        match s {
            Stream::Stdout => self.stdout,
            Stream::Stderr => self.stderr,
            Stream::AlwaysColor => true,
            _ => false,
        }
    }
    fn decides(&self, m: Mode, s: Stream) -> bool {
        match m {
            Mode::Always => true,
            Mode::Never => false,
            Mode::Detect => self.by_stream(s),
        }
    }
}

/// What an event says about one register: it sets it, or has seen one of some values (a bit set).
#[derive(Clone, Copy, Debug)]
enum Does {
    Sets(u8),
    Saw(u8),
}
fn mode_index(m: Mode) -> u8 {
    MODES.iter().position(|x| *x == m).unwrap() as u8
}
fn stream_index(s: Stream) -> u8 {
    STREAMS.iter().position(|x| *x == s).unwrap() as u8
}

/// values each register can have had at all during the history
pub struct Domain {
    pub modes: Vec<Mode>,
    pub streams: Vec<Stream>,
}

fn on_mode(w: &World, d: &Domain, e: &Event) -> Option<Does> {
    match (e.op, e.res) {
        (Op::SetMode(m), _) => Some(Does::Sets(mode_index(m))),
        (Op::SetEnv, _) => w.env.map(|m| Does::Sets(mode_index(m))),
        (_, Res::Mode(m)) => Some(Does::Saw(1 << mode_index(m))),
        (Op::Decide(s, _), Res::Colored(c)) => {
            let streams = s.map_or(d.streams.clone(), |s| vec![s]);
            let could = MODES.iter().filter(|m| streams.iter().any(|s| w.decides(**m, *s) == c));
            Some(Does::Saw(could.fold(0, |a, m| a | 1 << mode_index(*m))))
        }
        _ => None,
    }
}
fn on_default(w: &World, d: &Domain, e: &Event) -> Option<Does> {
    match (e.op, e.res) {
        (Op::SetDefault(s), _) => Some(Does::Sets(stream_index(s))),
        (_, Res::Stream(s)) => Some(Does::Saw(1 << stream_index(s))),
        (Op::Decide(None, _), Res::Colored(c)) => {
            // if the mode can have decided alone, nothing is known about the default stream
            let could = STREAMS.iter().filter(|s| d.modes.iter().any(|m| w.decides(*m, **s) == c));
            Some(Does::Saw(could.fold(0, |a, s| a | 1 << stream_index(*s))))
        }
        _ => None,
    }
}

/// Is there an order of these operations, each between its call and return, in which every
/// observation agrees with the latest set? Depth-first over (progress of each thread, value).
fn possible(threads: &[Vec<(Event, Does)>], initial: u8) -> Result<u64, u64> {
    let mut seen = HashSet::new();
    let mut todo = vec![(vec![0u8; threads.len()], initial)];
    let mut best = 0u64;
    while let Some((at, v)) = todo.pop() {
        let first_return = threads.iter().zip(&at).filter_map(|(t, i)| t.get(*i as usize)).map(|e| e.0.ret).min();
        let Some(limit) = first_return else { return Ok(seen.len() as u64) };
        best = best.max(at.iter().map(|x| *x as u64).sum());
        for (k, t) in threads.iter().enumerate() {
            let Some((e, d)) = t.get(at[k] as usize) else { continue };
            if e.call > limit {
                continue;
            }
            let next = match d {
                Does::Sets(x) => *x,
                Does::Saw(set) if set >> v & 1 != 0 => v,
                Does::Saw(_) => continue,
            };
            let mut at = at.clone();
            at[k] += 1;
            if seen.insert((at.clone(), next)) {
                todo.push((at, next));
            }
        }
    }
    Err(best)
}

pub struct Checked {
    /// states the checker went through
    pub states: u64,
    /// pairs of operations of different threads that overlapped, one of them a set
    pub overlaps: u64,
    /// the order of calls, returns and results
    pub signature: u64,
}

/// Check both registers of a history; `initial` is what they held before it.
pub fn check(w: &World, d: &Domain, initial: (Mode, Stream), n_threads: usize, events: &[Event]) -> Result<Checked, String> {
    let mut out = Checked { states: 0, overlaps: 0, signature: 0xcbf29ce484222325 };
    let show = |on: &[Vec<(Event, Does)>]| {
        let mut v: Vec<_> = on.iter().flatten().collect();
        v.sort_by_key(|e| e.0.call);
        v.iter().map(|(e, _)| format!("thread {} {}..{} {:?} -> {:?}", e.thread, e.call, e.ret, e.op, e.res)).collect::<Vec<_>>().join("; ")
    };
    let split = |on: &dyn Fn(&Event) -> Option<Does>| {
        let mut t: Vec<Vec<(Event, Does)>> = vec![vec![]; n_threads];
        for e in events {
            if let Some(x) = on(e) {
                t[e.thread].push((*e, x));
            }
        }
        t
    };
    if w.strip {
        for e in events {
            let bad = match e.res {
                Res::Mode(m) => m != Mode::Never,
                Res::Colored(c) => c,
                _ => false,
            };
            if bad {
                return Err(format!("with strip-colors: {e:?}"));
            }
        }
    } else {
        let t = split(&|e| on_mode(w, d, e));
        match possible(&t, mode_index(initial.0)) {
            Ok(n) => out.states += n,
            Err(n) => return Err(format!("no order of these operations on the coloring mode, initially {:?}, explains what was seen (at most {n} of them): {}", initial.0, show(&t))),
        }
    }
    let t = split(&|e| if w.strip && matches!(e.op, Op::Decide(..)) { None } else { on_default(w, d, e) });
    match possible(&t, stream_index(initial.1)) {
        Ok(n) => out.states += n,
        Err(n) => return Err(format!("no order of these operations on the default stream, initially {:?}, explains what was seen (at most {n} of them): {}", initial.1, show(&t))),
    }
    let mut by_time: Vec<_> = events.iter().flat_map(|e| [(e.call, e, 0), (e.ret, e, 1)]).collect();
    by_time.sort_by_key(|x| x.0);
    for (_, e, what) in &by_time {
        let code = match (e.op, e.res) {
            (Op::SetMode(m), _) => mode_index(m) as u64,
            (Op::SetEnv, _) => 3,
            (_, Res::Mode(m)) => 4 + mode_index(m) as u64,
            (Op::SetDefault(s), _) => 8 + stream_index(s) as u64,
            (_, Res::Stream(s)) => 12 + stream_index(s) as u64,
            (_, Res::Colored(c)) => 16 + c as u64,
            _ => 20,
        };
        out.signature = (out.signature ^ (code * 64 + e.thread as u64 * 2 + what)).wrapping_mul(0x100000001b3);
    }
    for (i, a) in events.iter().enumerate() {
        for b in &events[i + 1..] {
            let set = |e: &Event| matches!(e.op, Op::SetMode(_) | Op::SetDefault(_) | Op::SetEnv);
            if a.thread != b.thread && a.call < b.ret && b.call < a.ret && (set(a) || set(b)) {
                out.overlaps += 1;
            }
        }
    }
    Ok(out)
}

/// What the threads of one history do.
pub struct Plan {
    pub ops: Vec<Vec<Op>>,
    pub domain: Domain,
    pub initial: (Mode, Stream),
}
/// `below(n)` gives random numbers.
pub fn plan(w: &World, below: &mut dyn FnMut(u64) -> u64, threads: usize, len: u64, known: Option<(Mode, Stream)>) -> Plan {
    let decides = [0u8, 1, 2];
    let kind = if known.is_some() { 3 } else { below(5) };
    // 0: mode only; 1: default stream only, mode Detect; 2..: both
    let initial = known.unwrap_or_else(|| match kind {
        0 => (MODES[below(3) as usize], STREAMS[below(4) as usize]),
        1 => (Mode::Detect, STREAMS[below(4) as usize]),
        _ => (MODES[below(3) as usize], STREAMS[below(4) as usize]),
    });
    // few values make every lost or invented one visible
    let mut few_modes: Vec<Mode> = MODES.to_vec();
    let mut few_streams: Vec<Stream> = STREAMS.to_vec();
    if below(2) == 0 {
        few_modes.remove(below(3) as usize);
    }
    while below(2) == 0 && few_streams.len() > 2 {
        few_streams.remove(below(few_streams.len() as u64) as usize);
    }
    let read_mostly = below(3);
    let mut ops: Vec<Vec<Op>> = vec![];
    let mut domain = Domain { modes: vec![initial.0], streams: vec![initial.1] };
    for t in 0..threads {
        let n = 1 + below(len);
        let mut v = vec![];
        for _ in 0..n {
            let mode_side = match kind {
                0 => true,
                1 => false,
                _ => below(2) == 0,
            };
            let set = if read_mostly == 0 { t == 0 && below(2) == 0 } else { below(2) == 0 };
            let how = decides[below(3) as usize];
            v.push(match (mode_side, set) {
                (true, true) if below(6) == 0 && w.env.is_some() => Op::SetEnv,
                (true, true) => Op::SetMode(few_modes[below(few_modes.len() as u64) as usize]),
                (true, false) => match below(3) {
                    0 => Op::GetMode,
                    1 => Op::Decide(Some([Stream::NeverColor, Stream::AlwaysColor][below(2) as usize]), how),
                    _ => Op::Decide(None, how),
                },
                (false, true) => Op::SetDefault(few_streams[below(few_streams.len() as u64) as usize]),
                (false, false) => match below(2) {
                    0 => Op::GetDefault,
                    _ => Op::Decide(None, how),
                },
            });
        }
        for o in &v {
            match o {
                Op::SetMode(m) if !domain.modes.contains(m) => domain.modes.push(*m),
                Op::SetEnv => domain.modes.extend(w.env),
                Op::SetDefault(s) if !domain.streams.contains(s) => domain.streams.push(*s),
                _ => {}
            }
        }
        ops.push(v);
    }
    Plan { ops, domain, initial }
}
