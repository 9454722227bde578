//! Replays traces of the specification into the real integer types.
//!
//! usage: harness replay FILE...      replay ITF traces
//!        harness corrupt FILE...     as replay, but every expected answer is
//!                                    altered first: each step must mismatch
//!
//!        harness fresh FILE WHO      the first program of a trace with threads:
//!                                    the turns of one thread, by several in step
//!
//! stdout: one line per finding (MISMATCH / CRASH / HANG, tab separated), then
//! one SUMMARY line. Exit 0: all answers as specified; 1: findings; 2: error.

mod big;
mod eval;
mod json;
mod out;
#[cfg(feature = "program")]
mod program;
#[cfg(feature = "threads")]
mod threads;

use big::Big;
use json::J;
use out::Out;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// Panic payload: the specification supplied an argument out of range.
pub struct BadArg(pub usize);
/// Panic payload: the crate does not have this function.
pub struct Absent;

/// Whether this build has overflow checks, found out by overflowing.
pub fn checks() -> bool {
    static C: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *C.get_or_init(|| {
        let top = std::hint::black_box(u8::MAX);
        std::panic::catch_unwind(|| std::hint::black_box(top + std::hint::black_box(1))).is_err()
    })
}
pub const LIMB32: bool = cfg!(feature = "limb32");

static TICK: AtomicU64 = AtomicU64::new(0);
static CUR_FILE: AtomicUsize = AtomicUsize::new(0);
static CUR_STATE: AtomicUsize = AtomicUsize::new(0);
static CUR_OBS: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const core::ffi::c_void, n: usize) -> isize;
    fn clock() -> i64;
}

/// Async-signal-safe report of where we are.
fn report_dead(what: &str, n: usize) -> ! {
    let mut buf = [0u8; 256];
    let mut k = 0;
    let mut put = |s: &[u8]| {
        for &c in s {
            if k < buf.len() {
                buf[k] = c;
                k += 1;
            }
        }
    };
    put(b"\n");
    put(what.as_bytes());
    for x in [CUR_FILE.load(Relaxed), CUR_STATE.load(Relaxed), CUR_OBS.load(Relaxed), n] {
        put(b"\t");
        let mut d = [0u8; 20];
        let mut i = 20;
        let mut y = x;
        loop {
            i -= 1;
            d[i] = b'0' + (y % 10) as u8;
            y /= 10;
            if y == 0 {
                break;
            }
        }
        put(&d[i..]);
    }
    put(b"\n");
    unsafe {
        write(1, buf.as_ptr().cast(), k);
        _exit(1)
    }
}

extern "C" fn on_signal(sig: i32) {
    report_dead("CRASH", sig as usize)
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0i64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Relaxed);
            let c = unsafe { clock() };
            if t != last.0 || t % 2 == 0 {
                last = (t, c);
            } else if c - last.1 > 10_000_000 {
                // one single call has burnt more than 10 s of processor time
                report_dead("HANG", 10);
            }
        }
    });
}

pub enum Eval {
    /// Not defined for this build configuration.
    Skip,
    Got(Out),
    /// The specification names an operation the harness does not know.
    Unknown,
    Bad(String),
}

/// Calls one operation, turning panics into answers.
pub fn call(fam: &str, ty: (u32, bool), form: &str, op: &str, args: &[Big]) -> Eval {
    let mut parts = form.split('@');
    let form = parts.next().unwrap_or("");
    for restriction in parts {
        let here = match restriction {
            "on" => checks(),
            "off" => !checks(),
            "32" => LIMB32,
            "64" => !LIMB32,
            _ => return Eval::Unknown,
        };
        if !here {
            return Eval::Skip;
        }
    }
    TICK.fetch_add(1, Relaxed);
    let r = std::panic::catch_unwind(|| eval::eval(fam, ty, form, op, args));
    TICK.fetch_add(1, Relaxed);
    match r {
        Ok(Some(o)) => Eval::Got(o),
        Ok(None) => Eval::Unknown,
        Err(p) => match p.downcast_ref::<BadArg>() {
            Some(b) => Eval::Bad(format!("argument {} of {} {} out of range", b.0, form, op)),
            None if p.is::<Absent>() => Eval::Skip,
            None => Eval::Got(Out::Panic),
        },
    }
}

pub fn jint(j: &J) -> Option<Big> {
    match j {
        J::Obj(_) => Big::parse(j.get("#bigint")?.str()?),
        J::Num(s) => Big::parse(s),
        _ => None,
    }
}

fn jout(j: &J) -> Option<Out> {
    Some(match j.get("tag")?.str()? {
        "Panic" => Out::Panic,
        "Nothing" => Out::Nothing,
        "Err" => Out::Err(j.get("value")?.str()?.to_string()),
        "V" => Out::V(j.get("value")?.arr()?.iter().map(jint).collect::<Option<Vec<_>>>()?),
        _ => return None,
    })
}

#[derive(Default)]
struct Stats {
    steps: u64,
    evals: u64,
    skipped: u64,
    bad: u64,
    distinct: HashSet<u64>,
    per_op: BTreeMap<String, [u64; 4]>,
}

fn corrupt_out(o: &Out) -> Out {
    match o {
        Out::V(v) => {
            let mut v = v.clone();
            match v.first_mut() {
                None => return Out::Nothing,
                Some(x) => {
                    // flip the lowest bit of the first integer
                    if x.mag.is_empty() {
                        x.mag.push(1);
                    } else {
                        x.mag[0] ^= 1;
                    }
                    *x = x.clone().norm();
                },
            }
            Out::V(v)
        },
        Out::Panic => Out::Nothing,
        _ => Out::Panic,
    }
}

fn step(st: &mut Stats, file: &str, n: usize, j: &J, corrupt: bool) -> Result<(), String> {
    let s = match j.get("s") {
        Some(s) => s,
        None => return Err("state without s".into()),
    };
    let obs = s.get("obs").and_then(|x| x.arr()).ok_or("no obs")?;
    if obs.is_empty() {
        return Ok(());
    }
    let t = s.get("ty").ok_or("no ty")?;
    let bits = t.get("bits").and_then(jint).and_then(|b| b.to_u128()).ok_or("no bits")? as u32;
    let sg = matches!(t.get("sg"), Some(J::Bool(true)));
    let args = s
        .get("args")
        .and_then(|x| x.arr())
        .and_then(|v| v.iter().map(jint).collect::<Option<Vec<_>>>())
        .ok_or("bad args")?;
    let fam = j.get("fam").and_then(|f| f.str()).unwrap_or("");
    CUR_STATE.store(n, Relaxed);
    st.steps += 1;
    {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (fam, bits, sg).hash(&mut h);
        for a in &args {
            a.neg.hash(&mut h);
            a.mag.hash(&mut h);
        }
        st.distinct.insert(h.finish());
    }
    for (k, o) in obs.iter().enumerate() {
        let o = o.arr().ok_or("bad obs")?;
        if o.len() != 3 {
            return Err("bad obs".into());
        }
        let (form, op) = (o[0].str().ok_or("form")?, o[1].str().ok_or("op")?);
        let mut want = jout(&o[2]).ok_or("bad answer")?;
        if corrupt {
            want = corrupt_out(&want);
        }
        CUR_OBS.store(k, Relaxed);
        match call(fam, (bits, sg), form, op, &args) {
            Eval::Skip => st.skipped += 1,
            Eval::Unknown => return Err(format!("unknown operation {} {} ({} bits)", form, op, bits)),
            Eval::Bad(e) => return Err(e),
            Eval::Got(got) => {
                st.evals += 1;
                let key = format!("{}{}{} {}", fam, if fam.is_empty() { "" } else { ": " }, form, op);
                let c = match &want {
                    Out::V(_) => 0,
                    Out::Nothing => 1,
                    Out::Panic => 2,
                    Out::Err(_) => 3,
                };
                st.per_op.entry(key).or_default()[c] += 1;
                if !got.allowed_by(&want) {
                    st.bad += 1;
                    if st.bad <= 25 {
                        let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
                        println!(
                            "MISMATCH\t{}\t{}\t{}\t{}{}\t{}\t{}\t{}\t{}\t{}",
                            file,
                            n,
                            k,
                            if sg { "i" } else { "u" },
                            bits,
                            form,
                            op,
                            a.join(","),
                            want,
                            got
                        );
                    }
                }
            },
        }
    }
    Ok(())
}

#[cfg(feature = "program")]
type Running = Option<Box<dyn program::Machine>>;
#[cfg(not(feature = "program"))]
type Running = ();

/// One instruction of a program. The registers persist from state to state:
/// only the first state's contents are loaded.
#[cfg(feature = "program")]
fn instruction(
    st: &mut Stats,
    run: &mut Running,
    file: &str,
    n: usize,
    j: &J,
    corrupt: bool,
) -> Result<bool, String> {
    let want_regs = j.get("mach").and_then(program::read_state).ok_or("bad machine")?;
    let ins = j.get("ins").and_then(program::read_ins).ok_or("bad instruction")?;
    let want = j.get("ans").and_then(jout).ok_or("bad answer")?;
    if want_regs.checks != checks() {
        st.skipped += 1;
        return Ok(true);
    }
    if ins.op == "boot" {
        *run = Some(program::load(&want_regs).ok_or("cannot load registers")?);
        return Ok(true);
    }
    let m = run.as_mut().ok_or("instruction before boot")?;
    CUR_STATE.store(n, Relaxed);
    CUR_OBS.store(0, Relaxed);
    st.steps += 1;
    st.evals += 1;
    let before = m.state();
    {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (before.bits, before.c, format!("{:?}", ins)).hash(&mut h);
        for a in before.u.iter().chain(before.s.iter()) {
            a.neg.hash(&mut h);
            a.mag.hash(&mut h);
        }
        st.distinct.insert(h.finish());
    }
    TICK.fetch_add(1, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.exec(&ins)));
    TICK.fetch_add(1, Relaxed);
    let got = match r {
        Ok(Some(o)) => o,
        Ok(None) => return Err(format!("unknown instruction {}", ins.op)),
        Err(p) if p.is::<BadArg>() => return Err(format!("immediate of {} out of range", ins.op)),
        Err(_) => Out::Panic,
    };
    let c = match &want {
        Out::V(_) => 0,
        Out::Nothing => 1,
        Out::Panic => 2,
        Out::Err(_) => 3,
    };
    st.per_op.entry(format!("{} {}", if ins.sg { "signed" } else { "unsigned" }, ins.op)).or_default()[c] += 1;
    let mut expected = want_regs;
    if corrupt {
        if let Out::V(v) = corrupt_out(&Out::V(vec![expected.u[n % 4].clone()])) {
            expected.u[n % 4] = v[0].clone();
        }
    }
    let after = m.state();
    if got.allowed_by(&want) && after == expected {
        return Ok(true);
    }
    st.bad += 1;
    if st.bad <= 25 {
        let show = |o: &Out, s: &program::State| {
            let l = |v: &[Big]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
            format!("{} u=[{}] s=[{}] c={}", o, l(&s.u), l(&s.s), s.c)
        };
        println!(
            "MISMATCH\t{}\t{}\t0\t{}{}\tprogram\t{}\t{}\t{}\t{}",
            file,
            n,
            if ins.sg { "i" } else { "u" },
            before.bits,
            ins.op,
            [ins.d, ins.x, ins.y].map(|r| r.to_string()).join(",") + "," + &ins.n.to_string(),
            show(&want, &expected),
            show(&got, &after)
        );
    }
    // registers are wrong from here on
    Ok(corrupt)
}

#[cfg(not(feature = "program"))]
fn instruction(_: &mut Stats, _: &mut Running, _: &str, _: usize, _: &J, _: bool) -> Result<bool, String> {
    Err("built without programs".into())
}

#[cfg(not(feature = "threads"))]
mod threads {
    #[derive(Default)]
    pub struct Program;
    impl Program {
        pub fn state(&mut self, _: &mut crate::Stats, _: &str, _: usize, _: &crate::J, _: bool) -> Result<(), String> {
            Err("built without threads".into())
        }
        pub fn ready(&self) -> bool {
            false
        }
        pub fn fresh(&mut self, _: &mut crate::Stats, _: &str, _: usize) -> Result<(), String> {
            Ok(())
        }
        pub fn finish(&mut self, _: &mut crate::Stats, _: &str, _: bool) -> Result<(), String> {
            Ok(())
        }
    }
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    if argv.len() < 3 {
        eprintln!("usage: harness replay|corrupt FILE...");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    for sig in [4, 6, 7, 8, 11] {
        unsafe {
            signal(sig, on_signal as *const () as usize);
        }
    }
    watchdog();
    let corrupt = argv[1] == "corrupt";
    let fresh: Option<usize> = match argv[1].as_str() {
        "fresh" => Some(argv.get(3).and_then(|x| x.parse().ok()).unwrap_or(0)),
        _ => None,
    };
    let mut st = Stats::default();
    let mut traces = 0;
    let files = if fresh.is_some() { &argv[2..3] } else { &argv[2..] };
    for (i, f) in files.iter().enumerate() {
        CUR_FILE.store(i, Relaxed);
        let b = match std::fs::read(f) {
            Ok(b) => b,
            Err(e) => {
                eprintln!("{}: {}", f, e);
                std::process::exit(2);
            },
        };
        let mut run = Running::default();
        let mut derailed = false;
        let mut together = threads::Program::default();
        let r = json::each_state(&b, |n, j| {
            if derailed {
                return Ok(());
            }
            if j.get("mach").is_some() {
                derailed = !instruction(&mut st, &mut run, f, n, &j, corrupt)?;
                return Ok(());
            }
            if fresh.is_some() {
                let boot = j.get("ins").and_then(|x| x.get("op")).and_then(|x| x.str()) == Some("boot");
                derailed = boot && together.ready();
                if derailed {
                    return Ok(());
                }
            }
            if j.get("ms").is_some() {
                return together.state(&mut st, f, n, &j, corrupt);
            }
            step(&mut st, f, n, &j, corrupt)
        })
        .and_then(|n| match fresh {
            Some(who) => together.fresh(&mut st, f, who).map(|_| n),
            None => together.finish(&mut st, f, corrupt).map(|_| n),
        });
        match r {
            Ok(_) => traces += 1,
            Err(e) => {
                eprintln!("{}: {}", f, e);
                std::process::exit(2);
            },
        }
        if st.bad >= 25 && !corrupt {
            break;
        }
    }
    let ops: Vec<String> = st
        .per_op
        .iter()
        .map(|(k, v)| format!("\"{}\":[{},{},{},{}]", k, v[0], v[1], v[2], v[3]))
        .collect();
    println!(
        "SUMMARY\t{{\"traces\":{},\"steps\":{},\"evals\":{},\"skipped\":{},\"bad\":{},\"distinct\":{},\"checks\":{},\"limb32\":{},\"ops\":{{{}}}}}",
        traces, st.steps, st.evals, st.skipped, st.bad, st.distinct.len(), checks(), LIMB32, ops.join(",")
    );
    std::process::exit(if st.bad > 0 { 1 } else { 0 });
}
