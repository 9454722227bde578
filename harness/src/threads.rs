//! Several register machines at once, each on a thread of its own. A program
//! is performed twice: under the schedule of the trace, one instruction at a
//! time, and then by all threads at the same time, many times over. In a fresh
//! process, the instructions of one thread are performed by several threads in
//! step, so that they meet at the first use of every operation.

use crate::json::J;
use crate::out::Out;
use crate::program::{self, Ins, Machine, State};
use crate::{checks, corrupt_out, jint, jout, BadArg, Stats, CUR_OBS, CUR_STATE, TICK};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};

/// One turn: whose, what, and what is specified to come of it.
pub struct Turn {
    n: usize,
    who: usize,
    ins: Ins,
    want: Out,
    regs: State,
}

/// A program read from a trace: the registers at the start and the turns.
#[derive(Default)]
pub struct Program {
    boot: Vec<State>,
    turns: Vec<Turn>,
}

type Answer = Result<Out, String>;

fn perform(m: &mut Box<dyn Machine>, ins: &Ins) -> Answer {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.exec(ins))) {
        Ok(Some(o)) => Ok(o),
        Ok(None) => Err(format!("unknown instruction {}", ins.op)),
        Err(p) if p.is::<BadArg>() => Err(format!("immediate of {} out of range", ins.op)),
        Err(_) => Ok(Out::Panic),
    }
}

fn show(o: &Out, s: &State) -> String {
    let l = |v: &[crate::Big]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    format!("{} u=[{}] s=[{}] c={}", o, l(&s.u), l(&s.s), s.c)
}

fn complain(st: &mut Stats, file: &str, t: &Turn, how: &str, want: String, got: String) {
    st.bad += 1;
    if st.bad <= 25 {
        println!(
            "MISMATCH\t{}\t{}\t0\t{}{}\t{}\t{}\t{},{},{},{},{}\t{}\t{}",
            file,
            t.n,
            if t.ins.sg { "i" } else { "u" },
            t.regs.bits,
            how,
            t.ins.op,
            t.who,
            t.ins.d,
            t.ins.x,
            t.ins.y,
            t.ins.n,
            want,
            got
        );
    }
}

impl Program {
    /// Adds a state of the trace; a program that was complete before it is performed.
    pub fn state(&mut self, st: &mut Stats, file: &str, n: usize, j: &J, corrupt: bool) -> Result<(), String> {
        let ms = j
            .get("ms")
            .and_then(|x| x.arr())
            .and_then(|v| v.iter().map(program::read_state).collect::<Option<Vec<_>>>())
            .ok_or("bad machines")?;
        let ins = j.get("ins").and_then(program::read_ins).ok_or("bad instruction")?;
        if ins.op == "boot" {
            self.finish(st, file, corrupt)?;
            self.boot = ms;
            return Ok(());
        }
        let who = j.get("who").and_then(jint).and_then(|b| b.to_u128()).ok_or("bad thread")? as usize;
        let want = j.get("ans").and_then(jout).ok_or("bad answer")?;
        if self.boot.is_empty() {
            return Err("instruction before boot".into());
        }
        let regs = ms.get(who).ok_or("bad thread")?.clone();
        self.turns.push(Turn { n, who, ins, want, regs });
        Ok(())
    }

    /// Whether there is anything to perform.
    pub fn ready(&self) -> bool {
        !self.turns.is_empty()
    }

    /// Performs what one thread does, on several threads in step. Nothing of the
    /// crate has been used before in this process, but for loading registers.
    pub fn fresh(&mut self, st: &mut Stats, file: &str, who: usize) -> Result<(), String> {
        let p = std::mem::take(self);
        if p.boot.iter().any(|b| b.checks != checks()) || who >= p.boot.len() {
            st.skipped += p.turns.len() as u64;
            return Ok(());
        }
        in_step(st, &Arc::new(p), file, who)
    }

    /// Performs the program read so far.
    pub fn finish(&mut self, st: &mut Stats, file: &str, corrupt: bool) -> Result<(), String> {
        let p = std::mem::take(self);
        if p.boot.iter().any(|b| b.checks != checks()) {
            st.skipped += p.turns.len() as u64;
            return Ok(());
        }
        if p.turns.is_empty() {
            return Ok(());
        }
        let p = Arc::new(p);
        let bad = st.bad;
        scheduled(st, &p, file, corrupt)?;
        if st.bad == bad && !corrupt {
            at_once(st, &p, file)?;
        }
        Ok(())
    }
}

/// One thread per machine, performing the turns it is told to.
fn scheduled(st: &mut Stats, p: &Arc<Program>, file: &str, corrupt: bool) -> Result<(), String> {
    let mut lines: Vec<(Sender<usize>, Receiver<Option<(Answer, State, State)>>)> = Vec::new();
    let mut handles = Vec::new();
    for who in 0..p.boot.len() {
        let (tell, told) = channel::<usize>();
        let (say, said) = channel();
        let p = p.clone();
        handles.push(std::thread::spawn(move || {
            let mut m = program::load(&p.boot[who]);
            for k in told {
                let r = m.as_mut().map(|m| {
                    let before = m.state();
                    let a = perform(m, &p.turns[k].ins);
                    (a, before, m.state())
                });
                if say.send(r).is_err() {
                    return;
                }
            }
        }));
        lines.push((tell, said));
    }
    for (k, t) in p.turns.iter().enumerate() {
        CUR_STATE.store(t.n, Relaxed);
        CUR_OBS.store(0, Relaxed);
        st.steps += 1;
        st.evals += 1;
        TICK.fetch_add(1, Relaxed);
        lines[t.who].0.send(k).map_err(|_| "a thread is gone")?;
        let r = lines[t.who].1.recv().map_err(|_| "a thread is gone")?;
        TICK.fetch_add(1, Relaxed);
        let (got, before, after) = r.ok_or("cannot load registers")?;
        let got = got?;
        {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (before.bits, before.c, format!("{:?}", t.ins)).hash(&mut h);
            for a in before.u.iter().chain(before.s.iter()) {
                a.neg.hash(&mut h);
                a.mag.hash(&mut h);
            }
            st.distinct.insert(h.finish());
        }
        let c = match &t.want {
            Out::V(_) => 0,
            Out::Nothing => 1,
            Out::Panic => 2,
            Out::Err(_) => 3,
        };
        st.per_op.entry(format!("{} {}", if t.ins.sg { "signed" } else { "unsigned" }, t.ins.op)).or_default()[c] += 1;
        let mut regs = t.regs.clone();
        if corrupt {
            if let Out::V(v) = corrupt_out(&Out::V(vec![regs.u[k % 4].clone()])) {
                regs.u[k % 4] = v[0].clone();
            }
        }
        if !got.allowed_by(&t.want) || after != regs {
            complain(st, file, t, "scheduled", show(&t.want, &regs), show(&got, &after));
            if !corrupt {
                break;
            }
        }
    }
    for (tell, _) in lines {
        drop(tell);
    }
    for h in handles {
        h.join().map_err(|_| "a thread failed")?;
    }
    Ok(())
}

/// Something a thread found wrong: the turn and what it got.
type Wrong = Option<(usize, Option<Out>, State)>;

/// How many turns all threads together perform at the same time.
const TURNS: usize = 12_000;

/// All threads at once, each its own turns again and again.
fn at_once(st: &mut Stats, p: &Arc<Program>, file: &str) -> Result<(), String> {
    let rounds = (TURNS / p.turns.len()).clamp(4, 60);
    let barrier = Arc::new(Barrier::new(p.boot.len()));
    if let Some(t) = p.turns.last() {
        CUR_STATE.store(t.n, Relaxed);
    }
    TICK.fetch_add(1, Relaxed);
    let handles: Vec<_> = (0..p.boot.len())
        .map(|who| {
            let (p, barrier) = (p.clone(), barrier.clone());
            std::thread::spawn(move || -> Result<Wrong, String> {
                let mine: Vec<usize> = (0..p.turns.len()).filter(|&k| p.turns[k].who == who).collect();
                barrier.wait();
                for _ in 0..rounds {
                    let mut m = program::load(&p.boot[who]).ok_or("cannot load registers")?;
                    for &k in &mine {
                        let t = &p.turns[k];
                        let got = perform(&mut m, &t.ins)?;
                        if !got.allowed_by(&t.want) {
                            return Ok(Some((k, Some(got), m.state())));
                        }
                    }
                    if let Some(&k) = mine.last() {
                        let s = m.state();
                        if s != p.turns[k].regs {
                            return Ok(Some((k, None, s)));
                        }
                    }
                    // still at it
                    TICK.fetch_add(2, Relaxed);
                }
                Ok(None)
            })
        })
        .collect();
    let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    TICK.fetch_add(1, Relaxed);
    st.per_op.entry("turns at the same time".into()).or_default()[0] += (rounds * p.turns.len()) as u64;
    for r in results {
        if let Some((k, got, s)) = r.map_err(|_| "a thread failed")?? {
            let t = &p.turns[k];
            complain(st, file, t, "at the same time", show(&t.want, &t.regs), show(&got.unwrap_or(t.want.clone()), &s));
        }
    }
    Ok(())
}

/// Threads that perform the same turns in step.
const ECHOES: usize = 4;

fn in_step(st: &mut Stats, p: &Arc<Program>, file: &str, who: usize) -> Result<(), String> {
    let arrived = Arc::new(AtomicUsize::new(0));
    let mine: Arc<Vec<usize>> = Arc::new((0..p.turns.len()).filter(|&k| p.turns[k].who == who).collect());
    TICK.fetch_add(1, Relaxed);
    let handles: Vec<_> = (0..ECHOES)
        .map(|_| {
            let (p, arrived, mine) = (p.clone(), arrived.clone(), mine.clone());
            std::thread::spawn(move || -> Result<Wrong, String> {
                let mut m = program::load(&p.boot[who]).ok_or("cannot load registers")?;
                let mut wrong = None;
                for (i, &k) in mine.iter().enumerate() {
                    arrived.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while arrived.load(SeqCst) < ECHOES * (i + 1) {
                        spins += 1;
                        if spins % 2000 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    if wrong.is_some() {
                        // nothing to compare any more, but the others are waiting
                        continue;
                    }
                    let t = &p.turns[k];
                    let got = perform(&mut m, &t.ins);
                    TICK.fetch_add(2, Relaxed);
                    let s = m.state();
                    match got {
                        Err(e) => wrong = Some(Err(e)),
                        Ok(o) if !o.allowed_by(&t.want) || s != t.regs => wrong = Some(Ok((k, Some(o), s))),
                        Ok(_) => {},
                    }
                }
                wrong.transpose()
            })
        })
        .collect();
    let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    TICK.fetch_add(1, Relaxed);
    st.steps += mine.len() as u64;
    st.evals += (mine.len() * ECHOES) as u64;
    for r in results {
        if let Some((k, got, s)) = r.map_err(|_| "a thread failed")?? {
            let t = &p.turns[k];
            complain(st, file, t, "at first use", show(&t.want, &t.regs), show(&got.unwrap_or(t.want.clone()), &s));
        }
    }
    Ok(())
}
