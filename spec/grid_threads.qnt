// -*- mode: Bluespec; -*-
/// C20, systematically: every schedule of three threads with three
/// instructions each, 1680 of them, twice: for builds with and without
/// overflow checks. The threads run the first lines of the programs of C15's
/// systematic part, on pairs of operands chosen for them. However they are
/// interleaved, the registers end as if each thread had run alone.
module grid_threads {
  import base.* from "./base"
  import program as g from "./program"
  import grid_program as p from "./grid_program"

  pure val THREADS: int = 3
  pure val LINES: int = 3

  // ------------------------------------------------------------- schedules

  pure def fact(n: int): int = range(1, n + 1).foldl(1, (a, j) => a * j)
  /// How many schedules there are when so many lines are left to each thread.
  pure def arrangements(left: List[int]): int =
    fact(left.foldl(0, (a, x) => a + x)) / left.foldl(1, (a, x) => a * fact(x))
  pure def lower(left: List[int], j: int): List[int] = left.replaceAt(j, left[j] - 1)
  /// The schedule of number z: whose turn it is, nine times over.
  pure def schedule(z: int): List[int] =
    range(0, THREADS * LINES).foldl({ z: z, left: [LINES, LINES, LINES], l: [] }, (s, q) => {
      val c = range(0, THREADS).foldl([], (a, j) => a.append(if (s.left[j] == 0) 0 else arrangements(lower(s.left, j))))
      val j = if (s.z < c[0]) 0 else if (s.z < c[0] + c[1]) 1 else 2
      val before = if (j == 0) 0 else if (j == 1) c[0] else c[0] + c[1]
      { z: s.z - before, left: lower(s.left, j), l: s.l.append(j) }
    }).l
  pure val SCHEDULES: int = 1680

  // -------------------------------------------------------------- programs

  /// The program of thread j in round q.
  pure def number(q: int, j: int): int = ((3 * q + j) * 7919) % 37509
  pure def bootAll(q: int): List[g::Machine] =
    range(0, THREADS).foldl([], (l, j) => l.append({ ...p::boot(number(q, j)), checks: q % 2 == 0 }))
  pure def line(q: int, j: int, i: int): g::Ins = p::line(number(q, j), i)
  /// The registers of a thread that runs alone.
  pure def alone(q: int, j: int): g::Machine =
    range(0, LINES).foldl(bootAll(q)[j], (k, i) => g::apply(k, g::exec(k, line(q, j, i))))

  // --------------------------------------------------------------- states

  /// Ten states to a schedule: the registers at the start, nine turns.
  pure val SIZE: int = 33600
  var ms: List[g::Machine]
  var done: List[int]
  var who: int
  var ins: g::Ins
  var ans: Out
  var at: int
  action begin(k: int): bool = all {
    at' = k, ms' = bootAll(k / 10), done' = [0, 0, 0], who' = 0,
    ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([])
  }
  action from(k: int): bool = begin(k)
  action init = begin(0)
  action step = {
    val k = at + 1
    val q = k / 10
    if (k % 10 == 0) begin(k)
    else {
      val j = schedule((q / 2) % SCHEDULES)[k % 10 - 1]
      val i = line(q, j, done[j])
      val e = g::exec(ms[j], i)
      all { at' = k, ms' = ms.replaceAt(j, g::apply(ms[j], e)), done' = done.replaceAt(j, done[j] + 1), who' = j, ins' = i, ans' = e.out }
    }
  }

  val inv = and {
    done.indices().forall(j => done[j] <= LINES),
    at % 10 != 9 or range(0, THREADS).foldl(true, (b, j) => b and done[j] == LINES and ms[j] == alone(at / 10, j))
  }
}
