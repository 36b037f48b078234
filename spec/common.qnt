/// Arithmetic shared by all specifications.  Integers are unbounded; the contracts' 128-bit
/// limits are respected by the domains the models draw their inputs from.
module common {
  type Opt = None | Some(int)

  pure def orElse(o: Opt, d: int): int = match o { | Some(v) => v | None => d }
  pure def isSome(o: Opt): bool = match o { | Some(v) => true | None => false }
  /// an absent option satisfies everything
  pure def someSuch(o: Opt, p: int => bool): bool = match o { | Some(v) => p(v) | None => false }

  /// an announcement (event): the contract it comes from, what it is about, the accounts, tokens
  /// and words it names, and the amounts it states
  type Told = { by: str, about: List[str], names: List[str], amounts: List[int] }
  pure def names(by: str, t: str, f: str, who: str): Told = { by: by, about: List(t, f), names: List(who), amounts: List() }
  pure def states(by: str, t: str, f: str, n: int): Told = { by: by, about: List(t, f), names: List(), amounts: List(n) }
  /// what a list of announcements states about a field, summed
  pure def stated(l: List[Told], f: str): int =
    l.foldl(0, (acc, e) => if (e.about.nth(1) == f and length(e.amounts) == 1) acc + e.amounts.nth(0) else acc)

  /// the fixed point unit of the contracts' decimals
  pure val ONE = 1000000000000000000
  pure def bps(x: int): int = x * 100000000000000
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def abs(a: int): int = if (a < 0) -a else a
  /// division truncating towards zero, whatever the signs
  pure def tdiv(a: int, b: int): int =
    if ((a < 0) == (b < 0)) abs(a) / abs(b) else -(abs(a) / abs(b))

  /// floor of the square root (Newton iteration from above)
  pure def isqrt(n: int): int =
    if (n < 2) n else
      range(0, 300).foldl({ x: n, done: false }, (acc, i) =>
        if (acc.done) acc else {
          val y = (acc.x + n / acc.x) / 2
          if (y >= acc.x) { x: acc.x, done: true } else { x: y, done: false }
        }).x

  /// times a history may start at: any date, also beyond 32 bits
  pure val STARTS = Set(10000000, 1700000000, 2^32 - 1000, 2^33 + 5)
  /// k in 0..11: no percentage, mostly just so
  pure def badBps(k: int): int =
    if (k <= 3) -1 else if (k <= 7) 10001
    else if (k == 8) 65536 + 100 else if (k == 9) 2^32 + 30 else if (k == 10) -65536 + 100 else if (k == 11) 2^63 - 1 else -(2^63)
  /// by how much a limit is passed, mostly just so
  pure def beyond(k: int): int = if (k % 6 <= 3) 1 else if (k % 6 == 4) 65536 else 2^32
  pure def negative(k: int): int =
    if (k % 8 <= 2) 0 else if (k % 8 <= 5) -1 else if (k % 8 == 6) 5 - 2^64 else 5 - 2^127
  /// a deadline for a call at time t: kept or missed, mostly just so
  pure def deadline(k: int, t: int, broken: bool): Opt =
    if (broken) Some(if (k == 1) t - 1 else if (k == 2) 0 else if (k == 3) t - 86400 else if (k == 4) t - 1 else max2(1, t - 2^32))
    else if (k <= 1 or k == 6) None else if (k == 2) Some(t) else if (k == 3) Some(t + 86400) else if (k == 4) Some(2^64 - 1) else Some(t + 2^32)
  /// a fee limit for a fee: kept or missed
  pure def feeLimit(k: int, fee: int, broken: bool): Opt =
    if (broken) Some(if (k == 1) fee - 1 else if (k == 2) 0 else if (k == 3) -1 else if (k == 4) fee - 1 else fee - 65536)
    else if (k == 1 or k == 6) None else if (k == 2) Some(fee) else if (k == 3) Some(10000) else if (k == 4) Some(2^63 - 1) else Some(fee + 65536)

  pure def okBps(x: int): bool = 0 <= x and x <= 10000

  /// an amount spread over many magnitudes: m in 1..9999, e in 0..
  pure def mag(m: int, e: int): int = max2(1, m * 10^e / 1000)

  /// option built from a choice k: None for k = 0, v + (k - 2) otherwise, i.e. v-1, v, v+1
  pure def around(k: int, v: int): Opt = if (k == 0) None else Some(v + k - 2)
}
