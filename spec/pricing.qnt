/// The prices of both kinds of pools as functions of reserves and parameters, shared by the
/// specifications of the pools themselves and of the contracts that route through them.
module pricing {
  import common.* from "./common"

  type Swap = { ok: bool, ret: int, spread: int, comm: int }
  type Rev = { ok: bool, offer: int, spread: int, comm: int }
  pure val NOSWAP: Swap = { ok: false, ret: 0, spread: 0, comm: 0 }
  pure val NOREV: Rev = { ok: false, offer: 0, spread: 0, comm: 0 }
  pure val MINLIQ = 1000
  pure val TOL = 1000000000000
  pure val P127 = 2^127
  pure val P128 = 2^128
  pure val P256 = 2^256
  pure def flag(c: bool, n: str): Set[str] = if (c) Set(n) else Set()

  // ---------------------------------------------------------------- constant product
  pure def xykSwap(offer: int, ask: int, amt: int, fee: int): Swap =
    if (offer <= 0 or offer + amt <= 0 or amt < 0) NOSWAP else {
      val gross = ask - (offer * ask) / (offer + amt)
      val spread = (amt * ask) / offer - gross
      val comm = gross * bps(fee) / ONE
      { ok: spread >= 0, ret: gross - comm, spread: spread, comm: comm }
    }
  pure def xykOffer(offer: int, ask: int, want: int, fee: int): Rev =
    if (fee >= 10000 or offer == 0) NOREV else {
      val inv = ONE * ONE / (ONE - bps(fee))
      val before = tdiv(want * inv, ONE)
      if (ask == before) NOREV else {
        val off = tdiv(offer * ask, ask - before) - offer
        { ok: true, offer: off, spread: tdiv(off * ask, offer) - before,
          comm: tdiv(before * bps(fee), ONE) }
      }
    }

  /// amounts the pool takes for a deposit; bad names the limit that is broken
  pure def depositAmounts(ra: int, rb: int, da: int, db: int, ma: Opt, mb: Opt, slip: int):
      { a: int, b: int, bad: Set[str] } =
    if (da <= 0 or db <= 0) { a: 0, b: 0, bad: Set("arg") }
    else if (ra == 0 and rb == 0) { a: da, b: db, bad: Set() }
    else if (ra <= 0 or rb <= 0) { a: 0, b: 0, bad: Set("empty") }
    else {
      val wantA = db * ra / rb
      val wantB = da * rb / ra
      val slipA = wantA > da and (wantA * ONE / da) - ONE > bps(slip)
      val slipB = wantB > db and (wantB * ONE / db) - ONE > bps(slip)
      val a = min2(wantA, da)
      val b = min2(wantB, db)
      { a: a, b: b, bad: flag(slipA or slipB, "slip")
          .union(flag(ma.someSuch(v => a < v or v > da) or mb.someSuch(v => b < v or v > db), "min")) }
    }

  // ---------------------------------------------------------------- stable curve
  type Num = { ok: bool, v: int }
  pure def scale(x: int, src: int, dst: int): int =
    if (src < dst) x * 10^(dst - src) else x / 10^(src - dst)

  /// invariant of two reserves with 18 decimals
  pure def computeD(amp: int, a: int, b: int): Num = {
    val sum = a + b
    val prod = 4 * a * b
    val lev = amp * 2 * ONE
    if (sum == 0) { ok: true, v: 0 }
    else if (prod == 0) { ok: false, v: 0 }
    else {
      val r = range(0, 64).foldl({ d: sum, st: 0 }, (acc, i) =>
        if (acc.st != 0) acc else {
          val dp = acc.d^3 / prod
          val num = (lev * sum + 2 * dp) * acc.d
          val d2 = num / ((lev - 1) * acc.d + 3 * dp)
          if (acc.d^3 >= P256 or num >= P256) { d: acc.d, st: 2 }
          else if (abs(d2 - acc.d) <= TOL) { d: d2, st: 1 } else { d: d2, st: 0 }
        })
      { ok: r.st == 1, v: r.d }
    }
  }

  /// the other reserve (18 decimals) once one of them is x
  pure def calcY(amp: int, x: int, a: int, b: int): Num = {
    val dd = computeD(amp, a, b)
    if (not(dd.ok) or x <= 0) { ok: false, v: 0 } else {
      val d = dd.v
      val c = d^3 * 100 / (x * 4 * (amp * 200))
      val bb = x + d * 100 / (amp * 200)
      val r = range(0, 64).foldl({ y: d, st: 0 }, (acc, i) =>
        if (acc.st != 0) acc else {
          val den = 2 * acc.y + bb - d
          if (den <= 0 or acc.y^2 + c >= P256) { y: acc.y, st: 2 } else {
            val y2 = (acc.y^2 + c) / den
            if (abs(y2 - acc.y) <= TOL) { y: y2, st: 1 } else { y: y2, st: 0 }
          }
        })
      { ok: r.st == 1 and d^3 * 100 < P256 and r.y < P128, v: r.y }
    }
  }

  pure def stableSwap(amp: int, offer: int, dO: int, ask: int, dA: int, amt: int, fee: int): Swap = {
    val y = calcY(amp, scale(offer + amt, dO, 18), scale(offer, dO, 18), scale(ask, dA, 18))
    val gross = ask - y.v / 10^(18 - dA)
    if (not(y.ok) or gross < 0 or amt < 0 or gross * bps(fee) >= P127) NOSWAP else {
      val comm = gross * bps(fee) / ONE
      { ok: true, ret: gross - comm, spread: max2(0, scale(amt, dO, dA) - gross), comm: comm }
    }
  }
  pure def stableOffer(amp: int, offer: int, dO: int, ask: int, dA: int, want: int, fee: int): Rev =
    if (fee >= 10000 or want < 0) NOREV else {
      val inv = ONE * ONE / (ONE - bps(fee))
      val before = want * inv / ONE
      if (ask < before or want * inv >= P127) NOREV else {
        val y = calcY(amp, scale(ask - before, dA, 18), scale(offer, dO, 18), scale(ask, dA, 18))
        val off = y.v / 10^(18 - dO) - offer
        if (not(y.ok) or off < 0 or before * bps(fee) >= P127) NOREV
        else { ok: true, offer: off, spread: max2(0, off - scale(want, dA, dO)), comm: before * bps(fee) / ONE }
      }
    }
}
