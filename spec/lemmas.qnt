/// What the formulas of the specifications promise, for every small input: a behaviour samples large numbers,
/// these enumerate all the small ones, where rounding matters most.  Run with quint test; every `...Test` is one.
module lemmas {
  import common.* from "./common"
  import pricing.* from "./pricing"
  import curves.* from "./curves"
  import stake as K from "./stake"
  import rewards as R from "./rewards"
  import vesting as V from "./vesting"
  import xyk as X from "./xyk"

  pure val FEES = Set(0, 1, 30, 999, 3333, 5000, 10000)

  // ---------------------------------------------------------------- P01
  pure def soundSwap(a: int, b: int, x: int, fee: int): bool = {
    val o = xykSwap(a, b, x, fee)
    val gross = o.ret + o.comm
    o.ok implies and {
      o.ret >= 0, o.comm >= 0, gross <= b, gross < b or b == 0 or gross * (a + x) <= x * b + (a + x),
      gross * a <= x * b,                         // never better than the price before
      (a + x) * (b - gross) <= a * b,             // the exact product, less than one unit of the bought token below it
      (a + x) * (b - gross + 1) > a * b,
      o.comm * 10000 <= gross * fee,              // the fee in the trader's favour by less than a unit
      (o.comm + 1) * 10000 > gross * fee,
    }
  }
  run P01_swapIsTheCurveTest = assert(1.to(26).forall(a => 1.to(26).forall(b => 1.to(40).forall(x =>
    FEES.forall(f => soundSwap(a, b, x, f))))))
  /// more in, no less out; and nothing in, nothing out
  run P01_swapMonotoneTest = assert(1.to(30).forall(a => 1.to(30).forall(b => 1.to(40).forall(x => {
    val o = xykSwap(a, b, x, 0)  val p = xykSwap(a, b, x + 1, 0)
    o.ret <= p.ret }))))
  /// splitting a trade gains at most the rounding of one unit
  run P01_splittingNeverPaysTest = assert(1.to(14).forall(a => 1.to(14).forall(b => 1.to(10).forall(x => 1.to(10).forall(y => {
    val whole = xykSwap(a, b, x + y, 0)
    val first = xykSwap(a, b, x, 0)
    val second = xykSwap(a + x, b - first.ret, y, 0)
    first.ok and second.ok implies first.ret + second.ret <= whole.ret + 1 })))))
  /// there and back never leaves more than before, up to the two roundings
  run P01_noRoundTripProfitTest = assert(1.to(20).forall(a => 1.to(20).forall(b => 1.to(30).forall(x => {
    val o = xykSwap(a, b, x, 0)
    val p = xykSwap(b - o.ret, a + x, o.ret, 0)
    (o.ok and p.ok) implies (p.ret - x - 1) * (b - o.ret) <= a + x }))))

  // ---------------------------------------------------------------- P06
  /// paying what the reverse quote asks gets what was wanted, up to the rounding of the quote
  run P06_reverseQuoteTest = assert(20.to(44).forall(a => 20.to(44).forall(b => 1.to(10).forall(w => Set(0, 30, 999).forall(f => {
    val r = xykOffer(a, b, w, f)
    val o = xykSwap(a, b, r.offer, f)
    val over = xykSwap(a, b, r.offer + 2, f)
    r.ok implies (r.offer >= 0 and o.ret + o.comm <= w * 10000 / (10000 - f) and over.ret + over.comm + 2 + 2 * b / a >= w) })))))

  // ---------------------------------------------------------------- P03, P04
  run P04_takesAtMostDesiredTest = assert(1.to(12).forall(a => 1.to(12).forall(b => 1.to(12).forall(x => 1.to(12).forall(y =>
    Set(0, 500, 2500, 10000).forall(sl => {
      val d = depositAmounts(a, b, x, y, None, None, sl)
      d.bad == Set() implies and {
        d.a <= x, d.b <= y, d.a == x or d.b == y,
        // what was offered is off the pool's ratio by no more than the slippage
        y * a * 10000 <= (x * (10000 + sl) + 10000) * b, x * b * 10000 <= (y * (10000 + sl) + 10000) * a,
      } }))))))
  pure def pool(a: int, b: int, t: int): X::State =
    { now: 0, inited: true, ra: a, rb: b, total: t, taxA: 0, taxB: 0, cfg: { ...X::NOCFG, maxSlip: 10000, defSlip: 10000, maxSpread: 10000 },
      bal: X::ACCTS.mapBy(u => { a: if (u == "pool") a else 50, b: if (u == "pool") b else 50, lp: if (u == "u1") t else 0 }) }
  /// a deposit or a withdrawal never lowers what a share is worth
  run P03_depositNeverDilutesTest = assert(1.to(9).forall(a => 1.to(9).forall(b => 1.to(12).forall(t => 1.to(8).forall(x => 1.to(8).forall(y => {
    val p = pool(a, b, t)
    val o = X::provide(p, { ...X::NOCALL, op: "provide", who: "u2", ox: Some(x), oy: Some(y) })
    o.ok implies (o.st.ra * t >= a * o.st.total and o.st.rb * t >= b * o.st.total and o.st.total >= t) }))))))
  run P03_withdrawalIsTheShareTest = assert(1.to(16).forall(a => 1.to(16).forall(b => 1.to(16).forall(t => 1.to(t).forall(n => {
    val v = X::shareValue(pool(a, b, t), n)
    and { v.a * t <= a * n, v.b * t <= b * n, (v.a + 2) * t > a * n, (v.b + 2) * t > b * n,
          (a - v.a) * t >= a * (t - n), (b - v.b) * t >= b * (t - n) } })))))
  /// in and out again never gains
  run P03_depositThenWithdrawTest = assert(1.to(8).forall(a => 1.to(8).forall(b => 1.to(12).forall(t => 1.to(7).forall(x => 1.to(7).forall(y => {
    val p = pool(a, b, t)
    val o = X::provide(p, { ...X::NOCALL, op: "provide", who: "u2", ox: Some(x), oy: Some(y) })
    val v = X::shareValue(o.st, o.st.total - t)
    (o.ok and o.st.total > t) implies (v.a <= o.r1 and v.b <= o.r2) }))))))

  // ---------------------------------------------------------------- S01, S02 (the invariant, over 18-decimal reserves)
  pure val RES = 1.to(12).map(k => k * k * 10^17)
  pure val AMPS = Set(1, 6, 85, 1000)
  /// the invariant lies between the geometric and the arithmetic mean, whatever the order, and grows with the reserves
  run S02_invariantTest = assert(AMPS.forall(amp => RES.forall(x => RES.forall(y => {
    val d = computeD(amp, x, y)  val e = computeD(amp, y, x)  val f = computeD(amp, x + 10^16, y)
    and { d.ok, d.v <= x + y + TOL, d.v * d.v + 4 * d.v * TOL >= 4 * x * y - 1, d == e, f.v > d.v } }))))
  /// the other reserve answers to the invariant: more of one means less of the other, and nothing in pays nothing out
  /// (in an imbalanced pool the answer is too high, see the finding stable-imbalanced; never too low)
  run S01_otherReserveTest = assert(AMPS.forall(amp => RES.forall(x => RES.forall(y => {
    val same = calcY(amp, x, x, y)  val more = calcY(amp, x + 10^16, x, y)
    and { same.ok, same.v + TOL >= y, x == y implies abs(same.v - y) <= TOL, more.v <= same.v } }))))
  run S01_swapTest = assert(AMPS.forall(amp => RES.forall(x => RES.forall(y => Set(10^15, 10^17, 10^18, 10^19).forall(a => {
    val o = stableSwap(amp, x, 18, y, 18, a, 30)
    o.ok implies and { o.ret >= 0, o.comm >= 0, o.ret + o.comm < y, o.comm * 10000 <= (o.ret + o.comm) * 30 } })))))

  // ---------------------------------------------------------------- curves: V01, V03, R01
  pure val XS = 1.to(6)
  pure val YS = 0.to(5)
  pure val SATS: Set[Curve] = tuples(XS, XS, YS, YS).filter(t => t._1 < t._2).map(t => { kind: "sat", pts: List({ x: t._1, y: t._3 }, { x: t._2, y: t._4 }) })
  pure val PWS: Set[Curve] = tuples(1.to(4), 1.to(5), 1.to(6), 0.to(3), 0.to(4), 0.to(3)).filter(t => t._1 < t._2 and t._2 < t._3)
    .map(t => { kind: "pw", pts: List({ x: t._1, y: t._4 }, { x: t._2, y: t._5 }, { x: t._3, y: t._6 }) })
  pure val CURVES = SATS.union(PWS)
  run R01_knotsTest = assert(CURVES.forall(c => c.pts.indices().forall(i => value(c, c.pts.nth(i).x) == c.pts.nth(i).y)))
  run R01_betweenTest = assert(CURVES.forall(c => 0.to(8).forall(x => {
    val v = value(c, x)
    c.pts.indices().exists(i => c.pts.nth(i).y <= v) and c.pts.indices().exists(i => c.pts.nth(i).y >= v) })))
  /// within a segment the exact value lies between the value and the start of the segment's side, less than one away
  run R01_roundingTest = assert(SATS.forall(c => {
    val p = c.pts.nth(0)  val n = c.pts.nth(1)
    p.x.to(n.x).forall(x => abs((value(c, x) - p.y) * (n.x - p.x) - (n.y - p.y) * (x - p.x)) < n.x - p.x) }))
  run V01_decreasingNeverRisesTest = assert(CURVES.forall(c => decreasing(c) == 0.to(8).forall(x => value(c, x) >= value(c, x + 1)) or
    not(decreasing(c)) and c.pts.indices().exists(i => i > 0 and c.pts.nth(i).y > c.pts.nth(i - 1).y)))
  run V01_finishedIsZeroTest = assert(CURVES.forall(c => finishes(c) == Set(endOf(c), endOf(c) + 1, endOf(c) + 100).forall(x => value(c, x) == 0)))
  run R01_combinedIsTheSumTest = assert(SATS.forall(c => SATS.forall(d => or { c.pts.nth(0).y + d.pts.nth(1).y > 5, {
    val k = combined(c, d)
    and { ordered(k), k.pts.indices().forall(i => k.pts.nth(i).y == value(c, k.pts.nth(i).x) + value(d, k.pts.nth(i).x)),
          0.to(8).forall(x => abs(value(k, x) - value(c, x) - value(d, x)) <= 2),
          complexity(k) <= complexity(c) + complexity(d) } } })))
  run R01_constantShiftsTest = assert(CURVES.forall(c => 0.to(3).forall(y => 0.to(8).forall(x =>
    abs(value(combined(c, { kind: "const", pts: List({ x: 0, y: y }) }), x) - value(c, x) - y) == 0))))
  /// a schedule that passes every test of the contract releases nothing at first, everything at last, and never takes back
  run V03_acceptedSchedulesTest = assert(CURVES.forall(c => V::faults(c, 10) == Set() implies and {
    value(c, 0) == V::totalOf(c), value(c, endOf(c)) == 0, 0.to(8).forall(x => value(c, x) >= value(c, x + 1)) }))

  // ---------------------------------------------------------------- K02, K03
  pure val AMTS = 1.to(7)
  pure val AGES = Set(-1, 0, 1, 86399, 86400, 30 * 86400, 5184000 - 1, 5184000, 5184000 + 1)
  /// what all stakes together earn is no more than the distribution; each its share, scaled by age
  run K03_neverMoreThanGivenTest = assert(AMTS.forall(a => AMTS.forall(b => AMTS.forall(c => 0.to(20).forall(r => AGES.forall(t => {
    val tot = a + b + c
    val e = K::earns({ amt: a, ts: 100000000 }, 100000000 + t, r, tot) + K::earns({ amt: b, ts: 100000000 }, 100000000 + 5184000, r, tot)
      + K::earns({ amt: c, ts: 100000000 }, 100000000 + 5184000, r, tot)
    e <= r and e >= 0 }))))))
  run K02_growsWithAgeTest = assert(AMTS.forall(a => 0.to(40).forall(r => AGES.forall(t => AGES.forall(u => t <= u implies
    K::earns({ amt: a, ts: 0 }, t, r, 8) <= K::earns({ amt: a, ts: 0 }, u, r, 8))))))
  run K02_fullAfterSixtyDaysTest = assert(AMTS.forall(a => 0.to(40).forall(r => K::earns({ amt: a, ts: 7 }, 7 + 5184000, r, 8) == a * r / 8)))

  // ---------------------------------------------------------------- R02
  run R02_ageTest = assert(0.to(6).forall(a => 0.to(6).forall(b => AGES.forall(t => AGES.forall(u => {
    val st: R::State = { now: 100000000, inited: true, cfg: { maxc: 1, minReward: 1, minBond: 1 }, bal: Map(), curve: { kind: "const", pts: List() },
      spp: 1, left: 0, dist: 0, wd: 0, adj: Map(), stakes: Map(), known: Map(), funds: List(), given: 0, paid: 0 }
    val f = R::age(st, List({ amt: a, ts: 100000000 - max2(0, t) }, { amt: b, ts: 100000000 - max2(0, u) }))
    f >= 0 and f <= ONE and ((max2(t, u) < 86400) implies f == 0) and ((min2(t, u) >= 5184000 and a + b > 0) implies f == ONE) })))))
}
