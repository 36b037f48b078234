/// The stable-swap liquidity pool together with its three tokens.
/// One action per public entry point; acceptance, prices, issued shares and all balances are
/// decided from the state and the arguments.  The two Newton iterations are modelled step by step,
/// including their tolerance and the ranges of the contract's integers.
module stable {
  import common.* from "./common"
  import pricing.* from "./pricing"

  type Bal = { a: int, b: int, lp: int }
  type Cfg = { fee: int, maxSlip: int, maxSpread: int, defSlip: int, feeTo: str, admin: str }
  /// taxA, taxB: what the two tokens themselves deduct from every transfer, in basis points (0 for
  /// ordinary tokens); the deduction goes to the account "sink"
  type State = { now: int, inited: bool, decA: int, decB: int, taxA: int, taxB: int, amp: int,
                 ra: int, rb: int, total: int, bal: str -> Bal, cfg: Cfg }
  type Call = { op: str, who: str, signed: bool, tok: str, x: int, y: int, ox: Opt, ms: Opt,
                slip: Opt, dl: Opt, fee: Opt, sAdmin: str, sFeeTo: str,
                c1: Opt, c2: Opt, c3: Opt, n1: int, n2: int, n3: int }
  type Out = { ok: bool, why: Set[str], r1: int, r2: int, auth: Set[str], st: State }

  pure val USERS = Set("u1", "u2", "u3")
  pure val PAYERS = Set("u1", "u2", "u3", "fee", "fee2")
  pure val ACCTS = Set("u1", "u2", "u3", "adm", "adm2", "fee", "fee2", "pool", "sink")
  pure val NOCFG: Cfg = { fee: 0, maxSlip: 0, maxSpread: 0, defSlip: 0, feeTo: "", admin: "" }

  pure def swapOut(s: State, tok: str, amt: int): Swap =
    if (tok == "a") stableSwap(s.amp, s.ra, s.decA, s.rb, s.decB, amt, s.cfg.fee)
    else stableSwap(s.amp, s.rb, s.decB, s.ra, s.decA, amt, s.cfg.fee)
  pure def offerFor(s: State, tok: str, want: int): Rev =
    if (tok == "a") stableOffer(s.amp, s.ra, s.decA, s.rb, s.decB, want, s.cfg.fee)
    else stableOffer(s.amp, s.rb, s.decB, s.ra, s.decA, want, s.cfg.fee)
  pure def invariantOf(s: State, a: int, b: int): Num = computeD(s.amp, scale(a, s.decA, 18), scale(b, s.decB, 18))
  pure def shareValue(s: State, n: int): { a: int, b: int } = {
    val ratio = if (s.total == 0) 0 else n * ONE / s.total
    { a: s.ra * ratio / ONE, b: s.rb * ratio / ONE }
  }

  // ---------------------------------------------------------------- ledger helpers
  pure def amtOf(b: Bal, tok: str): int = if (tok == "a") b.a else if (tok == "b") b.b else b.lp
  pure def add(b: Bal, tok: str, v: int): Bal =
    if (tok == "a") { ...b, a: b.a + v } else if (tok == "b") { ...b, b: b.b + v } else { ...b, lp: b.lp + v }
  pure def taxOf(s: State, tok: str, v: int): int =
    v * (if (tok == "a") s.taxA else if (tok == "b") s.taxB else 0) / 10000
  pure def net(s: State, tok: str, v: int): int = v - taxOf(s, tok, v)
  pure def move(bal: str -> Bal, s: State, tok: str, src: str, dst: str, v: int): str -> Bal = {
    val t = taxOf(s, tok, v)
    val b1 = bal.setBy(src, x => add(x, tok, -v)).setBy(dst, x => add(x, tok, v - t))
    if (t == 0) b1 else b1.setBy("sink", x => add(x, tok, t))
  }
  pure def credit(bal: str -> Bal, tok: str, dst: str, v: int): str -> Bal = bal.setBy(dst, x => add(x, tok, v))
  pure def late(s: State, dl: Opt): bool = dl.someSuch(d => s.now > d)
  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, r1: 0, r2: 0, auth: Set(), st: s }

  // ---------------------------------------------------------------- entry points
  pure def initialize(s: State, c: Call): Out = {
    // c1 fee, c2 max slippage, c3 max spread, n1 default slippage, n2 max fee, n3 amplification
    val fee = orElse(c.c1, 0)  val ms = orElse(c.c2, 0)  val msp = orElse(c.c3, 0)
    val why = flag(s.inited, "twice")
      .union(flag(not(List(fee, ms, msp, c.n1, c.n2).foldl(true, (acc, x) => acc and okBps(x))), "bps"))
      .union(flag(fee > c.n2, "feemax")).union(flag(c.tok == "ba", "order"))
      .union(flag(c.n3 < 1 or c.n3 > 1000000, "amp"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(),
        st: { ...s, inited: true, amp: c.n3, cfg: { fee: fee, maxSlip: ms, maxSpread: msp,
                                                    defSlip: c.n1, feeTo: c.sFeeTo, admin: c.sAdmin } } }
  }

  /// shares a deposit of x a and y b is worth; d0 and d1 are the invariants before and after
  type Issue = { ok: bool, n: int, why: str }
  pure def issue(s: State, x: int, y: int): Issue = {
    val d1 = invariantOf(s, s.ra + net(s, "a", x), s.rb + net(s, "b", y))
    if (not(d1.ok)) { ok: false, n: 0, why: "price" }
    else if (s.total == 0) {
      // the first depositor gets the invariant less the minimum, which nobody gets
      val n = d1.v / 10^(18 - max2(s.decA, s.decB)) - MINLIQ
      { ok: n > 0, n: n, why: "minliq" }
    } else {
      val d0 = invariantOf(s, s.ra, s.rb)
      if (not(d0.ok) or d0.v == 0 or d1.v < d0.v) { ok: false, n: 0, why: "price" }
      else { ok: true, n: s.total * ((d1.v - d0.v) * ONE / d0.v) / ONE, why: "" }
    }
  }

  pure def provide(s: State, c: Call): Out = {
    val pre = flag(late(s, c.dl), "deadline").union(flag(c.x <= 0 or c.y <= 0, "arg")).union(flag(not(c.signed), "auth"))
      .union(flag(orElse(c.slip, s.cfg.defSlip) > s.cfg.maxSlip, "slipmax"))
      .union(flag(s.bal.get(c.who).a < c.x or s.bal.get(c.who).b < c.y, "funds"))
    if (pre != Set()) reject(s, pre) else {
      val i = issue(s, c.x, c.y)
      if (not(i.ok)) reject(s, Set(i.why))
      else if (c.ms.someSuch(v => i.n < v)) reject(s, Set("min"))
      else {
        val bal1 = s.bal.move(s, "a", c.who, "pool", c.x).move(s, "b", c.who, "pool", c.y)
        { ok: true, why: Set(), r1: i.n, r2: 0, auth: Set(c.who),
          st: { ...s, ra: bal1.get("pool").a, rb: bal1.get("pool").b, total: s.total + i.n,
                bal: bal1.credit("lp", c.who, i.n) } }
      }
    }
  }

  pure def swap(s: State, c: Call): Out = {
    // x amount, ox minimum out, slip max spread, fee accepted fee
    val pre = flag(late(s, c.dl), "deadline").union(flag(c.x <= 0, "arg")).union(flag(not(c.signed), "auth"))
      .union(flag(c.tok != "a" and c.tok != "b", "asset"))
      .union(flag(c.fee.someSuch(v => v < s.cfg.fee), "fee"))
      .union(flag(c.slip.someSuch(v => v < 0 or v > s.cfg.maxSpread), "spreadmax"))
    if (pre != Set()) reject(s, pre) else {
      val o = swapOut(s, c.tok, c.x)
      val gross = o.ret + o.comm
      val limit = bps(orElse(c.slip, s.cfg.maxSpread))
      val bad = flag(not(o.ok) or gross == 0, "price")
        .union(flag(o.spread * ONE >= P127, "range"))
        .union(flag(c.ox.someSuch(v => v > o.ret), "min"))
        .union(flag(gross > 0 and o.spread * ONE / gross > limit, "spread"))
        .union(flag(amtOf(s.bal.get(c.who), c.tok) < c.x, "funds"))
      if (bad != Set()) reject(s, bad) else {
        val ask = if (c.tok == "a") "b" else "a"
        val bal1 = s.bal.move(s, c.tok, c.who, "pool", c.x).move(s, ask, "pool", c.who, o.ret)
          .move(s, ask, "pool", s.cfg.feeTo, o.comm)
        val st1 = if (c.tok == "a") { ...s, ra: s.ra + net(s, "a", c.x), rb: s.rb - gross, bal: bal1 }
                  else { ...s, rb: s.rb + net(s, "b", c.x), ra: s.ra - gross, bal: bal1 }
        { ok: true, why: Set(), r1: o.ret, r2: o.comm, auth: Set(c.who), st: st1 }
      }
    }
  }

  pure def withdraw(s: State, c: Call): Out = {
    val v = shareValue(s, c.x)
    val why = flag(late(s, c.dl), "deadline").union(flag(c.x <= 0 or c.n1 <= 0 or c.n2 <= 0, "arg"))
      .union(flag(not(c.signed), "auth")).union(flag(s.bal.get(c.who).lp < c.x, "funds"))
      .union(flag(s.total == 0, "empty")).union(flag(v.a < c.n1 or v.b < c.n2, "min"))
      .union(flag(c.x * ONE >= P127 or max2(s.ra, s.rb) * (c.x * ONE / max2(1, s.total)) >= P127, "range"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: v.a, r2: v.b, auth: Set(c.who),
        st: { ...s, ra: s.ra - v.a, rb: s.rb - v.b, total: s.total - c.x,
              bal: s.bal.credit("lp", c.who, -c.x).move(s, "a", "pool", c.who, v.a).move(s, "b", "pool", c.who, v.b) } }
  }

  pure def donate(s: State, c: Call): Out = {
    val why = flag(c.x < 0, "arg").union(flag(amtOf(s.bal.get(c.who), c.tok) < c.x, "funds"))
      .union(flag(not(c.signed), "auth"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(c.who), st: { ...s, bal: s.bal.move(s, c.tok, c.who, c.sFeeTo, c.x) } }
  }

  pure def updateConfig(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.who != s.cfg.admin, "admin"))
      .union(flag(List(c.c1, c.c2, c.c3).foldl(false, (acc, o) => acc or o.someSuch(v => not(okBps(v)))), "bps"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(c.who),
        st: { ...s, cfg: { ...s.cfg, admin: if (c.sAdmin == "") s.cfg.admin else c.sAdmin,
                           feeTo: if (c.sFeeTo == "") s.cfg.feeTo else c.sFeeTo,
                           fee: orElse(c.c1, s.cfg.fee), maxSlip: orElse(c.c2, s.cfg.maxSlip),
                           maxSpread: orElse(c.c3, s.cfg.maxSpread) } } }
  }

  /// migration entry points, run with the unchanged code
  pure def upgrade(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth"))
    else { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(s.cfg.admin), st: s }

  pure def perform(s: State, c: Call): Out =
    if (c.op == "initialize") initialize(s, c)
    else if (c.op == "provide") provide(s, c)
    else if (c.op == "swap") swap(s, c)
    else if (c.op == "withdraw") withdraw(s, c)
    else if (c.op == "donate") donate(s, c)
    else if (c.op == "config") updateConfig(s, c)
    else upgrade(s, c)

  // ---------------------------------------------------------------- announcements
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "initialize") List(names("pool", "initialize", "XYK LP token_a", "a"), names("pool", "initialize", "XYK LP token_b", "b"))
    else if (c.op == "provide") List(names("pool", "provide_liquidity", "sender", c.who),
      names("pool", "provide_liquidity", "token_a", "a"), states("pool", "provide_liquidity", "token_a-amount", net(s, "a", c.x)),
      names("pool", "provide_liquidity", "token_b", "b"), states("pool", "provide_liquidity", "token_b-amount", net(s, "b", c.y)))
    else if (c.op == "withdraw") List(names("pool", "withdraw_liquidity", "sender", c.who),
      states("pool", "withdraw_liquidity", "shares_amount", c.x),
      states("pool", "withdraw_liquidity", "return_amount_a", o.r1), states("pool", "withdraw_liquidity", "return_amount_b", o.r2))
    else if (c.op == "swap") List(names("pool", "swap", "sender", c.who), names("pool", "swap", "sell_token", c.tok),
      states("pool", "swap", "offer_amount", c.x), names("pool", "swap", "buy_token", if (c.tok == "a") "b" else "a"),
      states("pool", "swap", "return_amount", o.r1), states("pool", "swap", "spread_amount", swapOut(s, c.tok, c.x).spread))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// quotes in the new state (on = false: none were computed)
  type Quotes = { on: bool, x: int, y: int, sab: Swap, sba: Swap, ra: Rev, rb: Rev, sh: { a: int, b: int } }
  var q: Quotes

  pure val NOCALL: Call = { op: "none", who: "", signed: true, tok: "", x: 0, y: 0, ox: None, ms: None,
    slip: None, dl: None, fee: None, sAdmin: "", sFeeTo: "", c1: None, c2: None, c3: None, n1: 0, n2: 0, n3: 0 }
  pure val NOQ: Quotes = { on: false, x: 0, y: 0, sab: NOSWAP, sba: NOSWAP, ra: NOREV, rb: NOREV, sh: { a: 0, b: 0 } }
  pure def quotes(st: State, x: int, y: int): Quotes =
    { on: true, x: x, y: y, sab: swapOut(st, "a", x), sba: swapOut(st, "b", x),
      ra: offerFor(st, "a", y * st.rb / 10000), rb: offerFor(st, "b", y * st.ra / 10000),
      sh: shareValue(st, y * st.total / 10000) }

  action start(on: bool, ta: int, tb: int): bool = {
    nondet t0 = oneOf(STARTS)
    nondet d1 = oneOf(Set(2, 4, 6, 7, 8, 9, 18))
    nondet d2 = oneOf(Set(0, 3, 6, 7, 8, 9, 18))
    nondet same = oneOf(1.to(4))
    nondet w = oneOf(Set(1, 50, 10^4, 10^6, 3 * 10^7))
    nondet w18 = oneOf(Set(1, 20))
    val da = if (same == 1) 7 else d1
    val db = if (same == 1) 7 else if (same == 2) d1 else d2
    val whole = if (da == 18 or db == 18) w18 else w
    val st: State = { now: t0, inited: false, decA: da, decB: db, taxA: ta, taxB: tb, amp: 0, ra: 0, rb: 0, total: 0, cfg: NOCFG,
      bal: ACCTS.mapBy(x => if (USERS.contains(x)) { a: whole * 10^da, b: whole * 10^db, lp: 0 } else { a: 0, b: 0, lp: 0 }) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), q' = { ...NOQ, on: on } }
  }
  action init = start(false, 0, 0)
  /// tokens that keep a part of what is transferred
  action initTaxed = {
    nondet ta = oneOf(Set(0, 1, 100, 1000, 5000))
    nondet tb = oneOf(Set(0, 0, 30, 2500))
    start(false, ta, if (ta == 0) 100 else tb)
  }
  /// with quotes after every call
  action initQuotes = start(true, 0, 0)

  action act(c: Call): bool = {
    nondet dt = oneOf(Set(0, 1, 7, 100, 86400, 2592000))
    nondet qm = oneOf(1.to(9999))
    nondet qy = oneOf(1.to(9000))
    nondet qs = oneOf(0.to(4))
    val o = perform(s, c)
    all { prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = o, ev' = told(s, c, o),
          q' = if (q.on and not(o.st.inited)) q else if (q.on) quotes(o.st, max2(1, min2(o.st.ra, o.st.rb) * qm / 10^(4 + qs)), qy) else NOQ }
  }

  pure def atLeast(k: int, v: int, broken: bool): Opt =
    if (broken) Some(v + 1) else if (k <= 1) None else if (k == 2) Some(v) else Some(v - 1)
  pure def atLeastPos(k: int, v: int, broken: bool): Opt =
    if (broken) Some(v + 1) else if (k <= 1 or v <= 1) None else if (k == 2) Some(v) else Some(v - 1)

  action doInit = {
    nondet v = oneOf(1.to(24))
    nondet fee = oneOf(Set(0, 1, 30, 100, 999))
    nondet fmax = oneOf(Set(0, 1, 1000, 10000))
    nondet slip = oneOf(Set(100, 500, 10000, 2500))
    nondet spread = oneOf(Set(50, 500, 5000, 9999, 10000))
    nondet dsl = oneOf(Set(0, 1, 100))
    nondet bk = oneOf(0.to(12))
    nondet badAmp = oneOf(Set(0, 1000001))
    nondet amp = oneOf(Set(1, 2, 6, 6, 50, 85, 200, 5000, 1000000))
    nondet fto = oneOf(Set("fee", "fee2", "u3", "adm", "u2"))   nondet adm = oneOf(Set("adm", "u2"))
    act({ ...NOCALL, op: "initialize", who: "adm", tok: if (v == 1) "ba" else "ab", sAdmin: adm, sFeeTo: fto,
          c1: Some(if (v == 2) badBps(bk) else fee), c2: Some(if (v == 3) badBps(bk) else slip),
          c3: Some(if (v == 4) badBps(bk) else spread),
          n1: if (v == 6) badBps(bk) else if (v >= 9 and v <= 11) (if (v == 9) 10000 else min2(10000, slip + 1)) else dsl,
          n2: if (v == 7) badBps(bk) else if (v == 8) fee - 1 else max2(fee, fmax), n3: if (v == 5) badAmp else amp })
  }

  action doProvide = {
    nondet u = oneOf(USERS)
    nondet v = oneOf(1.to(22))
    nondet m1 = oneOf(1.to(9999))   nondet m2 = oneOf(1.to(9999))   nondet e = oneOf(0.to(6))
    nondet shape = oneOf(1.to(8))   nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet km = oneOf(1.to(3))      nondet sl = oneOf(1.to(4))
    val b = s.bal.get(u)
    // first deposits: even by value, or skewed; later ones small and large, even, skewed, one-sided
    val da = if (s.ra == 0 or s.rb == 0) max2(1, b.a * m1 / 20000)
             else if (shape == 8) 1 else max2(1, min2(b.a, b.a * m1 / 20000 / 10^e))
    val db = if (s.ra == 0 or s.rb == 0) (if (shape <= 6) max2(1, scale(da, s.decA, s.decB))
               else if (shape == 7) max2(1, scale(da, s.decA, s.decB) * (20000 + m2) / 20000) else max2(1, b.b * m2 / 20000))
             else if (shape <= 3) max2(1, da * s.rb / s.ra)
             else if (shape <= 5) max2(1, scale(da, s.decA, s.decB))
             else if (shape == 7) 1 else max2(1, b.b * m2 / 20000 / 10^e)
    val dd = if (v == 8 or km > 1) issue(s, da, db) else { ok: false, n: 0, why: "" }
    val worth = if (dd.ok) dd.n else 0
    act({ ...NOCALL, op: "provide", who: u, signed: v != 3,
          x: if (v == 4) neg else if (v == 10) b.a + 1 else da,
          y: if (v == 5) neg else if (v == 11) b.b + 1 else db,
          ms: if (not(dd.ok)) None else atLeastPos(km, worth, v == 8),
          slip: if (v == 1) Some(s.cfg.maxSlip + beyond(m2)) else if (v == 14) Some(-1) else if (v == 15) Some(0) else if (v == 16 or (sl <= 2 and s.cfg.defSlip <= s.cfg.maxSlip)) None
                else Some(s.cfg.maxSlip),
          dl: deadline(dk, s.now, v == 13) })
  }

  action doSwap = {
    nondet u0 = oneOf(PAYERS)       nondet u1 = oneOf(USERS)
    nondet v = oneOf(1.to(24))
    nondet m1 = oneOf(1.to(9999))   nondet e1 = oneOf(0.to(6))
    nondet tok0 = oneOf(Set("a", "b"))  nondet shape = oneOf(1.to(12))  nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet km = oneOf(1.to(3))      nondet kf = oneOf(1.to(6))
    nondet sl = oneOf(1.to(4))
    val tok = if (v == 1) "lp" else tok0
    val u = if (amtOf(s.bal.get(u0), tok) > 0) u0 else u1
    val have = amtOf(s.bal.get(u), tok)
    val off = if (tok == "a") s.ra else s.rb
    val x0 = if (v == 2) have + 1 else if (shape <= 6) max2(1, min2(have, off * m1 / 10000 / 10^e1))
            else if (shape <= 9) max2(1, min2(have, off * m1 / 10000))
            else if (shape == 10) max2(1, have) else if (shape == 11) max2(1, min2(have, m1)) else max2(1, have * m1 / 20000)
    // pools out of balance refuse small amounts (the invariant is close to the sum of the reserves);
    // those are tried too, but mostly replaced by something larger
    val o0 = if (tok != "lp") swapOut(s, tok, x0) else { ok: false, ret: 1, spread: 1, comm: 0 }
    val big = tok != "lp" and v > 2 and shape != 11 and (not(o0.ok) or o0.ret == 0)
    val x = if (big) max2(1, min2(have, off * m1 / 12000)) else x0
    val o = if (big) swapOut(s, tok, x) else o0
    val gross = o.ret + o.comm
    val sb = if (gross > 0) max2(0, (o.spread * ONE / gross + bps(1) - 1) / bps(1)) else 0
    val spread = if (v == 3) Some(s.cfg.maxSpread + beyond(m1)) else if (v == 4) Some(if (sl <= 2) -1 else 0) else if (v == 5) Some(min2(sb, 20000) - 1)
                 else if (sl == 1) None else if (sl == 2 or sb > s.cfg.maxSpread) Some(s.cfg.maxSpread) else Some(sb)
    act({ ...NOCALL, op: "swap", who: u, signed: v != 6, tok: tok, x: if (v == 7) neg else x,
          ox: if (v == 11) Some(if (km == 1) -1 else 0) else atLeast(km, o.ret, v == 8), slip: spread, dl: deadline(dk, s.now, v == 9),
          fee: feeLimit(kf, s.cfg.fee, v == 10) })
  }

  action doWithdraw = {
    nondet u0 = oneOf(USERS)
    nondet v = oneOf(1.to(20))
    nondet m1 = oneOf(1.to(9999))   nondet shape = oneOf(1.to(6))   nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet ka = oneOf(1.to(3))      nondet kb = oneOf(1.to(3))
    val u = if (s.bal.get(u0).lp > 0) u0 else if (s.bal.get("u1").lp > 0) "u1" else if (s.bal.get("u2").lp > 0) "u2" else "u3"
    val lp = s.bal.get(u).lp
    val x = if (v == 1) lp + 1 else if (shape == 1) max2(1, lp) else if (shape == 2) max2(1, min2(lp, m1)) else max2(1, lp * m1 / 20000)
    val w = shareValue(s, x)
    act({ ...NOCALL, op: "withdraw", who: u, signed: v != 2, x: if (v == 3) neg else x,
          n1: if (v == 4) neg else orElse(atLeastPos(ka, w.a, v == 5), 1),
          n2: if (v == 6) neg else orElse(atLeastPos(kb, w.b, v == 7), 1), dl: deadline(dk, s.now, v == 8) })
  }

  action doDonate = {
    nondet u = oneOf(USERS)         nondet tok = oneOf(Set("a", "b", "lp"))
    nondet m1 = oneOf(1.to(9999))   nondet e1 = oneOf(0.to(6))
    nondet dst = oneOf(Set("pool", "u1", "u2"))
    val x = amtOf(s.bal.get(u), tok) * m1 / 100000 / 10^e1
    act({ ...NOCALL, op: "donate", who: u, tok: tok, x: x, sFeeTo: dst })
  }

  action doConfig = {
    nondet v = oneOf(1.to(12))      nondet bk = oneOf(0.to(12))
    nondet na0 = oneOf(Set("adm", "adm2", "u1", "fee"))     nondet nf0 = oneOf(Set("fee", "fee2", "u2", "adm"))
    nondet nk = oneOf(1.to(6))
    nondet k1 = oneOf(Set(0, 1, 30, 250, 10000))  nondet k2 = oneOf(Set(100, 500, 10000))
    nondet k3 = oneOf(Set(500, 5000, 10000))
    nondet n = oneOf(0.to(7))       nondet wrong = oneOf(Set("adm", "adm2", "u1", "u2", "fee"))
    pure def pick(bit: int, val_: int, broken: bool): Opt =
      if (broken) Some(badBps(bk)) else if ((n / bit) % 2 == 1) Some(val_) else None
    val na = if (nk <= 3) "" else na0
    val nf = if (nk % 3 != 0) "" else nf0
    act({ ...NOCALL, op: "config", who: if (v == 6) wrong else s.cfg.admin, signed: v != 1, sAdmin: na, sFeeTo: nf,
          c1: pick(1, k1, v == 2), c2: pick(2, k2, v == 3), c3: pick(4, k3, v == 4) })
  }

  action doUpgrade = {
    nondet sg = oneOf(1.to(3))
    nondet o = oneOf(Set("upgrade", "update"))
    act({ ...NOCALL, op: o, who: "adm", signed: sg != 1 })
  }

  action doReinit = {
    nondet a = oneOf(Set("adm", "u1"))
    act({ ...NOCALL, op: "initialize", who: a, tok: "ab", sAdmin: a, sFeeTo: "fee",
          c1: Some(0), c2: Some(100), c3: Some(100), n1: 100, n2: 1000, n3: 6 })
  }

  action trading = any {
    doProvide, doProvide, doProvide, doSwap, doSwap, doSwap, doSwap, doSwap, doWithdraw, doWithdraw, doDonate
  }
  action rare = any { doConfig, doConfig, doConfig, doUpgrade, doReinit }
  action step =
    if (not(s.inited)) doInit
    else if (s.total == 0) any { doProvide, doProvide, doProvide, doDonate }
    else any { trading, trading, trading, trading, trading, trading, trading, trading, trading, rare }
  action adminStep =
    if (not(s.inited)) doInit else if (s.total == 0) any { doProvide, doConfig, doUpgrade, doReinit }
    else any { rare, rare, rare, trading }
  action lpStep =
    if (not(s.inited)) doInit
    else if (s.total == 0) any { doProvide, doProvide, doProvide, doProvide, doDonate }
    else any { doProvide, doProvide, doProvide, doProvide, doProvide, doWithdraw, doWithdraw, doWithdraw, doWithdraw,
               doWithdraw, doSwap, doSwap, doDonate, rare }

  // ---------------------------------------------------------------- properties of the specification
  val swapped = out.ok and call.op == "swap"
  /// S01: never more than parity, up to one unit of the bought token or the tolerance of the iterations
  val unit18 = 10^(18 - (if (call.tok == "a") s.decB else s.decA))
  val swapParity = swapped implies {
    val dO = if (call.tok == "a") s.decA else s.decB
    val dA = if (call.tok == "a") s.decB else s.decA
    scale(out.r1 + out.r2, dA, 18) <= scale(call.x, dO, 18) + max2(unit18, TOL) and out.r1 >= 0 and out.r2 >= 0
  }
  val swapKeepsInvariant = (swapped and (if (call.tok == "a") s.taxA else s.taxB) == 0) implies {
    val d0 = invariantOf(prev, prev.ra, prev.rb)
    val d1 = invariantOf(s, s.ra, s.rb)
    not(d1.ok) or d1.v + max2(unit18, TOL) >= d0.v
  }
  val swapFee = swapped implies (out.r2 == (out.r1 + out.r2) * prev.cfg.fee / 10000)
  /// S03
  val backed = s.bal.get("pool").a >= s.ra and s.bal.get("pool").b >= s.rb and s.ra >= 0 and s.rb >= 0
  pure def sumOf(st: State, tok: str): int = ACCTS.fold(0, (acc, x) => acc + amtOf(st.bal.get(x), tok))
  val conserved = sumOf(s, "a") == sumOf(prev, "a") and sumOf(s, "b") == sumOf(prev, "b")
  val noDebt = ACCTS.forall(x => s.bal.get(x).a >= 0 and s.bal.get(x).b >= 0 and s.bal.get(x).lp >= 0)
  val depositSyncs = (out.ok and call.op == "provide") implies (s.ra == s.bal.get("pool").a and s.rb == s.bal.get("pool").b)
  /// S02
  val supply = sumOf(s, "lp") == s.total
  val noDilution = (prev.total > 0 and out.ok) implies and {
    call.op == "withdraw" implies (s.ra * prev.total >= prev.ra * s.total and s.rb * prev.total >= prev.rb * s.total),
    call.op == "provide" implies {
      val d0 = invariantOf(prev, prev.ra, prev.rb)
      val d1 = invariantOf(prev, prev.ra + net(prev, "a", call.x), prev.rb + net(prev, "b", call.y))
      d1.v * prev.total >= d0.v * s.total
    },
  }
  val proRata = (out.ok and call.op == "withdraw") implies
    (out.r1 * prev.total <= prev.ra * call.x and out.r2 * prev.total <= prev.rb * call.x)
  /// S04
  val limits = out.ok implies and {
    not(late(prev, call.dl)),
    call.op == "swap" implies (out.r1 >= orElse(call.ox, 0) and orElse(call.fee, prev.cfg.fee) >= prev.cfg.fee),
    call.op == "withdraw" implies (out.r1 >= call.n1 and out.r2 >= call.n2),
    call.op == "provide" implies out.r1 >= orElse(call.ms, 0),
  }
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// S06
  val validConfig = s.inited implies (okBps(s.cfg.fee) and okBps(s.cfg.maxSlip) and okBps(s.cfg.maxSpread)
    and 1 <= s.amp and s.amp <= 1000000)
  val onlyAdminConfigures = s.cfg != prev.cfg implies (not(prev.inited) or out.auth == Set(prev.cfg.admin))
  val ampFixed = prev.inited implies s.amp == prev.amp
  val paidByAuthorised = PAYERS.forall(u => (s.bal.get(u).a < prev.bal.get(u).a or s.bal.get(u).b < prev.bal.get(u).b
      or s.bal.get(u).lp < prev.bal.get(u).lp) implies out.auth.contains(u))
  /// E01: what is announced is what happened to the pool's holdings
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "provide") implies (stated(ev, "token_a-amount") == s.bal.get("pool").a - prev.bal.get("pool").a
      and stated(ev, "token_b-amount") == s.bal.get("pool").b - prev.bal.get("pool").b),
    (out.ok and call.op == "withdraw") implies (stated(ev, "return_amount_a") == prev.bal.get("pool").a - s.bal.get("pool").a
      and stated(ev, "return_amount_b") == prev.bal.get("pool").b - s.bal.get("pool").b
      and stated(ev, "shares_amount") == prev.total - s.total),
    swapped implies (stated(ev, "offer_amount") == call.x and stated(ev, "return_amount") == out.r1),
  }
  /// S05
  val quoted = swapped implies { val o = swapOut(prev, call.tok, call.x) o.ret == out.r1 and o.comm == out.r2 }
}
