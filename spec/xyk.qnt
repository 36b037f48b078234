/// The constant-product ("XYK") liquidity pool together with its three tokens.
/// One action per public entry point; every action decides acceptance from the state and its
/// arguments and has no effect when the call is rejected.
module xyk {
  import common.* from "./common"
  import pricing.* from "./pricing"

  type Bal = { a: int, b: int, lp: int }
  type Cfg = { fee: int, maxSlip: int, maxSpread: int, maxRef: int, defSlip: int,
               feeTo: str, admin: str }
  /// taxA, taxB: what the two tokens themselves deduct from every transfer, in basis points (0 for
  /// ordinary tokens); the deduction goes to the account "sink"
  type State = { now: int, inited: bool, ra: int, rb: int, total: int, taxA: int, taxB: int,
                 bal: str -> Bal, cfg: Cfg }

  /// A call: operation, caller, whether it is signed, arguments
  type Call = { op: str, who: str, signed: bool, tok: str,
                x: int, ox: Opt, oy: Opt, omx: Opt, omy: Opt,
                slip: Opt, dl: Opt, fee: Opt,
                sAdmin: str, sFeeTo: str, c1: Opt, c2: Opt, c3: Opt, c4: Opt, n1: int, n2: int }
  /// What the specification says about it
  type Out = { ok: bool, why: Set[str], r1: int, r2: int, auth: Set[str], st: State }

  pure val USERS = Set("u1", "u2", "u3")
  pure val ACCTS = Set("u1", "u2", "u3", "adm", "adm2", "fee", "fee2", "pool", "sink")
  pure val NOCFG: Cfg = { fee: 0, maxSlip: 0, maxSpread: 0, maxRef: 0, defSlip: 0, feeTo: "", admin: "" }

  pure def shareValue(s: State, n: int): { a: int, b: int } = {
    val ratio = if (s.total == 0) 0 else tdiv(n * ONE, s.total)
    { a: tdiv(s.ra * ratio, ONE), b: tdiv(s.rb * ratio, ONE) }
  }

  // ---------------------------------------------------------------- ledger helpers
  pure def amtOf(b: Bal, tok: str): int = if (tok == "a") b.a else if (tok == "b") b.b else b.lp
  pure def add(b: Bal, tok: str, v: int): Bal =
    if (tok == "a") { ...b, a: b.a + v } else if (tok == "b") { ...b, b: b.b + v } else { ...b, lp: b.lp + v }
  pure def taxOf(s: State, tok: str, v: int): int =
    v * (if (tok == "a") s.taxA else if (tok == "b") s.taxB else 0) / 10000
  pure def net(s: State, tok: str, v: int): int = v - taxOf(s, tok, v)
  pure def move(bal: str -> Bal, s: State, tok: str, src: str, dst: str, v: int): str -> Bal = {
    val t = taxOf(s, tok, v)
    val b1 = bal.setBy(src, x => add(x, tok, -v)).setBy(dst, x => add(x, tok, v - t))
    if (t == 0) b1 else b1.setBy("sink", x => add(x, tok, t))
  }
  pure def credit(bal: str -> Bal, tok: str, dst: str, v: int): str -> Bal = bal.setBy(dst, x => add(x, tok, v))

  pure def late(s: State, dl: Opt): bool = dl.someSuch(d => s.now > d)
  pure def nonPos(o: Opt): bool = o.someSuch(v => v <= 0)

  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, r1: 0, r2: 0, auth: Set(), st: s }

  // ---------------------------------------------------------------- entry points
  pure def initialize(s: State, c: Call): Out = {
    // c1 fee, c2 max slippage, c3 max spread, c4 max referral, n1 default slippage, n2 max fee
    val fee = orElse(c.c1, 0)  val ms = orElse(c.c2, 0)  val msp = orElse(c.c3, 0)  val mr = orElse(c.c4, 0)
    val why = flag(s.inited, "twice")
      .union(flag(not(List(fee, ms, msp, mr, c.n1, c.n2).foldl(true, (acc, x) => acc and okBps(x))), "bps"))
      .union(flag(fee > c.n2, "feemax")).union(flag(c.tok == "ba", "order"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(),
        st: { ...s, inited: true, cfg: { fee: fee, maxSlip: ms, maxSpread: msp, maxRef: mr,
                                         defSlip: c.n1, feeTo: c.sFeeTo, admin: c.sAdmin } } }
  }

  /// amounts taken for a deposit
  pure def depositOf(s: State, da: int, db: int, ma: Opt, mb: Opt, slip: int): { a: int, b: int, bad: Set[str] } =
    depositAmounts(s.ra, s.rb, da, db, ma, mb, slip)

  /// intermediate results the contract keeps in 128 bits that do not fit: it refuses, and need not
  pure def depositRange(s: State, da: int, db: int): bool =
    if (da <= 0 or db <= 0) false
    else if (s.ra <= 0 or s.rb <= 0) da * db >= P127
    else {
      val wantA = db * s.ra / s.rb
      val wantB = da * s.rb / s.ra
      val ba = s.bal.get("pool").a + min2(wantA, da)
      val bb = s.bal.get("pool").b + min2(wantB, db)
      db * s.ra >= P127 or da * s.rb >= P127 or (wantA > da and wantA * ONE >= P127) or (wantB > db and wantB * ONE >= P127)
        or ba * s.total >= P127 or bb * s.total >= P127
    }

  pure def provide(s: State, c: Call): Out = {
    val pre = flag(late(s, c.dl), "deadline")
      .union(flag(nonPos(c.ox) or nonPos(c.oy) or nonPos(c.omx) or nonPos(c.omy), "arg"))
      .union(flag(not(c.signed), "auth"))
      .union(flag(not(c.ox.isSome()) or not(c.oy.isSome()), "both"))
      .union(flag(c.slip.someSuch(v => v > s.cfg.maxSlip), "slipmax"))
    if (pre != Set()) reject(s, pre)
    else if (depositRange(s, orElse(c.ox, 0), orElse(c.oy, 0))) reject(s, Set("range"))
    else {
      val d = depositOf(s, orElse(c.ox, 0), orElse(c.oy, 0), c.omx, c.omy, orElse(c.slip, s.cfg.defSlip))
      val short = s.bal.get(c.who).a < d.a or s.bal.get(c.who).b < d.b
      val bad = d.bad.union(flag(short, "funds"))
      if (bad != Set()) reject(s, bad) else {
        val bal1 = s.bal.move(s, "a", c.who, "pool", d.a).move(s, "b", c.who, "pool", d.b)
        val ba = bal1.get("pool").a
        val bb = bal1.get("pool").b
        if (s.ra > 0 and s.rb > 0) {
          val newTotal = min2(ba * s.total / s.ra, bb * s.total / s.rb)
          { ok: true, why: Set(), r1: d.a, r2: d.b, auth: Set(c.who),
            st: { ...s, ra: ba, rb: bb, total: newTotal,
                  bal: bal1.credit("lp", c.who, newTotal - s.total) } }
        } else {
          val shares = isqrt(d.a * d.b)
          if (shares <= MINLIQ) reject(s, Set("minliq"))
          else if (shares - MINLIQ < s.total) reject(s, Set("minliq"))
          else {
            // the minimum stays with the pool for ever; the shares outstanding before this deposit
            // (none, unless the pool was emptied) are deducted from what the depositor gets
            { ok: true, why: Set(), r1: d.a, r2: d.b, auth: Set(c.who),
              st: { ...s, ra: ba, rb: bb, total: shares,
                    bal: bal1.credit("lp", "pool", MINLIQ).credit("lp", c.who, shares - MINLIQ - s.total) } }
          }
        }
      }
    }
  }

  pure def swapOut(s: State, tok: str, amt: int): Swap =
    if (tok == "a") xykSwap(s.ra, s.rb, amt, s.cfg.fee) else xykSwap(s.rb, s.ra, amt, s.cfg.fee)

  pure def swap(s: State, c: Call): Out = {
    // x amount, ox minimum out, slip max spread, fee accepted fee
    val pre = flag(late(s, c.dl), "deadline").union(flag(c.x <= 0, "arg")).union(flag(not(c.signed), "auth"))
      .union(flag(c.tok != "a" and c.tok != "b", "asset"))
      .union(flag(c.fee.someSuch(v => v < s.cfg.fee), "fee"))
      .union(flag(c.slip.someSuch(v => v < 0 or v > s.cfg.maxSpread), "spreadmax"))
    if (pre != Set()) reject(s, pre) else {
      val o = swapOut(s, c.tok, c.x)
      val gross = o.ret + o.comm
      val limit = bps(orElse(c.slip, s.cfg.maxSpread))
      val bad = flag(not(o.ok) or gross == 0, "price").union(flag(o.spread * ONE >= P127, "range"))
        .union(flag(c.ox.someSuch(v => v > o.ret), "min"))
        .union(flag(gross > 0 and o.spread * ONE / gross > limit, "spread"))
        .union(flag(amtOf(s.bal.get(c.who), c.tok) < c.x, "funds"))
      if (bad != Set()) reject(s, bad) else {
        val ask = if (c.tok == "a") "b" else "a"
        val bal1 = s.bal.move(s, c.tok, c.who, "pool", c.x).move(s, ask, "pool", c.who, o.ret)
          .move(s, ask, "pool", s.cfg.feeTo, o.comm)
        val st1 = if (c.tok == "a") { ...s, ra: s.ra + net(s, "a", c.x), rb: s.rb - gross, bal: bal1 }
                  else { ...s, rb: s.rb + net(s, "b", c.x), ra: s.ra - gross, bal: bal1 }
        { ok: true, why: Set(), r1: o.ret, r2: o.comm, auth: Set(c.who), st: st1 }
      }
    }
  }

  pure def withdraw(s: State, c: Call): Out = {
    // x shares, n1/n2 minimum amounts
    val v = shareValue(s, c.x)
    val why = flag(late(s, c.dl), "deadline").union(flag(c.x <= 0 or c.n1 <= 0 or c.n2 <= 0, "arg"))
      .union(flag(not(c.signed), "auth")).union(flag(s.bal.get(c.who).lp < c.x, "funds"))
      .union(flag(s.total == 0, "empty")).union(flag(v.a < c.n1 or v.b < c.n2, "min"))
      .union(flag(c.x * ONE >= P127 or (s.total > 0 and max2(s.ra, s.rb) * tdiv(c.x * ONE, s.total) >= P127), "range"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: v.a, r2: v.b, auth: Set(c.who),
        st: { ...s, ra: s.ra - v.a, rb: s.rb - v.b, total: s.total - c.x,
              bal: s.bal.credit("lp", c.who, -c.x).move(s, "a", "pool", c.who, v.a).move(s, "b", "pool", c.who, v.b) } }
  }

  /// plain token transfer into the pool (or to anybody)
  pure def donate(s: State, c: Call): Out = {
    val why = flag(c.x < 0, "arg").union(flag(amtOf(s.bal.get(c.who), c.tok) < c.x, "funds"))
      .union(flag(not(c.signed), "auth"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(c.who), st: { ...s, bal: s.bal.move(s, c.tok, c.who, c.sFeeTo, c.x) } }
  }

  pure def updateConfig(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth")
      .union(flag(List(c.c1, c.c2, c.c3, c.c4).foldl(false, (acc, o) => acc or o.someSuch(v => not(okBps(v)))), "bps"))
    if (why != Set()) reject(s, why) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(s.cfg.admin),
        st: { ...s, cfg: { ...s.cfg, admin: if (c.sAdmin == "") s.cfg.admin else c.sAdmin,
                           feeTo: if (c.sFeeTo == "") s.cfg.feeTo else c.sFeeTo,
                           fee: orElse(c.c1, s.cfg.fee), maxSlip: orElse(c.c2, s.cfg.maxSlip),
                           maxSpread: orElse(c.c3, s.cfg.maxSpread), maxRef: orElse(c.c4, s.cfg.maxRef) } } }
  }

  /// migration entry points, run with the unchanged code
  pure def upgrade(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth")) else
      { ok: true, why: Set(), r1: 0, r2: 0, auth: Set(s.cfg.admin),
        st: { ...s, cfg: { ...s.cfg, defSlip: if (c.op == "upgrade") c.n1 else s.cfg.defSlip } } }

  pure def perform(s: State, c: Call): Out =
    if (c.op == "initialize") initialize(s, c)
    else if (c.op == "provide") provide(s, c)
    else if (c.op == "swap") swap(s, c)
    else if (c.op == "withdraw") withdraw(s, c)
    else if (c.op == "donate") donate(s, c)
    else if (c.op == "config") updateConfig(s, c)
    else upgrade(s, c)

  // ---------------------------------------------------------------- announcements
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "initialize") List(names("pool", "initialize", "XYK LP token_a", "a"), names("pool", "initialize", "XYK LP token_b", "b"))
    else if (c.op == "provide") List(names("pool", "provide_liquidity", "sender", c.who),
      names("pool", "provide_liquidity", "token_a", "a"), states("pool", "provide_liquidity", "token_a-amount", net(s, "a", o.r1)),
      names("pool", "provide_liquidity", "token_b", "b"), states("pool", "provide_liquidity", "token_b-amount", net(s, "b", o.r2)))
    else if (c.op == "withdraw") List(names("pool", "withdraw_liquidity", "sender", c.who),
      states("pool", "withdraw_liquidity", "shares_amount", c.x),
      states("pool", "withdraw_liquidity", "return_amount_a", o.r1), states("pool", "withdraw_liquidity", "return_amount_b", o.r2))
    else if (c.op == "swap") List(names("pool", "swap", "sender", c.who), names("pool", "swap", "sell_token", c.tok),
      states("pool", "swap", "offer_amount", c.x), names("pool", "swap", "buy_token", if (c.tok == "a") "b" else "a"),
      states("pool", "swap", "return_amount", o.r1), states("pool", "swap", "spread_amount", swapOut(s, c.tok, c.x).spread),
      states("pool", "swap", "actual received amount", net(s, c.tok, c.x)), states("pool", "swap", "referral_fee_amount", 0))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// amounts for the quotes taken in the new state
  var q: { x: int, y: int, sab: Swap, sba: Swap, rb: Rev, ra: Rev, sh: { a: int, b: int } }

  pure val NOCALL: Call = { op: "none", who: "", signed: true, tok: "", x: 0, ox: None, oy: None, omx: None, omy: None,
    slip: None, dl: None, fee: None, sAdmin: "", sFeeTo: "", c1: None, c2: None, c3: None, c4: None, n1: 0, n2: 0 }

  pure def quotes(st: State, x: int, y: int): { x: int, y: int, sab: Swap, sba: Swap, rb: Rev, ra: Rev, sh: { a: int, b: int } } =
    { x: x, y: y, sab: xykSwap(st.ra, st.rb, x, st.cfg.fee), sba: xykSwap(st.rb, st.ra, x, st.cfg.fee),
      rb: xykOffer(st.ra, st.rb, y * st.rb / 10000, st.cfg.fee), ra: xykOffer(st.rb, st.ra, y * st.ra / 10000, st.cfg.fee),
      sh: shareValue(st, y * st.total / 10000) }

  action init = {
    nondet rich = oneOf(Set(10^7, 10^9, 10^12, 10^15, 10^18))
    nondet richb = oneOf(Set(10^7, 10^9, 10^12, 10^15, 10^18))
    start(0, 0, rich, richb)
  }
  /// as much of a token as the contract's 128-bit arithmetic can hold, little of the other
  action initLarge = {
    nondet e = oneOf(12.to(26))  nondet d = oneOf(0.to(2))
    start(0, 0, 10^e, 10^(38 - e - d))
  }
  /// tokens that keep a part of what is transferred
  action initTaxed = {
    nondet ta = oneOf(Set(0, 1, 100, 1000, 5000))
    nondet tb = oneOf(Set(0, 0, 30, 2500))
    nondet rich = oneOf(Set(10^7, 10^9, 10^12, 10^15, 10^18))
    nondet richb = oneOf(Set(10^7, 10^9, 10^12, 10^15, 10^18))
    start(ta, if (ta == 0) 100 else tb, rich, richb)
  }
  action start(ta: int, tb: int, rich: int, richb: int): bool = {
    nondet t0 = oneOf(STARTS)
    val st: State = { now: t0, inited: false, ra: 0, rb: 0, total: 0, taxA: ta, taxB: tb, cfg: NOCFG,
      bal: ACCTS.mapBy(x => if (USERS.contains(x)) { a: rich, b: richb, lp: 0 } else { a: 0, b: 0, lp: 0 }) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), q' = quotes(st, 0, 0) }
  }

  /// performs the call at the current time, then lets time pass
  action act(c: Call): bool = {
    nondet dt = oneOf(Set(0, 1, 7, 100, 86400, 2592000))
    nondet qm = oneOf(1.to(9999))
    nondet qe = oneOf(0.to(14))
    nondet qy = oneOf(1.to(9000))
    val o = perform(s, c)
    all { prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = o, ev' = told(s, c, o), q' = quotes(o.st, mag(qm, if (qe % 2 == 0 and max2(o.st.ra, o.st.rb) > 10^19) qe + 9 else qe), qy) }
  }

  // Argument choice: `v` selects at most one limit to break; the remaining limits are absent or
  // satisfied, often exactly.
  /// lower limit on something worth v
  pure def atLeast(k: int, v: int, broken: bool): Opt =
    if (broken) Some(v + 1) else if (k <= 1) None else if (k == 2) Some(v) else Some(v - 1)
  /// as above but the limits have to be positive to be meaningful
  pure def atLeastPos(k: int, v: int, broken: bool): Opt =
    if (broken) Some(v + 1) else if (k <= 1 or v <= 1) None else if (k == 2) Some(v) else Some(v - 1)

  action doInit = {
    nondet v = oneOf(1.to(24))
    nondet fee = oneOf(Set(0, 1, 30, 100, 999, 1000))
    nondet fmax = oneOf(Set(0, 1, 1000, 10000))
    nondet slip = oneOf(Set(0, 100, 500, 10000, 2500))
    nondet spread = oneOf(Set(50, 500, 5000, 9000, 9999, 10000))
    nondet ref = oneOf(Set(0, 100, 10000))
    nondet dsl = oneOf(Set(0, 1, 100, 500, 1000, 10000))
    nondet bk = oneOf(0.to(12))
    nondet fto = oneOf(Set("fee", "fee2", "u3", "adm", "u2", "pool"))   nondet adm = oneOf(Set("adm", "u2"))
    act({ ...NOCALL, op: "initialize", who: "adm", tok: if (v == 1) "ba" else "ab", sAdmin: adm, sFeeTo: fto,
          c1: Some(if (v == 2) badBps(bk) else fee), c2: Some(if (v == 3) badBps(bk) else slip),
          c3: Some(if (v == 4) badBps(bk) else spread), c4: Some(if (v == 5) badBps(bk) else ref),
          n1: if (v == 6) badBps(bk) else dsl, n2: if (v == 7) badBps(bk) else if (v == 8) fee - 1 else max2(fee, fmax) })
  }

  action doProvide = {
    nondet u = oneOf(USERS)
    nondet v = oneOf(1.to(30))
    nondet m1 = oneOf(1.to(9999))   nondet m2 = oneOf(1.to(9999))   nondet e1 = oneOf(0.to(13))
    nondet shape = oneOf(1.to(8))   nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet ka = oneOf(1.to(3))      nondet kb = oneOf(1.to(3))
    nondet sl = oneOf(1.to(4))      nondet jit = oneOf(1.to(1200))  nondet side = oneOf(Set(0, 1))
    val b = s.bal.get(u)
    // the slippage accepted by this call and deposits off the pool ratio by nothing, by less than
    // it, by exactly it, or by more
    val slip = if (v == 1) Some(s.cfg.maxSlip + beyond(m2)) else if (v == 14) Some(-1) else if (v == 15) Some(0) else if (sl <= 2) None
               else if (sl == 3) Some(s.cfg.maxSlip) else Some(min2(s.cfg.maxSlip, jit))
    val tol = min2(20000, max2(0, orElse(slip, s.cfg.defSlip)))
    val off = if (v == 2) tol + 1 + jit else if (shape <= 4) 0 else if (shape <= 6) (jit * tol) / 1200 else tol
    val da = if (s.ra == 0) max2(1, b.a * m1 / 20000)
             else if (shape == 8) min2(mag(m1, e1), max2(1, b.a / 10)) else max2(1, b.a * m1 / 200000)
    val db0 = if (s.ra == 0) max2(1, b.b * m2 / 20000) else max2(1, da * s.rb / s.ra)
    val db = if (s.ra == 0 or off == 0) db0
             else if (side == 0) db0 * (10000 + off) / 10000 else max2(1, db0 * 10000 / (10000 + off))
    val dd = depositOf(s, da, db, None, None, 1000000)
    act({ ...NOCALL, op: "provide", who: u, signed: v != 3,
          ox: if (v == 4) None else if (v == 5) Some(neg) else if (v == 10) Some(b.a + 1) else Some(da),
          oy: if (v == 6) None else if (v == 7) Some(neg) else Some(db),
          omx: if (v == 11) Some(neg) else atLeastPos(ka, dd.a, v == 8),
          omy: if (v == 12) Some(neg) else atLeastPos(kb, dd.b, v == 9),
          slip: slip, dl: deadline(dk, s.now, v == 13) })
  }

  action doSwap = {
    nondet u = oneOf(USERS)
    nondet v = oneOf(1.to(24))
    nondet m1 = oneOf(1.to(9999))   nondet e1 = oneOf(0.to(13))
    nondet tok0 = oneOf(Set("a", "b"))  nondet shape = oneOf(1.to(12))  nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet km = oneOf(1.to(3))      nondet kf = oneOf(1.to(6))
    nondet sl = oneOf(1.to(4))
    val tok = if (v == 1) "lp" else tok0
    val have = amtOf(s.bal.get(u), tok)
    val off = if (tok == "a") s.ra else s.rb
    val x = if (v == 2) have + 1 else if (shape <= 8) max2(1, min2(have, off * m1 / 1000000))
            else if (shape <= 10) max2(1, min2(have, off * m1 / 20000))
            else if (shape == 11) max2(1, have) else mag(m1, e1)
    val o = if (tok != "lp") swapOut(s, tok, x) else { ok: false, ret: 1, spread: 1, comm: 0 }
    val gross = o.ret + o.comm
    // the smallest accepted spread that this swap respects, in basis points
    val sb = if (gross > 0) max2(0, (o.spread * ONE / gross + bps(1) - 1) / bps(1)) else 0
    val spread = if (v == 3) Some(s.cfg.maxSpread + beyond(m1)) else if (v == 4) Some(if (sl <= 2) -1 else 0) else if (v == 5) Some(min2(sb, 20000) - 1)
                 else if (sl == 1) None else if (sl == 2 or sb > s.cfg.maxSpread) Some(s.cfg.maxSpread) else Some(sb)
    act({ ...NOCALL, op: "swap", who: u, signed: v != 6, tok: tok, x: if (v == 7) neg else x,
          ox: if (v == 11) Some(if (km == 1) -1 else 0) else atLeast(km, o.ret, v == 8), slip: spread, dl: deadline(dk, s.now, v == 9),
          fee: feeLimit(kf, s.cfg.fee, v == 10) })
  }

  action doWithdraw = {
    nondet u0 = oneOf(USERS)
    nondet v = oneOf(1.to(20))
    nondet m1 = oneOf(1.to(9999))   nondet shape = oneOf(1.to(5))   nondet ng = oneOf(0.to(7))  val neg = negative(ng)
    nondet dk = oneOf(1.to(6))      nondet ka = oneOf(1.to(3))      nondet kb = oneOf(1.to(3))
    val u = if (s.bal.get(u0).lp > 0) u0 else if (s.bal.get("u1").lp > 0) "u1" else if (s.bal.get("u2").lp > 0) "u2" else "u3"
    val lp = s.bal.get(u).lp
    val x = if (v == 1) lp + 1 else if (shape == 1) max2(1, lp) else max2(1, lp * m1 / 20000)
    val w = shareValue(s, x)
    act({ ...NOCALL, op: "withdraw", who: u, signed: v != 2, x: if (v == 3) neg else x,
          n1: if (v == 4) neg else orElse(atLeastPos(ka, w.a, v == 5), 1),
          n2: if (v == 6) neg else orElse(atLeastPos(kb, w.b, v == 7), 1), dl: deadline(dk, s.now, v == 8) })
  }

  action doDonate = {
    nondet u = oneOf(USERS)         nondet tok = oneOf(Set("a", "b", "lp"))
    nondet m1 = oneOf(1.to(9999))   nondet e1 = oneOf(0.to(12))
    nondet dst = oneOf(Set("pool", "u1", "u2"))
    val x = min2(mag(m1, e1), amtOf(s.bal.get(u), tok) / 10)
    act({ ...NOCALL, op: "donate", who: u, tok: tok, x: x, sFeeTo: dst })
  }

  action doConfig = {
    nondet v = oneOf(1.to(12))      nondet bk = oneOf(0.to(12))
    nondet na0 = oneOf(Set("adm", "adm2", "u1", "fee"))     nondet nf0 = oneOf(Set("fee", "fee2", "u2", "adm", "pool"))
    nondet nk = oneOf(1.to(6))
    nondet k1 = oneOf(Set(0, 1, 30, 250, 10000))  nondet k2 = oneOf(Set(0, 100, 500, 10000))
    nondet k3 = oneOf(Set(500, 5000, 10000))      nondet k4 = oneOf(Set(0, 10, 10000))
    nondet n = oneOf(0.to(15))
    pure def pick(bit: int, val_: int, broken: bool): Opt =
      if (broken) Some(badBps(bk)) else if ((n / bit) % 2 == 1) Some(val_) else None
    val na = if (nk <= 3) "" else na0
    val nf = if (nk % 3 != 0) "" else nf0
    act({ ...NOCALL, op: "config", who: "adm", signed: v != 1, sAdmin: na, sFeeTo: nf,
          c1: pick(1, k1, v == 2), c2: pick(2, k2, v == 3), c3: pick(4, k3, v == 4), c4: pick(8, k4, v == 5) })
  }

  action doUpgrade = {
    nondet sg = oneOf(1.to(3))      nondet d = oneOf(Set(0, 50, 100, 1000))
    nondet o = oneOf(Set("upgrade", "update"))
    act({ ...NOCALL, op: o, who: "adm", signed: sg != 1, n1: d })
  }

  action doReinit = {
    nondet a = oneOf(Set("adm", "u1"))
    act({ ...NOCALL, op: "initialize", who: a, tok: "ab", sAdmin: a, sFeeTo: "fee",
          c1: Some(0), c2: Some(100), c3: Some(100), c4: Some(0), n1: 100, n2: 1000 })
  }

  action trading = any {
    doProvide, doProvide, doProvide, doSwap, doSwap, doSwap, doSwap, doSwap, doWithdraw, doWithdraw, doWithdraw, doDonate
  }
  action rare = any { doConfig, doConfig, doConfig, doUpgrade, doReinit }
  action step =
    if (not(s.inited)) doInit
    else if (s.total == 0) any { doProvide, doProvide, doProvide, doDonate }
    else any { trading, trading, trading, trading, trading, trading, trading, trading, trading, rare }

  /// focus on administration
  action adminStep =
    if (not(s.inited)) doInit else if (s.total == 0) any { doProvide, doConfig, doUpgrade, doReinit }
    else any { rare, rare, rare, trading }

  /// focus on deposits and withdrawals
  action lpStep =
    if (not(s.inited)) doInit
    else if (s.total == 0) any { doProvide, doProvide, doProvide, doProvide, doDonate }
    else any { doProvide, doProvide, doProvide, doProvide, doProvide, doWithdraw, doWithdraw, doWithdraw, doWithdraw,
               doWithdraw, doSwap, doSwap, doDonate, rare }

  // ---------------------------------------------------------------- properties of the specification
  val swapped = out.ok and call.op == "swap"
  /// P01: exact constant-product price, up to the rounding of one unit of the bought token
  val swapKeepsProduct = (swapped and (if (call.tok == "a") s.taxA else s.taxB) == 0) implies {
    val newOffer = if (call.tok == "a") s.ra else s.rb
    s.ra * s.rb + newOffer > prev.ra * prev.rb
  }
  val swapPriceBound = swapped implies {
    // never better than the marginal price before the trade
    val offer = if (call.tok == "a") prev.ra else prev.rb
    val ask = if (call.tok == "a") prev.rb else prev.ra
    (out.r1 + out.r2) * offer <= call.x * ask and out.r1 >= 0 and out.r2 >= 0
  }
  /// P02
  val backed = s.bal.get("pool").a >= s.ra and s.bal.get("pool").b >= s.rb and s.ra >= 0 and s.rb >= 0
  pure def sumOf(st: State, tok: str): int = ACCTS.fold(0, (acc, x) => acc + amtOf(st.bal.get(x), tok))
  val conserved = sumOf(s, "a") == sumOf(prev, "a") and sumOf(s, "b") == sumOf(prev, "b")
  val noDebt = ACCTS.forall(x => s.bal.get(x).a >= 0 and s.bal.get(x).b >= 0 and s.bal.get(x).lp >= 0)
  val depositSyncs = (out.ok and call.op == "provide") implies (s.ra == s.bal.get("pool").a and s.rb == s.bal.get("pool").b)
  /// P03, P04: shares recorded = shares in circulation; reserves per share never fall by a deposit or withdrawal
  val supply = sumOf(s, "lp") == s.total
  val noDilution = (out.ok and Set("provide", "withdraw").contains(call.op) and prev.total > 0) implies
    (s.ra * prev.total >= prev.ra * s.total and s.rb * prev.total >= prev.rb * s.total)
  val locked = s.total > 0 implies (s.bal.get("pool").lp >= MINLIQ and s.total >= MINLIQ)
  val proRata = (out.ok and call.op == "withdraw") implies
    (out.r1 * prev.total <= prev.ra * call.x and out.r2 * prev.total <= prev.rb * call.x)
  val takesAtMostDesired = (out.ok and call.op == "provide") implies
    (out.r1 <= orElse(call.ox, 0) and out.r2 <= orElse(call.oy, 0))
  /// P05
  val limits = out.ok implies and {
    not(late(prev, call.dl)),
    call.op == "swap" implies (out.r1 >= orElse(call.ox, 0) and orElse(call.fee, prev.cfg.fee) >= prev.cfg.fee),
    call.op == "withdraw" implies (out.r1 >= call.n1 and out.r2 >= call.n2),
    (call.op == "provide" and prev.total > 0) implies (out.r1 >= orElse(call.omx, 0) and out.r2 >= orElse(call.omy, 0)),
  }
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// P07
  val validConfig = s.inited implies (okBps(s.cfg.fee) and okBps(s.cfg.maxSlip) and okBps(s.cfg.maxSpread) and okBps(s.cfg.maxRef))
  val onlyAdminConfigures = s.cfg != prev.cfg implies (not(prev.inited) or out.auth == Set(prev.cfg.admin))
  /// nobody's tokens shrink without that account's authorisation (the pool pays by contract logic)
  val paidByAuthorised = USERS.forall(u => (s.bal.get(u).a < prev.bal.get(u).a or s.bal.get(u).b < prev.bal.get(u).b
      or s.bal.get(u).lp < prev.bal.get(u).lp) implies out.auth.contains(u))
  /// E01: what is announced is what happened to the pool's holdings
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "provide") implies (stated(ev, "token_a-amount") == s.bal.get("pool").a - prev.bal.get("pool").a
      and stated(ev, "token_b-amount") == s.bal.get("pool").b - prev.bal.get("pool").b),
    (out.ok and call.op == "withdraw") implies (stated(ev, "return_amount_a") == prev.bal.get("pool").a - s.bal.get("pool").a
      and stated(ev, "return_amount_b") == prev.bal.get("pool").b - s.bal.get("pool").b
      and stated(ev, "shares_amount") == prev.total - s.total),
    swapped implies (stated(ev, "offer_amount") == call.x and stated(ev, "return_amount") == out.r1),
  }
  /// P06: executing what was quoted in the state before gives what was quoted
  val quoted = swapped implies { val o = swapOut(prev, call.tok, call.x) o.ret == out.r1 and o.comm == out.r2 }

  val safe = and { swapKeepsProduct, swapPriceBound, backed, conserved, noDebt, depositSyncs, supply, noDilution, locked,
    proRata, takesAtMostDesired, limits, rejectedIsNoop, validConfig, onlyAdminConfigures, paidByAuthorised, quoted, announced }
}
