/// The designated trader: holds tokens and, on its admin's orders, sells them in liquidity pools and pays them out.
module trader {
  import common.* from "./common"
  import pricing.* from "./pricing"

  /// a constant-product pool: its tokens in order, reserves and parameters
  type Pool = { x: str, y: str, rx: int, ry: int, fee: int, spread: int, feeTo: str }
  type Opts = { amt: Opt, min: Opt, spread: Opt, dl: Opt, fee: Opt }
  type State = { now: int, inited: bool, admin: str, label: str, pa: str, pb: str, dest: str, bal: str -> (str -> int), pool: str -> Pool }
  type Call = { op: str, who: str, signed: bool, tok: str, pool: str, dst: str, pa: str, pb: str, x: int, o: Opts }
  type Out = { ok: bool, why: Set[str], auth: Set[str], r1: int, st: State }

  pure val TOKENS = Set("a", "b", "c")
  pure val ACCTS = Set("adm", "adm2", "u1", "u2", "fee", "tr", "p1", "p2")
  pure val NOOPTS: Opts = { amt: None, min: None, spread: None, dl: None, fee: None }

  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, auth: Set(), r1: 0, st: s }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), auth: auth, r1: 0, st: s }
  pure def hold(s: State, who: str, t: str): int = s.bal.get(who).get(t)
  pure def move(b: str -> (str -> int), t: str, src: str, dst: str, n: int): str -> (str -> int) =
    b.setBy(src, k => k.setBy(t, v => v - n)).setBy(dst, k => k.setBy(t, v => v + n))

  pure def initialize(s: State, c: Call): Out = {
    val why = flag(s.inited, "twice").union(flag(not(c.signed), "auth"))
    if (why != Set()) reject(s, why)
    else accept({ ...s, inited: true, admin: c.who, label: c.dst, pa: c.pa, pb: c.pb, dest: c.tok }, Set(c.who))
  }

  /// somebody sells in a pool
  pure def sell(s: State, who: str, p: str, tok: str, amt: int, o: Opts): Out = {
    val k = s.pool.get(p)
    val isX = tok == k.x
    val r = if (isX) xykSwap(k.rx, k.ry, amt, k.fee) else xykSwap(k.ry, k.rx, amt, k.fee)
    val gross = r.ret + r.comm
    val pre = flag(o.dl.someSuch(d => s.now > d), "deadline").union(flag(amt <= 0, "arg"))
      .union(flag(tok != k.x and tok != k.y, "asset")).union(flag(o.fee.someSuch(v => v < k.fee), "fee"))
      .union(flag(o.spread.someSuch(v => v < 0 or v > k.spread), "spreadmax"))
    val bad = flag(not(r.ok) or gross == 0, "price").union(flag(o.min.someSuch(v => v > r.ret), "min"))
      .union(flag(r.spread * ONE >= P127, "range")).union(flag(gross > 0 and r.spread * ONE / gross > bps(orElse(o.spread, k.spread)), "spread"))
      .union(flag(hold(s, who, tok) < amt, "funds"))
    if (pre != Set()) reject(s, pre) else if (bad != Set()) reject(s, bad)
    else {
      val ask = if (isX) k.y else k.x
      val k2 = if (isX) { ...k, rx: k.rx + amt, ry: k.ry - gross } else { ...k, ry: k.ry + amt, rx: k.rx - gross }
      { ...accept({ ...s, pool: s.pool.set(p, k2),
                    bal: s.bal.move(tok, who, p, amt).move(ask, p, who, r.ret).move(ask, p, k.feeTo, r.comm) }, Set(who)), r1: r.ret }
    }
  }

  pure def trade(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.who != s.admin, "admin"))
      .union(flag(c.o.spread.someSuch(v => not(okBps(v))), "bps"))
      .union(flag(c.tok != s.pa and c.tok != s.pb, "pair"))
    val r = sell(s, "tr", c.pool, c.tok, orElse(c.o.amt, hold(s, "tr", c.tok)), c.o)
    if (why != Set()) reject(s, why) else if (not(r.ok)) r else { ...r, auth: Set(c.who) }
  }
  pure def transfer(s: State, c: Call): Out = {
    val t = if (c.tok == "") s.dest else c.tok
    val why = flag(not(c.signed), "auth").union(flag(c.who != s.admin, "admin"))
      .union(flag(c.x < 0, "arg")).union(flag(hold(s, "tr", t) < c.x, "funds"))
    if (why != Set()) reject(s, why) else accept({ ...s, bal: s.bal.move(t, "tr", c.dst, c.x) }, Set(c.who))
  }
  pure def donate(s: State, c: Call): Out =
    if (hold(s, c.who, c.tok) < c.x) reject(s, Set("funds"))
    else accept({ ...s, bal: s.bal.move(c.tok, c.who, c.dst, c.x) }, Set(c.who))

  pure def perform(s: State, c: Call): Out =
    if (c.op == "initialize") initialize(s, c)
    else if (c.op == "trade") trade(s, c)
    else if (c.op == "transfer") transfer(s, c)
    else if (c.op == "donate") donate(s, c)
    else sell(s, c.who, c.pool, c.tok, c.x, c.o)

  // ---------------------------------------------------------------- announcements
  pure def swapTold(s: State, who: str, c: Call, amt: int): List[Told] = {
    val k = s.pool.get(c.pool)
    val isX = c.tok == k.x
    val r = if (isX) xykSwap(k.rx, k.ry, amt, k.fee) else xykSwap(k.ry, k.rx, amt, k.fee)
    List(names(c.pool, "swap", "sender", who), names(c.pool, "swap", "sell_token", c.tok), names(c.pool, "swap", "buy_token", if (isX) k.y else k.x),
      states(c.pool, "swap", "offer_amount", amt), states(c.pool, "swap", "actual received amount", amt),
      states(c.pool, "swap", "return_amount", r.ret), states(c.pool, "swap", "spread_amount", r.spread),
      states(c.pool, "swap", "referral_fee_amount", 0))
  }
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "initialize") List(names("tr", "Trader: Initialize", "admin: ", c.who), names("tr", "Trader: Initialize", "contract name: ", c.dst),
      { by: "tr", about: List("Trader: Initialize", "pairs: "), names: List(c.pa, c.pb), amounts: List() }, names("tr", "Trader: Initialize", "PHO token: ", c.tok))
    else if (c.op == "trade") List(names("tr", "Trader: Trade Token", "user: ", c.who), names("tr", "Trader: Trade Token", "offer asset: ", c.tok),
      states("tr", "Trader: Trade Token", "amount received: ", o.r1)).concat(swapTold(s, "tr", c, orElse(c.o.amt, hold(s, "tr", c.tok))))
    else if (c.op == "sell") swapTold(s, c.who, c, c.x)
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]

  pure val NOCALL: Call = { op: "none", who: "", signed: true, tok: "", pool: "", dst: "", pa: "", pb: "", x: 0, o: NOOPTS }

  action init = {
    nondet t0 = oneOf(STARTS)
    nondet rich0 = oneOf(Set(10^7, 10^11, 10^15, 10^17, 10^18))     nondet skew0 = oneOf(Set(1, 3, 70))
    // sometimes it holds more than a 64-bit amount can order
    nondet wk = oneOf(1.to(4))
    val whale = wk == 1
    val rich = if (whale) 10^19 else rich0   val skew = if (whale) 1 else skew0
    nondet f1 = oneOf(Set(0, 30, 999))      nondet f2 = oneOf(Set(0, 100))
    nondet sp0 = oneOf(Set(50, 500, 10000))  nondet part = oneOf(Set(2, 10, 1000))   nondet hoard0 = oneOf(Set(1, 40))
    val sp = if (whale) 10000 else sp0      val hoard = if (whale) 40 else hoard0   nondet ft = oneOf(Set("fee", "tr", "adm"))
    val st: State = { now: t0, inited: false, admin: "", label: "", pa: "", pb: "", dest: "",
      bal: ACCTS.mapBy(x => TOKENS.mapBy(t =>
        if (x == "fee") 0 else if (x == "p1") (if (t == "a") rich else if (t == "b") rich * skew else 0)
        else if (x == "p2") (if (t == "b") rich * skew else if (t == "c") rich else 0)
        else if (x == "tr") (if (t == "c") 0 else rich * hoard / part) else rich)),
      pool: Map("p1" -> { x: "a", y: "b", rx: rich, ry: rich * skew, fee: f1, spread: sp, feeTo: ft },
                "p2" -> { x: "b", y: "c", rx: rich * skew, ry: rich, fee: f2, spread: sp, feeTo: "fee" }) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List() }
  }
  action act(c: Call): bool = {
    nondet dt = oneOf(Set(0, 1, 100, 86400, 2592000))
    val o = perform(s, c)
    all { prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = o, ev' = told(s, c, o) }
  }

  action doInit = {
    nondet v = oneOf(1.to(8))       nondet k = oneOf(1.to(8))       nondet out_ = oneOf(TOKENS)    nondet n = oneOf(Set("x", "trader"))
    act({ ...NOCALL, op: "initialize", who: "adm", signed: v != 1, dst: n, tok: out_,
          pa: if (k <= 4) "a" else if (k <= 6) "b" else if (k == 7) "b" else "a",
          pb: if (k <= 4) "b" else if (k <= 6) "a" else if (k == 7) "c" else "c" })
  }
  action doTrade = {
    nondet v = oneOf(1.to(24))      nondet m = oneOf(1.to(9999))    nondet e = oneOf(0.to(3))
    nondet t0 = oneOf(TOKENS)       nondet p0 = oneOf(Set("p1", "p2", "p1", "p2"))  nondet k = oneOf(1.to(6))
    nondet km = oneOf(1.to(4))      nondet kd = oneOf(1.to(6))      nondet kf = oneOf(1.to(6))      nondet ks = oneOf(1.to(5))
    val t1 = if (v == 1) t0 else if (m % 2 == 0) s.pa else s.pb
    // a pool that deals in the token, most of the time
    val p = if (v == 2) p0 else if (t1 == "a") "p1" else if (t1 == "c") "p2" else p0
    val have = hold(s, "tr", t1)
    val x = if (v == 3) min2(U64, have + 1) else min2(U64, max2(1, have * m / 10^(4 + e)))
    val amt = if (v == 4) Some(0) else if (k == 1 or (have > U64 and k <= 3)) None else Some(x)
    val kk = s.pool.get(p)
    val r = if (t1 == kk.x) xykSwap(kk.rx, kk.ry, orElse(amt, have), kk.fee) else xykSwap(kk.ry, kk.rx, orElse(amt, have), kk.fee)
    val gross = r.ret + r.comm
    val sb = if (gross > 0) max2(0, (r.spread * ONE / gross + bps(1) - 1) / bps(1)) else 0
    act({ ...NOCALL, op: "trade", who: if (v == 5) "u1" else if (v == 6) "adm2" else s.admin, signed: v != 7, tok: t1, pool: p,
          o: { amt: amt, min: if (v == 8) Some(r.ret + 1) else if (km == 1) Some(r.ret) else if (km == 2) Some(1) else None,
               spread: if (v == 9) Some(badBps(m % 4 * 3)) else if (v == 10) Some(badBps(m % 13)) else if (v == 11) Some(min2(sb, 10001) - 1)
                       else if (v == 12) Some(kk.spread + beyond(m))
                       else if (ks == 1) Some(min2(kk.spread, sb)) else if (ks == 2) Some(kk.spread) else None,
               dl: deadline(kd, s.now, v == 13),
               fee: feeLimit(kf, kk.fee, v == 14) } })
  }
  pure val U64 = 2^64 - 1
  action doTransfer = {
    nondet v = oneOf(1.to(14))      nondet m = oneOf(1.to(9999))    nondet e = oneOf(0.to(2))       nondet t0 = oneOf(Set("a", "b", "c", "", " "))
    nondet d = oneOf(Set("u1", "u2", "adm", "tr", "p1"))
    val t1 = if (t0 == " ") "" else t0
    val have = hold(s, "tr", if (t1 == "") s.dest else t1)
    act({ ...NOCALL, op: "transfer", who: if (v == 1) "u1" else if (v == 2) "adm2" else s.admin, signed: v != 3, tok: t1, dst: d,
          x: if (v == 4) have + 1 else if (v == 5 or v == 6) negative(m) else if (v == 7) have else have * m / 10^(4 + e) })
  }
  action doDonate = {
    nondet u = oneOf(Set("u1", "u2", "adm"))    nondet t0 = oneOf(TOKENS)       nondet m = oneOf(1.to(99))
    act({ ...NOCALL, op: "donate", who: u, tok: t0, dst: "tr", x: hold(s, u, t0) * m / 1000 })
  }
  action doSell = {
    nondet u = oneOf(Set("u1", "u2"))    nondet p = oneOf(Set("p1", "p2"))    nondet m = oneOf(1.to(999))  nondet g = oneOf(Set(true, false))
    val k = s.pool.get(p)
    val t = if (g) k.x else k.y
    act({ ...NOCALL, op: "sell", who: u, tok: t, pool: p, x: min2(hold(s, u, t), (if (g) k.rx else k.ry) * m / 10000) })
  }
  action doReinit = {
    nondet u = oneOf(Set("u1", "adm"))
    act({ ...NOCALL, op: "initialize", who: u, dst: "y", tok: "b", pa: "b", pb: "c" })
  }
  action step =
    if (not(s.inited)) doInit
    else any { doTrade, doTrade, doTrade, doTrade, doTransfer, doTransfer, doDonate, doSell, doReinit }

  // ---------------------------------------------------------------- properties
  pure def total(st: State, t: str): int = ACCTS.fold(0, (acc, x) => acc + hold(st, x, t))
  /// D01
  val conserved = TOKENS.forall(t => total(s, t) == total(prev, t)) and ACCTS.forall(x => TOKENS.forall(t => hold(s, x, t) >= 0))
  val tradesOrdered = (out.ok and call.op == "trade") implies {
    val ask = { val k = s.pool.get(call.pool) if (call.tok == k.x) k.y else k.x }
    val cut = s.pool.get(call.pool).feeTo
    and {
      hold(prev, "tr", call.tok) - hold(s, "tr", call.tok) == orElse(call.o.amt, hold(prev, "tr", call.tok)),
      // the trader may be the one the pool's fee goes to
      hold(s, "tr", ask) - hold(prev, "tr", ask) >= out.r1 and (cut != "tr" implies hold(s, "tr", ask) - hold(prev, "tr", ask) == out.r1) and out.r1 >= orElse(call.o.min, 0),
      TOKENS.forall(t => t == call.tok or t == ask or hold(s, "tr", t) == hold(prev, "tr", t)),
      ACCTS.forall(x => x == "tr" or x == cut or x == call.pool or s.bal.get(x) == prev.bal.get(x)),
    }
  }
  val paysOrdered = (out.ok and call.op == "transfer") implies {
    val t = if (call.tok == "") prev.dest else call.tok
    s.bal == prev.bal.move(t, "tr", call.dst, call.x)
  }
  /// D02
  val adminOnly = TOKENS.exists(t => hold(s, "tr", t) < hold(prev, "tr", t)) implies
    (out.auth == Set(prev.admin) and call.who == prev.admin and Set("trade", "transfer").contains(call.op))
  val onlyPair = (out.ok and call.op == "trade") implies (call.tok == s.pa or call.tok == s.pb)
  val setOnce = prev.inited implies [s.admin, s.label, s.pa, s.pb, s.dest] == [prev.admin, prev.label, prev.pa, prev.pb, prev.dest]
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// E01: what is announced is what happened to the tokens
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "trade") implies (stated(ev, "amount received: ") == out.r1 and stated(ev, "return_amount") == out.r1),
  }
}
