/// The factory with the pools it creates, their staking contracts as far as a portfolio shows them,
/// and the multi-hop router.
module dex {
  import common.* from "./common"
  import pricing.* from "./pricing"

  type Stake = { amt: int, ts: int }
  type Pool = { a: str, b: str, stable: bool, amp: int, fee: int, maxSlip: int, maxSpread: int, maxRef: int, defSlip: int,
                feeTo: str, admin: str, manager: str, minBond: int, minReward: int, maxc: int,
                ra: int, rb: int, ha: int, hb: int, total: int, lp: str -> int, stakes: str -> List[Stake], staked: int }
  type Hashes = { lp: str, stable: str, stake: str, token: str }
  type State = { now: int, inited: bool, white: List[str], h: Hashes, lpDec: int, dec: str -> int,
                 pools: List[Pool], bal: str -> (str -> int) }
  type Hop = { o: str, a: str, min: Opt }
  type Call = { op: str, who: str, signed: bool, a: str, b: str, stable: bool, i: int, x: int, y: int, amp: Opt,
                fee: int, maxSlip: int, maxSpread: int, maxRef: int, defSlip: int, infoSlip: int, maxFee: int,
                feeTo: str, admin: str, manager: str, minBond: int, minReward: int, maxc: int,
                add: List[str], rem: List[str], h1: str, h2: str, h3: str,
                route: List[Hop], slip: Opt, dl: Opt, okFee: Opt }
  type Out = { ok: bool, why: Set[str], rs: List[int], auth: Set[str], st: State, tl: List[Told] }

  pure val USERS = Set("u1", "u2", "u3")
  pure val HOLDERS = Set("u1", "u2", "u3", "pool")
  pure val ACCTS = Set("u1", "u2", "u3", "fee", "fee2", "router")
  pure val TOKENS = Set("t1", "t2", "t3", "t4")
  pure val TOKS = List("t1", "t2", "t3", "t4")

  pure def tokIx(t: str): int = if (t == "t1") 1 else if (t == "t2") 2 else if (t == "t3") 3 else 4
  pure def less(t: str, u: str): bool = tokIx(t) < tokIx(u)
  pure def hasStr(l: List[str], x: str): bool = l.indices().exists(i => l.nth(i) == x)
  pure def dropStr(l: List[str], x: str): List[str] = l.select(y => y != x)
  /// index of the pool of a pair in either order, or -1
  pure def poolOf(s: State, t: str, u: str): int =
    s.pools.indices().filter(i => {
      val p = s.pools.nth(i)
      or { p.a == t and p.b == u, p.a == u and p.b == t }
    }).fold(-1, (acc, i) => i)
  pure def debit(s: State, who: str, t: str, v: int): State =
    { ...s, bal: s.bal.setBy(who, m => m.setBy(t, b => b + v)) }
  pure def setPool(s: State, i: int, p: Pool): State = { ...s, pools: s.pools.replaceAt(i, p) }
  pure def holds(s: State, who: str, t: str): int = s.bal.get(who).get(t)

  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, rs: List(), auth: Set(), st: s, tl: List() }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), rs: List(), auth: auth, st: s, tl: List() }

  // ---------------------------------------------------------------- factory
  pure def fInit(s: State, c: Call): Out = {
    val why = flag(s.inited, "twice").union(flag(length(c.add) == 0, "nowhite"))
    if (why != Set()) reject(s, why)
    else accept({ ...s, inited: true, white: c.add, lpDec: c.x,
                  h: { lp: "good", stable: "good", stake: "good", token: "good" } }, Set())
  }

  pure def create(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(not(hasStr(s.white, c.who)), "white"))
      .union(flag(c.stable and c.amp == None, "amp"))
      .union(flag(not(less(c.a, c.b)), "order"))
      .union(flag(c.minBond <= 0 or c.minReward <= 0 or c.maxc <= 0, "stake"))
      .union(flag(not(List(c.fee, c.maxSlip, c.maxSpread, c.maxRef, c.defSlip, c.maxFee).foldl(true, (acc, x) => acc and okBps(x))), "bps"))
      .union(flag(c.stable and not(okBps(c.infoSlip)), "bps"))
      .union(flag(c.fee > c.maxFee, "feemax"))
      .union(flag(c.stable and c.amp.someSuch(v => v < 1 or v > 1000000), "amp"))
      .union(flag(poolOf(s, c.a, c.b) >= 0, "exists"))
      .union(flag((if (c.stable) s.h.stable else s.h.lp) != "good" or s.h.stake != "good" or s.h.token != "good", "code"))
    if (why != Set()) reject(s, why)
    else accept({ ...s, pools: s.pools.append({
        a: c.a, b: c.b, stable: c.stable, amp: if (c.stable) orElse(c.amp, 0) else 0, fee: c.fee, maxSlip: c.maxSlip,
        maxSpread: c.maxSpread, maxRef: c.maxRef, defSlip: if (c.stable) c.infoSlip else c.defSlip, feeTo: c.feeTo,
        admin: c.admin, manager: c.manager, minBond: c.minBond, minReward: c.minReward, maxc: c.maxc,
        ra: 0, rb: 0, ha: 0, hb: 0, total: 0, lp: HOLDERS.mapBy(u => 0), stakes: USERS.mapBy(u => List()), staked: 0 }) }, Set(c.who))
  }

  pure def whitelist(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.who != "adm", "admin"))
    val grown = c.add.foldl(s.white, (l, x) => if (hasStr(l, x)) l else l.append(x))
    if (why != Set()) reject(s, why) else accept({ ...s, white: c.rem.foldl(grown, (l, x) => dropStr(l, x)) }, Set(c.who))
  }
  pure def hashes(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth"))
    else accept({ ...s, h: { ...s.h, lp: if (c.h1 == "") s.h.lp else c.h1, stake: if (c.h2 == "") s.h.stake else c.h2,
                                     token: if (c.h3 == "") s.h.token else c.h3 } }, Set("adm"))
  pure def fUpdate(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth")) else accept({ ...s, h: { ...s.h, stable: c.h1 } }, Set("adm"))

  // ---------------------------------------------------------------- pools
  pure def decOf(s: State, p: Pool, first: bool): int = s.dec.get(if (first) p.a else p.b)
  pure def poolSwap(s: State, p: Pool, first: bool, amt: int): Swap =
    if (p.stable) {
      if (first) stableSwap(p.amp, p.ra, decOf(s, p, true), p.rb, decOf(s, p, false), amt, p.fee)
      else stableSwap(p.amp, p.rb, decOf(s, p, false), p.ra, decOf(s, p, true), amt, p.fee)
    } else if (first) xykSwap(p.ra, p.rb, amt, p.fee) else xykSwap(p.rb, p.ra, amt, p.fee)
  /// first: the first token is paid
  pure def poolOffer(s: State, p: Pool, first: bool, want: int): Rev =
    if (p.stable) {
      if (first) stableOffer(p.amp, p.ra, decOf(s, p, true), p.rb, decOf(s, p, false), want, p.fee)
      else stableOffer(p.amp, p.rb, decOf(s, p, false), p.ra, decOf(s, p, true), want, p.fee)
    } else if (first) xykOffer(p.ra, p.rb, want, p.fee) else xykOffer(p.rb, p.ra, want, p.fee)
  pure def shareValue(p: Pool, n: int): { a: int, b: int } = {
    val ratio = if (p.total == 0) 0 else n * ONE / p.total
    { a: p.ra * ratio / ONE, b: p.rb * ratio / ONE }
  }

  type Add = { ok: bool, why: str, a: int, b: int, mint: int, lock: int }
  pure def addTo(s: State, p: Pool, da: int, db: int): Add = {
    val bad: Add = { ok: false, why: "price", a: 0, b: 0, mint: 0, lock: 0 }
    if (p.stable) {
      val d1 = computeD(p.amp, scale(p.ra + da, decOf(s, p, true), 18), scale(p.rb + db, decOf(s, p, false), 18))
      if (p.defSlip > p.maxSlip) { ...bad, why: "slipmax" }
      else if (not(d1.ok)) bad
      else if (p.total == 0) {
        val n = d1.v / 10^(18 - max2(decOf(s, p, true), decOf(s, p, false))) - MINLIQ
        if (n <= 0) { ...bad, why: "minliq" } else { ok: true, why: "", a: da, b: db, mint: n, lock: 0 }
      } else {
        val d0 = computeD(p.amp, scale(p.ra, decOf(s, p, true), 18), scale(p.rb, decOf(s, p, false), 18))
        if (not(d0.ok) or d0.v == 0 or d1.v < d0.v) bad
        else { ok: true, why: "", a: da, b: db, mint: p.total * ((d1.v - d0.v) * ONE / d0.v) / ONE, lock: 0 }
      }
    } else {
      val d = depositAmounts(p.ra, p.rb, da, db, None, None, p.defSlip)
      if (d.bad != Set()) { ...bad, why: "slip" }
      else if (p.ra > 0 and p.rb > 0)
        { ok: true, why: "", a: d.a, b: d.b, lock: 0,
          mint: min2((p.ha + d.a) * p.total / p.ra, (p.hb + d.b) * p.total / p.rb) - p.total }
      else {
        val n = isqrt(d.a * d.b)
        if (n <= MINLIQ or n - MINLIQ < p.total) { ...bad, why: "minliq" }
        else { ok: true, why: "", a: d.a, b: d.b, mint: n - MINLIQ - p.total, lock: MINLIQ }
      }
    }
  }
  pure def provide(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    val d = addTo(s, p, c.x, c.y)
    if (not(d.ok)) reject(s, Set(d.why))
    else if (holds(s, c.who, p.a) < d.a or holds(s, c.who, p.b) < d.b) reject(s, Set("funds"))
    else accept(s.debit(c.who, p.a, -d.a).debit(c.who, p.b, -d.b).setPool(c.i, { ...p, ra: p.ha + d.a, rb: p.hb + d.b,
           ha: p.ha + d.a, hb: p.hb + d.b, total: p.total + d.mint + d.lock,
           lp: p.lp.setBy(c.who, v => v + d.mint).setBy("pool", v => v + d.lock) }), Set(c.who))
  }
  pure def withdraw(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    val v = shareValue(p, c.x)
    val why = flag(c.x <= 0, "arg").union(flag(p.lp.get(c.who) < c.x, "funds")).union(flag(p.total == 0, "empty"))
      .union(flag(v.a < 1 or v.b < 1, "min"))
    if (why != Set()) reject(s, why)
    else accept(s.debit(c.who, p.a, v.a).debit(c.who, p.b, v.b).setPool(c.i, { ...p, ra: p.ra - v.a, rb: p.rb - v.b,
           ha: p.ha - v.a, hb: p.hb - v.b, total: p.total - c.x, lp: p.lp.setBy(c.who, b => b - c.x) }), Set(c.who))
  }
  pure def lpSend(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    if (p.lp.get(c.who) < c.x) reject(s, Set("funds"))
    else accept(s.setPool(c.i, { ...p, lp: p.lp.setBy(c.who, b => b - c.x).setBy(c.admin, b => b + c.x) }), Set(c.who))
  }
  pure def bond(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    val why = flag(c.x < p.minBond, "minbond").union(flag(p.lp.get(c.who) < c.x, "funds"))
    if (why != Set()) reject(s, why)
    else accept(s.setPool(c.i, { ...p, lp: p.lp.setBy(c.who, b => b - c.x), staked: p.staked + c.x,
           stakes: p.stakes.setBy(c.who, l => l.append({ amt: c.x, ts: s.now })) }), Set(c.who))
  }
  pure def unbond(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    val l = p.stakes.get(c.who)
    val at = l.indices().filter(k => l.nth(k) == { amt: c.x, ts: c.y })
    if (at == Set()) reject(s, Set("nostake")) else {
      val k = at.fold(length(l), (acc, j) => min2(acc, j))
      accept(s.setPool(c.i, { ...p, lp: p.lp.setBy(c.who, b => b + c.x), staked: p.staked - c.x,
             stakes: p.stakes.set(c.who, l.slice(0, k).concat(l.slice(k + 1, length(l)))) }), Set(c.who))
    }
  }
  pure def donate(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    if (holds(s, c.who, p.a) < c.x) reject(s, Set("funds"))
    else accept(s.debit(c.who, p.a, -c.x).setPool(c.i, { ...p, ha: p.ha + c.x }), Set(c.who))
  }
  pure def poolFee(s: State, c: Call): Out = {
    val p = s.pools.nth(c.i)
    if (not(okBps(c.fee))) reject(s, Set("bps")) else accept(s.setPool(c.i, { ...p, fee: c.fee }), Set(p.admin))
  }

  // ---------------------------------------------------------------- router
  type Walk = { st: State, amt: int, why: Set[str], rs: List[int], tl: List[Told] }
  pure def sname(i: int): str = if (i == 0) "s0" else if (i == 1) "s1" else if (i == 2) "s2" else if (i == 3) "s3" else if (i == 4) "s4" else if (i == 5) "s5" else "s6"
  pure def lname(i: int): str = if (i == 0) "l0" else if (i == 1) "l1" else if (i == 2) "l2" else if (i == 3) "l3" else if (i == 4) "l4" else if (i == 5) "l5" else "l6"
  pure def pname(i: int): str = if (i == 0) "p0" else if (i == 1) "p1" else if (i == 2) "p2" else if (i == 3) "p3" else if (i == 4) "p4" else if (i == 5) "p5" else "p6"
  /// what the i-th pool announces of a swap
  pure def swapTold(i: int, stable: bool, who: str, sold: str, bought: str, amt: int, o: Swap): List[Told] =
    List(names(pname(i), "swap", "sender", who), names(pname(i), "swap", "sell_token", sold), names(pname(i), "swap", "buy_token", bought),
      states(pname(i), "swap", "offer_amount", amt), states(pname(i), "swap", "return_amount", o.ret), states(pname(i), "swap", "spread_amount", o.spread))
      .concat(if (stable) List() else List(states(pname(i), "swap", "actual received amount", amt), states(pname(i), "swap", "referral_fee_amount", 0)))
  pure def hop(w: Walk, c: Call, h: Hop): Walk = {
    val s = w.st
    val i = poolOf(s, h.o, h.a)
    if (w.why != Set()) w
    else if (i < 0) { ...w, why: Set("nopool") }
    else {
      val p = s.pools.nth(i)
      val first = h.o == p.a
      val o = poolSwap(s, p, first, w.amt)
      val gross = o.ret + o.comm
      val limit = bps(orElse(c.slip, p.maxSpread))
      val why = flag(c.dl.someSuch(d => s.now > d), "deadline").union(flag(w.amt <= 0, "arg"))
        .union(flag(c.okFee.someSuch(v => v < p.fee), "fee"))
        .union(flag(c.slip.someSuch(v => v < 0 or v > p.maxSpread), "spreadmax"))
        .union(flag(not(o.ok) or gross == 0, "price"))
        .union(flag(h.min.someSuch(v => v > o.ret), "min"))
        .union(flag(gross > 0 and o.spread * ONE / gross > limit, "spread"))
        .union(flag(holds(s, c.who, h.o) < w.amt, "funds"))
      if (why != Set()) { ...w, why: why } else {
        val p2 = if (first) { ...p, ra: p.ra + w.amt, ha: p.ha + w.amt, rb: p.rb - gross, hb: p.hb - gross }
                 else { ...p, rb: p.rb + w.amt, hb: p.hb + w.amt, ra: p.ra - gross, ha: p.ha - gross }
        { st: s.debit(c.who, h.o, -w.amt).debit(c.who, h.a, o.ret).debit(p.feeTo, h.a, o.comm).setPool(i, p2),
          amt: o.ret, why: Set(), rs: w.rs, tl: w.tl.concat(swapTold(i, p.stable, c.who, h.o, h.a, w.amt, o)) }
      }
    }
  }
  pure def connected(r: List[Hop], back: bool): bool =
    length(r) < 2 or
    range(1, length(r)).foldl(true, (acc, i) =>
      acc and (if (back) r.nth(i - 1).o == r.nth(i).a else r.nth(i - 1).a == r.nth(i).o))
  pure def mswap(s: State, c: Call): Out = {
    val pre = flag(length(c.route) == 0, "empty").union(flag(not(connected(c.route, false)), "route")).union(flag(not(c.signed), "auth"))
    if (pre != Set()) reject(s, pre) else {
      val w = c.route.foldl({ st: s, amt: c.x, why: Set(), rs: List(), tl: List() }, (acc, h) => hop(acc, c, h))
      if (w.why != Set()) reject(s, w.why) else { ...accept(w.st, Set(c.who)), tl: w.tl }
    }
  }
  /// results: the final amount, then fee and spread of every hop
  pure def mquote(s: State, c: Call): Out = {
    val pre = flag(length(c.route) == 0, "empty").union(flag(not(connected(c.route, false)), "route"))
    if (pre != Set()) reject(s, pre) else {
      val w = c.route.foldl({ st: s, amt: c.x, why: Set(), rs: List(), tl: List() }, (acc, h) => {
        val i = poolOf(s, h.o, h.a)
        if (acc.why != Set()) acc else if (i < 0) { ...acc, why: Set("nopool") } else {
          val o = poolSwap(s, s.pools.nth(i), h.o == s.pools.nth(i).a, acc.amt)
          if (not(o.ok)) { ...acc, why: Set("price") }
          else { ...acc, amt: o.ret, rs: acc.rs.concat(List(o.comm, o.spread)) }
        }
      })
      if (w.why != Set()) reject(s, w.why) else { ...accept(s, Set()), rs: List(w.amt).concat(w.rs) }
    }
  }
  pure def mrquote(s: State, c: Call): Out = {
    val pre = flag(length(c.route) == 0, "empty").union(flag(not(connected(c.route, true)), "route"))
    if (pre != Set()) reject(s, pre) else {
      val w = c.route.foldl({ st: s, amt: c.x, why: Set(), rs: List(), tl: List() }, (acc, h) => {
        val i = poolOf(s, h.o, h.a)
        if (acc.why != Set()) acc else if (i < 0) { ...acc, why: Set("nopool") } else {
          val p = s.pools.nth(i)
          val first = h.o == p.a
          val r = poolOffer(s, p, first, acc.amt)
          // more than the pool has: what a quote says there is of no interest
          val beyond = p.fee >= 10000 or acc.amt * 10000 >= (if (first) p.rb else p.ra) * (10000 - p.fee)
          // so is what a quote for pools of another kind than stated says
          if (beyond or p.stable != c.stable) { ...acc, why: Set("range") }
          else if (not(r.ok)) { ...acc, why: Set("price") }
          else { ...acc, amt: r.offer, rs: acc.rs.concat(List(r.comm, r.spread)) }
        }
      })
      if (w.why != Set()) reject(s, w.why) else { ...accept(s, Set()), rs: List(w.amt).concat(w.rs) }
    }
  }
  pure def mUpdate(s: State, c: Call): Out = if (not(c.signed)) reject(s, Set("auth")) else accept(s, Set("adm"))

  pure def perform(s: State, c: Call): Out =
    if (c.op == "fInit") fInit(s, c)
    else if (c.op == "create") create(s, c)
    else if (c.op == "whitelist") whitelist(s, c)
    else if (c.op == "hashes") hashes(s, c)
    else if (c.op == "fUpdate") fUpdate(s, c)
    else if (c.op == "provide") provide(s, c)
    else if (c.op == "withdraw") withdraw(s, c)
    else if (c.op == "lpSend") lpSend(s, c)
    else if (c.op == "bond") bond(s, c)
    else if (c.op == "unbond") unbond(s, c)
    else if (c.op == "claim") accept(s, Set())   // no rewards are distributed here
    else if (c.op == "donate") donate(s, c)
    else if (c.op == "poolFee") poolFee(s, c)
    else if (c.op == "mswap") mswap(s, c)
    else if (c.op == "mquote") mquote(s, c)
    else if (c.op == "mrquote") mrquote(s, c)
    else if (c.op == "mUpdate") mUpdate(s, c)
    else reject(s, Set("twice"))   // mInit: the factory has initialised the router

  // ---------------------------------------------------------------- announcements
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "fInit") List(names("factory", "initialize", "LP factory contract", c.who), names("router", "initialize", "Multihop factory with admin: ", c.who))
    else if (c.op == "create") {
      val k = length(s.pools)
      List(names("factory", "create", "liquidity_pool", pname(k)), names(pname(k), "initialize", "XYK LP token_a", c.a), names(pname(k), "initialize", "XYK LP token_b", c.b),
        names(sname(k), "initialize", "LP Share token staking contract", lname(k)))
    } else if (c.op == "provide") {
      val p = s.pools.nth(c.i)   val p2 = o.st.pools.nth(c.i)   val k = pname(c.i)
      List(names(k, "provide_liquidity", "sender", c.who), names(k, "provide_liquidity", "token_a", p.a), names(k, "provide_liquidity", "token_b", p.b),
        states(k, "provide_liquidity", "token_a-amount", p2.ha - p.ha), states(k, "provide_liquidity", "token_b-amount", p2.hb - p.hb))
    } else if (c.op == "withdraw") {
      val p = s.pools.nth(c.i)   val p2 = o.st.pools.nth(c.i)   val k = pname(c.i)
      List(names(k, "withdraw_liquidity", "sender", c.who), states(k, "withdraw_liquidity", "shares_amount", c.x),
        states(k, "withdraw_liquidity", "return_amount_a", p.ha - p2.ha), states(k, "withdraw_liquidity", "return_amount_b", p.hb - p2.hb))
    } else if (c.op == "bond" or c.op == "unbond")
      List(names(sname(c.i), c.op, "user", c.who), names(sname(c.i), c.op, "token", lname(c.i)), states(sname(c.i), c.op, "amount", c.x))
    else if (c.op == "claim") List(names(sname(c.i), "withdraw_rewards", "user", c.who))
    else o.tl

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// what each user's portfolio shows in the new state: pool index and redeemable amounts
  type Entry = { i: int, a: int, b: int }
  var pf: str -> List[Entry]

  pure def stakedBy(p: Pool, u: str): int = p.stakes.get(u).foldl(0, (acc, k) => acc + k.amt)
  pure def portfolio(s: State, u: str): List[Entry] =
    range(0, length(s.pools)).foldl(List(), (acc, i) => {
      val p = s.pools.nth(i)
      val n = p.lp.get(u) + stakedBy(p, u)
      val v = shareValue(p, n)
      if (n > 0) acc.append({ i: i, a: v.a, b: v.b }) else acc
    })

  pure val NOCALL: Call = { op: "none", who: "", signed: true, a: "t1", b: "t2", stable: false, i: 0, x: 0, y: 0, amp: None,
    fee: 0, maxSlip: 0, maxSpread: 0, maxRef: 0, defSlip: 0, infoSlip: 0, maxFee: 0, feeTo: "fee", admin: "adm2", manager: "mgr",
    minBond: 1, minReward: 1, maxc: 1, add: List(), rem: List(), h1: "", h2: "", h3: "", route: List(),
    slip: None, dl: None, okFee: None }

  action init = {
    nondet whole = oneOf(Set(10^3, 10^6))     nondet t0 = oneOf(STARTS)
    nondet d = TOKENS.setOfMaps(Set(6, 7, 8)).oneOf()
    val st: State = { now: t0, inited: false, white: List(), lpDec: 0, dec: d, pools: List(),
      h: { lp: "", stable: "", stake: "", token: "" },
      bal: ACCTS.mapBy(x => TOKENS.mapBy(t => if (USERS.contains(x)) whole * 10^d.get(t) else 0)) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), pf' = USERS.mapBy(u => List()) }
  }
  /// a market in use: a pool for every pair of tokens, each with liquidity
  action initMarket = {
    nondet whole = oneOf(Set(10^3, 10^6))     nondet t0 = oneOf(STARTS)
    nondet d = TOKENS.setOfMaps(Set(6, 7, 8)).oneOf()
    nondet turn = oneOf(0.to(5))    nondet kinds = oneOf(0.to(63))
    nondet f1 = oneOf(Set(0, 1, 30, 100))   nondet f2 = oneOf(Set(0, 30, 999))
    nondet a1 = oneOf(2.to(9))      nondet a2 = oneOf(2.to(9))      nondet a3 = oneOf(2.to(40))
    nondet amp = oneOf(Set(6, 50, 200))     nondet sp = oneOf(Set(500, 5000))
    val pairs = List(("t1", "t2"), ("t2", "t3"), ("t3", "t4"), ("t1", "t4"), ("t1", "t3"), ("t2", "t4"))
    val st: State = { now: t0, inited: true, white: List("u1", "u2"), lpDec: 7, dec: d, pools: List(),
      h: { lp: "good", stable: "good", stake: "good", token: "good" },
      bal: ACCTS.mapBy(x => TOKENS.mapBy(t => if (USERS.contains(x)) whole * 10^d.get(t) else 0)) }
    val made = range(0, 6).foldl(st, (z, n) => {
      val q = (n + turn) % 6
      val pr = pairs.nth(q)
      val stable = (kinds / 2^q) % 2 == 1
      val u = if (n < 2) "u1" else if (n < 4) "u2" else "u3"
      val c = { ...NOCALL, op: "create", who: if (n % 2 == 0) "u1" else "u2", a: pr._1, b: pr._2, stable: stable,
                amp: if (stable) Some(amp) else None, fee: if (n % 2 == 0) f1 else f2, maxSlip: 10000, maxSpread: if (n < 3) sp else 10000,
                maxRef: 100, defSlip: 100, infoSlip: 100, maxFee: 1000, feeTo: if (q == 3) "fee2" else "fee", minBond: 10, minReward: 7, maxc: 7 }
      val x = whole * 10^d.get(pr._1) / (10 * (if (n % 3 == 0) a1 else if (n % 3 == 1) a2 else a3))
      val y = whole * 10^d.get(pr._2) / (10 * (if (n % 3 == 0) a1 else if (n % 3 == 1) a2 else if (stable) a3 else a1))
      perform(perform(z, c).st, { ...NOCALL, op: "provide", i: n, who: u, x: x, y: y }).st
    })
    all { s' = made, prev' = made, call' = NOCALL, out' = reject(made, Set("init")), ev' = List(), pf' = USERS.mapBy(u => portfolio(made, u)) }
  }
  action act(c: Call): bool = {
    nondet dt = oneOf(Set(0, 0, 1, 7, 86400))
    val o = perform(s, c)
    all { prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = { ...o, tl: List() }, ev' = told(s, c, o),
          pf' = USERS.mapBy(u => portfolio(o.st, u)) }
  }


  action doFInit = {
    nondet v = oneOf(1.to(8))
    nondet w = oneOf(Set(List("u1"), List("u1", "u2"), List("adm", "u1", "u3"), List("u2", "u1", "u2")))
    nondet d = oneOf(Set(7, 7, 9))
    act({ ...NOCALL, op: "fInit", who: "adm", add: if (v == 1) List() else w, x: d })
  }
  action doCreate = {
    nondet v = oneOf(1.to(40))
    nondet i = oneOf(0.to(2))       nondet j = oneOf(1.to(3))
    nondet stable = oneOf(Set(true, false))
    nondet u = oneOf(Set("u1", "u1", "u2", "u3", "adm", "adm2"))
    nondet wk = oneOf(0.to(2))
    nondet bk = oneOf(0.to(12))  val bad = badBps(bk)  nondet nk = oneOf(0.to(7))  val neg = negative(nk)
    nondet fee = oneOf(Set(0, 1, 30, 100, 999))  nondet slip = oneOf(Set(100, 500, 10000))
    nondet spread = oneOf(Set(500, 5000, 10000)) nondet ref = oneOf(Set(0, 100, 10000))
    nondet ds = oneOf(Set(0, 50, 100))  nondet is = oneOf(Set(0, 50, 100))   nondet fm = oneOf(Set(0, 1000, 10000))
    nondet amp = oneOf(Set(1, 6, 50, 200, 1000000))  nondet badAmp = oneOf(Set(0, 1000001))
    nondet fto = oneOf(Set("fee", "fee2", "u3"))     nondet mg = oneOf(Set("mgr", "u2", "adm"))
    nondet ad = oneOf(Set("adm2", "adm", "u1"))
    nondet mb = oneOf(Set(1, 10, 5000))  nondet mr = oneOf(Set(1, 7))  nondet mc = oneOf(Set(1, 7, 20))
    val ix = if (i < j) i else j - 1
    val ta = TOKS.nth(if (i < j) i else j - 1)
    val tb = TOKS.nth(j)
    // mostly somebody who may
    val who = if (v <= 3 or length(s.white) == 0) u else s.white.nth(min2(wk, length(s.white) - 1))
    act({ ...NOCALL, op: "create", who: who, signed: v != 4,
          a: if (v == 5) tb else ta, b: if (v == 5 or v == 6) ta else tb, stable: stable,
          amp: if (v == 7 or (not(stable) and v <= 30)) None else if (v == 8) Some(badAmp) else Some(amp),
          fee: if (v == 9) bad else fee, maxSlip: if (v == 10) bad else slip, maxSpread: if (v == 11) bad else spread,
          maxRef: if (v == 12) bad else ref, defSlip: if (v == 13) bad else ds, infoSlip: if (v == 14) bad else is,
          maxFee: if (v == 15) bad else if (v == 16) fee - 1 else max2(fee, fm),
          feeTo: fto, admin: ad, manager: mg, minBond: if (v == 17) neg else mb, minReward: if (v == 18) neg else mr,
          maxc: if (v == 19) 0 else mc })
  }
  action doWhitelist = {
    nondet v = oneOf(1.to(6))
    nondet u = oneOf(Set("u1", "u2", "adm2"))
    nondet l1 = oneOf(Set(List(), List("u1"), List("u2", "u3"), List("u1", "u1"), List("adm", "u2")))
    nondet l2 = oneOf(Set(List(), List("u1"), List("u2"), List("u3", "u3"), List("u2", "u1"), List("adm2")))
    act({ ...NOCALL, op: "whitelist", who: if (v == 1) u else "adm", signed: v != 2, add: l1, rem: l2 })
  }
  action doHashes = {
    nondet v = oneOf(1.to(4))       nondet a = oneOf(Set("", "good", "junk"))
    nondet b = oneOf(Set("", "good", "", "junk"))  nondet d = oneOf(Set("", "good", "", "junk"))
    act({ ...NOCALL, op: "hashes", who: "adm", signed: v != 1, h1: a, h2: b, h3: d })
  }
  action doRestore = act({ ...NOCALL, op: "hashes", who: "adm", h1: "good", h2: "good", h3: "good" })
  action doFUpdate = {
    nondet v = oneOf(1.to(3))       nondet a = oneOf(Set("good", "good", "junk"))
    act({ ...NOCALL, op: "fUpdate", who: "adm", signed: v != 1, h1: a })
  }
  action doMAdmin = {
    nondet v = oneOf(1.to(3))       nondet u = oneOf(Set("adm", "u1"))
    act(if (v == 1) { ...NOCALL, op: "mInit", who: u } else { ...NOCALL, op: "mUpdate", who: "adm", signed: v == 2 })
  }

  /// something somebody does with one pool
  action doPool = all {
    length(s.pools) > 0,
    nondet i0 = oneOf(0.to(5))      nondet u = oneOf(USERS)         nondet u2 = oneOf(USERS)
    nondet k = oneOf(1.to(13))      nondet m1 = oneOf(1.to(9999))   nondet m2 = oneOf(1.to(9999))   nondet e = oneOf(0.to(3))
    nondet nf = oneOf(Set(0, 30, 250, 10001))
    val i = i0 % length(s.pools)
    val p = s.pools.nth(i)
    val da = max2(1, holds(s, u, p.a) * m1 / 40000 / 10^e)
    val db = if (p.total == 0 or p.ra == 0 or p.rb == 0) {
               if (p.stable) max2(1, scale(da, s.dec.get(p.a), s.dec.get(p.b))) else max2(1, holds(s, u, p.b) * m2 / 40000 / 10^e)
             } else max2(1, da * p.rb / p.ra)
    val lp = p.lp.get(u)
    val st = p.stakes.get(u)
    val c = { ...NOCALL, i: i, who: u }
    act(if (p.total == 0 or k <= 3) { ...c, op: "provide", x: da, y: db }
        else if (k <= 5) { ...c, op: "withdraw", x: if (k == 4 and m2 < 2000) max2(1, lp) else max2(1, lp * m1 / 20000) }
        else if (k <= 7) { ...c, op: "bond", x: if (m2 < 1000) p.minBond - 1 else if (m2 < 2000) p.minBond else if (m2 > 7500) max2(p.minBond, lp) else max2(p.minBond, lp * m1 / 10000) }
        else if (k <= 9 and length(st) > 0) { val z = st.nth(m1 % length(st)) { ...c, op: "unbond", x: z.amt, y: if (m2 < 500) z.ts + 1 else z.ts } }
        else if (k == 10) { ...c, op: "donate", x: holds(s, u, p.a) * m1 / 1000000 }
        else if (k == 11) { ...c, op: "poolFee", who: p.admin, fee: nf }
        else if (k == 13) { ...c, op: "claim" }
        else { ...c, op: "lpSend", admin: u2, x: if (m2 < 3000) min2(lp, m2 % 30) else lp * m1 / 10000 })
  }

  /// a route of n hops from token t along existing pools, where they exist (back: as a reverse route)
  pure def walk(s: State, t: str, picks: List[int], kind: int): List[Hop] =
    picks.foldl({ r: List(), cur: t }, (acc, k) => {
      val ps = s.pools.select(p => (p.a == acc.cur or p.b == acc.cur) and p.total > 0
                 and (kind == 0 or (kind == 1 and p.stable) or (kind == 2 and not(p.stable))))
      if (length(ps) == 0) acc else {
        val p = ps.nth(k % length(ps))
        val nxt = if (p.a == acc.cur) p.b else p.a
        { r: acc.r.append({ o: acc.cur, a: nxt, min: None }), cur: nxt }
      }
    }).r

  action doRoute = {
    nondet v = oneOf(1.to(34))      nondet t0 = oneOf(TOKENS)       nondet t9 = oneOf(TOKENS)
    nondet u = oneOf(USERS)         nondet n = oneOf(1.to(6))       nondet kind = oneOf(Set(true, false))
    nondet k1 = oneOf(0.to(5))      nondet k2 = oneOf(0.to(5))      nondet k3 = oneOf(0.to(5))      nondet k4 = oneOf(0.to(5))
    nondet m1 = oneOf(1.to(9999))   nondet e = oneOf(0.to(5))       nondet op = oneOf(1.to(10))
    nondet dk = oneOf(1.to(6))      nondet fk = oneOf(1.to(6))      nondet sk = oneOf(1.to(4))      nondet mk = oneOf(0.to(4))
    nondet ng = oneOf(0.to(7))      val neg = negative(ng)
    val picks = List(k1, k2, k3, k4, k1 + k2, k3 + k1).slice(0, if (v >= 23 and n == 1) 2 else n)
    val rev = op >= 9
    val r0 = walk(s, t0, picks, if (not(rev)) 0 else if (kind) 1 else 2)
    val r1 = if (rev) range(0, length(r0)).foldl(List(), (acc, i) => List(r0.nth(i)).concat(acc)) else r0
    // malformed routes: empty, not connected, over a missing pool
    val r2 = if (v == 1) List() else if ((v == 2 or v == 14 or v == 15) and length(r1) >= 2) { val at = if (v == 2) 1 + mk % (length(r1) - 1) else length(r1) - 1 r1.replaceAt(at, { o: t9, a: r1.nth(at).a, min: None }) }
             else if (v == 3) r1.append({ o: if (length(r1) > 0) r1.nth(length(r1) - 1).a else t0, a: t9, min: None })
             else if (v == 4 and length(r1) >= 1) r1.replaceAt(length(r1) - 1, { ...r1.nth(length(r1) - 1), a: t9 }) else r1
    val first = if (length(r2) > 0) r2.nth(0) else { o: t0, a: t9, min: None }
    val pi = poolOf(s, first.o, first.a)
    val depth = if (pi < 0) 1000000 else {
      val p = s.pools.nth(pi)
      if ((first.o == p.a) == rev) p.rb else p.ra
    }
    val have = holds(s, u, first.o)
    val x = if (v == 5) (if (op >= 7) max2(-1, neg) else neg) else if (v == 6) have + 1 else max2(1, depth * m1 / 20000 / 10^(if (v >= 23) e % 2 else e))
    val amt = if (rev or v == 5 or v == 6) x else max2(1, min2(have, x))
    // what each hop will pay, to put limits exactly there
    val c0 = { ...NOCALL, op: "mswap", who: u, x: amt, route: r2 }
    val pays = r2.foldl({ w: { st: s, amt: amt, why: Set(), rs: List(), tl: List() }, l: List() }, (acc, h) => {
      val w2 = hop(acc.w, c0, h)
      { w: w2, l: acc.l.append(w2.amt) }
    })
    val r3 = if (rev) r2 else range(0, length(r2)).foldl(List(), (acc, i) => {
      val exact = pays.l.nth(i)
      acc.append({ ...r2.nth(i), min: if (v == 7 and i == mk % length(r2)) Some(exact + 1)
                                      else if (mk <= 1 or (i + mk) % 2 == 0) None else Some(exact - (mk - 2)) })
    })
    // fee and spread limits of the pools on the way
    val ps = r2.select(h => poolOf(s, h.o, h.a) >= 0).foldl(List(), (acc, h) => acc.append(s.pools.nth(poolOf(s, h.o, h.a))))
    val fees = ps.foldl(0, (acc, p) => max2(acc, p.fee))
    val spreads = ps.foldl(10000, (acc, p) => min2(acc, p.maxSpread))
    // a spread limit some hop just exceeds, or all hops just keep
    val tight = if (v < 23 or rev or length(r2) == 0) None else {
      val grid = List(1, 2, 3, 4, 6, 8, 11, 16, 22, 31, 44, 62, 88, 125, 176, 250, 353, 500, 707, 1000, 1410, 2000, 2820, 4000, 5600, 8000)
      val good = grid.select(b => b <= spreads and
        r2.foldl({ st: s, amt: amt, why: Set(), rs: List(), tl: List() }, (w, h) => hop(w, { ...c0, slip: Some(b) }, h)).why == Set())
      if (length(good) == 0) None else {
        val b = good.nth(0)
        val less = grid.select(y => y < b)
        Some(if (m1 % 3 != 0 and length(less) > 0) less.nth(length(less) - 1) else b)
      }
    }
    act({ ...NOCALL, op: if (rev) "mrquote" else if (op >= 7) "mquote" else "mswap", who: u, signed: v != 8, x: amt, stable: kind,
          route: r3, dl: deadline(dk, s.now, v == 9),
          okFee: feeLimit(fk, fees, v == 10 or v == 16),
          slip: if (tight != None) tight else if (v == 11) Some(spreads + beyond(m1)) else if (v == 12) Some(-1) else if (v == 13) Some(m1 % (spreads + 1)) else if (sk <= 2) None else Some(spreads) })
  }

  pure def funded(s: State): bool = s.pools.select(p => p.total > 0).length() >= 2
  action admin = any { doCreate, doCreate, doWhitelist, doHashes, doRestore, doFUpdate, doFInit, doMAdmin }
  /// everything, with routes as soon as there are pools
  action step =
    if (not(s.inited)) doFInit
    else if (length(s.pools) < 2) any { doCreate, doCreate, doCreate, doWhitelist }
    else if (not(funded(s))) any { doPool, doPool, doPool, doCreate }
    else any { doRoute, doRoute, doRoute, doRoute, doRoute, doPool, doPool, doCreate, admin }
  /// focus on routes
  action routeStep =
    if (not(s.inited)) doFInit
    else if (length(s.pools) < 3) doCreate
    else if (not(funded(s))) any { doPool, doPool, doPool, doCreate }
    else any { doRoute, doRoute, doRoute, doRoute, doRoute, doRoute, doRoute, doRoute, doPool, doPool, doCreate, doMAdmin }
  /// focus on the registry
  action adminStep =
    if (not(s.inited)) doFInit else any { doCreate, doCreate, doCreate, admin, admin, if (length(s.pools) > 0) doPool else doCreate }
  /// focus on deposits and stakes
  action holderStep =
    if (not(s.inited)) doFInit
    else if (length(s.pools) < 2) doCreate
    else any { doPool, doPool, doPool, doPool, doPool, doPool, doRoute, doCreate }

  // ---------------------------------------------------------------- properties of the specification
  val pidx = s.pools.indices()
  /// F01
  val onePerPair = and {
    pidx.forall(i => less(s.pools.nth(i).a, s.pools.nth(i).b)),
    pidx.forall(i => pidx.forall(j => i == j or s.pools.nth(i).a != s.pools.nth(j).a or s.pools.nth(i).b != s.pools.nth(j).b)),
    pidx.forall(i => poolOf(s, s.pools.nth(i).a, s.pools.nth(i).b) == i and poolOf(s, s.pools.nth(i).b, s.pools.nth(i).a) == i),
    TOKENS.forall(t => poolOf(s, t, t) == -1),
  }
  val registryGrows = length(s.pools) >= length(prev.pools) and prev.pools.indices().forall(i =>
    s.pools.nth(i).a == prev.pools.nth(i).a and s.pools.nth(i).b == prev.pools.nth(i).b and s.pools.nth(i).stable == prev.pools.nth(i).stable)
  /// F02
  val createdByWhitelisted = length(s.pools) > length(prev.pools) implies
    (call.op == "create" and hasStr(prev.white, call.who) and out.auth == Set(call.who) and length(s.pools) == length(prev.pools) + 1)
  val onlyAdmin = (prev.inited and (s.white != prev.white or s.h != prev.h)) implies out.auth == Set("adm")
  val whitelistExact = (out.ok and call.op == "whitelist") implies and {
    call.rem.indices().forall(i => not(hasStr(s.white, call.rem.nth(i)))),
    call.add.indices().forall(i => hasStr(s.white, call.add.nth(i)) or hasStr(call.rem, call.add.nth(i))),
    prev.white.indices().forall(i => hasStr(s.white, prev.white.nth(i)) or hasStr(call.rem, prev.white.nth(i))),
    s.white.indices().forall(i => hasStr(prev.white, s.white.nth(i)) or hasStr(call.add, s.white.nth(i))),
  }
  /// F03
  val validPools = pidx.forall(i => { val p = s.pools.nth(i)
    okBps(p.fee) and okBps(p.maxSlip) and okBps(p.maxSpread) and okBps(p.maxRef) and okBps(p.defSlip) and p.minBond > 0
    and p.minReward > 0 and (p.stable implies (1 <= p.amp and p.amp <= 1000000)) })
  /// F04
  val portfolioSound = pidx.forall(i => { val p = s.pools.nth(i)
    val e = USERS.fold({ a: 0, b: 0 }, (acc, u) => pf.get(u).select(x => x.i == i).foldl(acc, (z, x) => { a: z.a + x.a, b: z.b + x.b }))
    e.a <= p.ra and e.b <= p.rb })
  val supply = pidx.forall(i => { val p = s.pools.nth(i)
    HOLDERS.fold(0, (acc, u) => acc + p.lp.get(u)) + p.staked == p.total
    and p.staked == USERS.fold(0, (acc, u) => acc + stakedBy(p, u)) })
  val backed = pidx.forall(i => { val p = s.pools.nth(i) p.ha >= p.ra and p.hb >= p.rb and p.ra >= 0 and p.rb >= 0 })
  pure def amount(st: State, t: str): int =
    st.pools.foldl(ACCTS.fold(0, (acc, x) => acc + st.bal.get(x).get(t)), (acc, p) =>
      acc + (if (p.a == t) p.ha else 0) + (if (p.b == t) p.hb else 0))
  val conserved = TOKENS.forall(t => amount(s, t) == amount(prev, t))
  val noDebt = ACCTS.forall(x => TOKENS.forall(t => s.bal.get(x).get(t) >= 0))
  /// M01
  val routerEmpty = TOKENS.forall(t => s.bal.get("router").get(t) == 0)
  val chain = (out.ok and call.op == "mswap") implies {
    val r = call.route
    val toks = r.indices().map(i => r.nth(i).a).union(Set(r.nth(0).o))
    // over distinct tokens only the first is spent and only the last gained; fees go elsewhere
    // unless the user is a fee recipient
    (toks.size() == length(r) + 1 and call.who != "u3") implies TOKENS.forall(t => {
      val d = s.bal.get(call.who).get(t) - prev.bal.get(call.who).get(t)
      if (t == r.nth(0).o) d == -call.x else if (t == r.nth(length(r) - 1).a) d >= 0 else d == 0
    })
  }
  val othersUntouched = (out.ok and call.op == "mswap") implies
    USERS.forall(u => u == call.who or TOKENS.forall(t => s.bal.get(u).get(t) >= prev.bal.get(u).get(t)))
  /// M02
  val routeSound = (out.ok and call.op == "mswap") implies and {
    length(call.route) > 0, connected(call.route, false), not(call.dl.someSuch(d => prev.now > d)),
    call.route.indices().forall(i => poolOf(s, call.route.nth(i).o, call.route.nth(i).a) >= 0),
  }
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  val quotesAreNoops = Set("mquote", "mrquote").contains(call.op) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// E01: a route is announced hop by hop, each selling what the one before bought
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "mswap") implies {
      val sold = ev.select(e => e.about.nth(1) == "offer_amount")
      val got = ev.select(e => e.about.nth(1) == "return_amount")
      and { length(sold) == length(call.route), sold.nth(0).amounts.nth(0) == call.x,
        range(1, length(sold)).foldl(true, (acc, i) => acc and sold.nth(i).amounts == got.nth(i - 1).amounts) }
    },
  }
}
