/// The LP/asset token: balances, allowances that expire by ledger number, administration.
module token {
  import common.* from "./common"

  type Allow = { amt: int, exp: int }
  type State = { seq: int, dec: int, admin: str, minted: int, burned: int,
                 bal: str -> int, allow: (str, str) -> Allow }
  type Call = { op: str, signed: bool, spender: str, from: str, to: str, x: int, exp: int }
  type Out = { ok: bool, why: Set[str], auth: Set[str], st: State }

  pure val MAX = 2^127 - 1
  pure val ACCTS = Set("u1", "u2", "u3", "adm", "adm2")
  pure val PAIRS = tuples(Set("u1", "u2", "u3"), Set("u1", "u2", "u3", "adm"))

  pure def flag(c: bool, n: str): Set[str] = if (c) Set(n) else Set()
  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, auth: Set(), st: s }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), auth: auth, st: s }

  /// what a spender may still spend now
  pure def spendable(s: State, from: str, spender: str): int =
    if (not(PAIRS.contains((from, spender)))) 0 else {
      val a = s.allow.get((from, spender))
      if (a.exp < s.seq) 0 else a.amt
    }
  pure def transferred(bal: str -> int, src: str, dst: str, x: int): str -> int =
    bal.setBy(src, b => b - x).setBy(dst, b => b + x)
  pure def over(s: State, src: str, dst: str, x: int): bool = src != dst and s.bal.get(dst) + x > MAX

  pure def used(s: State, c: Call): (str, str) -> Allow =
    if (c.x == 0) s.allow else s.allow.setBy((c.from, c.spender), a => { ...a, amt: a.amt - c.x })

  pure def perform(s: State, c: Call): Out =
    val neg = flag(c.x < 0, "negative").union(flag(not(c.signed), "auth"))
    if (c.op == "mint") {
      val why = neg.union(flag(s.bal.get(c.to) + c.x > MAX, "overflow"))
      if (why != Set()) reject(s, why)
      else accept({ ...s, minted: s.minted + c.x, bal: s.bal.setBy(c.to, b => b + c.x) }, Set(s.admin))
    } else if (c.op == "set_admin") {
      if (neg != Set()) reject(s, neg) else accept({ ...s, admin: c.to }, Set(s.admin))
    } else if (c.op == "approve") {
      val why = neg.union(flag(c.x > 0 and c.exp < s.seq, "expired"))
      if (why != Set()) reject(s, why)
      else accept({ ...s, allow: s.allow.set((c.from, c.spender), { amt: c.x, exp: c.exp }) }, Set(c.from))
    } else if (c.op == "transfer") {
      val why = neg.union(flag(s.bal.get(c.from) < c.x, "funds")).union(flag(over(s, c.from, c.to, c.x), "overflow"))
      if (why != Set()) reject(s, why)
      else accept({ ...s, bal: transferred(s.bal, c.from, c.to, c.x) }, Set(c.from))
    } else if (c.op == "burn") {
      val why = neg.union(flag(s.bal.get(c.from) < c.x, "funds"))
      if (why != Set()) reject(s, why)
      else accept({ ...s, burned: s.burned + c.x, bal: s.bal.setBy(c.from, b => b - c.x) }, Set(c.from))
    } else if (c.op == "transfer_from" or c.op == "burn_from") {
      val isBurn = c.op == "burn_from"
      val why = neg.union(flag(spendable(s, c.from, c.spender) < c.x, "allowance"))
        .union(flag(s.bal.get(c.from) < c.x, "funds"))
        .union(flag(not(isBurn) and over(s, c.from, c.to, c.x), "overflow"))
      if (why != Set()) reject(s, why)
      else if (isBurn) accept({ ...s, burned: s.burned + c.x, allow: used(s, c), bal: s.bal.setBy(c.from, b => b - c.x) },
                              Set(c.spender))
      else accept({ ...s, allow: used(s, c), bal: transferred(s.bal, c.from, c.to, c.x) }, Set(c.spender))
    } else {
      // "construct": deploying another token, with x decimals
      if (c.x > 18) reject(s, Set("decimals")) else accept(s, Set())
    }

  // ---------------------------------------------------------------- announcements
  pure def tells(t: str, who: List[str], named: List[str], ns: List[int]): List[Told] =
    List({ by: "tok", about: List(t).concat(who), names: named, amounts: ns })
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "mint") tells("mint", List(s.admin, c.to), List(), List(c.x))
    else if (c.op == "set_admin") tells("set_admin", List(s.admin), List(c.to), List())
    else if (c.op == "approve") tells("approve", List(c.from, c.spender), List(), List(c.x, c.exp))
    else if (c.op == "transfer" or c.op == "transfer_from") tells("transfer", List(c.from, c.to), List(), List(c.x))
    else if (c.op == "burn" or c.op == "burn_from") tells("burn", List(c.from), List(), List(c.x))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]

  pure val NOCALL: Call = { op: "none", signed: true, spender: "", from: "", to: "", x: 0, exp: 0 }

  action init = {
    nondet d = oneOf(0.to(18))
    nondet q0 = oneOf(Set(1, 100, 50000))
    val st: State = { seq: q0, dec: d, admin: "adm", minted: 0, burned: 0, bal: ACCTS.mapBy(x => 0),
      allow: PAIRS.mapBy(p => { amt: 0, exp: 0 }) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List() }
  }

  /// performs the call at the current ledger, then lets ledgers close
  action act(c0: Call): bool = {
    val c = { ...c0, x: min2(c0.x, MAX) }
    nondet ds = oneOf(Set(0, 0 + 1, 2, 10, 100, 5000))
    val o = perform(s, c)
    all { prev' = s, s' = { ...o.st, seq: s.seq + ds }, call' = c, out' = o, ev' = told(s, c, o) }
  }

  action doMint = {
    nondet t = oneOf(ACCTS)  nondet m = oneOf(1.to(9999))  nondet e = oneOf(0.to(34))  nondet v = oneOf(1.to(12))
    act({ ...NOCALL, op: "mint", to: t, signed: v != 1, x: if (v == 2) -m else if (v == 3) MAX - s.bal.get(t)
          else if (v == 4) 0 else min2(mag(m, e), MAX - s.bal.get(t) + (if (v == 5) 1 else 0)) })
  }
  /// a share of what is available, or all of it, or (when broken) one more
  pure def part(avail: int, m: int, shape: int, broken: bool): int =
    if (broken) avail + 1 else if (shape == 1) avail else if (shape == 2) 0 else avail * m / 10000

  action doTransfer = {
    nondet f = oneOf(ACCTS)  nondet t = oneOf(ACCTS)  nondet m = oneOf(1.to(9999))
    nondet sh = oneOf(1.to(8))  nondet v = oneOf(1.to(12))
    act({ ...NOCALL, op: "transfer", from: f, to: t, signed: v != 1,
          x: if (v == 2) -m else part(s.bal.get(f), m, sh, v == 3) })
  }
  action doBurn = {
    nondet f = oneOf(ACCTS)  nondet m = oneOf(1.to(9999))
    nondet sh = oneOf(1.to(8))  nondet v = oneOf(1.to(12))
    act({ ...NOCALL, op: "burn", from: f, signed: v != 1, x: if (v == 2) -m else part(s.bal.get(f) / 2, m, sh, v == 3) })
  }
  action doApprove = {
    nondet p = oneOf(PAIRS)  nondet m = oneOf(1.to(9999))  nondet sh = oneOf(1.to(8))  nondet v = oneOf(1.to(15))
    nondet ttl = oneOf(Set(0, 1, 5, 50, 1000, 20000))
    act({ ...NOCALL, op: "approve", from: p._1, spender: p._2, signed: v != 1,
          // also the amount an earlier approval left
          x: if (v == 2) -m else if (v == 5) MAX else if (v >= 12) s.allow.get(p).amt else part(s.bal.get(p._1), m, sh, v == 3),
          exp: if (v == 4) s.seq - 1 else s.seq + ttl })
  }
  /// spending prefers pairs that have an allowance
  action doSpend = {
    nondet p0 = oneOf(PAIRS)  nondet t = oneOf(ACCTS)  nondet m = oneOf(1.to(9999))  nondet sh = oneOf(1.to(6))
    nondet v = oneOf(1.to(14))  nondet op = oneOf(Set("transfer_from", "burn_from"))
    val live = PAIRS.filter(p => spendable(s, p._1, p._2) > 0 or (v == 6 and s.allow.get(p).amt > 0))
    nondet p1 = oneOf(if (live == Set()) PAIRS else live)
    val p = if (v == 5) p0 else p1
    val lim = min2(spendable(s, p._1, p._2), s.bal.get(p._1))
    // with v = 6 possibly an expired allowance
    act({ ...NOCALL, op: op, from: p._1, spender: p._2, to: t, signed: v != 1,
          x: if (v == 2) -m else if (v == 6) max2(1, min2(s.allow.get(p).amt, s.bal.get(p._1)))
             else if (v == 7) max2(1, spendable(s, p._1, p._2)) else part(lim, m, sh, v == 3) })
  }
  action doAdmin = {
    nondet t = oneOf(Set("adm", "adm2", "u1"))  nondet v = oneOf(1.to(4))
    act({ ...NOCALL, op: "set_admin", to: t, signed: v != 1 })
  }
  action doConstruct = {
    nondet d = oneOf(Set(0, 7, 18, 19, 20, 255, 256 + 7, 65536 + 7, 2^32 - 1))
    act({ ...NOCALL, op: "construct", x: d })
  }
  action step = any {
    doMint, doMint, doTransfer, doTransfer, doTransfer, doBurn, doApprove, doApprove, doApprove,
    doSpend, doSpend, doSpend, doSpend, doAdmin
  }
  action adminStep = any { doMint, doMint, doMint, doAdmin, doAdmin, doConstruct, doTransfer, doApprove, doSpend }

  // ---------------------------------------------------------------- properties
  val total = ACCTS.fold(0, (acc, x) => acc + s.bal.get(x))
  val supplyMatches = total == s.minted - s.burned
  val noDebt = ACCTS.forall(x => s.bal.get(x) >= 0 and s.bal.get(x) <= MAX)
  val transferConserves = (out.ok and Set("transfer", "transfer_from").contains(call.op)) implies
    (s.minted == prev.minted and s.burned == prev.burned)
  val rejectedIsNoop = not(out.ok) implies { ...s, seq: 0 } == { ...prev, seq: 0 }
  /// T02: a balance only shrinks with the owner's authorisation or within a live allowance
  val spendAuthorised = ACCTS.forall(x => s.bal.get(x) < prev.bal.get(x) implies
    (out.auth.contains(x) or (out.auth == Set(call.spender) and
      spendable(prev, x, call.spender) >= prev.bal.get(x) - s.bal.get(x))))
  val allowanceOnlyByOwner = PAIRS.forall(p => s.allow.get(p).amt > prev.allow.get(p).amt implies
    (call.op == "approve" and out.auth == Set(p._1)))
  /// T03
  val mintByAdmin = s.minted > prev.minted implies out.auth == Set(prev.admin)
  val adminByAdmin = s.admin != prev.admin implies out.auth == Set(prev.admin)
  /// E01: summing up what is announced gives the supply
  val announced = and {
    not(out.ok) implies ev == List(),
    s.minted - prev.minted == ev.foldl(0, (acc, e) => if (e.about.nth(0) == "mint") acc + e.amounts.nth(0) else acc),
    s.burned - prev.burned == ev.foldl(0, (acc, e) => if (e.about.nth(0) == "burn") acc + e.amounts.nth(0) else acc),
  }
}
