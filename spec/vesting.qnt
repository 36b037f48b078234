/// The vesting contract: schedules per recipient, each a decreasing curve of what is still locked,
/// and the optional minter with its capacity.
module vesting {
  import common.* from "./common"
  import curves.* from "./curves"

  type Sched = { bal: int, curve: Curve }
  type Minter = { who: str, cap: int }   // who = "" when there is none
  type State = { now: int, inited: bool, maxc: int, minter: Minter, bal: str -> int, vest: str -> List[Sched],
                 minted: int, burned: int }
  type Item = { who: str, curve: Curve }
  type Call = { op: str, who: str, signed: bool, x: int, i: int, dst: str, batch: List[Item], cap: int }
  type Out = { ok: bool, why: Set[str], auth: Set[str], r1: int, st: State }

  pure val RECS = Set("r1", "r2", "r3", "adm")
  pure val ACCTS = Set("r1", "r2", "r3", "adm", "m1", "m2", "ves")
  pure val U128 = 2^128 - 1

  pure def flag(c: bool, n: str): Set[str] = if (c) Set(n) else Set()
  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, auth: Set(), r1: 0, st: s }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), auth: auth, r1: 0, st: s }

  // ---------------------------------------------------------------- curves
  pure def totalOf(c: Curve): int = if (c.pts == List()) 0 else c.pts.nth(0).y
  /// why a curve is not a vesting schedule
  pure def faults(c: Curve, maxc: int): Set[str] =
    flag(c.kind == "const", "constant").union(flag(not(ordered(c)), "order")).union(flag(not(decreasing(c)), "increases"))
      .union(flag(not(finishes(c)), "unfinished")).union(flag(length(c.pts) >= maxc, "complexity"))

  // ---------------------------------------------------------------- entry points
  pure def initialize(s: State, c: Call): Out =
    if (s.inited) reject(s, Set("twice"))
    else accept({ ...s, inited: true, maxc: c.x, minter: if (c.op == "initm") { who: c.dst, cap: c.cap } else s.minter }, Set())

  pure def batchTotal(b: List[Item]): int = b.foldl(0, (acc, k) => acc + totalOf(k.curve))
  pure def create(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.batch == List(), "empty"))
      .union(flag(c.batch.indices().exists(i => c.batch.indices().exists(j => i < j and c.batch.nth(i).who == c.batch.nth(j).who)), "dup"))
      .union(c.batch.foldl(Set(), (acc, k) => acc.union(faults(k.curve, s.maxc))))
      .union(flag(s.bal.get("adm") < batchTotal(c.batch), "funds"))
    if (why != Set()) reject(s, why) else
      accept({ ...s, bal: s.bal.setBy("adm", b => b - batchTotal(c.batch)).setBy("ves", b => b + batchTotal(c.batch)),
               vest: c.batch.foldl(s.vest, (acc, k) => acc.setBy(k.who, l => l.append({ bal: totalOf(k.curve), curve: k.curve }))) }, Set("adm"))
  }
  pure def available(s: State, k: Sched): int = k.bal - value(k.curve, s.now)
  pure def claim(s: State, c: Call): Out = {
    val l = s.vest.get(c.who)
    val there = c.i >= 0 and c.i < length(l)
    val a = if (there) available(s, l.nth(c.i)) else 0
    val why = flag(not(c.signed), "auth").union(flag(not(there), "noschedule")).union(flag(there and a <= 0, "nothing"))
    if (why != Set()) reject(s, why) else
      { ...accept({ ...s, bal: s.bal.setBy("ves", b => b - a).setBy(c.who, b => b + a),
               vest: s.vest.set(c.who, l.replaceAt(c.i, { ...l.nth(c.i), bal: l.nth(c.i).bal - a })) }, Set(c.who)), r1: a }
  }
  pure def mint(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.x <= 0, "arg")).union(flag(s.minter.who == "" or s.minter.who != c.who, "role"))
      .union(flag(s.minter.who != "" and s.minter.cap < c.x, "capacity"))
    if (why != Set()) reject(s, why) else
      accept({ ...s, minted: s.minted + c.x, bal: s.bal.setBy("ves", b => b + c.x), minter: { ...s.minter, cap: s.minter.cap - c.x } }, Set(c.who))
  }
  pure def burn(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.x == 0, "arg")).union(flag(c.x > 2^127 - 1 or s.bal.get(c.who) < c.x, "funds"))
    if (why != Set()) reject(s, why) else
      accept({ ...s, burned: s.burned + c.x, bal: s.bal.setBy(c.who, b => b - c.x) }, Set(c.who))
  }
  pure def setMinter(s: State, c: Call): Out = {
    val boss = if (s.minter.who == "") "adm" else s.minter.who
    val why = flag(not(c.signed), "auth").union(flag(c.who != boss, "role"))
    if (why != Set()) reject(s, why) else accept({ ...s, minter: { ...s.minter, who: c.dst } }, Set(c.who))
  }
  pure def setCapacity(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.who != "adm", "role")).union(flag(s.minter.who == "", "nominter"))
    if (why != Set()) reject(s, why) else accept({ ...s, minter: { ...s.minter, cap: c.cap } }, Set(c.who))
  }
  pure def donate(s: State, c: Call): Out =
    if (s.bal.get(c.who) < c.x) reject(s, Set("funds"))
    else accept({ ...s, bal: s.bal.setBy(c.who, b => b - c.x).setBy(c.dst, b => b + c.x) }, Set(c.who))
  pure def update(s: State, c: Call): Out = if (not(c.signed)) reject(s, Set("auth")) else accept(s, Set("adm"))

  pure def perform(s: State, c: Call): Out =
    if (c.op == "init" or c.op == "initm") initialize(s, c)
    else if (c.op == "create") create(s, c)
    else if (c.op == "claim") claim(s, c)
    else if (c.op == "mint") mint(s, c)
    else if (c.op == "burn") burn(s, c)
    else if (c.op == "minter") setMinter(s, c)
    else if (c.op == "capacity") setCapacity(s, c)
    else if (c.op == "donate") donate(s, c)
    else update(s, c)

  // ---------------------------------------------------------------- announcements
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "init" or c.op == "initm") List(names("ves", "Initialize", "Vesting contract with admin: ", "adm"))
    else if (c.op == "claim") List(states("ves", "Claim", "Claimed tokens: ", o.r1))
    else if (c.op == "mint") List(names("ves", "Mint", "sender: ", c.who), states("ves", "Mint", "Minted tokens: ", c.x))
    else if (c.op == "burn") List(names("ves", "Burn", "Burned from: ", c.who), states("ves", "Burn", "Burned tokens: ", c.x))
    else if (c.op == "minter") List(names("ves", "Update minter", "Updated minter to: ", c.dst))
    else if (c.op == "capacity") List(states("ves", "Update minter capacity", "Updated minter capacity to: ", c.cap))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// what is claimable in the new state
  var owed: str -> List[int]

  pure val NOCALL: Call = { op: "none", who: "", signed: true, x: 0, i: 0, dst: "", batch: List(), cap: 0 }
  pure def owedIn(st: State): str -> List[int] =
    RECS.mapBy(r => st.vest.get(r).foldl(List(), (acc, k) => acc.append(available(st, k))))

  action init = {
    nondet rich = oneOf(Set(10^4, 10^7, 10^12, 10^20))
    nondet t0 = oneOf(STARTS.union(Set(0, 10, 5000)))
    val st: State = { now: t0, inited: false, maxc: 0, minter: { who: "", cap: 0 },
      bal: ACCTS.mapBy(x => if (x == "ves") 0 else if (x == "adm") rich * 20 else rich), vest: RECS.mapBy(r => List()),
      minted: 0, burned: 0 }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = owedIn(st) }
  }
  action act(c: Call): bool = {
    nondet dk = oneOf(1.to(12))
    nondet dd = oneOf(1.to(5000))
    val o = perform(s, c)
    // towards a point of some curve, exactly at it or one second off, or by some amount
    val points = RECS.map(r => o.st.vest.get(r)).filter(l => l != List())
      .map(l => l.nth(dd % length(l)).curve).map(k => k.pts.nth(dd % length(k.pts)).x).filter(x => x > s.now + 1)
    nondet at = oneOf(if (points == Set()) Set(s.now + dd) else points)
    val now = if (dk <= 3) s.now else if (dk == 4) s.now + 1 else if (dk <= 6) at else if (dk == 7) at - 1
              else if (dk == 8) at + 1 else if (dk == 9) s.now + max2(1, (at - s.now) / 2) else s.now + dd
    val st: State = { ...o.st, now: now }
    all { prev' = s, s' = st, call' = c, out' = o, ev' = told(s, c, o), owed' = owedIn(st) }
  }

  /// the i-th independent choice below m packed in the random number r
  pure def dig(r: int, i: int, m: int): int = (r / 10^(6 * i)) % m

  /// a curve from the random number r: a proper schedule of about `total`, or with bad in 1..10 a flawed one
  pure def mkCurve(r: int, now: int, total: int, bad: int, sz: int): Curve = {
    val start = max2(1, if (dig(r, 0, 3) == 0) max2(1, now - dig(r, 1, 3000)) else now + dig(r, 1, 3000))
    val kind = if (bad == 1) "const" else if (dig(r, 2, 2) == 0) "sat" else "pw"
    val n = if (kind == "const") 1 else if (kind == "sat") 2 else if (bad == 7) 0 else sz
    val pts = range(0, n).foldl({ l: List(), x: start, y: total }, (acc, j) => {
      val y = if (j == n - 1) 0 else if (dig(r, (3 + j) % 12, 4) == 0) acc.y else acc.y * dig(r, (3 + j) % 12, 1000) / 1000
      { l: acc.l.append({ x: acc.x, y: if (j == 0) acc.y else y }),
        x: acc.x + 1 + (if (dig(r, (4 + j) % 12, 5) == 0) 0 else dig(r, (5 + j) % 12, 4000)), y: if (j == 0) acc.y else y } }).l
    if (kind == "const" or n == 0) { kind: kind, pts: pts } else {
      val lst = pts.nth(n - 1)
      val p = if (bad == 2) pts.replaceAt(n - 1, { ...lst, y: 1 })
        else if (bad == 3) pts.replaceAt(0, { ...pts.nth(0), x: lst.x + (if (n == 1) 0 else 0) })
        else if (bad == 4 and n > 1) pts.replaceAt(0, { ...pts.nth(0), y: pts.nth(1).y - 1 + (if (pts.nth(1).y == 0) 1 else 0) })
        else if (bad == 5 and n > 2) pts.replaceAt(n - 2, { ...pts.nth(n - 2), y: pts.nth(0).y + 1 })
        // a rise that stays below the first value; points at the same time or going back in time
        else if (bad == 8 and n > 3) pts.replaceAt(n - 2, { ...pts.nth(n - 2), y: pts.nth(n - 3).y + 1 })
        else if (bad == 9 and n > 2) pts.replaceAt(n - 2, { ...pts.nth(n - 2), x: pts.nth(n - 3).x })
        else if (bad == 10 and n > 2) pts.replaceAt(n - 2, { ...pts.nth(n - 2), x: max2(1, pts.nth(n - 3).x - 1) })
        else if (bad == 6) pts.replaceAt(0, { ...pts.nth(0), x: 0 }) else pts
      { kind: kind, pts: p }
    }
  }

  /// a contract that has been in use: one recipient with many schedules, some of them running or over
  action initMany = {
    nondet r = oneOf((10^70).to(10^72))  nondet n = oneOf(8.to(30))  nondet e = oneOf(3.to(9))  nondet late = oneOf(0.to(6000))  nondet mt = oneOf(Set("", "m1"))
    val t0 = 5000
    val l = range(0, n).foldl(List(), (acc, i) => {
      val k = (r * (2 * i + 3)) % 10^72
      val c = mkCurve(k, t0, 1 + dig(k, 10, 1000) * 10^e / 100, 0, if (dig(k, 9, 3) == 0) 6 + dig(k, 11, 7) else 2 + dig(k, 9, 5))
      acc.append({ bal: totalOf(c), curve: c }) })
    val vest = RECS.mapBy(x => range(0, n).foldl(List(), (acc, i) =>
      if ((x == "r1" and i % 5 < 4) or (x == "r2" and i % 10 == 4)  or (x == "adm" and i % 10 == 9)) acc.append(l.nth(i)) else acc))
    val total = l.foldl(0, (acc, k) => acc + k.bal)
    val st: State = { now: t0 + late, inited: true, maxc: 13, minter: { who: mt, cap: if (mt == "") 0 else 10^6 },
      bal: ACCTS.mapBy(x => if (x == "ves") total else 10^10), vest: vest, minted: 0, burned: 0 }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = owedIn(st) }
  }

  action doInit = {
    nondet m = oneOf(Set(2, 3, 4, 5, 7, 13))  nondet op = oneOf(Set("init", "initm"))  nondet w = oneOf(Set("m1", "m2", "adm", "r1"))
    nondet cap = oneOf(Set(0, 100, 10^6, 10^18))
    act({ ...NOCALL, op: op, who: "adm", x: m, dst: w, cap: cap })
  }
  action doCreate = {
    nondet r1 = oneOf(0.to(10^72))  nondet r2 = oneOf(0.to(10^72))  nondet r3 = oneOf(0.to(10^72))
    nondet v0 = oneOf(1.to(18))  nondet n0 = oneOf(1.to(9))  nondet bad = oneOf(1.to(10))  nondet at = oneOf(0.to(2))
    nondet big = oneOf(1.to(9999))
    // a size limit broken exactly (v = 5), or met with sizes up to one below it
    val v = if (v0 >= 17) 4 else v0
    // the fifth and sixth entry of a batch name somebody again
    val n = if (v == 1) 0 else if (n0 <= 3) n0 else n0 - 3
    val szmax = max2(1, s.maxc - 1)
    val share = s.bal.get("adm") / 30
    val rs = List(r1, r2, r3, (r1 * 7 + r2) % 10^72, (r2 * 3 + r3) % 10^72, (r3 * 11 + r1) % 10^72)
    // distinct recipients unless v = 2
    val who = List("r1", "r2", "r3", "adm")
    val b = range(0, n).foldl(List(), (acc, j) => {
      val r = rs.nth(j)
      val total = if (v == 7) List(2^126, 2^127, 2^128 - 1).nth(at) else if (v == 3) s.bal.get("adm") / n + 1 else if (v == 6) s.bal.get("adm") / n
                  else if (dig(r, 11, 6) == 0) dig(r, 10, 300) else share * dig(r, 10, 1000) / 1000
      val sz = if (v == 5 and j == n - 1) s.maxc else if (v == 4 and bad >= 8) szmax else 1 + dig(r, 9, szmax)
      acc.append({ who: if (v == 2) who.nth(dig(r, 8, 2)) else who.nth((big + j) % 4),
                   curve: mkCurve(r, s.now, total, if (v == 4 and j == at % n) bad else 0, sz) }) })
    nondet g = oneOf(1.to(12))
    act({ ...NOCALL, op: "create", who: "adm", signed: g != 1, batch: b })
  }
  action doClaim = {
    nondet r0 = oneOf(RECS)  nondet v = oneOf(1.to(14))  nondet k = oneOf(0.to(30))
    val open = RECS.filter(r => s.vest.get(r) != List())
    val due = RECS.filter(r => s.vest.get(r).indices().exists(i => available(s, s.vest.get(r).nth(i)) > 0))
    nondet r1 = oneOf(if (due == Set()) RECS else due)
    nondet r2 = oneOf(if (open == Set()) RECS else open)
    val r = if (v == 1) r0 else if (v <= 4) r2 else r1
    val n = length(s.vest.get(r))
    val ready = s.vest.get(r).indices().filter(i => available(s, s.vest.get(r).nth(i)) > 0)
    nondet ri = oneOf(if (ready == Set()) Set(0) else ready)
    act({ ...NOCALL, op: "claim", who: r, signed: v != 2, i: if (v == 3) n else if (v == 5) 2^64 - 1 else if (v == 4 and n > 0) k % n else ri })
  }
  action doMint = {
    nondet w0 = oneOf(Set("m1", "m2", "adm", "r1"))  nondet v = oneOf(1.to(10))  nondet m = oneOf(1.to(999))
    val w = if (v == 1 or s.minter.who == "") w0 else s.minter.who
    act({ ...NOCALL, op: "mint", who: w, signed: v != 2, x: min2(2^120, if (v == 3) s.minter.cap + 1 else if (v == 4) 0 else if (v == 5) -m else if (v == 9) negative(m)
          else if (v == 6) s.minter.cap else s.minter.cap * m / 5000) })
  }
  action doBurn = {
    nondet w = oneOf(Set("r1", "r2", "m1", "adm"))  nondet v = oneOf(1.to(10))  nondet m = oneOf(1.to(999))
    val b = s.bal.get(w)
    act({ ...NOCALL, op: "burn", who: w, signed: v != 1, x: if (v == 2) 0 else if (v == 3) b + 1 else if (v == 4) U128 - m
          else if (v == 5) 2^127 + m else b * m / 10000 })
  }
  action doMinter = {
    nondet w0 = oneOf(Set("m1", "m2", "adm", "r1"))  nondet v = oneOf(1.to(6))  nondet d = oneOf(Set("m1", "m2", "adm", "r2"))
    act({ ...NOCALL, op: "minter", who: if (v <= 2) w0 else if (s.minter.who == "") "adm" else s.minter.who, signed: v != 3, dst: d })
  }
  action doCapacity = {
    nondet w0 = oneOf(Set("m1", "m2", "adm", "r1"))  nondet v = oneOf(1.to(6))  nondet cap = oneOf(Set(0, 1, 500, 10^9, 10^19, 2^127, 2^128 - 1))
    act({ ...NOCALL, op: "capacity", who: if (v <= 2) w0 else "adm", signed: v != 3, cap: cap })
  }
  action doDonate = {
    nondet w = oneOf(Set("r1", "r2", "m1"))  nondet d = oneOf(Set("ves", "adm"))  nondet m = oneOf(1.to(999))
    act({ ...NOCALL, op: "donate", who: w, dst: d, x: min2(m, s.bal.get(w)) })
  }
  action doUpdate = {
    nondet g = oneOf(Set(true, false))
    act({ ...NOCALL, op: "update", who: "adm", signed: g })
  }
  action step =
    if (not(s.inited)) doInit
    else any { doCreate, doCreate, doCreate, doClaim, doClaim, doClaim, doClaim, doClaim, doClaim, doClaim,
               doMint, doBurn, doMinter, doCapacity, doDonate, doUpdate, doInit }
  action createStep =
    if (not(s.inited)) doInit else any { doCreate, doCreate, doCreate, doCreate, doCreate, doCreate, doClaim, doClaim, doDonate, doInit }
  action minterStep =
    if (not(s.inited)) doInit else any { doMint, doMint, doMint, doMint, doMint, doBurn, doMinter, doMinter, doCapacity, doCapacity, doCreate, doClaim, doInit, doUpdate }

  // ---------------------------------------------------------------- properties
  pure def allScheds(st: State): int = RECS.fold(0, (acc, r) => st.vest.get(r).foldl(acc, (a, k) => a + k.bal))
  /// V01
  val neverEarly = RECS.forall(r => s.vest.get(r).indices().forall(i => {
    val k = s.vest.get(r).nth(i) k.bal >= value(k.curve, s.now) and k.bal <= totalOf(k.curve) }))
  val endedAllClaimable = RECS.forall(r => s.vest.get(r).indices().forall(i => {
    val k = s.vest.get(r).nth(i) s.now >= endOf(k.curve) implies owed.get(r).nth(i) == k.bal }))
  val claimPaysClaimable = (out.ok and call.op == "claim") implies
    (s.bal.get(call.who) - prev.bal.get(call.who) == prev.vest.get(call.who).nth(call.i).bal - value(prev.vest.get(call.who).nth(call.i).curve, prev.now)
     and (s.now == prev.now implies owed.get(call.who).nth(call.i) == 0))
  /// V02
  val backed = s.bal.get("ves") >= allScheds(s)
  val onlyGrows = RECS.forall(r => length(s.vest.get(r)) >= length(prev.vest.get(r)) and
    prev.vest.get(r).indices().forall(i => s.vest.get(r).nth(i).curve == prev.vest.get(r).nth(i).curve and
      (s.vest.get(r).nth(i).bal == prev.vest.get(r).nth(i).bal or (call.op == "claim" and call.who == r and call.i == i))))
  /// V03
  val soundOnly = RECS.forall(r => s.vest.get(r).indices().forall(i => faults(s.vest.get(r).nth(i).curve, s.maxc) == Set()))
  val createdByAdmin = (RECS.exists(r => length(s.vest.get(r)) > length(prev.vest.get(r)))) implies out.auth == Set("adm")
  /// V04
  val supply = ACCTS.fold(0, (acc, x) => acc + s.bal.get(x)) - s.minted + s.burned ==
    ACCTS.fold(0, (acc, x) => acc + prev.bal.get(x)) - prev.minted + prev.burned
  val mintWithinCapacity = s.minted > prev.minted implies
    (s.minted - prev.minted == prev.minter.cap - s.minter.cap and s.minter.cap >= 0 and out.auth == Set(prev.minter.who))
  val capacityByAdmin = (s.minter.cap > prev.minter.cap and prev.inited) implies out.auth == Set("adm")
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// E01: what is announced is what happened to the tokens
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "claim") implies stated(ev, "Claimed tokens: ") == prev.bal.get("ves") - s.bal.get("ves"),
    (out.ok and call.op == "mint") implies stated(ev, "Minted tokens: ") == s.minted - prev.minted,
    (out.ok and call.op == "burn") implies stated(ev, "Burned tokens: ") == s.burned - prev.burned,
  }
}
