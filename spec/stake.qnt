/// The staking contract of a pool: stakes of LP tokens, reward distributions kept per time of
/// distribution, claims weighted by the age of each stake.
module stake {
  import common.* from "./common"

  type Stake = { amt: int, ts: int }
  type User = { stakes: List[Stake], last: int }
  type Bal = str -> int
  type Cfg = { minBond: int, minReward: int, maxc: int, manager: str, owner: str, admin: str }
  type State = { now: int, toks: Set[str], inited: bool, cfg: Cfg, bal: str -> Bal, users: str -> User, total: int,
                 flows: List[str], rewards: str -> (int -> int), totals: int -> int,
                 given: str -> int, paid: str -> int }
  type Call = { op: str, who: str, signed: bool, tok: str, x: int, ts: int, c1: int, c2: int, c3: int, mgr: str, own: str, adm: str }
  type Out = { ok: bool, why: Set[str], auth: Set[str], st: State }

  pure val DAY = 86400
  pure val USERS = Set("u1", "u2", "u3")
  pure val ACCTS = Set("u1", "u2", "u3", "mgr", "own", "adm", "stk")
  pure val FEW = Set("lp", "r1", "r2")
  pure val MANY = FEW.union(Set("r3", "r4", "r5", "r6", "r7", "r8", "r9"))

  pure def flag(c: bool, n: str): Set[str] = if (c) Set(n) else Set()
  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, auth: Set(), st: s }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), auth: auth, st: s }

  pure def move(bal: str -> Bal, tok: str, src: str, dst: str, v: int): str -> Bal =
    bal.setBy(src, b => b.setBy(tok, x => x - v)).setBy(dst, b => b.setBy(tok, x => x + v))
  pure def stakedBy(u: User): int = u.stakes.foldl(0, (acc, k) => acc + k.amt)
  pure def hasFlow(s: State, tok: str): bool = s.flows.indices().exists(i => s.flows.nth(i) == tok)

  // ---------------------------------------------------------------- rewards
  /// what a stake earns from a distribution of r at time t when `total` was staked
  pure def earns(k: Stake, t: int, r: int, total: int): int =
    if (t < k.ts) 0 else {
      val days = (t - k.ts) / DAY
      val weight = if (days >= 60) ONE else days * ONE / 60
      (k.amt * r / total) * weight / ONE
    }
  pure def pending(s: State, u: User, tok: str): int =
    val hist = s.rewards.get(tok)
    hist.keys().filter(t => t > u.last and t <= s.now).fold(0, (acc, t) =>
      if (s.totals.get(t) == 0) acc
      else u.stakes.foldl(acc, (a, k) => a + earns(k, t, hist.get(t), s.totals.get(t))))

  // ---------------------------------------------------------------- entry points
  pure def initialize(s: State, c: Call): Out = {
    val why = flag(s.inited, "twice").union(flag(c.c1 <= 0, "minbond")).union(flag(c.c2 <= 0, "minreward"))
      .union(flag(c.c3 <= 0, "complexity"))
    if (why != Set()) reject(s, why) else
      accept({ ...s, inited: true, cfg: { minBond: c.c1, minReward: c.c2, maxc: c.c3, manager: c.mgr, owner: c.own, admin: c.adm } }, Set())
  }
  pure def bond(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(c.x < s.cfg.minBond, "minbond"))
      .union(flag(s.bal.get(c.who).get("lp") < c.x, "funds"))
    if (why != Set()) reject(s, why) else
      accept({ ...s, bal: s.bal.move("lp", c.who, "stk", c.x), total: s.total + c.x,
               users: s.users.setBy(c.who, u => { ...u, stakes: u.stakes.append({ amt: c.x, ts: s.now }) }) }, Set(c.who))
  }
  pure def dropAt(l: List[Stake], i: int): List[Stake] = l.slice(0, i).concat(l.slice(i + 1, length(l)))
  pure def unbond(s: State, c: Call): Out = {
    val l = s.users.get(c.who).stakes
    val at = l.indices().filter(i => l.nth(i) == { amt: c.x, ts: c.ts })
    val why = flag(not(c.signed), "auth").union(flag(at == Set(), "nostake"))
    if (why != Set()) reject(s, why) else {
      val i = at.fold(length(l), (acc, j) => min2(acc, j))
      accept({ ...s, bal: s.bal.move("lp", "stk", c.who, c.x), total: s.total - c.x,
               users: s.users.setBy(c.who, u => { ...u, stakes: dropAt(l, i) }) }, Set(c.who))
    }
  }
  pure def mayDistribute(s: State, who: str): bool = who == s.cfg.manager or who == s.cfg.owner
  pure def createFlow(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(not(mayDistribute(s, c.who)), "role"))
      .union(flag(hasFlow(s, c.tok), "exists"))
    if (why != Set()) reject(s, why) else accept({ ...s, flows: s.flows.append(c.tok) }, Set(c.who))
  }
  pure def distribute(s: State, c: Call): Out = {
    val why = flag(not(c.signed), "auth").union(flag(not(mayDistribute(s, c.who)), "role"))
      .union(flag(not(hasFlow(s, c.tok)), "noflow")).union(flag(c.x < 0, "arg"))
      .union(flag(s.bal.get(c.who).get(c.tok) < c.x, "funds"))
    if (why != Set()) reject(s, why) else {
      val hist = s.rewards.get(c.tok)
      val here = if (hist.keys().contains(s.now)) hist.get(s.now) else 0
      accept({ ...s, bal: s.bal.move(c.tok, c.who, "stk", c.x),
               totals: if (s.totals.keys().contains(s.now)) s.totals else s.totals.put(s.now, s.total),
               rewards: s.rewards.set(c.tok, hist.put(s.now, here + c.x)),
               given: s.given.setBy(c.tok, v => v + c.x) }, Set(c.who))
    }
  }
  /// anybody may trigger it; the staker is paid
  pure def claim(s: State, c: Call): Out = {
    val u = s.users.get(c.who)
    val st = s.flows.foldl(s, (acc, tok) => {
      val p = pending(s, u, tok)
      { ...acc, bal: acc.bal.move(tok, "stk", c.who, p), paid: acc.paid.setBy(tok, v => v + p) }
    })
    accept({ ...st, users: s.users.set(c.who, { ...u, last: s.now }) }, Set())
  }
  pure def donate(s: State, c: Call): Out =
    if (s.bal.get(c.who).get(c.tok) < c.x) reject(s, Set("funds"))
    else accept({ ...s, bal: s.bal.move(c.tok, c.who, "stk", c.x) }, Set(c.who))
  pure def update(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth")) else accept(s, Set(s.cfg.admin))

  pure def perform(s: State, c: Call): Out =
    if (c.op == "initialize") initialize(s, c)
    else if (c.op == "bond") bond(s, c)
    else if (c.op == "unbond") unbond(s, c)
    else if (c.op == "create") createFlow(s, c)
    else if (c.op == "distribute") distribute(s, c)
    else if (c.op == "claim") claim(s, c)
    else if (c.op == "donate") donate(s, c)
    else update(s, c)

  // ---------------------------------------------------------------- announcements
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "initialize") List(names("stk", "initialize", "LP Share token staking contract", "lp"))
    else if (c.op == "bond" or c.op == "unbond") List(names("stk", c.op, "user", c.who), names("stk", c.op, "token", "lp"), states("stk", c.op, "amount", c.x))
    else if (c.op == "create") List(names("stk", "create_distribution_flow", "asset", c.tok))
    else if (c.op == "distribute") List(names("stk", "distribute_rewards", "asset", c.tok))
    else if (c.op == "claim") s.flows.foldl(List(names("stk", "withdraw_rewards", "user", c.who)),
      (acc, t) => acc.append(names("stk", "withdraw_rewards", "reward_token", t)))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// withdrawable rewards in the new state, per user and token
  var owed: str -> (str -> int)

  pure val NOCALL: Call = { op: "none", who: "", signed: true, tok: "", x: 0, ts: 0, c1: 0, c2: 0, c3: 0, mgr: "", own: "", adm: "" }
  pure def owedIn(st: State): str -> (str -> int) =
    USERS.mapBy(u => st.toks.mapBy(t => pending(st, st.users.get(u), t)))

  action init = {
    nondet rich = oneOf(Set(10^4, 10^7, 10^12, 10^18, 2 * 10^19))
    nondet richr = oneOf(Set(10^4, 10^7, 10^12, 10^18, 2 * 10^19, 10^21))
    nondet t0 = oneOf(STARTS.union(Set(0, 5, 86400)))
    val st: State = { now: t0, toks: FEW, inited: false, cfg: { minBond: 0, minReward: 0, maxc: 0, manager: "", owner: "", admin: "" },
      bal: ACCTS.mapBy(x => FEW.mapBy(t => if (x == "stk") 0 else if (t == "lp") rich else richr)),
      users: USERS.mapBy(u => { stakes: List(), last: 0 }), total: 0, flows: List(),
      rewards: FEW.mapBy(t => Map()), totals: Map(),
      given: FEW.mapBy(t => 0), paid: FEW.mapBy(t => 0) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = owedIn(st) }
  }
  /// a contract that has been in use: many stakes, distributions going
  action begin(toks: Set[str], ready: List[str]): bool = {
    nondet t0 = oneOf(STARTS.union(Set(86400)))  nondet n = oneOf(20.to(60))  nondet r = oneOf(1.to(10^9))
    val l = range(0, n).foldl(List(), (acc, i) => acc.append({ amt: 1 + (r * (i + 3)) % 99991, ts: t0 + i * ((r % 5) * 40000) }))
    val now = l.nth(n - 1).ts + r % 86400
    // most belong to one user
    val mine = range(0, n).foldl(List(), (acc, i) => if (i % 7 == 6) acc else acc.append(l.nth(i)))
    val others = range(0, n).foldl(List(), (acc, i) => if (i % 7 == 6) acc.append(l.nth(i)) else acc)
    val total = l.foldl(0, (acc, k) => acc + k.amt)
    val st: State = { now: now, toks: toks, inited: true, cfg: { minBond: 1, minReward: 5, maxc: 7, manager: "mgr", owner: "own", admin: "adm" },
      bal: ACCTS.mapBy(x => toks.mapBy(t => if (x != "stk") 10^9 else if (t == "lp") total else 0)),
      users: USERS.mapBy(u => { stakes: if (u == "u1") mine else if (u == "u2") others else List(), last: 0 }), total: total,
      flows: ready,
      rewards: toks.mapBy(t => Map()), totals: Map(),
      given: toks.mapBy(t => 0), paid: toks.mapBy(t => 0) }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = owedIn(st) }
  }
  action initMany = {
    nondet g = oneOf(1.to(3))
    begin(FEW, if (g == 1) List("r1") else if (g == 2) List("r2", "r1") else List("lp", "r2"))
  }
  /// many reward tokens, most of them already distributed
  action initFlows = {
    nondet k = oneOf(1.to(8))
    begin(MANY, List("r3", "r1", "r8", "r5", "r2", "r4", "r9", "r6").slice(0, k))
  }
  action act(c: Call): bool = {
    nondet dk = oneOf(1.to(14))
    nondet dd = oneOf(1.to(70))
    // or some stake comes of age: n whole days old to the second
    nondet days = oneOf(Set(1, 30, 59, 60, 61))
    val stakes = USERS.map(u => s.users.get(u).stakes.foldl(Set(), (acc, k) => acc.union(Set(k.ts)))).flatten()
    nondet born = oneOf(if (stakes == Set()) Set(s.now) else stakes)
    val ripe = born + days * DAY - s.now
    // often no time at all passes, sometimes whole days exactly, sometimes a second off them
    val dt = if (dk <= 4) 0 else if (dk == 5) 1 else if (dk == 6) dd * 997 else if (dk == 7) dd * DAY
             else if (dk == 8) dd * DAY - 1 else if (dk == 9) 61 * DAY else if (dk == 10) DAY else if (dk >= 13) max2(0, if (dk == 13) ripe else ripe - 1) else dd * 3600
    val o = perform(s, c)
    val st: State = { ...o.st, now: s.now + dt }
    all { prev' = s, s' = st, call' = c, out' = o, ev' = told(s, c, o), owed' = owedIn(st) }
  }

  action doInit = {
    nondet v = oneOf(1.to(8))  nondet mb = oneOf(Set(1, 10, 1000))  nondet bk = oneOf(0.to(7))  val bad = negative(bk)
    // one account may hold several roles, and stake besides
    nondet rm = oneOf(1.to(6))  nondet ro = oneOf(1.to(6))  nondet ra = oneOf(1.to(6))
    act({ ...NOCALL, op: "initialize", who: "adm", adm: if (ra == 1) "u3" else if (ra == 2) "own" else "adm",
          mgr: if (rm == 1) "u1" else if (rm == 2) "own" else if (rm == 3) "adm" else "mgr",
          own: if (ro == 1) "u2" else if (ro == 2) "mgr" else if (ro == 3) "u1" else "own", c1: if (v == 1) bad else mb, c2: if (v == 2) bad else 5,
          c3: if (v == 3) 0 else 7 })
  }
  action doBond = {
    nondet u = oneOf(USERS)  nondet v = oneOf(1.to(12))  nondet m = oneOf(1.to(9999))  nondet sh = oneOf(1.to(8))
    val have = s.bal.get(u).get("lp")
    val mine = s.users.get(u).stakes
    act({ ...NOCALL, op: "bond", who: u, signed: v != 1,
          x: if (v == 2) s.cfg.minBond - 1 else if (v == 3) have + 1 else if (v == 4) negative(m)
             else if (sh == 1) s.cfg.minBond else if (sh == 2) have
             else if (sh <= 5 and length(mine) > 0) mine.nth(length(mine) - 1).amt else max2(s.cfg.minBond, have * m / 40000) })
  }
  action doUnbond = {
    nondet u0 = oneOf(USERS)  nondet v = oneOf(1.to(14))
    val open = USERS.filter(x => length(s.users.get(x).stakes) > 0)
    nondet u1 = oneOf(if (open == Set()) USERS else open)
    val u = if (v == 1) u0 else u1
    val l = s.users.get(u1).stakes
    nondet i = oneOf(if (l == List()) Set(0) else l.indices())
    val k = if (l == List()) { amt: 10, ts: s.now } else l.nth(i)
    act({ ...NOCALL, op: "unbond", who: u, signed: v != 2,
          x: if (v == 3) k.amt + 1 else if (v == 4) k.amt - 1 else if (v == 6) 0 else k.amt,
          ts: if (v == 5) k.ts + beyond(i) else k.ts })
  }
  action doCreate = {
    nondet w = oneOf(Set(s.cfg.manager, s.cfg.owner, s.cfg.admin, "mgr", "own", "u1").exclude(Set("")))  nondet t = oneOf(s.toks)  nondet v = oneOf(1.to(8))
    act({ ...NOCALL, op: "create", who: w, tok: t, signed: v != 1 })
  }
  action doDistribute = {
    nondet w0 = oneOf(Set(s.cfg.manager, s.cfg.owner))  nondet w1 = oneOf(Set("adm", "mgr", "own", "u2"))  nondet v = oneOf(1.to(14))  nondet t0 = oneOf(s.toks)
    nondet m = oneOf(1.to(9999))  nondet sh = oneOf(1.to(6))
    val known = s.toks.filter(x => hasFlow(s, x))
    nondet t1 = oneOf(if (known == Set()) s.toks else known)
    val w = if (v == 1) w1 else w0
    val t = if (v == 2) t0 else t1
    val have = s.bal.get(w).get(t)
    // a stake's share is computed in 128 bits
    val holds = USERS.fold(1, (acc, u) => max2(acc, s.bal.get(u).get("lp") + stakedBy(s.users.get(u))))
    val room = max2(0, min2(16 * 10^19, 15 * 10^37 / holds) - (if (s.rewards.get(t).keys().contains(s.now)) s.rewards.get(t).get(s.now) else 0))
    act({ ...NOCALL, op: "distribute", who: w, tok: t, signed: v != 3,
          x: if (v == 4) have + 1 else if (v == 5 or v == 6) negative(m)
             else if (sh == 1) min2(have, m) else min2(room, have * m / 80000) })
  }
  action doClaim = {
    nondet u = oneOf(USERS)  nondet g = oneOf(Set(true, false))
    act({ ...NOCALL, op: "claim", who: u, signed: g })
  }
  action doDonate = {
    nondet u = oneOf(USERS)  nondet t = oneOf(s.toks)  nondet m = oneOf(1.to(999))
    act({ ...NOCALL, op: "donate", who: u, tok: t, x: min2(m, s.bal.get(u).get(t)) })
  }
  action doUpdate = {
    nondet g = oneOf(Set(true, false))
    act({ ...NOCALL, op: "update", who: s.cfg.admin, signed: g })
  }

  action admin = any { doCreate, doCreate, doUpdate, doInit }
  action step =
    if (not(s.inited)) doInit
    else if (s.flows == List() ) any { doBond, doBond, doCreate, doCreate, doUnbond }
    else any { doBond, doBond, doBond, doUnbond, doUnbond, doDistribute, doDistribute, doDistribute, doDistribute,
               doClaim, doClaim, doClaim, doDonate, admin }
  action adminStep =
    if (not(s.inited)) doInit else any { admin, admin, doDistribute, doDistribute, doBond, doUnbond, doClaim }

  // ---------------------------------------------------------------- properties
  /// K01
  val totalMatches = s.total == USERS.fold(0, (acc, u) => acc + stakedBy(s.users.get(u)))
  val stakesCovered = s.bal.get("stk").get("lp") >= s.total
  val unbondReturnsOwn = (out.ok and call.op == "unbond") implies
    (s.bal.get(call.who).get("lp") == prev.bal.get(call.who).get("lp") + call.x and
     length(s.users.get(call.who).stakes) == length(prev.users.get(call.who).stakes) - 1)
  val stakesOnlyByOwner = USERS.forall(u => s.users.get(u).stakes != prev.users.get(u).stakes implies out.auth == Set(u))
  /// K02
  val claimedOnce = (out.ok and call.op == "claim") implies
    (s.now == prev.now implies s.toks.forall(t => owed.get(call.who).get(t) == 0))
  val claimPaysReported = (out.ok and call.op == "claim") implies s.toks.forall(t =>
    s.bal.get(call.who).get(t) - prev.bal.get(call.who).get(t) ==
      (if (hasFlow(prev, t)) pending(prev, prev.users.get(call.who), t) else 0))
  /// K03: everything owed to anybody is there on top of the stakes
  val solvent = s.toks.forall(t => s.bal.get("stk").get(t) - (if (t == "lp") s.total else 0)
    >= USERS.fold(0, (acc, u) => acc + owed.get(u).get(t)))
  val paidWithinGiven = s.toks.forall(t => s.paid.get(t) + USERS.fold(0, (acc, u) => acc + owed.get(u).get(t)) <= s.given.get(t))
  /// K04
  val flowsByRole = (s.flows != prev.flows or s.given != prev.given) implies
    (out.auth == Set(s.cfg.manager) or out.auth == Set(s.cfg.owner))
  val flowsUnique = s.flows.indices().forall(i => s.flows.indices().forall(j => s.flows.nth(i) == s.flows.nth(j) implies i == j))
  val validConfig = s.inited implies (s.cfg.minBond > 0 and s.cfg.minReward > 0 and s.cfg.maxc > 0)
  val configFixed = prev.inited implies s.cfg == prev.cfg
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// E01: what is announced is what happened to the contract's LP tokens
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "bond") implies stated(ev, "amount") == s.bal.get("stk").get("lp") - prev.bal.get("stk").get("lp"),
    (out.ok and call.op == "unbond") implies stated(ev, "amount") == prev.bal.get("stk").get("lp") - s.bal.get("stk").get("lp"),
  }
}
