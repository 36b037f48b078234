/// The staking-rewards contract: funding that unlocks along a curve, split over staking power by points,
/// driven by a staking contract that reports every user's stakes truthfully.
module rewards {
  import common.* from "./common"
  import curves.* from "./curves"

  type Stake = { amt: int, ts: int }
  type Cfg = { maxc: int, minReward: int, minBond: int }
  type Adj = { corr: int, got: int }
  type Fund = { amt: int, a: int, b: int }
  type State = { now: int, inited: bool, cfg: Cfg, bal: str -> int, curve: Curve, spp: int, left: int, dist: int, wd: int,
                 adj: str -> Adj, stakes: str -> List[Stake], known: str -> bool,
                 funds: List[Fund], given: int, paid: int }
  type Call = { op: str, who: str, signed: bool, x: int, t: int, d: int, i: int, maxc: int, minReward: int, minBond: int }
  type Out = { ok: bool, why: Set[str], auth: Set[str], r1: int, st: State }

  pure val USERS = Set("u1", "u2", "u3")
  pure val ACCTS = Set("u1", "u2", "u3", "adm", "rew")
  pure val DAY = 86400
  pure val YEAR = 365 * 86400
  pure val SHIFT = 2^32
  pure val U64 = 2^64 - 1

  pure def flag(c: bool, n: str): Set[str] = if (c) Set(n) else Set()
  pure def reject(s: State, why: Set[str]): Out = { ok: false, why: why, auth: Set(), r1: 0, st: s }
  pure def accept(s: State, auth: Set[str]): Out = { ok: true, why: Set(), auth: auth, r1: 0, st: s }

  pure def sum(l: List[Stake]): int = l.foldl(0, (acc, k) => acc + k.amt)
  pure def allStakes(s: State): int = USERS.fold(0, (acc, u) => acc + sum(s.stakes.get(u)))
  /// staking power: a thousandth of the stake, nothing below the minimum bond
  pure def power(s: State, n: int): int = if (n < s.cfg.minBond) 0 else n / 1000
  pure def points(s: State, u: str): int = s.spp * power(s, sum(s.stakes.get(u))) + s.adj.get(u).corr
  /// what the user earned and has not taken, before the scaling by age
  pure def earned(s: State, u: str): int = points(s, u) / SHIFT - s.adj.get(u).got
  /// average age in days up to 60, as a fraction of 60
  pure def age(s: State, l: List[Stake]): int = {
    val w = l.foldl(0, (acc, k) => acc + 60 * k.amt)
    val v = l.foldl(0, (acc, k) => acc + k.amt * min2(60, (s.now - k.ts) / DAY))
    if (w == 0) 0 else v * ONE / w
  }
  pure def claimable(s: State, u: str): int = earned(s, u) * age(s, s.stakes.get(u)) / ONE
  /// the yearly release per point, as the contract reports it; -1: not representable
  pure def yearly(s: State): int = {
    val p = power(s, allStakes(s))
    if (p == 0 or s.curve.kind == "const" or endOf(s.curve) <= s.now) 0
    else {
      val left = endOf(s.curve) - s.now
      val v = if (left >= YEAR) value(s.curve, s.now) - value(s.curve, s.now + YEAR) else value(s.curve, s.now) * YEAR
      if (v * ONE >= 2^127 or p * s.spp >= 2^127) -1
      else (if (left >= YEAR) v * ONE else v * ONE / left) / (p * s.spp)
    }
  }

  // ---------------------------------------------------------------- entry points
  pure def initialize(s: State, c: Call): Out =
    if (s.inited) reject(s, Set("twice"))
    else accept({ ...s, inited: true, cfg: { maxc: c.maxc, minReward: c.minReward, minBond: c.minBond } }, Set())

  pure def fund(s: State, c: Call): Out = {
    val nc: Curve = { kind: "sat", pts: List({ x: c.t, y: c.x }, { x: c.t + c.d, y: 0 }) }
    val over = s.curve.kind != "const" and endOf(s.curve) < s.now
    val curve = if (over) nc else combined(s.curve, nc)
    val why = flag(not(c.signed), "auth").union(flag(c.t < s.now, "time")).union(flag(c.x < s.cfg.minReward, "min"))
      .union(flag(s.bal.get("adm") < c.x, "funds")).union(flag(c.d == 0 or c.t + c.d > U64, "duration"))
    if (why != Set()) reject(s, why)
    else if (not(over) and complexity(curve) > s.cfg.maxc) reject(s, Set("complexity"))
    else accept({ ...s, curve: curve, bal: s.bal.setBy("adm", b => b - c.x).setBy("rew", b => b + c.x),
                  funds: s.funds.append({ amt: c.x, a: c.t, b: c.t + c.d }), given: s.given + c.x }, Set("adm", "stk"))
  }
  pure def distribute(s: State, c: Call): Out = {
    val p = power(s, allStakes(s))
    val amount = s.bal.get("rew") - s.wd - value(s.curve, s.now)
    if (not(c.signed)) reject(s, Set("auth"))
    else if (p == 0) accept(s, Set("stk"))
    else if (amount < 0) reject(s, Set("behind"))
    else if (amount == 0) accept(s, Set("stk"))
    else {
      val pts = amount * SHIFT + s.left
      accept({ ...s, spp: s.spp + pts / p, left: pts % p, dist: s.dist + amount, wd: s.wd + amount }, Set("stk"))
    }
  }
  pure def setPower(s: State, u: str, was: int, n: int): State =
    { ...s, adj: s.adj.setBy(u, a => { ...a, corr: a.corr - s.spp * (power(s, n) - power(s, was)) }) }
  pure def addUser(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth"))
    else accept({ ...s.setPower(c.who, 0, sum(s.stakes.get(c.who))), known: s.known.set(c.who, true) }, Set("stk"))
  pure def bond(s: State, c: Call): Out = {
    val n = sum(s.stakes.get(c.who))
    val s2 = s.setPower(c.who, n, n + c.x)
    if (not(c.signed)) reject(s, Set("auth"))
    else accept({ ...s2, known: s.known.set(c.who, true),
                  stakes: s.stakes.setBy(c.who, l => l.append({ amt: c.x, ts: s.now })) }, Set("stk"))
  }
  pure def pay(s: State, u: str): State = {
    val a = claimable(s, u)
    { ...s, bal: s.bal.setBy("rew", b => b - a).setBy(u, b => b + a), wd: s.wd - a, paid: s.paid + a,
            adj: s.adj.setBy(u, k => { ...k, got: k.got + a }) }
  }
  pure def unbond(s: State, c: Call): Out = {
    val l = s.stakes.get(c.who)
    val n = sum(l)
    val k = l.nth(c.i)
    if (not(c.signed)) reject(s, Set("auth"))
    else accept({ ...s.pay(c.who).setPower(c.who, n, n - k.amt),
                  stakes: s.stakes.set(c.who, l.slice(0, c.i).concat(l.slice(c.i + 1, length(l)))) }, Set(c.who, "stk"))
  }
  pure def claim(s: State, c: Call): Out =
    if (not(c.signed)) reject(s, Set("auth")) else accept(s.pay(c.who), Set("stk"))
  pure def donate(s: State, c: Call): Out =
    if (s.bal.get(c.who) < c.x) reject(s, Set("funds"))
    else accept({ ...s, bal: s.bal.setBy(c.who, b => b - c.x).setBy("rew", b => b + c.x), given: s.given + c.x }, Set(c.who))
  pure def update(s: State, c: Call): Out = if (not(c.signed)) reject(s, Set("auth")) else accept(s, Set("adm"))

  pure def perform(s: State, c: Call): Out =
    if (c.op == "initialize") initialize(s, c)
    else if (c.op == "fund") fund(s, c)
    else if (c.op == "distribute") distribute(s, c)
    else if (c.op == "addUser") addUser(s, c)
    else if (c.op == "bond") bond(s, c)
    else if (c.op == "unbond") unbond(s, c)
    else if (c.op == "claim") claim(s, c)
    else if (c.op == "donate") donate(s, c)
    else update(s, c)

  // ---------------------------------------------------------------- announcements
  /// a payment is announced with its amount, a claim of nothing without
  pure def paidOut(s: State, u: str): List[Told] =
    if (claimable(s, u) == 0) List()
    else List(names("rew", "withdraw_rewards", "reward_token", "rt"), states("rew", "withdraw_rewards", "reward_amount", claimable(s, u)))
  pure def told(s: State, c: Call, o: Out): List[Told] =
    if (not(o.ok)) List()
    else if (c.op == "initialize") List({ by: "rew", about: List("initialize", "StakingRewards rewards distribution contract"), names: List(), amounts: List() },
      names("rew", "create_distribution_flow", "asset", "rt"))
    else if (c.op == "fund") List(names("rew", "fund_reward_distribution", "asset", "rt"), states("rew", "fund_reward_distribution", "amount", c.x),
      states("rew", "fund_reward_distribution", "start_time", c.t), states("rew", "fund_reward_distribution", "end_time", c.t + c.d))
    else if (c.op == "distribute" and o.st.dist != s.dist)
      List(names("rew", "distribute_rewards", "asset", "rt"), states("rew", "distribute_rewards", "amount", o.st.dist - s.dist))
    else if (c.op == "addUser") List(names("rew", "stake_rewards", "add_user", c.who))
    else if (c.op == "bond") List(names("rew", "calculate_bond", "user", c.who))
    else if (c.op == "unbond") (if (claimable(s, c.who) == 0) List() else List(names("rew", "withdraw_rewards", "user", c.who)))
      .concat(paidOut(s, c.who)).append(names("rew", "calculate_unbond", "user", c.who))
    else if (c.op == "claim") List(names("rew", "withdraw_rewards", "user", c.who)).concat(paidOut(s, c.who))
    else List()

  // ---------------------------------------------------------------- state machine
  var s: State
  var prev: State
  var call: Call
  var out: Out
  /// what the call announced
  var ev: List[Told]
  /// what is claimable in the new state, and the yearly figure
  var owed: str -> int
  var apr: int

  pure val NOCALL: Call = { op: "none", who: "", signed: true, x: 0, t: 0, d: 0, i: 0, maxc: 0, minReward: 0, minBond: 0 }
  pure def owedIn(st: State): str -> int = USERS.mapBy(u => claimable(st, u))

  action init = {
    nondet rich = oneOf(Set(10^5, 10^9, 10^13))
    nondet old = oneOf(1.to(4))
    nondet b1 = oneOf(1.to(9999))   nondet b2 = oneOf(1.to(9999))   nondet e = oneOf(0.to(6))
    nondet t0 = oneOf(STARTS.exclude(Set(10000000)).union(Set(100000000)))
    // somebody may have staked before there were rewards
    val st: State = { now: t0, inited: false, cfg: { maxc: 0, minReward: 0, minBond: 0 },
      bal: ACCTS.mapBy(x => if (x == "rew") 0 else if (x == "adm") rich * 100 else rich), curve: { kind: "const", pts: List({ x: 0, y: 0 }) },
      spp: 1, left: 0, dist: 0, wd: 0, adj: USERS.mapBy(u => { corr: 0, got: 0 }),
      stakes: USERS.mapBy(u => if (u == "u3" and old == 1)
        (if (b2 % 2 == 0) List({ amt: b1 * 10^e, ts: t0 - b2 * 1000 })
         else List({ amt: b1 * 10^e, ts: t0 - b2 * 1000 }, { amt: b2 * 10^(e / 2), ts: t0 - b2 * 300 })) else List()),
      known: USERS.mapBy(u => u != "u3" or old != 1), funds: List(), given: 0, paid: 0 }
    all { s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = owedIn(st), apr' = 0 }
  }
  action act(c: Call): bool = {
    nondet dk = oneOf(1.to(14))
    nondet dd = oneOf(1.to(5000))
    val o = perform(s, c)
    // towards a point of the curve, exactly at it or one second off, or by some amount
    val pts = o.st.curve.pts.indices().map(i => o.st.curve.pts.nth(i).x).filter(x => x > s.now + 1)
    nondet at = oneOf(if (pts == Set()) Set(s.now + dd) else pts)
    val now = if (dk <= 4) s.now else if (dk == 5) s.now + 1 else if (dk == 6) at else if (dk == 7) at - 1
              else if (dk == 8) at + 1 else if (dk <= 10) s.now + max2(1, (at - s.now) * (dd % 7) / 7)
              else if (dk <= 12) s.now + dd else s.now + DAY * (1 + dd % 25) - (if (dk == 13) 1 else 0)
    val st: State = { ...o.st, now: now }
    all { prev' = s, s' = st, call' = c, out' = o, ev' = told(s, c, o), owed' = owedIn(st), apr' = yearly(st) }
  }

  action doInit = {
    nondet m = oneOf(Set(1, 2, 3, 5, 8, 20, 50))     nondet r = oneOf(Set(1, 10, 1000))  nondet b = oneOf(Set(1, 1000, 50000))
    act({ ...NOCALL, op: "initialize", who: "adm", maxc: m, minReward: r, minBond: b })
  }
  action doFund = {
    nondet v = oneOf(1.to(16))      nondet m = oneOf(1.to(9999))    nondet e = oneOf(0.to(4))
    nondet sk = oneOf(1.to(6))      nondet dd = oneOf(1.to(9999))   nondet dk = oneOf(1.to(4))
    val t = if (sk <= 3) s.now else if (sk == 4) s.now + 1 else if (sk == 5) s.now + dd else s.now + DAY * (1 + dd % 40)
    val d = if (dk == 1) dd else if (dk == 2) 1 + dd % 10 else if (dk == 3) DAY * (1 + dd % 90) else DAY * 400
    val x = max2(1, s.bal.get("adm") * m / 10^(5 + e))
    act({ ...NOCALL, op: "fund", who: "adm", signed: v != 1, t: if (v == 2) s.now - 1 else t, d: if (v == 3) 0 else d,
          x: if (v == 4) s.cfg.minReward - 1 else if (v == 5) s.bal.get("adm") + 1 else if (v == 6) s.cfg.minReward else max2(x, s.cfg.minReward) })
  }
  action doDistribute = {
    nondet v = oneOf(1.to(10))
    act({ ...NOCALL, op: "distribute", signed: v != 1 })
  }
  action doBond = {
    nondet u0 = oneOf(USERS)        nondet m = oneOf(1.to(9999))    nondet e = oneOf(0.to(12))      nondet v = oneOf(1.to(10))
    val u = if (s.known.get(u0)) u0 else "u1"
    act({ ...NOCALL, op: "bond", who: u, signed: v != 1, x: if (v == 2) max2(1, s.cfg.minBond - 1) else if (v == 4) max2(1, s.cfg.minBond / 2) else if (v == 3) max2(1, s.cfg.minBond) else mag(m, e) })
  }
  action doUnbond = {
    nondet u0 = oneOf(USERS)        nondet k = oneOf(0.to(20))      nondet v = oneOf(1.to(10))
    val u = if (s.known.get(u0)) u0 else "u1"
    val l = s.stakes.get(u)
    val n = length(l)
    // often the largest, so that what is left is below the minimum
    val top = l.indices().fold(0, (acc, i) => if (l.nth(i).amt > l.nth(acc).amt) i else acc)
    if (n == 0) doBond else act({ ...NOCALL, op: "unbond", who: u, signed: v != 1, i: if (v >= 6) top else k % n })
  }
  action doClaim = {
    nondet u0 = oneOf(USERS)        nondet v = oneOf(1.to(10))      nondet k = oneOf(0.to(2))
    val due = USERS.filter(u => s.known.get(u) and claimable(s, u) > 0)
    nondet u1 = oneOf(if (due == Set()) USERS else due)
    val u = if (k == 0 and s.known.get(u0)) u0 else if (s.known.get(u1)) u1 else "u1"
    act({ ...NOCALL, op: "claim", who: u, signed: v != 1 })
  }
  action doOther = {
    nondet v = oneOf(1.to(5))       nondet u = oneOf(USERS)         nondet m = oneOf(1.to(999))     nondet g = oneOf(Set(true, false))
    val new = not(s.known.get("u3"))
    act(if (v <= 2) { ...NOCALL, op: "donate", who: u, x: s.bal.get(u) * m / 10000 }
        else if (v == 3) { ...NOCALL, op: "update", who: "adm", signed: g }
        else if (v == 4 and new) { ...NOCALL, op: "addUser", who: "u3", signed: g }
        else { ...NOCALL, op: "initialize", who: "u1", maxc: 1, minReward: 1, minBond: 1 })
  }
  action doJoin = {
    nondet v = oneOf(1.to(6))
    if (s.known.get("u3") or v > 3) doDistribute else act({ ...NOCALL, op: "addUser", who: "u3", signed: v != 1 })
  }
  action step =
    if (not(s.inited)) doInit
    else if (length(s.funds) == 0) any { doFund, doFund, doBond, doBond, doOther }
    else any { doFund, doFund, doDistribute, doDistribute, doDistribute, doDistribute, doJoin, doBond, doBond, doUnbond, doClaim, doClaim, doClaim, doOther }
  /// focus on funding
  action fundStep =
    if (not(s.inited)) doInit
    else any { doFund, doFund, doFund, doDistribute, doDistribute, doDistribute, doBond, doOther, doClaim, doUnbond }

  // ---------------------------------------------------------------- properties
  pure def lockedBy(f: Fund, t: int): int = value({ kind: "sat", pts: List({ x: f.a, y: f.amt }, { x: f.b, y: 0 }) }, t)
  val lockedNow = s.funds.foldl(0, (acc, f) => acc + lockedBy(f, s.now))
  /// R01
  val accounted = s.dist == s.wd + s.paid and s.bal.get("rew") == s.given - s.paid
  val solvent = USERS.fold(0, (acc, u) => acc + (if (s.known.get(u)) earned(s, u) else 0)) <= s.wd and s.wd <= s.bal.get("rew")
  val linear = abs(value(s.curve, s.now) - lockedNow) <= 2 * length(s.funds)
  val endsFree = s.funds.indices().forall(i => s.funds.nth(i).b <= s.now) implies value(s.curve, s.now) == 0
  val withinReleased = s.dist + lockedNow <= s.given + 2 * length(s.funds)
  val releasesVested = (out.ok and call.op == "distribute" and power(prev, allStakes(prev)) > 0) implies
    s.given - s.dist == value(s.curve, prev.now)
  /// R02
  val noRetroactive = (out.ok and Set("bond", "unbond").contains(call.op)) implies
    USERS.forall(u => points(s, u) == points(prev, u))
  val joinsAtZero = (out.ok and call.op == "addUser") implies points(s, call.who) == s.adj.get(call.who).corr + s.spp * power(s, sum(s.stakes.get(call.who)))
    and earned(s, call.who) == 0
  val proportional = (out.ok and call.op == "distribute") implies and {
    USERS.forall(u => points(s, u) - points(prev, u) == (s.spp - prev.spp) * power(prev, sum(prev.stakes.get(u)))),
    s.dist > prev.dist implies (s.spp - prev.spp) * power(prev, allStakes(prev)) + s.left - prev.left == (s.dist - prev.dist) * SHIFT,
  }
  val claimPaysReported = (out.ok and Set("claim", "unbond").contains(call.op)) implies and {
    s.bal.get(call.who) - prev.bal.get(call.who) == claimable(prev, call.who),
    claimable(prev, call.who) <= earned(prev, call.who),
    USERS.forall(u => u == call.who or (s.bal.get(u) == prev.bal.get(u) and s.adj.get(u) == prev.adj.get(u))),
  }
  val neverNegative = USERS.forall(u => s.known.get(u) implies (points(s, u) >= 0 and earned(s, u) >= 0))
  /// R03
  val byStaking = Set("addUser", "bond", "unbond", "claim", "distribute", "fund").contains(call.op) implies
    (out.ok implies out.auth.contains("stk"))
  val fundedByAdmin = length(s.funds) > length(prev.funds) implies (out.auth.contains("adm") and call.t >= prev.now and call.x >= s.cfg.minReward)
  val bounded = complexity(s.curve) <= max2(2, s.cfg.maxc)
  val configFixed = prev.inited implies s.cfg == prev.cfg
  val conserved = ACCTS.fold(0, (acc, x) => acc + s.bal.get(x)) == ACCTS.fold(0, (acc, x) => acc + prev.bal.get(x))
  val rejectedIsNoop = not(out.ok) implies { ...s, now: 0 } == { ...prev, now: 0 }
  /// E01: what is announced is what happened to the contract's reward tokens
  val announced = and {
    not(out.ok) implies ev == List(),
    (out.ok and call.op == "fund") implies stated(ev, "amount") == s.bal.get("rew") - prev.bal.get("rew"),
    (out.ok and (call.op == "claim" or call.op == "unbond")) implies stated(ev, "reward_amount") == prev.bal.get("rew") - s.bal.get("rew"),
  }
}
