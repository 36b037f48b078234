/// Custody of stakes as an inductive invariant: from any state with consistent books (up to two stakes per user,
/// any amounts, any times, one flow with up to one past distribution), any call leaves consistent books.
module proof_stake {
  import stake.* from "./stake"
  import common.* from "./common"

  val booksOk = and {
    totalMatches,
    ACCTS.forall(x => s.bal.get(x).get("lp") >= 0),
    // what the contract holds of reward tokens is K03's subject: it divides by variables, beyond the solver
    ACCTS.exclude(Set("stk")).forall(x => s.bal.get(x).get("r1") >= 0 and s.bal.get(x).get("r2") >= 0),
    USERS.forall(u => s.users.get(u).stakes.indices().forall(i => s.users.get(u).stakes.nth(i).amt > 0)),
    s.bal.get("stk").get("lp") >= s.total
  }
  action start = {
    nondet t = oneOf(Int)  nondet mb = oneOf(Int)
    nondet lp = ACCTS.setOfMaps(Int).oneOf()
    nondet r1 = ACCTS.setOfMaps(Int).oneOf()
    nondet r2 = ACCTS.setOfMaps(Int).oneOf()
    nondet n = USERS.setOfMaps(0.to(2)).oneOf()
    nondet a1 = USERS.setOfMaps(Int).oneOf()  nondet a2 = USERS.setOfMaps(Int).oneOf()
    nondet s1 = USERS.setOfMaps(Int).oneOf()  nondet s2 = USERS.setOfMaps(Int).oneOf()
    nondet dt1 = oneOf(Int)  nondet dr = oneOf(Int)  nondet dtot = oneOf(Int)
    nondet mgr = oneOf(ACCTS)  nondet own = oneOf(ACCTS)
    val tot = USERS.fold(0, (acc, u) => acc + (if (n.get(u) >= 1) a1.get(u) else 0) + (if (n.get(u) >= 2) a2.get(u) else 0))
    val st: State = { now: t, toks: FEW, inited: true, cfg: { minBond: mb, minReward: 1, maxc: 1, manager: mgr, owner: own, admin: "adm" },
      bal: ACCTS.mapBy(x => Map("lp" -> lp.get(x), "r1" -> r1.get(x), "r2" -> r2.get(x))),
      users: USERS.mapBy(u => { last: 0, stakes: if (n.get(u) == 0) List() else if (n.get(u) == 1) List({ amt: a1.get(u), ts: s1.get(u) })
        else List({ amt: a1.get(u), ts: s1.get(u) }, { amt: a2.get(u), ts: s2.get(u) }) }),
      total: tot, flows: List("r1"), rewards: FEW.mapBy(x => if (x == "r1") Map(dt1 -> dr) else Map()), totals: Map(dt1 -> dtot),
      given: FEW.mapBy(x => 0), paid: FEW.mapBy(x => 0) }
    all {
      t >= 0, mb > 0, dt1 >= 0, dt1 <= t, dr >= 0, dtot >= 0, ACCTS.forall(x => lp.get(x) >= 0), ACCTS.exclude(Set("stk")).forall(x => r1.get(x) >= 0 and r2.get(x) >= 0),
      USERS.forall(u => a1.get(u) > 0 and a2.get(u) > 0),
      lp.get("stk") >= tot,
      s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = USERS.mapBy(u => FEW.mapBy(x => 0))
    }
  }
  action any1 = {
    nondet op = oneOf(Set("initialize", "bond", "unbond", "create", "distribute", "donate", "update", "claim"))
    nondet sg = oneOf(Bool)  nondet u = oneOf(USERS)  nondet w = oneOf(ACCTS)  nondet k = oneOf(FEW)
    nondet x = oneOf(Int)  nondet ts = oneOf(Int)  nondet dt = oneOf(Int)
    nondet c1 = oneOf(Int)  nondet c2 = oneOf(Int)  nondet c3 = oneOf(Int)
    val c = { ...NOCALL, op: op, who: if (Set("bond", "unbond", "donate", "claim").contains(op)) u else w, signed: sg, tok: k,
              x: x, ts: ts, c1: c1, c2: c2, c3: c3, mgr: "u1", own: "u2", adm: "u3" }
    val o = perform(s, c)
    all { dt >= 0, op == "donate" implies x >= 0, prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = o, ev' = List(), owed' = USERS.mapBy(z => FEW.mapBy(y => 0)) }
  }
  val all1 = and { booksOk, unbondReturnsOwn, stakesOnlyByOwner, flowsByRole, flowsUnique, configFixed, rejectedIsNoop }
}
