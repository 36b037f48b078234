/// How long the ledger keeps the entries of all contracts.  On Soroban an entry that is not extended in time is archived, and
/// whatever needs it is refused until somebody pays for restoring it.  The contracts promise to keep what is in use alive:
/// every accepted call extends the records it reads or writes to thirty days, and the instance of each contract that it runs in
/// to seven days (to thirty where the contract keeps its data in the instance).  This module lists, for every entry point of
/// the system, which entries those are, and derives what stays alive over any history of calls and pauses.
///
/// The world: tokens A, B, C, T; pool P (constant product, A/B) and S (stable, B/C), made by factory F, with share tokens Pl,
/// Sl and staking contracts Pk, Sk; router M; vesting V (of T); staking rewards R (paying A); trader D.
module life {
  import common.* from "./common"

  /// a ledger entry: contract and key ("instance", the holder of a token balance, or the name of a record)
  type Entry = (str, str)
  /// what an operation does: contracts whose instance gets a week or thirty days, records read (if present), records
  /// written, and entries needed but not extended
  type Eff = { short: Set[str], long: Set[str], rd: Set[Entry], wr: Set[Entry], need: Set[Entry] }
  type Call = { op: str, who: str, tok: str, wait: int }
  type State = { seq: int, live: Entry -> int, used: Entry -> int, stk: str -> int, rstk: int, flows: int, pools: int }
  type Out = { ok: bool, why: Set[str], restored: Set[Entry], touched: Set[Entry], long: Set[Entry], st: State }

  pure val DAY = 17280
  pure val WEEK_MIN = 6 * DAY
  pure val WEEK = 7 * DAY
  pure val MONTH_MIN = 29 * DAY
  pure val MONTH = 30 * DAY
  /// what the network gives a restored entry
  pure val NET_MIN = 4096

  pure def other(u: str): str = if (u == "u1") "u2" else "u1"
  pure def adj(u: str): str = if (u == "u1") "WithdrawAdjustment:A,u1" else "WithdrawAdjustment:A,u2"
  pure def plan(u: str): str = if (u == "u1") "0,u1" else "0,u2"
  pure def history(t: str): str = if (t == "A") "RewardHistory:A" else "RewardHistory:B"

  pure val NOTHING: Eff = { short: Set(), long: Set(), rd: Set(), wr: Set(), need: Set() }
  pure def runs(cs: Set[str]): Eff = { ...NOTHING, short: cs }
  pure def runsLong(cs: Set[str]): Eff = { ...NOTHING, long: cs }
  pure def reads(c: str, ks: Set[str]): Eff = { ...NOTHING, rd: ks.map(k => (c, k)) }
  pure def writes(c: str, ks: Set[str]): Eff = { ...NOTHING, wr: ks.map(k => (c, k)) }
  pure def needs(c: str, k: str): Eff = { ...NOTHING, need: Set((c, k)) }
  pure def also(a: Eff, b: Eff): Eff =
    { short: a.short.union(b.short), long: a.long.union(b.long), rd: a.rd.union(b.rd), wr: a.wr.union(b.wr), need: a.need.union(b.need) }

  /// tokens of t change hands between the accounts
  pure def moves(t: str, us: Set[str]): Eff = runs(Set(t)).also(writes(t, us))
  pure def asks(t: str, u: str): Eff = runs(Set(t)).also(reads(t, Set(u)))

  // constant-product pool: 0 shares, 1 and 2 reserves, 3 admin
  pure val POOL = runs(Set("P")).also(reads("P", Set("CONFIG")))
  pure val POOLINFO = POOL.also(reads("P", Set("0", "1", "2")))
  pure val PRICE = POOL.also(reads("P", Set("1", "2")))
  pure val STABLE = runsLong(Set("S"))
  pure def sells(k: str, u: str): Eff =
    if (k == "p") PRICE.also(moves("A", Set(u, "P"))).also(moves("B", Set(u, "P", "fee")))
    else if (k == "pb") PRICE.also(moves("B", Set(u, "P"))).also(moves("A", Set(u, "P", "fee")))
    else if (k == "s") STABLE.also(moves("B", Set(u, "S"))).also(moves("C", Set(u, "S", "fee")))
    else STABLE.also(moves("C", Set(u, "S"))).also(moves("B", Set(u, "S", "fee")))

  pure def token(op: str, t: str, u: str): Eff =
    if (op == "t.transfer") moves(t, Set(u, other(u)))
    else if (op == "t.transfer_from") moves(t, Set(u, "mgr"))
    else if (op == "t.burn" or op == "t.burn_from" or op == "t.mint") moves(t, Set(u))
    else if (op == "t.balance") asks(t, u)
    else if (op == "t.approve" or op == "t.allowance" or op == "t.set_admin") runs(Set(t))
    else needs(t, "instance")   // name, symbol, decimals

  pure def pool(op: str, u: str): Eff =
    if (op == "p.provide")
      POOLINFO.also(reads("P", Set("DSLIPBPS"))).also(moves("A", Set(u, "P"))).also(moves("B", Set(u, "P"))).also(moves("Pl", Set(u)))
    else if (op == "p.withdraw")
      POOLINFO.also(moves("A", Set(u, "P"))).also(moves("B", Set(u, "P"))).also(moves("Pl", Set(u, "P")))
    else if (op == "p.swap") sells("p", u)
    else if (op == "p.back") sells("pb", u)
    else if (op == "p.config") POOL.also(reads("P", Set("3")))
    else if (op == "p.upgrade") reads("P", Set("3", "DSLIPBPS")).also(needs("P", "instance"))
    else if (op == "p.update") reads("P", Set("3")).also(needs("P", "instance"))
    else if (op == "p.quote" or op == "p.rquote") PRICE
    else if (op == "p.share" or op == "p.query_pool_info" or op == "p.query_pool_info_for_factory") POOLINFO
    else if (op == "p.query_total_issued_lp") runs(Set("P")).also(reads("P", Set("0")))
    else POOL                    // query_config, query_share_token_address, query_stake_contract_address

  pure def stable(op: str, u: str): Eff =
    if (op == "s.provide") STABLE.also(moves("B", Set(u, "S"))).also(moves("C", Set(u, "S"))).also(moves("Sl", Set(u)))
    else if (op == "s.withdraw") STABLE.also(moves("B", Set(u, "S"))).also(moves("C", Set(u, "S"))).also(moves("Sl", Set(u, "S")))
    else if (op == "s.swap") sells("s", u)
    else if (op == "s.back") sells("sb", u)
    else if (op == "s.query_total_issued_lp") runs(Set("S"))
    else STABLE

  // staking: 0 admin, 1 total, 2 reward tokens
  pure val STAKE = runs(Set("Pk")).also(reads("Pk", Set("CONFIG")))
  pure def staking(s: State, op: str, u: str): Eff = {
    val histories = reads("Pk", Set("2", history("A"), "TotalStakedHistory")).also(if (s.flows > 1) reads("Pk", Set(history("B"))) else NOTHING)
    if (op == "k.bond" or op == "k.unbond") STAKE.also(writes("Pk", Set("1", u))).also(moves("Pl", Set(u, "Pk")))
    else if (op == "k.create") STAKE.also(writes("Pk", Set("2", history("B"))))
    else if (op == "k.distribute")
      STAKE.also(reads("Pk", Set("1", "2"))).also(writes("Pk", Set(history("A"), "TotalStakedHistory"))).also(moves("A", Set("mgr", "Pk")))
    else if (op == "k.claim")
      runs(Set("Pk")).also(histories).also(writes("Pk", Set(u))).also(moves("A", Set("Pk", u)))
        .also(if (s.flows > 1) moves("B", Set("Pk", u)) else NOTHING)
    else if (op == "k.owed") runs(Set("Pk")).also(histories).also(reads("Pk", Set(u)))
    else if (op == "k.staked") runs(Set("Pk")).also(reads("Pk", Set(u)))
    else if (op == "k.query_config") STAKE
    else if (op == "k.query_admin") runs(Set("Pk")).also(reads("Pk", Set("0")))
    else if (op == "k.query_total_staked") runs(Set("Pk")).also(reads("Pk", Set("1")))
    else reads("Pk", Set("0")).also(needs("Pk", "instance"))   // update
  }

  // staking rewards: 1 admin
  pure val REW = runs(Set("R")).also(reads("R", Set("CONFIG")))
  pure val GIVEN = runs(Set("R")).also(reads("R", Set("Distribution:A")))
  pure def rewards(s: State, op: str, u: str): Eff =
    if (op == "r.bond" or op == "r.add_user") REW.also(GIVEN).also(writes("R", Set(adj(u))))
    else if (op == "r.unbond" or op == "r.claim")      // tokens move only if something is due
      REW.also(GIVEN).also(reads("R", Set(adj(u)))).also({ ...NOTHING, need: Set(("A", "R"), ("A", u), ("A", "instance")) })
    else if (op == "r.distribute" and s.rstk == 0) REW // nobody to give anything to
    else if (op == "r.distribute") REW.also(reads("R", Set("Curve:A"))).also(writes("R", Set("Distribution:A"))).also(asks("A", "R"))
    else if (op == "r.fund") REW.also(reads("R", Set("1"))).also(writes("R", Set("Curve:A"))).also(moves("A", Set("adm", "R")))
    else if (op == "r.owed") REW.also(GIVEN).also(reads("R", Set(adj(u))))
    else if (op == "r.yearly" and s.rstk == 0) REW
    else if (op == "r.yearly") REW.also(GIVEN).also(reads("R", Set("Curve:A")))
    else if (op == "r.given") GIVEN
    else if (op == "r.left") GIVEN.also(asks("A", "R"))
    else if (op == "r.query_config") REW
    else if (op == "r.query_admin") runs(Set("R")).also(reads("R", Set("1")))
    else reads("R", Set("1")).also(needs("R", "instance"))     // update

  // vesting: 1 admin, "0,x" the schedule of x
  pure def vesting(s: State, op: str, u: str): Eff =
    if (op == "v.claim") runsLong(Set("V")).also(writes("V", Set(plan(u)))).also(moves("T", Set("V", u)))
    else if (op == "v.create") runsLong(Set("V")).also(reads("V", Set("1"))).also(moves("T", Set("adm", "V")))
      .also(if (("V", plan("u2")).in(s.live.keys())) needs("V", plan("u2")) else writes("V", Set(plan("u2"))))   // later ones get other numbers
    else if (op == "v.mint") runsLong(Set("V")).also(moves("T", Set("V")))
    else if (op == "v.burn") runsLong(Set("V")).also(moves("T", Set(u)))
    else if (op == "v.minter") runsLong(Set("V"))
    else if (op == "v.capacity") runsLong(Set("V")).also(reads("V", Set("1")))
    else if (op == "v.all" or op == "v.one" or op == "v.due") runs(Set("V")).also(reads("V", Set(plan(u))))
    else if (op == "v.balance") runsLong(Set("V")).also(asks("T", u))
    else if (op == "v.query_minter") runs(Set("V"))
    else if (op == "v.query_token_info") runsLong(Set("V"))
    else if (op == "v.query_vesting_contract_balance") runsLong(Set("V")).also(asks("T", "V"))
    else reads("V", Set("1")).also(needs("V", "instance"))     // update

  // factory: 1 configuration, 2 list of pools, pairs by their tokens
  pure def fac(ks: Set[str]): Eff = runs(Set("F")).also(reads("F", ks))
  pure def factory(op: str, u: str): Eff =
    if (op == "f.create") fac(Set("1", "2"))
    else if (op == "f.whitelist" or op == "f.hashes" or op == "f.get_admin" or op == "f.get_config") fac(Set("1"))
    else if (op == "f.pools") fac(Set("2"))
    else if (op == "f.pool") fac(Set()).also(POOLINFO)
    else if (op == "f.all") fac(Set("2")).also(POOLINFO).also(STABLE)
    else if (op == "f.portfolio")
      fac(Set("2")).also(POOLINFO).also(STABLE).also(asks("Pl", u)).also(asks("Sl", u)).also(runs(Set("Pk", "Sk")))
        .also(reads("Pk", Set(u)))
    else if (op == "f.find") fac(Set("A,B"))
    else reads("F", Set("1", "stabwasm")).also(needs("F", "instance"))    // update

  // router
  pure def router(op: str, u: str): Eff = {
    val viaP = runsLong(Set("M")).also(fac(Set("A,B")))
    val viaS = runsLong(Set("M")).also(fac(Set("B,C")))
    if (op == "m.swap") viaP.also(sells("p", u))
    else if (op == "m.swapS") viaS.also(sells("s", u))
    else if (op == "m.quote") viaP.also(PRICE).also(needs("A", "instance"))
    else if (op == "m.rquote") viaP.also(PRICE).also(needs("B", "instance"))
    else if (op == "m.quoteS") viaS.also(STABLE).also(needs("B", "instance"))
    else if (op == "m.rquoteS") viaS.also(STABLE).also(needs("C", "instance"))
    else runsLong(Set("M"))     // update
  }

  // trader: 0 admin, 1 name, 2 pair, 3 output token
  pure def trd(k: Set[str]): Eff = runs(Set("D")).also(reads("D", k))
  pure def trader(op: str, u: str): Eff =
    if (op == "d.trade") trd(Set("0", "2")).also(sells("p", "D"))
    else if (op == "d.transfer") trd(Set("0", "3")).also(moves("C", Set("D", u)))
    else if (op == "d.query_balances") trd(Set("2", "3")).also(asks("A", "D")).also(asks("B", "D")).also(asks("C", "D"))
    else if (op == "d.query_trading_pairs") trd(Set("2"))
    else if (op == "d.query_admin_address") trd(Set("0"))
    else if (op == "d.query_contract_name") trd(Set("1"))
    else trd(Set("3")).also(needs("C", "instance"))            // query_output_token_info

  pure val TOKEN_OPS = Set("t.transfer", "t.transfer_from", "t.approve", "t.burn", "t.burn_from", "t.mint", "t.balance", "t.allowance",
    "t.name", "t.symbol", "t.decimals", "t.set_admin")
  pure val POOL_OPS = Set("p.provide", "p.swap", "p.back", "p.withdraw", "p.config", "p.upgrade", "p.update", "p.quote", "p.rquote",
    "p.share", "p.query_config", "p.query_pool_info", "p.query_pool_info_for_factory", "p.query_total_issued_lp",
    "p.query_share_token_address", "p.query_stake_contract_address")
  pure val STABLE_OPS = Set("s.provide", "s.swap", "s.back", "s.withdraw", "s.config", "s.upgrade", "s.update", "s.quote", "s.rquote",
    "s.share", "s.query_config", "s.query_pool_info", "s.query_pool_info_for_factory", "s.query_total_issued_lp",
    "s.query_share_token_address", "s.query_stake_contract_address")
  pure val STAKE_OPS = Set("k.bond", "k.unbond", "k.create", "k.distribute", "k.claim", "k.staked", "k.owed", "k.query_config",
    "k.query_admin", "k.query_total_staked", "k.update")
  pure val REWARD_OPS = Set("r.bond", "r.unbond", "r.add_user", "r.distribute", "r.fund", "r.claim", "r.owed", "r.yearly", "r.given",
    "r.left", "r.query_config", "r.query_admin", "r.update")
  pure val VESTING_OPS = Set("v.claim", "v.create", "v.mint", "v.burn", "v.minter", "v.capacity", "v.all", "v.one", "v.due", "v.balance",
    "v.query_minter", "v.query_token_info", "v.query_vesting_contract_balance", "v.update")
  pure val FACTORY_OPS = Set("f.create", "f.whitelist", "f.hashes", "f.pools", "f.pool", "f.all", "f.portfolio", "f.find", "f.get_admin",
    "f.get_config", "f.update")
  pure val ROUTER_OPS = Set("m.swap", "m.swapS", "m.quote", "m.quoteS", "m.rquote", "m.rquoteS", "m.update")
  pure val TRADER_OPS = Set("d.trade", "d.transfer", "d.query_balances", "d.query_trading_pairs", "d.query_admin_address",
    "d.query_contract_name", "d.query_output_token_info")

  pure def effect(s: State, c: Call): Eff =
    if (c.op.in(TOKEN_OPS)) token(c.op, c.tok, c.who)
    else if (c.op.in(POOL_OPS)) pool(c.op, c.who)
    else if (c.op.in(STABLE_OPS)) stable(c.op, c.who)
    else if (c.op.in(STAKE_OPS)) staking(s, c.op, c.who)
    else if (c.op.in(REWARD_OPS)) rewards(s, c.op, c.who)
    else if (c.op.in(VESTING_OPS)) vesting(s, c.op, c.who)
    else if (c.op.in(FACTORY_OPS)) factory(c.op, c.who)
    else if (c.op.in(ROUTER_OPS)) router(c.op, c.who)
    else trader(c.op, c.who)

  /// the call can be made at all (whatever is archived is restored first)
  pure def possible(s: State, c: Call): bool =
    if (c.op == "p.withdraw" or c.op == "k.bond") ("Pl", c.who).in(s.live.keys())
    else if (c.op == "s.withdraw") ("Sl", c.who).in(s.live.keys())
    else if (c.op == "k.unbond") s.stk.get(c.who) > 0
    else if (c.op == "k.create") s.flows < 2
    else if (Set("r.bond", "r.claim", "r.owed").contains(c.op)) c.who == "u1"
    else if (c.op == "r.unbond") c.who == "u1" and s.rstk > 0
    else if (c.op == "r.add_user") c.who == "u2"
    else if (c.op == "v.claim") c.who == "u1"
    else if (Set("v.all", "v.one", "v.due").contains(c.op)) ("V", plan(c.who)).in(s.live.keys())
    else if (c.op == "f.create") s.pools < 2
    else if (c.op == "t.set_admin") c.tok != "T"
    else true

  pure def step1(s: State, c: Call): Out = {
    val now = s.seq + c.wait
    val e = effect(s, c)
    val there = s.live.keys()
    val insts = e.short.union(e.long).map(k => (k, "instance"))
    val present = e.rd.intersect(there)
    val uses = insts.union(present).union(e.wr).union(e.need)
    val restored = uses.intersect(there).filter(r => s.live.get(r) < now)
    val base = restored.fold(s.live, (m, r) => m.set(r, now + NET_MIN - 1))
    val longs = e.long.map(k => (k, "instance")).union(present).union(e.wr)
    val shorts = e.short.map(k => (k, "instance")).exclude(longs)
    val touched = longs.union(shorts)
    val kept = shorts.fold(base, (m, r) => m.setBy(r, old => if (old <= now + WEEK_MIN) now + WEEK else old))
    val live = longs.fold(kept, (m, r) => {
      val old = if (r.in(there)) m.get(r) else now
      m.put(r, if (old <= now + MONTH_MIN) now + MONTH else old)
    })
    val used = touched.fold(s.used, (m, r) => m.put(r, now))
    { ok: true, why: Set(), restored: restored, touched: touched, long: longs, st: { ...s, seq: now, live: live, used: used,
        stk: if (c.op == "k.bond") s.stk.setBy(c.who, n => n + 1) else if (c.op == "k.unbond") s.stk.setBy(c.who, n => n - 1) else s.stk,
        rstk: if (c.op == "r.bond") s.rstk + 1 else if (c.op == "r.unbond") s.rstk - 1 else s.rstk,
        flows: if (c.op == "k.create") s.flows + 1 else s.flows,
        pools: if (c.op == "f.create") s.pools + 1 else s.pools } }
  }

  // ------------------------------------------------------------------------------------------------------------------
  /// the entries there are once every contract has been set up and used
  pure val RECORDS: Set[Entry] = Set("A", "B", "C", "T", "F", "M", "P", "Pl", "Pk", "S", "Sl", "Sk", "V", "R", "D").map(c => (c, "instance"))
    .union(tuples(Set("A", "B", "C", "T"), Set("u1", "u2", "adm", "mgr", "own")))
    .union(Set(("A", "P"), ("B", "P"), ("B", "S"), ("C", "S"), ("A", "D"), ("B", "D"), ("C", "D"), ("A", "Pk"), ("A", "R"), ("T", "V")))
    .union(Set(("P", "0"), ("P", "1"), ("P", "2"), ("P", "3"), ("P", "4"), ("P", "CONFIG"), ("P", "DSLIPBPS"), ("S", "4")))
    .union(Set(("Pl", "u1"), ("Pl", "P"), ("Pl", "Pk"), ("Sl", "u1")))
    .union(Set(("Pk", "0"), ("Pk", "1"), ("Pk", "2"), ("Pk", "CONFIG"), ("Pk", "RewardHistory:A"), ("Pk", "TotalStakedHistory"), ("Pk", "u1")))
    .union(Set(("Sk", "0"), ("Sk", "1"), ("Sk", "CONFIG"), ("Sk", "TotalStakedHistory")))
    .union(Set(("R", "0"), ("R", "1"), ("R", "CONFIG"), ("R", "Curve:A"), ("R", "Distribution:A"), ("R", "WithdrawAdjustment:A,u1")))
    .union(Set(("V", "1"), ("V", "0,u1"), ("M", "Initialized")))
    .union(Set(("F", "1"), ("F", "2"), ("F", "3"), ("F", "A,B"), ("F", "B,C"), ("F", "stabwasm")))
    .union(Set(("D", "0"), ("D", "1"), ("D", "2"), ("D", "3"), ("D", "5")))
  pure val START = 1000000

  var s: State
  var prev: State
  var call: Call
  var out: Out

  action init = {
    nondet first = RECORDS.setOfMaps(Set(0, 1, 4095, DAY, WEEK_MIN, WEEK, 20 * DAY, MONTH_MIN - 1, MONTH_MIN, MONTH)).oneOf()
    val s0: State = { seq: START, live: RECORDS.mapBy(r => START + first.get(r)), used: Map(), stk: Map("u1" -> 1, "u2" -> 0), rstk: 1,
                      flows: 1, pools: 0 }
    all {
      s' = s0,
      prev' = s0,
      call' = { op: "", who: "", tok: "", wait: 0 },
      out' = { ok: true, why: Set(), restored: Set(), touched: Set(), long: Set(), st: s0 },
    }
  }

  action apply(c: Call): bool = {
    val o = step1(s, c)
    all { possible(s, c), s' = o.st, prev' = s, call' = c, out' = o }
  }

  action one(ops: Set[str], tokens: Set[str]): bool = {
    nondet op = ops.oneOf()
    nondet who = oneOf(Set("u1", "u2"))
    nondet tok = tokens.oneOf()
    nondet wait = oneOf(Set(1, 2, 4095, 4096, DAY, 5 * DAY, WEEK_MIN - 1, WEEK_MIN, WEEK_MIN + 1, WEEK, 20 * DAY, MONTH_MIN, MONTH, 31 * DAY))
    nondet again = oneOf(1.to(4))
    apply({ op: op, who: who, tok: tok, wait: if (again > 2) 1 else wait })
  }

  action step = any {
    one(TOKEN_OPS, Set("A", "B", "C", "T")),
    one(POOL_OPS, Set("")),
    one(STABLE_OPS, Set("")),
    one(STAKE_OPS, Set("")),
    one(REWARD_OPS, Set("")),
    one(VESTING_OPS, Set("")),
    one(FACTORY_OPS, Set("")),
    one(ROUTER_OPS, Set("")),
    one(TRADER_OPS, Set("")),
  }

  // ------------------------------------------------------------------------------------------------------------------
  /// after a call everything it used lives at least 29 days, instances at least 6
  val keepsAlive = out.touched.forall(r => s.live.get(r) >= s.seq + (if (r.in(out.long)) MONTH_MIN else WEEK_MIN))
  /// whatever a call uses needs to be restored only if no call used it in the last 6 days
  val onlyIdleArchived = out.restored.forall(r => not(r.in(prev.used.keys())) or s.seq - prev.used.get(r) > WEEK_MIN)
  /// no call shortens the life of an entry that it uses
  val neverShortened = out.touched.intersect(prev.live.keys()).forall(r => s.live.get(r) >= prev.live.get(r))
}
