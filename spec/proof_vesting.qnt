/// Custody and mint capacity of the vesting contract as an inductive invariant: from any state with consistent
/// books (up to two schedules per recipient), any call leaves consistent books.
module proof_vesting {
  import vesting.* from "./vesting"
  import curves.* from "./curves"
  import common.* from "./common"

  val books = and {
    backed,
    ACCTS.forall(x => s.bal.get(x) >= 0),
    s.minter.cap >= 0,
    RECS.forall(r => s.vest.get(r).indices().forall(i => s.vest.get(r).nth(i).bal >= 0)),
    RECS.forall(r => s.vest.get(r).indices().forall(i => decreasing(s.vest.get(r).nth(i).curve) and finishes(s.vest.get(r).nth(i).curve))),
  }
  pure def sat(x: int, y: int, z: int): Curve = { kind: "sat", pts: List({ x: x, y: y }, { x: z, y: 0 }) }
  action start = {
    nondet t = oneOf(Int)  nondet cap = oneOf(Int)  nondet mw = oneOf(Set("", "m1", "adm"))
    nondet bal = ACCTS.setOfMaps(Int).oneOf()
    nondet n = RECS.setOfMaps(0.to(2)).oneOf()
    nondet b1 = RECS.setOfMaps(Int).oneOf()  nondet b2 = RECS.setOfMaps(Int).oneOf()
    nondet y1 = RECS.setOfMaps(Int).oneOf()  nondet y2 = RECS.setOfMaps(Int).oneOf()
    nondet x1 = RECS.setOfMaps(Int).oneOf()  nondet z1 = RECS.setOfMaps(Int).oneOf()
    nondet x2 = RECS.setOfMaps(Int).oneOf()  nondet z2 = RECS.setOfMaps(Int).oneOf()
    nondet mi = oneOf(Int)  nondet bu = oneOf(Int)
    val st: State = { now: t, inited: true, maxc: 5, minter: { who: mw, cap: cap }, bal: bal,
      vest: RECS.mapBy(r => if (n.get(r) == 0) List() else if (n.get(r) == 1) List({ bal: b1.get(r), curve: sat(x1.get(r), y1.get(r), z1.get(r)) })
        else List({ bal: b1.get(r), curve: sat(x1.get(r), y1.get(r), z1.get(r)) }, { bal: b2.get(r), curve: sat(x2.get(r), y2.get(r), z2.get(r)) })),
      minted: mi, burned: bu }
    all {
      t >= 0, cap >= 0, mi >= 0, bu >= 0, ACCTS.forall(x => bal.get(x) >= 0),
      RECS.forall(r => b1.get(r) >= 0 and b2.get(r) >= 0 and b1.get(r) <= y1.get(r) and b2.get(r) <= y2.get(r)
        and x1.get(r) < z1.get(r) and x2.get(r) < z2.get(r)),
      bal.get("ves") >= allScheds(st),
      s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List(), owed' = RECS.mapBy(r => List())
    }
  }
  action any1 = {
    nondet op = oneOf(Set("init", "initm", "create", "claim", "mint", "burn", "minter", "capacity", "donate", "update"))
    nondet sg = oneOf(Bool)  nondet w0 = oneOf(ACCTS.exclude(Set("ves")))  nondet r0 = oneOf(RECS)  nondet d = oneOf(ACCTS)
    nondet x = oneOf(Int)  nondet i = oneOf(Set(0, 1, 2))  nondet cap = oneOf(Int)  nondet dt = oneOf(Int)
    nondet ya = oneOf(Int)  nondet yb = oneOf(Int)  nondet xa = oneOf(Int)  nondet za = oneOf(Int)  nondet yc = oneOf(Int)
    nondet k = oneOf(0.to(2))  nondet ra = oneOf(RECS)  nondet rb = oneOf(RECS)
    val ca = { kind: "sat", pts: List({ x: xa, y: ya }, { x: za, y: yc }) }
    val cb = sat(xa, yb, za)
    val c: Call = { ...NOCALL, op: op, who: if (op == "claim") r0 else w0, signed: sg, x: x, i: i, dst: d, cap: cap,
      batch: if (k == 0) List() else if (k == 1) List({ who: ra, curve: ca }) else List({ who: ra, curve: ca }, { who: rb, curve: cb }) }
    val o = perform(s, c)
    all { dt >= 0, cap >= 0, ya >= 0, yb >= 0, yc >= 0, Set("donate", "burn").contains(op) implies x >= 0, prev' = s, s' = { ...o.st, now: s.now + dt }, call' = c, out' = o, ev' = List(),
          owed' = RECS.mapBy(r => List()) }
  }
  val all1 = and { books, onlyGrows, createdByAdmin, supply, mintWithinCapacity, capacityByAdmin, rejectedIsNoop }
}
