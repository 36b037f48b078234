/// Every call with any arguments, from any state with consistent books: what T01-T03 promise follows from one step.
module proof_token {
  import token.* from "./token"
  import common.* from "./common"

  val books = and {
    ACCTS.forall(x => s.bal.get(x) >= 0 and s.bal.get(x) <= MAX),
    s.bal.keys() == ACCTS, s.allow.keys() == PAIRS,
    total == s.minted - s.burned, s.minted >= 0, s.burned >= 0,
    PAIRS.forall(p => s.allow.get(p).amt >= 0 and s.allow.get(p).amt <= MAX),
    ACCTS.contains(s.admin)
  }

  action start = {
    nondet q = oneOf(Int)  nondet d = oneOf(0.to(18))  nondet a = oneOf(ACCTS)
    nondet m = oneOf(Int)  nondet b = oneOf(Int)
    nondet bal = ACCTS.setOfMaps(Int).oneOf()
    nondet am = PAIRS.setOfMaps(Int).oneOf()
    nondet ex = PAIRS.setOfMaps(Int).oneOf()
    val st: State = { seq: q, dec: d, admin: a, minted: m, burned: b, bal: bal,
                      allow: PAIRS.mapBy(p => { amt: am.get(p), exp: ex.get(p) }) }
    all {
      q >= 0, m >= 0, b >= 0,
      ACCTS.forall(x => bal.get(x) >= 0 and bal.get(x) <= MAX),
      PAIRS.forall(p => am.get(p) >= 0 and am.get(p) <= MAX),
      ACCTS.fold(0, (acc, x) => acc + bal.get(x)) == m - b,
      s' = st, prev' = st, call' = NOCALL, out' = reject(st, Set("init")), ev' = List()
    }
  }
  action any1 = {
    nondet op = oneOf(Set("mint", "set_admin", "approve", "transfer", "burn", "transfer_from", "burn_from"))
    nondet sg = oneOf(Bool)  nondet p = oneOf(PAIRS)  nondet f = oneOf(ACCTS)  nondet t = oneOf(ACCTS)
    nondet x = oneOf(Int)  nondet e = oneOf(Int)  nondet ds = oneOf(Int)
    val c = { op: op, signed: sg, spender: p._2, from: if (Set("transfer", "burn").contains(op)) f else p._1, to: t, x: x, exp: e }
    val o = perform(s, c)
    all { ds >= 0, x <= MAX, prev' = s, s' = { ...o.st, seq: s.seq + ds }, call' = c, out' = o, ev' = List() }
  }
  val all1 = and { books, supplyMatches, noDebt, transferConserves, rejectedIsNoop, spendAuthorised, allowanceOnlyByOwner, mintByAdmin, adminByAdmin }
}
