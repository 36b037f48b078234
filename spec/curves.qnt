/// Curves over time, as packages/curve has them: constant, saturating linear and piecewise linear.
module curves {
  import common.* from "./common"

  type Pt = { x: int, y: int }
  /// kind: "const" (y of the single point), "sat" (two points), "pw" (any number of points)
  type Curve = { kind: str, pts: List[Pt] }

  /// between two points, rounded towards the first point's value
  pure def between(p: Pt, n: Pt, x: int): int =
    if (n.y > p.y) p.y + (n.y - p.y) * (x - p.x) / (n.x - p.x)
    else p.y - (p.y - n.y) * (x - p.x) / (n.x - p.x)
  pure def value(c: Curve, x: int): int = {
    val n = length(c.pts)
    val first = c.pts.nth(0)
    val lst = c.pts.nth(n - 1)
    if (c.kind == "const" or x <= first.x) first.y
    else if (x >= lst.x) lst.y
    else {
      val k = c.pts.indices().filter(j => c.pts.nth(j).x <= x).fold(0, (acc, j) => max2(acc, j))
      between(c.pts.nth(k), c.pts.nth(k + 1), x)
    }
  }
  pure def ordered(c: Curve): bool =
    if (c.kind == "const") true
    else if (c.kind == "sat") c.pts.nth(0).x < c.pts.nth(1).x
    else length(c.pts) > 0 and c.pts.nth(0).x > 0 and
      c.pts.indices().forall(j => j == 0 or c.pts.nth(j - 1).x < c.pts.nth(j).x)
  pure def decreasing(c: Curve): bool =
    c.pts.indices().forall(j => j == 0 or c.pts.nth(j - 1).y >= c.pts.nth(j).y)
  pure def finishes(c: Curve): bool = length(c.pts) > 0 and c.pts.nth(length(c.pts) - 1).y == 0
  pure def endOf(c: Curve): int = c.pts.nth(length(c.pts) - 1).x

  /// number of points
  pure def complexity(c: Curve): int = length(c.pts)
  /// the sum of two curves, on the union of their points
  pure def combined(c: Curve, d: Curve): Curve =
    if (c.kind == "const") shifted(d, c.pts.nth(0).y)
    else if (d.kind == "const") shifted(c, d.pts.nth(0).y)
    else {
      val xs = c.pts.indices().map(i => c.pts.nth(i).x).union(d.pts.indices().map(i => d.pts.nth(i).x))
      val pts = range(0, xs.size()).foldl({ l: List(), rest: xs }, (acc, i) => {
        val x = acc.rest.fold(-1, (m, y) => if (m < 0 or y < m) y else m)
        { l: acc.l.append({ x: x, y: value(c, x) + value(d, x) }), rest: acc.rest.exclude(Set(x)) }
      }).l
      { kind: "pw", pts: pts }
    }
  pure def shifted(c: Curve, y: int): Curve =
    { kind: c.kind, pts: c.pts.foldl(List(), (acc, p) => acc.append({ x: p.x, y: p.y + y })) }
}
