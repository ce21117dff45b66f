// -*- mode: Bluespec; -*-
// Ticks and prices.
module tickmath {
  import num.* from "./num"

  pure val MAX_TICK = 221818
  pure val MIN_TICK = -221818
  pure val MAX_SQRT_PRICE = 65535383934512647000000000000
  pure val MIN_SQRT_PRICE = 15258932000000000000
  pure val SEARCH_RANGE = 256

  // sqrt(1.0001)^(2^i), 12 decimals
  pure val FACTORS: List[int] = [
    1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056,
    1001601200560, 1003204964963, 1006420201726, 1012881622442, 1025929181080,
    1052530684591, 1107820842005, 1227267017980, 1506184333421, 2268591246242,
    5146506242525, 26486526504348, 701536086265529
  ]

  // sqrt price of a tick: ERR outside [-MAX_TICK, MAX_TICK]
  pure def priceOfTick(tick: int): int =
    val t = abs(tick)
    if (t > MAX_TICK) ERR else
      val p = FACTORS.foldl((PCT, t), (acc, f) =>
        if (acc._2 % 2 == 1) (acc._1 * f / PCT, acc._2 / 2) else (acc._1, acc._2 / 2))._1
      if (tick >= 0) p * PCT else (PCT * PCT / p) * PCT

  pure def maxTick(s: int): int = MAX_TICK / s * s
  pure def minTick(s: int): int = -(MAX_TICK / s * s)

  pure def alignDown(t: int, s: int): int = floorDiv(t, s) * s

  // greatest tick whose price does not exceed sp (declarative: bisection on the
  // monotone price function), for MIN_SQRT_PRICE <= sp <= MAX_SQRT_PRICE
  pure def floorTick(sp: int): int =
    (0.to(18)).fold((MIN_TICK, MAX_TICK + 1), (r, i) =>
      if (r._2 - r._1 <= 1) r else
        val m = floorDiv(r._1 + r._2, 2)
        if (priceOfTick(m) <= sp) (m, r._2) else (r._1, m))._1

  pure def priceInRange(sp: int): bool = sp >= MIN_SQRT_PRICE and sp <= MAX_SQRT_PRICE

  // same, starting from a tick known to be near
  pure def tickAt(sp: int, s: int): int = alignDown(floorTick(sp), s)

  // limit of one bitmap search
  pure def searchLimit(tick: int, s: int, up: bool): int =
    // ticks of a pool are multiples of s, so tick / s is exact; an unaligned tick truncates
    val idx = if (tick >= 0) tick / s else -((-tick) / s)
    if (up) min2(idx + SEARCH_RANGE, MAX_TICK / s) * s
    else max2(idx - SEARCH_RANGE, -(MAX_TICK / s)) * s

  pure def aligned(tick: int, s: int): bool = abs(tick) % s == 0
  pure def tickOk(tick: int, s: int): bool =
    aligned(tick, s) and tick >= minTick(s) and tick <= maxTick(s)
}
