// -*- mode: Bluespec; -*-
// The public functions of the contract's maths, of the SDK (wasm crate) and of the decimal
// library: what each of them computes for all arguments, and laws their results obey.
// A list result [] means that the function fails.
module functions {
  import query.* from "./query"
  export query.*

  // -------------------------------------------------------------------- ticks ----
  pure def maxPrice(s: int): int = priceOfTick(maxTick(s))
  pure def minPrice(s: int): int = priceOfTick(minTick(s))
  pure val CHUNK = 64
  pure def slot(t: int, s: int): int = (t + MAX_TICK / s * s) / s
  pure def maxChunk(s: int): int = slot(maxTick(s), s) / CHUNK
  pure def placeOf(t: int, s: int): List[int] =
    if (not(aligned(t, s)) or abs(t) > MAX_TICK) [] else [slot(t, s) / CHUNK, slot(t, s) % CHUNK]
  pure def tickOfBit(c: int, b: int, s: int): int = (c * CHUNK + b - MAX_TICK / s) * s
  pure def ticksOk(lo: int, up: int, s: int): bool = lo <= up and tickOk(lo, s) and tickOk(up, s)

  // the tick of a price is the greatest multiple of s whose price does not exceed it
  pure def tickOfPrice(p: int, s: int, r: int, failed: bool): bool =
    if (not(priceInRange(p))) failed
    else
      not(failed) and aligned(r, s)
      and (if (r < MIN_TICK) r + s > MIN_TICK else priceOfTick(r) <= p)
      and (r + s > MAX_TICK or priceOfTick(r + s) > p)
  // prices grow from tick to tick by the factor sqrt(1.0001), up to the twelve decimals they are kept with
  pure def priceSteps(t: int, p: int, q: int): bool =
    q > p and abs(q * 1000000000 - p * 1000049999) <= p * 4 + 2 * PCT * 1000000000
  pure def fitsOf(t: int, s: int, p: int): int =
    if (t + s > MAX_TICK) (if (p == maxPrice(s)) 1 else 0)
    else
      val a = priceOfTick(t)
      val b = priceOfTick(t + s)
      if (a < 0 or b < 0) ERR else if (a <= p and p < b) 1 else 0

  // ------------------------------------------------------------------- search ----
  pure def nextOf(bits: Set[int], t: int, s: int): List[int] =
    val n = nearest(bits, t, s, false)
    if (n.found) [n.i] else []
  pure def prevOf(bits: Set[int], t: int, s: int): List[int] =
    val n = nearest(bits, t, s, true)
    if (n.found) [n.i] else []
  pure def closerOf(bits: Set[int], limit: int, xToY: bool, t: int, s: int): List[int] =
    val l = closerLimit(bits, limit, xToY, t, s)
    if (l.ok) [l.sp, l.i, l.k] else []
  pure def hasBit(bits: Set[int], t: int): bool = bits.contains(t)
  pure def notTwice(again: bool): bool = not(again)
  pure def flipped(ok: bool, was: bool, now: bool): bool = ok and now != was

  // -------------------------------------------------------------------- curve ----
  pure def stepOf(cur: int, target: int, l: int, amt: int, byIn: bool, fee: int): List[int] =
    val r = swapStep(cur, target, l, amt, byIn, fee)
    if (r.ok) [r.np, r.ain, r.aout, r.fee] else []

  // exact amounts between two prices, compared by cross-multiplication
  //   x: l * d * 10^24 / (10^6 * a * b)      y: l * d / 10^30
  pure val XUNIT = PRICE * LIQ
  pure def coversX(a: int, b: int, l: int, x: int): bool =
    x * LIQ * a * b + XUNIT >= l * abs(a - b) * PRICE
  pure def withinX(a: int, b: int, l: int, x: int): bool = x * LIQ * a * b <= l * abs(a - b) * PRICE
  pure def coversY(a: int, b: int, l: int, y: int): bool = y * XUNIT >= l * abs(a - b)
  pure def withinY(a: int, b: int, l: int, y: int): bool = y * XUNIT <= l * abs(a - b)

  pure def deltaXFair(a: int, b: int, l: int, up: bool, r: int): bool =
    if (up) coversX(a, b, l, r) and (r - 2) * (a * b / PRICE) * LIQ <= l * abs(a - b)
    else withinX(a, b, l, r) and (r + 2) * ceilDiv(a * b, PRICE) * LIQ + LIQ > l * abs(a - b)
  pure def deltaYFair(a: int, b: int, l: int, up: bool, r: int): bool =
    if (up) coversY(a, b, l, r) and (r == 0 or not(coversY(a, b, l, r - 1)))
    else withinY(a, b, l, r) and not(withinY(a, b, l, r + 1))

  // one step: never past its target or against it, never more than offered or asked, and the pool
  // gets at least the exact amount, gives at most the exact amount, and takes at least its fee
  pure def stepFair(cur: int, target: int, l: int, amt: int, byIn: bool, fee: int,
                    np: int, ain: int, aout: int, f: int): bool = and {
    (if (cur >= target) target <= np and np <= cur else cur <= np and np <= target),
    (if (byIn) ain + f <= amt or l == 0 else aout <= amt),
    (if (cur >= target) coversX(cur, np, l, ain) or l == 0 else coversY(cur, np, l, ain) or l == 0),
    (if (cur >= target) withinY(cur, np, l, aout) else withinX(cur, np, l, aout)),
    // (the input is rounded up, by at most one unit and a part in 10^13, at the expense of the fee)
    (f + 1 + ain / 10^13) * PCT >= ain * fee,
    // an exact-input step that stops short of its target has used everything up
    byIn and np != target implies ain + f == amt
  }

  pure def fromBigPrice(a: int, b: int): int = u128(a * b / PRICE)
  pure def fromBigPriceUp(a: int, b: int): int = if (a * b + PRICE - 1 > U256_MAX) ERR else u128(ceilDiv(a * b, PRICE))

  pure def rangeOf(tick: int, sp: int, l: int, add: bool, lo: int, up: int): List[int] =
    val r = rangeAmounts(tick, sp, l, add, lo, up)
    if (r.ok) [r.x, r.y, if (r.active) 1 else 0] else []

  pure def unclaimed(lo: int, x1: int, y1: int, hi: int, x2: int, y2: int, t: int, gx: int, gy: int, px: int, py: int, l: int): List[int] =
    val x = feeOfGrowth(wsub(growthInside(lo, x1, hi, x2, t, gx), px), l)
    val y = feeOfGrowth(wsub(growthInside(lo, y1, hi, y2, t, gy), py), l)
    if (x < 0 or y < 0) [] else [x, y]

  // --------------------------------------------------------- liquidity helpers ----
  // liquidity that an amount of x (of y) pays for, and the amount of the other token
  pure def liqByXAt(x: int, pl: int, ph: int, cur: int, up: bool): List[int] =
    if (pl < 0 or ph < 0 or ph <= cur) [] else
    val a = max2(pl, cur)
    val nom = u128(a * ph / PRICE)
    if (nom < 0 or a == ph) [] else
    val n = u256(x * nom * LIQ)
    if (n < 0) [] else
    val l = u128(n / (ph - a))
    if (l < 0) [] else
    if (cur < pl) [l, 0] else
    val y = u128(if (up) ceilDiv((cur - pl) * l, XUNIT) else (cur - pl) * l / XUNIT)
    if (y < 0) [] else [l, y]
  pure def liqByYAt(y: int, pl: int, ph: int, cur: int, up: bool): List[int] =
    if (pl < 0 or ph < 0 or cur <= pl) [] else
    val a = min2(ph, cur)
    val n = u256(y * XUNIT)
    if (n < 0 or a <= pl) [] else
    val l = u128(n / (a - pl))
    if (l < 0) [] else
    if (ph <= cur) [l, 0] else
    val den = u128(cur * ph / PRICE)
    if (den <= 0) [] else
    val x = u128(if (up) ceilDiv((ph - cur) * l, den * LIQ) else (ph - cur) * l / (den * LIQ))
    if (x < 0) [] else [l, x]
  pure def liqByX(x: int, lo: int, hi: int, cur: int, up: bool): List[int] = liqByXAt(x, priceOfTick(lo), priceOfTick(hi), cur, up)
  pure def liqByY(y: int, lo: int, hi: int, cur: int, up: bool): List[int] = liqByYAt(y, priceOfTick(lo), priceOfTick(hi), cur, up)
  pure def liqOf(x: int, y: int, lo: int, hi: int, cur: int, up: bool): List[int] =
    val pl = priceOfTick(lo)
    val ph = priceOfTick(hi)
    if (pl < 0 or ph < 0) [] else
    val bx = liqByXAt(x, pl, ph, cur, up)
    val by = liqByYAt(y, pl, ph, cur, up)
    if (ph <= cur) (if (by == []) [] else [by[0], by[1], y])
    else if (cur <= pl) (if (bx == []) [] else [bx[0], x, bx[1]])
    else if (bx == [] or by == []) []
    else if (by[0] < bx[0]) [by[0], by[1], y]
    else [bx[0], x, bx[1]]

  // what the contract charges for that liquidity at this price
  pure def clampTo(p: int, lo: int, hi: int): int = max2(lo, min2(hi, p))
  pure def costX(l: int, lo: int, hi: int, cur: int, up: bool): int =
    val c = clampTo(cur, priceOfTick(lo), priceOfTick(hi))
    deltaX(c, priceOfTick(hi), l, up)
  pure def costY(l: int, lo: int, hi: int, cur: int, up: bool): int =
    val c = clampTo(cur, priceOfTick(lo), priceOfTick(hi))
    deltaY(priceOfTick(lo), c, l, up)
  pure def near(r: int, up: bool, cu: int, cd: int): bool =
    // rounded up: what is charged, or one more; rounded down: between what is paid out and what is charged
    cu < 0 or (if (up) cu <= r and r <= cu + 1 else cd <= r and r <= cu)
  pure def byXFair(x: int, lo: int, hi: int, cur: int, up: bool, l: int, a: int): bool = and {
    costX(l, lo, hi, cur, true) <= x,
    { val more = costX(l + 1, lo, hi, cur, true)  more < 0 or more >= x },
    near(a, up, costY(l, lo, hi, cur, true), costY(l, lo, hi, cur, false))
  }
  pure def byYFair(y: int, lo: int, hi: int, cur: int, up: bool, l: int, a: int): bool = and {
    costY(l, lo, hi, cur, true) <= y,
    { val more = costY(l + 1, lo, hi, cur, true)  more < 0 or more >= y },
    near(a, up, costX(l, lo, hi, cur, true), costX(l, lo, hi, cur, false))
  }
  pure def liqAffordable(x: int, y: int, lo: int, hi: int, cur: int, up: bool, l: int, rx: int, ry: int): bool = and {
    costX(l, lo, hi, cur, true) <= x, costY(l, lo, hi, cur, true) <= y,
    rx <= x, ry <= y,
    if (up) costX(l, lo, hi, cur, true) <= rx and costY(l, lo, hi, cur, true) <= ry
    else costX(l, lo, hi, cur, false) <= rx and costY(l, lo, hi, cur, false) <= ry
  }

  // ------------------------------------------------------------------ decimals ----
  pure def dMul(a: int, b: int, one: int): int = if (a * b > U128_MAX) ERR else a * b / one
  pure def dMulUp(a: int, b: int, one: int): int = if (a * b + one - 1 > U128_MAX) ERR else ceilDiv(a * b, one)
  pure def dDiv(a: int, b: int, one: int): int = if (a * one > U128_MAX or b == 0) ERR else a * one / b
  pure def dDivUp(a: int, b: int, one: int): int = if (b == 0 or a * one + b - 1 > U128_MAX) ERR else ceilDiv(a * one, b)
  pure def dist(a: int, b: int): int = abs(a - b)
  pure def scaleFactor(k: int): int = if (k > 38) ERR else 10^k
  pure def rescale(v: int, sFrom: int, sTo: int): int =
    val f = scaleFactor(abs(sTo - sFrom))
    if (f < 0) ERR else if (sTo > sFrom) u128(v * f) else v / f
  // w: greatest value of the type that holds v
  pure def rescaleUp(v: int, sFrom: int, sTo: int, w: int): int =
    val f = scaleFactor(abs(sTo - sFrom))
    if (f < 0) ERR else if (sTo > sFrom) u128(v * f) else if (v + f - 1 > w) ERR else ceilDiv(v, f)
  pure def rescaleBig(v: int, sFrom: int, sTo: int): int =
    val f = scaleFactor(abs(sTo - sFrom))
    if (f < 0) ERR else if (sTo > sFrom) u256(v * f) else v / f
  pure def decimalOne(scale: int, one: int, almost: int, max: int): bool =
    one == 10^scale and almost == one - 1 and max == U128_MAX
  pure def printed(x: int, scale: int, int_: int, frac: int, len: int): bool =
    // "int.frac" with len digits after the point denotes the value
    int_ == x / 10^scale and frac * 10^scale == (x % 10^scale) * 10^len
  pure def toToken(n: int, d: int): int =
    if (d == 0 or n * PRICE > U320_MAX) ERR else
    val q = u256(n * PRICE / d)
    if (q < 0) ERR else u128(q / PRICE)
  pure def toTokenUp(n: int, d: int): int =
    if (d == 0 or n * PRICE + d - 1 > U320_MAX) ERR else
    val q = u256(ceilDiv(n * PRICE, d))
    if (q < 0 or q + PRICE - 1 > U256_MAX) ERR else u128(ceilDiv(q, PRICE))
  pure def toPrice(n: int, d: int): int = if (d == 0 or n * PRICE > U256_MAX) ERR else u128(n * PRICE / d)
  pure def toPriceUp(n: int, d: int, narrow: bool): int =
    if (d == 0 or n * PRICE + d - 1 > (if (narrow) U256_MAX else U320_MAX)) ERR else u128(ceilDiv(n * PRICE, d))

  // ---------------------------------------------------------------- simulation ----
  pure val SIM_MAX_CROSS = 173
  // what the contract would do with this swap on a pool with these ticks
  pure def simulated(net_: int -> (int, bool), liq: int, price: int, tick: int, fee: int, s: int,
                     xToY: bool, amt: int, byIn: bool, limit: int): List[int] =
    val key = { x: 0, y: 1, fee: fee, s: s }
    val p = { ...NOPOOL, liq: liq, sp: price, tick: tick }
    val ticks = net_.keys().mapBy(i => { ix: i, sign: net_.get(i)._2, lc: net_.get(i)._1, lg: net_.get(i)._1, sp: 0, fox: 0, foy: 0, so: 0 })
    // all of the fee to the protocol: fee growth is of no interest here
    val st: State = { admin: "", pfee: PCT, tiers: [], pools: Map(key -> p), ticks: Map(key -> ticks), bits: Map(key -> net_.keys()),
      pos: Map(), ops: Map(), bal: Map(), h: 0, t: 0 }
    val r = calcSwap(st, key, xToY, amt, byIn, limit)
    if (not(r.ok) or r.crossed.length() > SIM_MAX_CROSS) [] else [r.ain, r.aout, r.fee, price, r.pool.sp]

  // --------------------------------------------------------------------- views ----
  pure def tickMapOf(bits: Set[int], s: int, lo: int, up: int, xToY: bool): List[int] =
    if (not(tickNamed(lo, s)) or not(tickNamed(up, s))) [] else chunks(bits, s, lo, up, xToY)
  pure def ticksCount(bits: Set[int], s: int, lo: int, up: int): int =
    if (not(tickOk(lo, s)) or not(tickOk(up, s))) ERR
    else bits.filter(i => i >= lo and i <= up).size()
  pure def liquidityTicksOf(net_: int -> (int, bool), is_: List[int]): List[int] =
    if (is_.length() > LIQUIDITY_TICK_LIMIT or is_.select(i => not(net_.keys().contains(i))).length() > 0) []
    else is_.foldl([], (a, i) => a.concat([i, net_.get(i)._1, if (net_.get(i)._2) 1 else 0]))
  pure def positionTicksOf(ps: List[(int, int)], present: Set[int], offset: int): List[int] =
    if (offset > ps.length()) [ERR] else
    ps.slice(offset, ps.length()).foldl([], (a, p) =>
      if (a.length() >= POSITION_TICK_LIMIT) a
      else a.concat([p._1, p._2].select(i => present.contains(i))))
  pure def same(a: int): int = a
  pure def allTrue(b: bool): bool = b

  // ---------------------------------------------------------- keys and fee tiers ----
  pure def feeTier(fee: int, s: int): List[int] =
    if (s < 1 or s > 100 or fee > PCT) [] else [fee, s]
  // byte order
  pure def bytesBefore(a: List[int], b: List[int]): bool =
    val n = min2(a.length(), b.length())
    val r = range(0, n).foldl(0, (r, i) => if (r != 0) r else a[i] - b[i])
    if (r != 0) r < 0 else a.length() < b.length()
  pure def orderedPair(a: List[int], b: List[int]): List[List[int]] =
    if (a == b) [] else if (bytesBefore(a, b)) [a, b] else [b, a]

  // --------------------------------------------------------------- parts of the SDK ----
  pure def constant(name: str): int =
    if (name == "get_tick_search_range") 256
    else if (name == "get_chunk_size") CHUNK
    else if (name == "get_max_tick_cross") SIM_MAX_CROSS
    else if (name == "get_max_tickmap_query_size") TICKMAP_LIMIT
    else if (name == "get_liquidity_ticks_limit") LIQUIDITY_TICK_LIMIT
    else if (name == "get_max_pool_keys_returned") 220
    else if (name == "get_max_pool_pairs_returned") 126
    else if (name == "MAX_TICK") MAX_TICK
    else if (name == "MIN_TICK") MIN_TICK
    else if (name == "MAX_SQRT_PRICE") MAX_SQRT_PRICE
    else if (name == "MIN_SQRT_PRICE") MIN_SQRT_PRICE
    else ERR
  pure def poolWith(tick: int, sp: int, liq: int, l: int, add: bool, lo: int, up: int): List[int] =
    val r = rangeAmounts(tick, sp, l, add, lo, up)
    if (not(r.ok)) [] else
    val l2 = if (not(r.active)) liq else u128(if (add) liq + l else liq - l)
    if (l2 < 0) [] else [r.x, r.y, l2]
  pure def crossedTick(tick: int, liq: int, gx: int, gy: int, start: int, i: int, sign: bool, lc: int,
                       fox: int, foy: int, so: int, now: int): List[int] =
    if (now < start) [] else
    val c = crossTick({ ...NOPOOL, liq: liq, tick: tick, fgx: gx, fgy: gy, start: start },
                      { ix: i, sign: sign, lc: lc, lg: lc, sp: 0, fox: fox, foy: foy, so: so }, i, now)
    if (not(c.ok)) [] else [c.pool.liq, c.tick.fox, c.tick.foy, c.tick.so, c.pool.last]
  pure def crossedLiquidity(tick: int, liq: int, i: int, sign: bool, lc: int): int =
    if ((tick >= i) != sign) u128(liq + lc) else u128(liq - lc)
}
