// -*- mode: Bluespec; -*-
// Constant-product maths of one price range, and fee growth.
module clamm {
  import num.* from "./num"
  import tickmath.* from "./tickmath"
  export num.*
  export tickmath.*

  // ---- token amounts between two prices -------------------------------------
  // dx = L * (pb - pa) / (pa * pb)
  pure def deltaX(a: int, b: int, l: int, up: bool): int =
    if (a < 0 or b < 0 or l < 0) ERR else
    val nom = mulToValue(abs(a - b), l, LIQ)
    val den = if (up) mulToValue(a, b, PRICE) else mulToValueUp(a, b, PRICE)
    if (nom < 0 or den <= 0) ERR else
    val num320 = nom * PRICE
    if (num320 > U320_MAX) ERR else
    if (up)
      val q = u256(ceilDiv(num320, den))
      if (q < 0 or num320 + den - 1 > U320_MAX or q + PRICE - 1 > U256_MAX) ERR
      else u128(ceilDiv(q, PRICE))
    else
      val q = u256(num320 / den)
      if (q < 0) ERR else u128(q / PRICE)

  // dy = L * (pb - pa)
  pure def deltaY(a: int, b: int, l: int, up: bool): int =
    if (a < 0 or b < 0 or l < 0) ERR else
    val v = if (up) mulToValueUp(abs(a - b), l, LIQ) else mulToValue(abs(a - b), l, LIQ)
    if (v < 0) ERR else
    if (up) (if (v + PRICE - 1 > U256_MAX) ERR else u128(ceilDiv(v, PRICE)))
    else u128(v / PRICE)

  // ---- next price -----------------------------------------------------------
  // price after adding/removing x (rounded up)
  pure def nextPriceX(sp: int, l: int, x: int, add: bool): int =
    if (sp < 0 or l < 0 or x < 0) ERR else
    if (x == 0) sp else
    val lp = u256(l * (PRICE / LIQ))
    val sx = u256(sp * x)
    if (lp < 0 or sx < 0) ERR else
    val den = if (add) u256(lp + sx) else u256(lp - sx)
    val nom = mulToValueUp(sp, l, LIQ)
    if (den <= 0 or nom < 0) ERR else
    val n = nom * PRICE
    if (n > U320_MAX or n + den - 1 > U320_MAX) ERR else u128(ceilDiv(n, den))

  // price after adding/removing y (rounded down)
  pure def nextPriceY(sp: int, l: int, y: int, add: bool): int =
    if (sp < 0 or l <= 0 or y < 0) ERR else
    val num_ = u256(y * PRICE)
    val den = u256(l * (PRICE / LIQ))
    if (num_ < 0 or den <= 0) ERR else
    if (add)
      val n = u256(num_ * PRICE)
      if (n < 0) ERR else
      val q = u128(n / den)
      add128(sp, q)
    else
      val n = num_ * PRICE
      if (n + den - 1 > U320_MAX) ERR else
      val q = u128(ceilDiv(n, den))
      sub128(sp, q)

  pure def nextPriceIn(sp: int, l: int, amt: int, xToY: bool): int =
    if (xToY) nextPriceX(sp, l, amt, true) else nextPriceY(sp, l, amt, true)
  pure def nextPriceOut(sp: int, l: int, amt: int, xToY: bool): int =
    if (xToY) nextPriceY(sp, l, amt, false) else nextPriceX(sp, l, amt, false)

  // ---- one swap step ----------------------------------------------------------
  type Step = { ok: bool, np: int, ain: int, aout: int, fee: int }
  pure val STEP_ERR: Step = { ok: false, np: 0, ain: 0, aout: 0, fee: 0 }

  pure def swapStep(cur: int, target: int, l: int, amt: int, byIn: bool, fee: int): Step =
    if (l == 0) { ok: true, np: target, ain: 0, aout: 0, fee: 0 } else
    val xToY = cur >= target
    val net = if (byIn) bigMul(amt, PCT - fee, PCT) else 0
    val full =
      if (byIn) (if (xToY) deltaX(target, cur, l, true) else deltaY(cur, target, l, true))
      else (if (xToY) deltaY(target, cur, l, false) else deltaX(cur, target, l, false))
    if (full < 0 or net < 0 or (byIn and fee > PCT)) STEP_ERR else
    val got =
      if (byIn) (if (net >= full) target else nextPriceIn(cur, l, net, xToY))
      else (if (amt >= full) target else nextPriceOut(cur, l, amt, xToY))
    if (got < 0) STEP_ERR else
    // `full` is rounded up, so less can be enough; a step never passes its target
    val nxt = if (xToY) max2(got, target) else min2(got, target)
    val notMax = target != nxt
    val ain =
      if (byIn and not(notMax)) min2(full, net)
      else if (xToY) deltaX(nxt, cur, l, true) else deltaY(cur, nxt, l, true)
    val aout0 =
      if (not(byIn) and not(notMax)) full
      else if (xToY) deltaY(nxt, cur, l, false) else deltaX(cur, nxt, l, false)
    if (ain < 0 or aout0 < 0) STEP_ERR else
    val aout = if (not(byIn) and aout0 > amt) amt else aout0
    val f = if (byIn and notMax) sub128(amt, ain) else bigMulUp(ain, fee, PCT)
    if (f < 0) STEP_ERR else { ok: true, np: nxt, ain: ain, aout: aout, fee: f }

  // does the remaining amount move the price off sp at all? 1, 0 or ERR
  pure def movesPrice(amt: int, sp: int, l: int, fee: int, byIn: bool, xToY: bool): int =
    if (l == 0) 1 else
    val n =
      if (byIn) nextPriceIn(sp, l, bigMul(amt, PCT - fee, PCT), xToY)
      else nextPriceOut(sp, l, amt, xToY)
    if (n < 0) ERR else if (n != sp) 1 else 0

  // ---- liquidity <-> amounts for a range ---------------------------------------
  type Amounts = { ok: bool, x: int, y: int, active: bool }
  pure def rangeAmounts(tick: int, sp: int, l: int, add: bool, lo: int, up: int): Amounts =
    val bad = { ok: false, x: 0, y: 0, active: false }
    if (up < lo) bad else
    val pl = priceOfTick(lo)
    val pu = priceOfTick(up)
    if (pl < 0 or pu < 0) bad else
    val x = if (tick < lo) deltaX(pl, pu, l, add)
            else if (tick < up) deltaX(sp, pu, l, add) else 0
    val y = if (tick < lo) 0
            else if (tick < up) deltaY(pl, sp, l, add) else deltaY(pl, pu, l, add)
    if (x < 0 or y < 0) bad
    else { ok: true, x: x, y: y, active: tick >= lo and tick < up }

  pure def maxLiqPerTick(s: int): int = U128_MAX / ((2 * MAX_TICK + 1) / s)

  pure def minAmountOut(expected: int, slippage: int): int =
    if (slippage > PCT) ERR else bigMulUp(expected, PCT - slippage, PCT)

  // ---- fee growth ---------------------------------------------------------------
  // growth per unit of liquidity that a fee produces
  pure def growthOfFee(l: int, fee: int): int =
    if (l == 0) ERR else
    val a = u256(fee * FG)
    if (a < 0) ERR else
    val b = u256(a * LIQ)
    if (b < 0) ERR else u128(b / l)
  // fee owed to l units of liquidity for that growth
  pure def feeOfGrowth(g: int, l: int): int =
    if (g < 0 or l < 0) ERR else u128((g * l) / (FG * LIQ))

  pure def growthInside(lo: int, loOut: int, up: int, upOut: int, tick: int, global: int): int =
    val below = if (tick >= lo) loOut else wsub(global, loOut)
    val above = if (tick < up) upOut else wsub(global, upOut)
    wsub(wsub(global, below), above)

  pure def secondsPerLiquidity(l: int, now: int, last: int): int =
    if (now <= last or l == 0) ERR else u128((now - last) * PRICE * LIQ / l)
}
