// -*- mode: Bluespec; -*-
// The oraiswap-v3 contract: state, transitions and queries.
//
// `apply(st, op)` is the meaning of one transaction.  It is a total function: a
// transaction that the contract rejects (for whatever reason) leaves `st` as it is.
module dex {
  import clamm.* from "./clamm"
  export clamm.*

  // ------------------------------------------------------------------ types ----
  type Acct = str
  type Token = int          // tokens are numbered in the order of their names

  type Tier = { fee: int, s: int }
  type Key = { x: Token, y: Token, fee: int, s: int }

  type Pool = {
    liq: int, sp: int, tick: int,
    fgx: int, fgy: int,          // global fee growth
    fpx: int, fpy: int,          // protocol fee not yet withdrawn
    start: int, last: int,       // milliseconds
    recv: Acct
  }
  type Tick = {
    ix: int, sign: bool, lc: int,         // net liquidity: sign and magnitude
    lg: int, sp: int,
    fox: int, foy: int, so: int  // fee growth / seconds outside
  }
  type Exp = { k: str, v: int }  // "never" | "height" | "time" (ns)
  type Approval = { spender: Acct, exp: Exp }
  type Position = {
    key: Key, liq: int, lo: int, up: int,
    fx: int, fy: int,            // fee growth inside at the last touch
    blk: int, ox: int, oy: int,
    appr: List[Approval]
  }
  type Info = { native: bool, rank: int }   // rank: position in the contract's storage order

  type State = {
    admin: Acct, pfee: int, tiers: List[Tier],
    pools: Key -> Pool,
    ticks: Key -> (int -> Tick),
    bits: Key -> Set[int],
    pos: Acct -> List[Position],
    ops: (Acct, Acct) -> Exp,
    bal: (Token, Acct) -> int,
    h: int, t: int               // block height, block time in nanoseconds
  }

  // environment of a deployment
  pure val DEX: Acct = "dex"
  pure val DEPLOYER: Acct = "admin"
  // accounts that accept ReceiveNft
  pure val RECEIVERS: Set[Acct] = Set("vault")
  // the tokens of the deployment: IBC/AA, contract0..2 (cw20), ibc/AA, ibc/AAB (native unless cw20)
  pure val TOKENS: List[Info] = [
    { native: true, rank: 0 },
    { native: false, rank: 3 }, { native: false, rank: 4 }, { native: false, rank: 5 },
    { native: true, rank: 1 }, { native: true, rank: 2 }
  ]
  pure def isNative(t: Token): bool = TOKENS[t].native

  type Hop = { key: Key, xToY: bool }
  type Op =
    | CreatePool({ by: Acct, a: Token, b: Token, fee: int, s: int, sp: int, tick: int, funds: Token -> int })
    | AddFeeTier({ by: Acct, fee: int, s: int })
    | RemoveFeeTier({ by: Acct, fee: int, s: int })
    | ChangeAdmin({ by: Acct, to: Acct })
    | ChangeProtocolFee({ by: Acct, fee: int })
    | ChangeFeeReceiver({ by: Acct, key: Key, to: Acct })
    | WithdrawProtocolFee({ by: Acct, key: Key })
    | CreatePosition({ by: Acct, key: Key, lo: int, up: int, liq: int, smin: int, smax: int, funds: Token -> int, mint: bool })
    | RemovePosition({ by: Acct, idx: int })
    | Burn({ by: Acct, owner: Acct, idx: int })
    | ClaimFee({ by: Acct, idx: int })
    | TransferPosition({ by: Acct, idx: int, to: Acct })
    | TransferNft({ by: Acct, owner: Acct, idx: int, to: Acct })
    | SendNft({ by: Acct, owner: Acct, idx: int, to: Acct })
    | Approve({ by: Acct, owner: Acct, idx: int, spender: Acct, exp: Exp })
    | Revoke({ by: Acct, owner: Acct, idx: int, spender: Acct })
    | ApproveAll({ by: Acct, operator: Acct, exp: Exp })
    | RevokeAll({ by: Acct, operator: Acct })
    | Swap({ by: Acct, key: Key, xToY: bool, amt: int, byIn: bool, limit: int, funds: Token -> int })
    | SwapRoute({ by: Acct, amt: int, expected: int, slippage: int, hops: List[Hop], funds: Token -> int })
    | Advance({ dh: int, dt: int })
    | Migrate({ by: Acct })

  type Res = { ok: bool, st: State, out: List[int] }
  pure def reject(st: State): Res = { ok: false, st: st, out: [] }
  pure def done(st: State, out: List[int]): Res = { ok: true, st: st, out: out }

  pure def ms(st: State): int = st.t / 1000000

  // ------------------------------------------------------------- token moves ----
  type Move = { t: Token, from: Acct, to: Acct, amt: int }
  type Bal = { ok: bool, bal: (Token, Acct) -> int }

  pure def move(b: Bal, m: Move): Bal =
    if (not(b.ok)) b
    else if (m.amt == 0) b
    else if (b.bal.get((m.t, m.from)) < m.amt) { ok: false, bal: b.bal }
    else
      val b1 = b.bal.setBy((m.t, m.from), v => v - m.amt)
      { ok: true, bal: b1.setBy((m.t, m.to), v => v + m.amt) }

  pure def moves(bal: (Token, Acct) -> int, ms_: List[Move]): Bal =
    ms_.foldl({ ok: true, bal: bal }, (b, m) => move(b, m))

  // what the contract does to collect `amt` of token t from a sender who attached `funds`
  type Collect = { ok: bool, ms: List[Move] }
  pure def collect(t: Token, by: Acct, amt: int, funds: Token -> int): Collect =
    if (isNative(t))
      val have = if (funds.keys().contains(t)) funds.get(t) else 0
      if (have < amt) { ok: false, ms: [] }
      else { ok: true, ms: [{ t: t, from: DEX, to: by, amt: have - amt }] }
    else { ok: true, ms: [{ t: t, from: by, to: DEX, amt: amt }] }

  pure def payOut(t: Token, dst: Acct, amt: int): List[Move] = [{ t: t, from: DEX, to: dst, amt: amt }]

  // attached funds are credited before the contract runs
  pure def fundMoves(by: Acct, funds: Token -> int): List[Move] =
    funds.keys().fold([], (l, t) => l.append({ t: t, from: by, to: DEX, amt: funds.get(t) }))

  // ------------------------------------------------------------------- ticks ----
  type PoolR = { ok: bool, pool: Pool }
  type TickR = { ok: bool, tick: Tick }

  pure def newTick(i: int, p: Pool, now: int): Tick = {
    val below = i <= p.tick
    { ix: i, sign: true, lc: 0, lg: 0, sp: priceOfTick(i),
      fox: if (below) p.fgx else 0, foy: if (below) p.fgy else 0,
      so: if (below) now - p.start else 0 }
  }

  // net liquidity of a tick as a signed number
  pure def net(t: Tick): int = if (t.sign) t.lc else -t.lc

  pure def updateTick(t: Tick, l: int, cap: int, upper: bool, deposit: bool): TickR =
    val lg = if (deposit) t.lg + l else t.lg - l
    if (lg < 0 or lg > U128_MAX or (deposit and lg >= cap)) { ok: false, tick: t } else
    val plus = deposit != upper
    if (t.sign != plus)
      if (t.lc > l) { ok: true, tick: { ...t, lg: lg, lc: t.lc - l } }
      else { ok: true, tick: { ...t, lg: lg, lc: l - t.lc, sign: not(t.sign) } }
    else if (t.lc + l > U128_MAX) { ok: false, tick: t }
    else { ok: true, tick: { ...t, lg: lg, lc: t.lc + l } }

  pure def crossTick(p: Pool, t: Tick, i: int, now: int): { ok: bool, pool: Pool, tick: Tick } =
    val t2 = { ...t, fox: wsub(p.fgx, t.fox), foy: wsub(p.fgy, t.foy),
               so: wsub64(now - p.start, t.so) }
    val l = if ((p.tick >= i) != t.sign) u128(p.liq + t.lc) else u128(p.liq - t.lc)
    if (l < 0) { ok: false, pool: p, tick: t }
    else { ok: true, pool: { ...p, liq: l, last: now }, tick: t2 }

  // -------------------------------------------------------------------- fees ----
  pure def addFee(p: Pool, amt: int, inX: bool, pfee: int): PoolR =
    val prot = bigMulUp(amt, pfee, PCT)
    if (prot < 0 or prot > amt) { ok: false, pool: p } else
    if (amt == 0 or p.liq == 0) { ok: true, pool: p } else
    val g = growthOfFee(p.liq, amt - prot)
    val f = add128(if (inX) p.fpx else p.fpy, prot)
    if (g < 0 or f < 0) { ok: false, pool: p } else
    if (inX) { ok: true, pool: { ...p, fgx: wadd(p.fgx, g), fpx: f } }
    else { ok: true, pool: { ...p, fgy: wadd(p.fgy, g), fpy: f } }

  // -------------------------------------------------------------------- swap ----
  type Limit = { ok: bool, sp: int, i: int, k: int }   // k: 0 price limit, 1 initialised tick, 2 search limit
  pure val NO_LIMIT: Limit = { ok: false, sp: 0, i: 0, k: 0 }

  pure def setMax(s: Set[int], d: int): int = s.fold(d, (a, b) => if (b > a) b else a)
  pure def setMin(s: Set[int], d: int): int = s.fold(d, (a, b) => if (b < a) b else a)

  // nearest initialised tick in the direction of the trade, one search window away at most
  pure def nearest(bits: Set[int], tick: int, s: int, xToY: bool): { found: bool, i: int } =
    val lim = searchLimit(tick, s, not(xToY))
    val c = if (xToY) bits.filter(b => b <= tick and b >= lim)
            else bits.filter(b => b > tick and b <= lim)
    if (c == Set()) { found: false, i: lim }
    else { found: true, i: if (xToY) setMax(c, lim) else setMin(c, lim) }

  pure def closerLimit(bits: Set[int], limit: int, xToY: bool, tick: int, s: int): Limit =
    val n = nearest(bits, tick, s, xToY)
    if (not(n.found) and n.i == tick) NO_LIMIT else
    val sp = priceOfTick(n.i)
    if (sp < 0) NO_LIMIT
    else if ((xToY and sp > limit) or (not(xToY) and sp <= limit))
      { ok: true, sp: sp, i: n.i, k: if (n.found) 1 else 2 }
    else { ok: true, sp: limit, i: 0, k: 0 }

  type SwapR = {
    ok: bool, fin: bool, pool: Pool, ticks: int -> Tick,
    rem: int, ain: int, aout: int, fee: int, crossed: List[int]
  }

  pure def swapIter(a: SwapR, key: Key, bits: Set[int], xToY: bool, byIn: bool, limit: int, pfee: int, now: int): SwapR =
    if (a.fin) a else
    val bad = { ...a, ok: false, fin: true }
    val p = a.pool
    val lim = closerLimit(bits, limit, xToY, p.tick, key.s)
    if (not(lim.ok)) bad else
    val r = swapStep(p.sp, lim.sp, p.liq, a.rem, byIn, key.fee)
    if (not(r.ok)) bad else
    val rem = if (byIn) sub128(a.rem, add128(r.ain, r.fee)) else sub128(a.rem, r.aout)
    if (rem < 0) bad else
    val f = addFee(p, r.fee, xToY, pfee)
    val ain = add128(a.ain, add128(r.ain, r.fee))
    val aout = add128(a.aout, r.aout)
    val fee = add128(a.fee, r.fee)
    if (not(f.ok) or ain < 0 or aout < 0 or fee < 0) bad else
    val p2 = { ...f.pool, sp: r.np }
    if (r.np == limit and rem != 0) bad else
    val b = { ...a, pool: p2, rem: rem, ain: ain, aout: aout, fee: fee }
    if (lim.k == 0 or lim.sp != r.np)
      if (not(priceInRange(r.np))) bad else
      endIter({ ...b, pool: { ...p2, tick: if (xToY) min2(tickAt(r.np, key.s), p2.tick) else tickAt(r.np, key.s) } }, key, xToY)
    else
      val mv = movesPrice(rem, r.np, p2.liq, key.fee, byIn, xToY)
      if (mv < 0) bad else
      val tick = if (xToY and mv == 1) lim.i - key.s else lim.i
      if (lim.k == 2) endIter({ ...b, pool: { ...p2, tick: tick } }, key, xToY)
      else if (not(a.ticks.keys().contains(lim.i))) bad
      else if (not(xToY) or mv == 1)
        val c = crossTick(p2, a.ticks.get(lim.i), lim.i, now)
        if (not(c.ok)) bad else
        endIter({ ...b, pool: { ...c.pool, tick: tick }, ticks: a.ticks.set(lim.i, c.tick),
                  crossed: a.crossed.append(lim.i) }, key, xToY)
      else if (rem != 0)
        // too little is left to move the price below the tick: it is kept as a fee
        if (byIn)
          val g = addFee(p2, rem, xToY, pfee)
          val ain2 = add128(ain, rem)
          if (not(g.ok) or ain2 < 0) bad else
          endIter({ ...b, pool: { ...g.pool, tick: tick }, rem: 0, ain: ain2 }, key, xToY)
        else endIter({ ...b, pool: { ...p2, tick: tick }, rem: 0 }, key, xToY)
      else endIter({ ...b, pool: { ...p2, tick: tick } }, key, xToY)

  pure def endIter(b: SwapR, key: Key, xToY: bool): SwapR =
    val out = if (xToY) b.pool.tick <= minTick(key.s) else b.pool.tick >= maxTick(key.s)
    if (out) { ...b, ok: false, fin: true }
    else if (b.rem == 0) { ...b, ok: b.aout != 0, fin: true }
    else b

  pure def calcSwap(st: State, key: Key, xToY: bool, amt: int, byIn: bool, limit: int): SwapR =
    if (not(st.pools.keys().contains(key)))
      { ok: false, fin: true, pool: NOPOOL, ticks: Map(), rem: 0, ain: 0, aout: 0, fee: 0, crossed: [] }
    else
    val p = st.pools.get(key)
    val ticks = st.ticks.get(key)
    val bits = st.bits.get(key)
    val a = { ok: true, fin: false, pool: p, ticks: ticks, rem: amt, ain: 0, aout: 0, fee: 0, crossed: [] }
    val badLimit = if (xToY) p.sp <= limit or limit > MAX_SQRT_PRICE
                   else p.sp >= limit or limit < MIN_SQRT_PRICE
    if (amt == 0 or badLimit) { ...a, ok: false, fin: true } else
    val dist = if (xToY) p.tick - minTick(key.s) else maxTick(key.s) - p.tick
    val bound = bits.size() + dist / (SEARCH_RANGE * key.s) + 4
    val r = range(0, bound).foldl(a, (acc, i) =>
      swapIter(acc, key, bits, xToY, byIn, limit, st.pfee, ms(st)))
    if (r.fin) r else { ...r, ok: false, fin: true }

  pure val NOPOOL: Pool = { liq: 0, sp: 0, tick: 0, fgx: 0, fgy: 0, fpx: 0, fpy: 0, start: 0, last: 0, recv: "" }

  pure def tokenIn(key: Key, xToY: bool): Token = if (xToY) key.x else key.y
  pure def tokenOut(key: Key, xToY: bool): Token = if (xToY) key.y else key.x

  type HopR = { ok: bool, st: State, ms: List[Move], ain: int, aout: int }
  // state change and token moves of one swap (the moves are executed later)
  pure def swapHop(st: State, by: Acct, key: Key, xToY: bool, amt: int, byIn: bool, limit: int, funds: Token -> int): HopR =
    val r = calcSwap(st, key, xToY, amt, byIn, limit)
    if (not(r.ok)) { ok: false, st: st, ms: [], ain: 0, aout: 0 } else
    val c = collect(tokenIn(key, xToY), by, r.ain, funds)
    if (not(c.ok)) { ok: false, st: st, ms: [], ain: 0, aout: 0 } else
    { ok: true, ain: r.ain, aout: r.aout,
      st: { ...st, pools: st.pools.set(key, r.pool), ticks: st.ticks.set(key, r.ticks) },
      ms: c.ms.concat(payOut(tokenOut(key, xToY), by, r.aout)) }

  // run the token moves of a transaction: attached funds first
  pure def settle(st0: State, st1: State, by: Acct, funds: Token -> int, ms_: List[Move], out: List[int]): Res =
    val b = moves(st1.bal, fundMoves(by, funds).concat(ms_))
    if (b.ok) done({ ...st1, bal: b.bal }, out) else reject(st0)

  pure def doSwap(st: State, by: Acct, key: Key, xToY: bool, amt: int, byIn: bool, limit: int, funds: Token -> int): Res =
    val r = swapHop(st, by, key, xToY, amt, byIn, limit, funds)
    if (not(r.ok)) reject(st) else settle(st, r.st, by, funds, r.ms, [r.ain, r.aout])

  pure def routeLimit(xToY: bool): int = if (xToY) MIN_SQRT_PRICE else MAX_SQRT_PRICE

  pure def doRoute(st: State, by: Acct, amt: int, expected: int, slippage: int, hops: List[Hop], funds: Token -> int): Res =
    val r = hops.foldl({ ok: true, st: st, ms: [], amt: amt, funds: funds }, (a, h) =>
      if (not(a.ok)) a else
      val s = swapHop(a.st, by, h.key, h.xToY, a.amt, true, routeLimit(h.xToY), a.funds)
      val tin = tokenIn(h.key, h.xToY)
      { ok: s.ok, st: s.st, ms: a.ms.concat(s.ms), amt: s.aout,
        // attached funds of the input token are spent or refunded by this hop
        funds: a.funds.keys().exclude(Set(tin)).mapBy(t => a.funds.get(t)) })
    val floor = minAmountOut(expected, slippage)
    if (not(r.ok) or floor < 0 or r.amt < floor) reject(st)
    else settle(st, r.st, by, funds, r.ms, [r.amt])

  // --------------------------------------------------------------- positions ----
  type Touch = { ok: bool, pos: Position, pool: Pool, lo: Tick, up: Tick, x: int, y: int }

  // change a position's liquidity by l (add or remove) and settle its fees
  pure def modify(q: Position, p: Pool, lo: Tick, up: Tick, l: int, add: bool, now: int): Touch =
    val bad = { ok: false, pos: q, pool: p, lo: lo, up: up, x: 0, y: 0 }
    val cap = maxLiqPerTick(q.key.s)
    val lo2 = updateTick(lo, l, cap, false, add)
    val up2 = updateTick(up, l, cap, true, add)
    if (not(lo2.ok) or not(up2.ok)) bad else
    val gx = growthInside(q.lo, lo.fox, q.up, up.fox, p.tick, p.fgx)
    val gy = growthInside(q.lo, lo.foy, q.up, up.foy, p.tick, p.fgy)
    if (l == 0 and q.liq == 0) bad else
    val ox = add128(q.ox, feeOfGrowth(wsub(gx, q.fx), q.liq))
    val oy = add128(q.oy, feeOfGrowth(wsub(gy, q.fy), q.liq))
    val liq = if (add) u128(q.liq + l) else u128(q.liq - l)
    val am = rangeAmounts(p.tick, p.sp, l, add, q.lo, q.up)
    if (ox < 0 or oy < 0 or liq < 0 or not(am.ok)) bad else
    val pl = if (not(am.active)) p.liq else if (add) u128(p.liq + l) else u128(p.liq - l)
    if (pl < 0) bad else
    { ok: true, pos: { ...q, liq: liq, fx: gx, fy: gy, ox: ox, oy: oy },
      pool: { ...p, liq: pl, last: now }, lo: lo2.tick, up: up2.tick, x: am.x, y: am.y }

  pure def createPosition(st: State, by: Acct, key: Key, lo: int, up: int, l: int, smin: int, smax: int, funds: Token -> int): Res =
    if (l == 0 or lo == up or not(st.pools.keys().contains(key))) reject(st) else
    val p = st.pools.get(key)
    val ticks = st.ticks.get(key)
    val bits = st.bits.get(key)
    val now = ms(st)
    // ticks come into existence on demand
    val needLo = not(ticks.keys().contains(lo))
    val needUp = not(ticks.keys().contains(up))
    if ((needLo and (not(tickOk(lo, key.s)) or bits.contains(lo))) or
        (needUp and (not(tickOk(up, key.s)) or bits.contains(up)))) reject(st) else
    if (p.sp < smin or p.sp > smax) reject(st) else
    val q: Position = { key: key, liq: 0, lo: lo, up: up, fx: 0, fy: 0, blk: st.h, ox: 0, oy: 0, appr: [] }
    val tlo = if (needLo) newTick(lo, p, now) else ticks.get(lo)
    val tup = if (needUp) newTick(up, p, now) else ticks.get(up)
    val m = modify(q, p, tlo, tup, l, true, now)
    if (not(m.ok)) reject(st) else
    val cx = collect(key.x, by, m.x, funds)
    val cy = collect(key.y, by, m.y, funds)
    if (not(cx.ok) or not(cy.ok)) reject(st) else
    val st1 = { ...st,
      pools: st.pools.set(key, m.pool),
      ticks: st.ticks.set(key, ticks.put(lo, m.lo).put(up, m.up)),
      bits: st.bits.set(key, bits.union(Set(lo, up))),
      pos: st.pos.setBy(by, l_ => l_.append(m.pos)) }
    settle(st, st1, by, funds, cx.ms.concat(cy.ms), [])

  pure def hasPos(st: State, owner: Acct, idx: int): bool =
    st.pos.keys().contains(owner) and idx >= 0 and idx < st.pos.get(owner).length()

  // take entry idx out of an owner's list: the last entry moves into its place
  pure def takeOut(ps: List[Position], idx: int): List[Position] =
    val n = ps.length() - 1
    if (idx == n) ps.slice(0, n) else ps.replaceAt(idx, ps[n]).slice(0, n)

  pure def dropTick(ticks: int -> Tick, i: int, t: Tick): int -> Tick =
    if (t.lg == 0) ticks.keys().exclude(Set(i)).mapBy(j => ticks.get(j)) else ticks.set(i, t)

  // the owner of position idx withdraws it; tokens go to the owner
  pure def removePosition(st: State, owner: Acct, idx: int): Res =
    if (not(hasPos(st, owner, idx))) reject(st) else
    val q = st.pos.get(owner)[idx]
    if (not(st.pools.keys().contains(q.key))) reject(st) else
    val ticks = st.ticks.get(q.key)
    if (not(ticks.keys().contains(q.lo)) or not(ticks.keys().contains(q.up))) reject(st) else
    val m = modify(q, st.pools.get(q.key), ticks.get(q.lo), ticks.get(q.up), q.liq, false, ms(st))
    if (not(m.ok)) reject(st) else
    val x = add128(m.x, m.pos.ox)
    val y = add128(m.y, m.pos.oy)
    if (x < 0 or y < 0) reject(st) else
    val gone = Set(q.lo, q.up).filter(i => if (i == q.lo) m.lo.lg == 0 else m.up.lg == 0)
    if (exists_missing(gone, st.bits.get(q.key))) reject(st) else
    val st1 = { ...st,
      pools: st.pools.set(q.key, m.pool),
      ticks: st.ticks.set(q.key, dropTick(dropTick(ticks, q.lo, m.lo), q.up, m.up)),
      bits: st.bits.setBy(q.key, b => b.exclude(gone)),
      pos: st.pos.setBy(owner, l => takeOut(l, idx)) }
    settle(st, st1, owner, Map(), payOut(q.key.x, owner, x).concat(payOut(q.key.y, owner, y)), [])

  pure def exists_missing(a: Set[int], b: Set[int]): bool = a.exists(i => not(b.contains(i)))

  pure def claimFee(st: State, owner: Acct, idx: int): Res =
    if (not(hasPos(st, owner, idx))) reject(st) else
    val q = st.pos.get(owner)[idx]
    if (not(st.pools.keys().contains(q.key))) reject(st) else
    val ticks = st.ticks.get(q.key)
    if (not(ticks.keys().contains(q.lo)) or not(ticks.keys().contains(q.up))) reject(st) else
    val m = modify(q, st.pools.get(q.key), ticks.get(q.lo), ticks.get(q.up), 0, true, ms(st))
    if (not(m.ok)) reject(st) else
    val st1 = { ...st,
      pools: st.pools.set(q.key, m.pool),
      ticks: st.ticks.set(q.key, ticks.set(q.lo, m.lo).set(q.up, m.up)),
      pos: st.pos.setBy(owner, l => l.replaceAt(idx, { ...m.pos, ox: 0, oy: 0 })) }
    settle(st, st1, owner, Map(),
      payOut(q.key.x, owner, m.pos.ox).concat(payOut(q.key.y, owner, m.pos.oy)), [m.pos.ox, m.pos.oy])

  // --------------------------------------------------------------------- NFT ----
  pure def expired(st: State, e: Exp): bool =
    if (e.k == "height") st.h >= e.v else if (e.k == "time") st.t >= e.v else false

  pure def isOperator(st: State, owner: Acct, who: Acct): bool =
    st.ops.keys().contains((owner, who)) and not(expired(st, st.ops.get((owner, who))))

  pure def mayApprove(st: State, owner: Acct, who: Acct): bool =
    who == owner or isOperator(st, owner, who)
  pure def maySend(st: State, owner: Acct, idx: int, who: Acct): bool = or {
    mayApprove(st, owner, who),
    st.pos.get(owner)[idx].appr.select(a => a.spender == who and not(expired(st, a.exp))).length() > 0
  }

  pure def hand(st: State, owner: Acct, idx: int, dst: Acct): State =
    val q = { ...st.pos.get(owner)[idx], appr: [] }
    val without = st.pos.setBy(owner, l => takeOut(l, idx))
    { ...st, pos: without.setBy(dst, l => l.append(q)) }

  pure def transferNft(st: State, by: Acct, owner: Acct, idx: int, dst: Acct): Res =
    if (not(hasPos(st, owner, idx))) reject(st)
    else if (not(maySend(st, owner, idx, by))) reject(st)
    else done(hand(st, owner, idx, dst), [])

  pure def setApproval(st: State, by: Acct, owner: Acct, idx: int, spender: Acct, add: bool, e: Exp): Res =
    if (not(hasPos(st, owner, idx))) reject(st)
    else if (not(mayApprove(st, owner, by)) or (add and expired(st, e))) reject(st)
    else
      val q = st.pos.get(owner)[idx]
      val kept = q.appr.select(a => a.spender != spender)
      val appr = if (add) kept.append({ spender: spender, exp: e }) else kept
      done({ ...st, pos: st.pos.setBy(owner, l => l.replaceAt(idx, { ...q, appr: appr })) }, [])

  // ------------------------------------------------------------ pools, config ----
  pure def hasTier(st: State, fee: int, s: int): bool =
    st.tiers.select(t => t.fee == fee and t.s == s).length() > 0

  // may a pool at this price start at this tick?
  pure def tickFits(tick: int, s: int, sp: int): bool =
    if (tick + s > MAX_TICK) sp == priceOfTick(maxTick(s))
    else sp >= priceOfTick(tick) and sp < priceOfTick(tick + s)

  pure def keyOf(a: Token, b: Token, fee: int, s: int): Key =
    if (a < b) { x: a, y: b, fee: fee, s: s } else { x: b, y: a, fee: fee, s: s }

  pure def createPool(st: State, a: Token, b: Token, fee: int, s: int, sp: int, tick: int): Res =
    val key = keyOf(a, b, fee, s)
    if (not(hasTier(st, fee, s)) or a == b or st.pools.keys().contains(key)) reject(st)
    else if (not(tickOk(tick, s))) reject(st)
    else if (not(tickFits(tick, s, sp))) reject(st)
    else done({ ...st,
      pools: st.pools.put(key, { ...NOPOOL, sp: sp, tick: tick, start: ms(st), last: ms(st), recv: st.admin }),
      ticks: st.ticks.put(key, Map()), bits: st.bits.put(key, Set()) }, [])

  pure def addTier(st: State, by: Acct, fee: int, s: int): Res =
    if (by != st.admin or s == 0 or s > 100 or fee >= PCT or hasTier(st, fee, s)) reject(st)
    else done({ ...st, tiers: st.tiers.append({ fee: fee, s: s }) }, [])

  pure def removeTier(st: State, by: Acct, fee: int, s: int): Res =
    if (by != st.admin or not(hasTier(st, fee, s))) reject(st)
    else done({ ...st, tiers: st.tiers.select(t => not(t.fee == fee and t.s == s)) }, [])

  pure def withdrawProtocolFee(st: State, by: Acct, key: Key): Res =
    if (not(st.pools.keys().contains(key))) reject(st) else
    val p = st.pools.get(key)
    if (p.recv != by) reject(st) else
    val st1 = { ...st, pools: st.pools.set(key, { ...p, fpx: 0, fpy: 0 }) }
    settle(st, st1, by, Map(), payOut(key.x, by, p.fpx).concat(payOut(key.y, by, p.fpy)), [])

  // ------------------------------------------------------------------- apply ----
  pure def apply(st: State, op: Op): Res =
    match op {
      | CreatePool(o) =>
          val r = createPool(st, o.a, o.b, o.fee, o.s, o.sp, o.tick)
          if (r.ok) settle(st, r.st, o.by, o.funds, [], []) else r
      | AddFeeTier(o) => addTier(st, o.by, o.fee, o.s)
      | RemoveFeeTier(o) => removeTier(st, o.by, o.fee, o.s)
      | ChangeAdmin(o) => if (o.by != st.admin) reject(st) else done({ ...st, admin: o.to }, [])
      | ChangeProtocolFee(o) => if (o.by != st.admin) reject(st) else done({ ...st, pfee: o.fee }, [])
      | ChangeFeeReceiver(o) =>
          if (o.by != st.admin or not(st.pools.keys().contains(o.key))) reject(st)
          else done({ ...st, pools: st.pools.setBy(o.key, p => { ...p, recv: o.to }) }, [])
      | WithdrawProtocolFee(o) => withdrawProtocolFee(st, o.by, o.key)
      | CreatePosition(o) => createPosition(st, o.by, o.key, o.lo, o.up, o.liq, o.smin, o.smax, o.funds)
      | RemovePosition(o) => removePosition(st, o.by, o.idx)
      | Burn(o) =>
          if (not(hasPos(st, o.owner, o.idx))) reject(st)
          else if (not(maySend(st, o.owner, o.idx, o.by))) reject(st)
          else removePosition(st, o.owner, o.idx)
      | ClaimFee(o) => claimFee(st, o.by, o.idx)
      | TransferPosition(o) =>
          if (not(hasPos(st, o.by, o.idx))) reject(st) else done(hand(st, o.by, o.idx, o.to), [])
      | TransferNft(o) => transferNft(st, o.by, o.owner, o.idx, o.to)
      | SendNft(o) =>
          if (not(RECEIVERS.contains(o.to))) reject(st) else
          val r = transferNft(st, o.by, o.owner, o.idx, o.to)
          // the receiver is told which of its tokens it got
          if (r.ok) { ...r, out: [r.st.pos.get(o.to).length() - 1] } else r
      | Approve(o) => setApproval(st, o.by, o.owner, o.idx, o.spender, true, o.exp)
      | Revoke(o) => setApproval(st, o.by, o.owner, o.idx, o.spender, false, { k: "never", v: 0 })
      | ApproveAll(o) =>
          if (expired(st, o.exp)) reject(st) else done({ ...st, ops: st.ops.put((o.by, o.operator), o.exp) }, [])
      | RevokeAll(o) =>
          done({ ...st, ops: st.ops.keys().exclude(Set((o.by, o.operator))).mapBy(k => st.ops.get(k)) }, [])
      | Swap(o) => doSwap(st, o.by, o.key, o.xToY, o.amt, o.byIn, o.limit, o.funds)
      | SwapRoute(o) => doRoute(st, o.by, o.amt, o.expected, o.slippage, o.hops, o.funds)
      // a new version of the code, put in place by whoever deployed it: keeps everything
      | Migrate(o) => if (o.by != DEPLOYER) reject(st) else done(st, [])
      | Advance(o) => done({ ...st, h: st.h + o.dh, t: st.t + o.dt }, [])
    }
}
