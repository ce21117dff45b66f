// -*- mode: Bluespec; -*-
// The guarantees, as predicates over states and over transitions (pre, op, ok, post).
// They say nothing about how the contract computes: they are evaluated on the states of the
// specification and, unchanged, on states observed from the implementation.
module props {
  import query.* from "./query"
  export query.*

  pure def allPos(st: State): List[Position] =
    st.pos.keys().fold([], (l, a) => l.concat(st.pos.get(a)))
  pure def sumOf(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def posIn(st: State, key: Key): List[Position] = allPos(st).select(p => p.key == key)
  pure def sumBy(l: List[Position], f: (Position) => int): int = l.foldl(0, (a, p) => a + f(p))

  // ------------------------------------------------------------ liquidity, ticks ----
  pure def inRange(p: Position, tick: int): bool = p.lo <= tick and tick < p.up

  // active liquidity of each pool = total liquidity of the positions whose range holds the current tick
  pure def activeLiquidity(st: State): bool =
    st.pools.keys().forall(k =>
      val p = st.pools.get(k)
      p.liq == sumBy(posIn(st, k), q => if (inRange(q, p.tick)) q.liq else 0))

  // gross and net liquidity of every tick record
  pure def tickLiquidity(st: State): bool =
    st.pools.keys().forall(k =>
      val ps = posIn(st, k)
      st.ticks.get(k).keys().forall(i =>
        val t = st.ticks.get(k).get(i)
        and {
          t.lg == sumBy(ps, q => if (q.lo == i or q.up == i) q.liq else 0),
          net(t) == sumBy(ps, q => if (q.lo == i) q.liq else if (q.up == i) -q.liq else 0),
          t.ix == i, t.sp == priceOfTick(i)
        }))

  // a tick is recorded, and marked in the bitmap, exactly while some position ends there
  pure def tickBitmap(st: State): bool =
    st.pools.keys().forall(k =>
      val ends = posIn(st, k).foldl(Set(), (s, q) => s.union(Set(q.lo, q.up)))
      and {
        st.ticks.get(k).keys() == ends, st.bits.get(k) == ends,
        ends.forall(i => tickOk(i, k.s))
      })

  // price and current tick of a pool belong together
  pure def priceTick(st: State): bool =
    st.pools.keys().forall(k =>
      val p = st.pools.get(k)
      and {
        tickOk(p.tick, k.s), priceInRange(p.sp),
        p.sp >= priceOfTick(p.tick),
        p.tick + k.s > MAX_TICK or p.sp <= priceOfTick(p.tick + k.s)
      })

  pure def liquidityCap(st: State): bool =
    st.pools.keys().forall(k =>
      st.ticks.get(k).keys().forall(i => st.ticks.get(k).get(i).lg < maxLiqPerTick(k.s)))

  pure def positionsWellFormed(st: State): bool =
    allPos(st).select(p => not(p.lo < p.up and p.liq > 0 and st.pools.keys().contains(p.key))).length() == 0

  // pools are keyed canonically, fee tiers are valid and listed once
  pure def poolKeys(st: State): bool =
    st.pools.keys().forall(k => k.x < k.y and k.s >= 1 and k.s <= 100 and k.fee < PCT)
  pure def tierList(st: State): bool = and {
    st.tiers.select(t => not(t.s >= 1 and t.s <= 100 and t.fee < PCT)).length() == 0,
    st.tiers.foldl(Set(), (s, t) => s.union(Set(t))).size() == st.tiers.length()
  }

  // fees and time recorded outside a tick never exceed what the pool has recorded in total
  pure def secondsOutside(st: State): bool =
    st.pools.keys().forall(k =>
      val p = st.pools.get(k)
      and {
        p.start <= p.last, p.last <= ms(st),
        st.ticks.get(k).keys().forall(i => st.ticks.get(k).get(i).so <= ms(st) - p.start)
      })

  // -------------------------------------------------------------------- solvency ----
  // what a position could withdraw now, principal and fees, rounded as the contract rounds
  pure def feesOwed(st: State, q: Position): { x: int, y: int } =
    val p = st.pools.get(q.key)
    val ts = st.ticks.get(q.key)
    if (not(ts.keys().contains(q.lo)) or not(ts.keys().contains(q.up))) { x: 0, y: 0 } else
    val lo = ts.get(q.lo)
    val up = ts.get(q.up)
    { x: wsub(growthInside(q.lo, lo.fox, q.up, up.fox, p.tick, p.fgx), q.fx),
      y: wsub(growthInside(q.lo, lo.foy, q.up, up.foy, p.tick, p.fgy), q.fy) }

  pure def claim(st: State, q: Position): { x: int, y: int } =
    val p = st.pools.get(q.key)
    val am = rangeAmounts(p.tick, p.sp, q.liq, false, q.lo, q.up)
    val g = feesOwed(st, q)
    { x: am.x + q.ox + g.x * q.liq / (FG * LIQ), y: am.y + q.oy + g.y * q.liq / (FG * LIQ) }

  pure def sumTok(st: State, t: Token, f: (Position) => { x: int, y: int }): int =
    allPos(st).foldl(0, (a, q) =>
      if (q.key.x == t) a + f(q).x else if (q.key.y == t) a + f(q).y else a)
  pure def protocolFees(st: State, t: Token): int =
    st.pools.keys().fold(0, (a, k) =>
      a + (if (k.x == t) st.pools.get(k).fpx else 0) + (if (k.y == t) st.pools.get(k).fpy else 0))

  pure def backed(st: State): bool =
    val live = allPos(st).foldl(Set(), (s, q) => s.union(Set(q.key.x, q.key.y)))
      .union(st.pools.keys().fold(Set(), (s, k) => s.union(Set(k.x, k.y))))
    live.forall(t =>
      st.bal.get((t, DEX)) >= protocolFees(st, t) + sumTok(st, t, q => claim(st, q)))

  // the same without any rounding, in units of 1/S: what the contract holds beyond its debts
  pure val S = 10^40
  pure def exactClaim(st: State, q: Position): { x: int, y: int } =
    val p = st.pools.get(q.key)
    val a = priceOfTick(q.lo)
    val b = priceOfTick(q.up)
    val c = max2(a, min2(p.sp, b))
    val g = feesOwed(st, q)
    { x: q.liq * (b - c) * 10^18 * S / (c * b) + q.ox * S + g.x * q.liq * S / (FG * LIQ),
      y: q.liq * (c - a) * (S / 10^30) + q.oy * S + g.y * q.liq * S / (FG * LIQ) }

  pure def surplus(st: State, t: Token): int =
    (st.bal.get((t, DEX)) - protocolFees(st, t)) * S - sumTok(st, t, q => exactClaim(st, q))

  pure val TOKEN_SET: Set[Token] = TOKENS.indices()
  // no operation makes the contract poorer relative to its debts
  pure def neverPoorer(pre: State, post: State): bool =
    // amounts are rounded up after the product with the price difference was rounded down to 24
    // decimals: per amount, less than 10^-24 / (p q) of one unit of a token is lost (p, q > 10^-5)
    val eps = 10^27 * (10 + allPos(pre).length() + allPos(post).length())
    TOKEN_SET.forall(t => surplus(post, t) >= surplus(pre, t) - eps)

  // and none makes it richer by more than rounding dust: what users pay is owed to someone.
  // steps: price ranges walked by the operation; coins of tokens that are not part of the
  // operation stay in the contract
  pure def stray(op: Op, t: Token): int =
    match op {
      | CreatePool(o) => if (o.funds.keys().contains(t)) o.funds.get(t) else 0
      | CreatePosition(o) =>
          if (o.funds.keys().contains(t) and t != o.key.x and t != o.key.y) o.funds.get(t) else 0
      | Swap(o) =>
          if (o.funds.keys().contains(t) and t != tokenIn(o.key, o.xToY)) o.funds.get(t) else 0
      | SwapRoute(o) =>
          if (o.funds.keys().contains(t) and
              o.hops.select(h => tokenIn(h.key, h.xToY) == t).length() == 0) o.funds.get(t) else 0
      | _ => 0
    }
  // the greatest liquidity and the lowest price the operation can meet
  pure def topLiquidity(st: State, ks: Set[Key]): int =
    ks.fold(0, (a, k) => if (not(st.pools.keys().contains(k))) a else
      st.ticks.get(k).keys().fold(max2(a, st.pools.get(k).liq), (b, i) =>
        max2(b, st.ticks.get(k).get(i).lg)))
  pure def lowPrice(st: State, ks: Set[Key]): int =
    ks.fold(MAX_SQRT_PRICE, (a, k) =>
      if (not(st.pools.keys().contains(k))) a else min2(a, st.pools.get(k).sp))
  pure def wrapped(pre: State, post: State): bool =
    pre.pools.keys().exists(k => post.pools.keys().contains(k) and
      (post.pools.get(k).fgx < pre.pools.get(k).fgx or post.pools.get(k).fgy < pre.pools.get(k).fgy))
  // the least liquidity an operation can meet in a pool
  pure def leastLiquidity(st: State, ks: Set[Key]): int =
    ks.fold(U128_MAX, (a, k) => if (not(st.pools.keys().contains(k))) a else
      val ts = st.ticks.get(k)
      ts.keys().fold(a, (b, i) =>
        val l = ts.keys().fold(0, (c, j) =>
          if (j <= i) (if (ts.get(j).sign) c + ts.get(j).lc else c - ts.get(j).lc) else c)
        if (l > 0) min2(b, l) else b))
  // fee growth counts modulo 2^128: one swap can take it round the whole circle, which loses
  // 2^128 / 10^34 units for each unit of liquidity; such fees are beyond what a pool can account for
  pure def rounds(st: State, ks: Set[Key], gain: int): bool =
    gain * 10^34 * 2 >= leastLiquidity(st, ks) * U128_MAX * S
  pure def dustOnly(pre: State, op: Op, post: State): bool =
    val steps = match op {
      | Swap(o) => 4 + pre.bits.get(o.key).size() +
          abs(post.pools.get(o.key).tick - pre.pools.get(o.key).tick) / (SEARCH_RANGE * o.key.s)
      | SwapRoute(o) => o.hops.foldl(4, (a, h) => a + 4 + pre.bits.get(h.key).size() +
          2 * MAX_TICK / (SEARCH_RANGE * h.key.s))
      | _ => 2
    }
    // per range walked: one unit for each rounded amount, the liquidity times one step of the
    // price grid (10^-24), and the rounding of the product of two prices an amount is divided by
    val ks = poolsOf(pre, op)
    val l = max2(topLiquidity(pre, ks), topLiquidity(post, ks))
    val c = max2(1, min2(lowPrice(pre, ks), lowPrice(post, ks)))
    val dust = steps * 4 * (1 + l / 10^30 + l * 10^18 / (c * c) + l * 10^42 / (c * c * c))
    wrapped(pre, post) or TOKEN_SET.forall(t =>
      val gain = surplus(post, t) - surplus(pre, t)
      gain <= (dust + stray(op, t)) * S or rounds(pre, ks, gain))

  // ------------------------------------------------------------- frame conditions ----
  pure def fundsOf(op: Op): Set[Token] =
    match op {
      | CreatePool(o) => o.funds.keys()
      | CreatePosition(o) => o.funds.keys()
      | Swap(o) => o.funds.keys()
      | SwapRoute(o) => o.funds.keys()
      | _ => Set()
    }
  pure def posKeys(st: State, owner: Acct, idx: int): Set[Key] =
    if (hasPos(st, owner, idx)) Set(st.pos.get(owner)[idx].key) else Set()
  // pools an operation may change
  pure def poolsOf(st: State, op: Op): Set[Key] =
    match op {
      | CreatePool(o) => Set(keyOf(o.a, o.b, o.fee, o.s))
      | ChangeFeeReceiver(o) => Set(o.key)
      | WithdrawProtocolFee(o) => Set(o.key)
      | CreatePosition(o) => Set(o.key)
      | RemovePosition(o) => posKeys(st, o.by, o.idx)
      | ClaimFee(o) => posKeys(st, o.by, o.idx)
      | Burn(o) => posKeys(st, o.owner, o.idx)
      | Swap(o) => Set(o.key)
      | SwapRoute(o) => o.hops.foldl(Set(), (s, h) => s.union(Set(h.key)))
      | _ => Set()
    }
  // accounts whose position lists it may change
  pure def ownersOf(op: Op): Set[Acct] =
    match op {
      | CreatePosition(o) => Set(o.by)
      | RemovePosition(o) => Set(o.by)
      | ClaimFee(o) => Set(o.by)
      | TransferPosition(o) => Set(o.by, o.to)
      | TransferNft(o) => Set(o.owner, o.to)
      | SendNft(o) => Set(o.owner, o.to)
      | Burn(o) => Set(o.owner)
      | Approve(o) => Set(o.owner)
      | Revoke(o) => Set(o.owner)
      | _ => Set()
    }
  pure def tokensOfKeys(ks: Set[Key]): Set[Token] = ks.fold(Set(), (s, k) => s.union(Set(k.x, k.y)))
  // accounts and tokens whose balances it may change
  pure def payersOf(op: Op): Set[Acct] =
    match op {
      | CreatePool(o) => Set(o.by, DEX)
      | WithdrawProtocolFee(o) => Set(o.by, DEX)
      | CreatePosition(o) => Set(o.by, DEX)
      | RemovePosition(o) => Set(o.by, DEX)
      | ClaimFee(o) => Set(o.by, DEX)
      | Burn(o) => Set(o.owner, DEX)
      | Swap(o) => Set(o.by, DEX)
      | SwapRoute(o) => Set(o.by, DEX)
      | _ => Set()
    }
  pure def framePools(pre: State, op: Op, post: State): bool =
    val may = poolsOf(pre, op)
    and {
      pre.pools.keys().subseteq(post.pools.keys()),
      post.pools.keys().forall(k => may.contains(k) or (and {
        pre.pools.keys().contains(k), pre.pools.get(k) == post.pools.get(k),
        pre.ticks.get(k) == post.ticks.get(k), pre.bits.get(k) == post.bits.get(k)
      }))
    }
  pure def framePositions(pre: State, op: Op, post: State): bool =
    pre.pos.keys().forall(a => ownersOf(op).contains(a) or pre.pos.get(a) == post.pos.get(a))
  pure def frameBalances(pre: State, op: Op, post: State): bool =
    val toks = tokensOfKeys(poolsOf(pre, op)).union(fundsOf(op))
    pre.bal.keys().forall(ta =>
      (payersOf(op).contains(ta._2) and toks.contains(ta._1)) or pre.bal.get(ta) == post.bal.get(ta))
  // tokens are neither made nor lost
  pure def supply(st: State, t: Token): int =
    st.bal.keys().fold(0, (a, ta) => if (ta._1 == t) a + st.bal.get(ta) else a)
  pure def conserved(pre: State, post: State): bool =
    TOKEN_SET.forall(t => supply(pre, t) == supply(post, t))

  // --------------------------------------------------------------- authorisation ----
  pure def config(st: State): (Acct, int, List[Tier]) = (st.admin, st.pfee, st.tiers)
  // configuration changes only by the admin; a pool's receiver likewise
  pure def adminOnly(pre: State, op: Op, post: State): bool =
    val by = match op {
      | AddFeeTier(o) => o.by
      | RemoveFeeTier(o) => o.by
      | ChangeAdmin(o) => o.by
      | ChangeProtocolFee(o) => o.by
      | ChangeFeeReceiver(o) => o.by
      | _ => ""
    }
    and {
      config(pre) == config(post) or by == pre.admin,
      pre.pools.keys().forall(k => post.pools.keys().contains(k) implies
        (pre.pools.get(k).recv == post.pools.get(k).recv or by == pre.admin))
    }
  // protocol fees leave the books only when the pool's receiver withdraws them, and then all of them, to it
  pure def protocolFeePaid(pre: State, op: Op, post: State): bool =
    pre.pools.keys().forall(k => post.pools.keys().contains(k) implies
      val a = pre.pools.get(k)
      val b = post.pools.get(k)
      match op {
        | WithdrawProtocolFee(o) =>
            if (o.key != k) a.fpx == b.fpx and a.fpy == b.fpy
            else and {
              o.by == a.recv, b.fpx == 0, b.fpy == 0,
              o.by == DEX or (and {
                post.bal.get((k.x, o.by)) - pre.bal.get((k.x, o.by)) == a.fpx,
                post.bal.get((k.y, o.by)) - pre.bal.get((k.y, o.by)) == a.fpy }),
            }
        | _ => b.fpx >= a.fpx and b.fpy >= a.fpy
      })
  // an account's positions shrink or change hands only with its consent
  pure def consent(st: State, op: Op, owner: Acct, idx: int): bool =
    match op {
      | RemovePosition(o) => o.by == owner
      | TransferPosition(o) => o.by == owner
      | TransferNft(o) => o.owner == owner and o.idx == idx and maySend(st, owner, idx, o.by)
      | SendNft(o) => o.owner == owner and o.idx == idx and maySend(st, owner, idx, o.by)
      | Burn(o) => o.owner == owner and o.idx == idx and maySend(st, owner, idx, o.by)
      | _ => false
    }
  pure def core(p: Position): { key: Key, liq: int, lo: int, up: int, blk: int } =
    { key: p.key, liq: p.liq, lo: p.lo, up: p.up, blk: p.blk }
  pure def countCore(l: List[Position], p: Position): int = l.select(q => core(q) == core(p)).length()
  pure def noTheft(pre: State, op: Op, post: State): bool =
    pre.pos.keys().forall(a =>
      val was = pre.pos.get(a)
      val now = post.pos.get(a)
      was.indices().forall(i =>
        countCore(now, was[i]) >= countCore(was, was[i]) or
        was.indices().exists(j => core(was[j]) == core(was[i]) and consent(pre, op, a, j))))
  // approvals are given by the owner or an operator of all its tokens, and do not survive a transfer
  pure def approvalsGiven(pre: State, op: Op, post: State): bool =
    match op {
      | Approve(o) => mayApprove(pre, o.owner, o.by)
      | Revoke(o) => mayApprove(pre, o.owner, o.by)
      | TransferNft(o) => post.pos.get(o.to)[post.pos.get(o.to).length() - 1].appr == []
      | SendNft(o) => post.pos.get(o.to)[post.pos.get(o.to).length() - 1].appr == []
      | TransferPosition(o) => post.pos.get(o.to)[post.pos.get(o.to).length() - 1].appr == []
      | _ => true
    }
  pure def operatorsGiven(pre: State, op: Op, post: State): bool =
    val by = match op {
      | ApproveAll(o) => o.by
      | RevokeAll(o) => o.by
      | _ => ""
    }
    pre.ops.keys().union(post.ops.keys()).forall(k =>
      k._1 == by or (pre.ops.keys().contains(k) and post.ops.keys().contains(k) and pre.ops.get(k) == post.ops.get(k)))

  // ----------------------------------------------------------- positions, ledger ----
  // positions are created, removed and moved one at a time; none is lost, doubled or altered
  pure def ledger(pre: State, op: Op, post: State): bool =
    match op {
      | CreatePosition(o) =>
          val l = post.pos.get(o.by)
          and {
            l.length() == pre.pos.get(o.by).length() + 1,
            l.slice(0, l.length() - 1) == pre.pos.get(o.by),
            core(l[l.length() - 1]) == { key: o.key, liq: o.liq, lo: o.lo, up: o.up, blk: pre.h }
          }
      | RemovePosition(o) => without(pre.pos.get(o.by), o.idx, post.pos.get(o.by))
      | Burn(o) => without(pre.pos.get(o.owner), o.idx, post.pos.get(o.owner))
      | ClaimFee(o) => sameCores(pre.pos.get(o.by), post.pos.get(o.by))
      | TransferPosition(o) => handed(pre, post, o.by, o.idx, o.to)
      | TransferNft(o) => handed(pre, post, o.owner, o.idx, o.to)
      | SendNft(o) => handed(pre, post, o.owner, o.idx, o.to)
      | Approve(o) => sameCores(pre.pos.get(o.owner), post.pos.get(o.owner))
      | Revoke(o) => sameCores(pre.pos.get(o.owner), post.pos.get(o.owner))
      | _ => pre.pos == post.pos
    }
  pure def sameCores(l: List[Position], m: List[Position]): bool =
    l.length() == m.length() and l.indices().forall(i => core(l[i]) == core(m[i]))
  pure def without(l: List[Position], idx: int, m: List[Position]): bool =
    idx < l.length() and m == takeOut(l, idx)
  pure def handed(pre: State, post: State, a: Acct, idx: int, b: Acct): bool =
    if (not(hasPos(pre, a, idx))) false else
    val q = pre.pos.get(a)[idx]
    if (a == b) post.pos.get(a) == takeOut(pre.pos.get(a), idx).append({ ...q, appr: [] })
    else and {
      post.pos.get(a) == takeOut(pre.pos.get(a), idx),
      post.pos.get(b) == pre.pos.get(b).append({ ...q, appr: [] })
    }

  // ---------------------------------------------------------- limits and slippage ----
  pure def limits(pre: State, op: Op, out: List[int], post: State): bool =
    match op {
      | Swap(o) =>
          val a = pre.pools.get(o.key).sp
          val b = post.pools.get(o.key).sp
          if (o.xToY) b <= a and b >= o.limit else b >= a and b <= o.limit
      | CreatePosition(o) =>
          val a = pre.pools.get(o.key).sp
          o.smin <= a and a <= o.smax and post.pools.get(o.key).sp == a
      | SwapRoute(o) => out.length() > 0 and
          out[out.length() - 1] >= minAmountOut(o.expected, o.slippage) and o.slippage <= PCT
      | _ => true
    }

  // ------------------------------------------------------- amounts, paid and said ----
  pure def delta(pre: State, post: State, t: Token, a: Acct): int = post.bal.get((t, a)) - pre.bal.get((t, a))
  // what an operation reports is what moved
  pure def reported(pre: State, op: Op, out: List[int], post: State): bool =
    match op {
      | Swap(o) => and {
          out.length() == 2,
          o.by == DEX or (and {
            delta(pre, post, tokenIn(o.key, o.xToY), o.by) == -out[0],
            delta(pre, post, tokenOut(o.key, o.xToY), o.by) ==
              out[1] - (if (o.funds.keys().contains(tokenOut(o.key, o.xToY))) o.funds.get(tokenOut(o.key, o.xToY)) else 0) })
        }
      | ClaimFee(o) => o.by == DEX or (and {
          out.length() == 2,
          delta(pre, post, pre.pos.get(o.by)[o.idx].key.x, o.by) == out[0],
          delta(pre, post, pre.pos.get(o.by)[o.idx].key.y, o.by) == out[1] })
      | _ => true
    }
  // exact-input swaps take at most the amount given, exact-output swaps give at most the amount asked;
  // in both cases the trader gets something
  pure def swapAmounts(op: Op, out: List[int]): bool =
    match op {
      | Swap(o) => out.length() == 2 and out[1] > 0 and (if (o.byIn) out[0] == o.amt else out[1] <= o.amt)
      | _ => true
    }
  // ------------------------------------------------------------------------ fees ----
  // principal of a position, exactly, in units of 1/S
  pure def exactPrincipal(st: State, q: Position): { x: int, y: int } =
    exactAmounts(st.pools.get(q.key).sp, q.liq, q.lo, q.up)
  pure def exactAmounts(sp: int, liq: int, lo: int, up: int): { x: int, y: int } =
    val a = priceOfTick(lo)
    val b = priceOfTick(up)
    val c = max2(a, min2(sp, b))
    { x: liq * (b - c) * 10^18 * S / (c * b), y: liq * (c - a) * (S / 10^30) }

  // precision of amounts at price c with liquidity l: the price grid, and products of prices
  pure def grain(l: int, c: int): int = 1 + l / 10^30 + l * 10^18 / (c * c) + l * 10^42 / (c * c * c)

  // the trader pays the pool's fee on what the positions take in, and not more; the protocol gets its share of it
  pure def feeTaken(pre: State, op: Op, out: List[int], post: State): bool =
    match op {
      | Swap(o) =>
          val k = o.key
          val a = pre.pools.get(k)
          val b = post.pools.get(k)
          val ps = posIn(pre, k)
          val principal = ps.foldl(0, (acc, q) =>
            if (o.xToY) acc + exactPrincipal(post, q).x - exactPrincipal(pre, q).x
            else acc + exactPrincipal(post, q).y - exactPrincipal(pre, q).y)
          val steps = 4 + pre.bits.get(k).size() + abs(b.tick - a.tick) / (SEARCH_RANGE * k.s)
          val l = max2(topLiquidity(pre, Set(k)), topLiquidity(post, Set(k)))
          val dust = steps * 4 * grain(l, min2(a.sp, b.sp)) * S
          val fee = out[0] * S - principal
          val toProtocol = if (o.xToY) b.fpx - a.fpx else b.fpy - a.fpy
          val other = if (o.xToY) b.fpy - a.fpy else b.fpx - a.fpx
          and {
            other == 0,
            fee * PCT >= principal * k.fee - 10^27 * (10 + ps.length()) * PCT,
            fee * PCT <= out[0] * S * k.fee + dust * PCT,
            toProtocol * S * PCT <= fee * pre.pfee + steps * S * PCT,
            toProtocol * S * PCT >= (fee - dust) * pre.pfee
          }
      | _ => true
    }

  // fees of a swap go to the positions the price passed through, per unit of liquidity
  pure def feesEarned(pre: State, op: Op, post: State): bool =
    match op {
      | Swap(o) =>
          val k = o.key
          val a = pre.pools.get(k)
          val b = post.pools.get(k)
          val lo = min2(a.tick, b.tick)
          val hi = max2(a.tick, b.tick)
          val g = if (o.xToY) wsub(b.fgx, a.fgx) else wsub(b.fgy, a.fgy)
          posIn(pre, k).select(q =>
            val u = feesOwed(pre, q)
            val v = feesOwed(post, q)
            val d = if (o.xToY) wsub(v.x, u.x) else wsub(v.y, u.y)
            val e = if (o.xToY) wsub(v.y, u.y) else wsub(v.x, u.x)
            not(and {
              e == 0,
              (q.up <= lo or hi < q.lo) implies d == 0,
              (q.lo <= lo and hi < q.up) implies d == g,
              d <= g
            })).length() == 0
      | _ => true
    }
  // positions of the account after the operation, as they were before it
  pure def carried(pre: State, op: Op, a: Acct): List[Position] =
    val l = pre.pos.get(a)
    match op {
      | RemovePosition(o) => if (o.by == a) takeOut(l, o.idx) else l
      | Burn(o) => if (o.owner == a) takeOut(l, o.idx) else l
      | TransferPosition(o) => moved(pre, a, o.by, o.idx, o.to)
      | TransferNft(o) => moved(pre, a, o.owner, o.idx, o.to)
      | SendNft(o) => moved(pre, a, o.owner, o.idx, o.to)
      | _ => l
    }
  pure def moved(pre: State, a: Acct, from: Acct, idx: int, dst: Acct): List[Position] =
    val l = if (a == from) takeOut(pre.pos.get(a), idx) else pre.pos.get(a)
    if (a == dst) l.append(pre.pos.get(from)[idx]) else l
  // no other operation gives, takes or moves fees that a position has earned
  pure def feesKept(pre: State, op: Op, post: State): bool =
    match op {
      | Swap(o) => true
      | SwapRoute(o) => true
      | _ =>
        pre.pos.keys().forall(a =>
          val was = carried(pre, op, a)
          val now = post.pos.get(a)
          val claimed = match op {
            | ClaimFee(o) => if (o.by == a) o.idx else -1
            | _ => -1
          }
          now.length() >= was.length() and now.indices().forall(i =>
            if (i >= was.length() or i == claimed)
              feesOwed(post, now[i]) == { x: 0, y: 0 } and now[i].ox == 0 and now[i].oy == 0
            else
              feesOwed(post, now[i]) == feesOwed(pre, was[i]) and now[i].ox == was[i].ox and now[i].oy == was[i].oy))
    }
  // a claim pays what was earned since the last one, once
  pure def claimOnce(pre: State, op: Op, out: List[int], post: State): bool =
    match op {
      | ClaimFee(o) =>
          val q = pre.pos.get(o.by)[o.idx]
          val g = feesOwed(pre, q)
          out == [q.ox + g.x * q.liq / (FG * LIQ), q.oy + g.y * q.liq / (FG * LIQ)]
      | _ => true
    }

  // ------------------------------------------------------ deposits, withdrawals ----
  pure def near(paid: int, exact: int, l: int, c: int): bool =
    and { paid * S >= exact - 10^27, paid * S <= exact + 2 * grain(l, c) * S }
  pure def noFundsOf(t: Token, funds: Token -> int): bool = not(funds.keys().contains(t))
  // a deposit costs its value at the current price, rounded up; a withdrawal pays value and fees, rounded down
  pure def liquidityAmounts(pre: State, op: Op, post: State): bool =
    match op {
      | CreatePosition(o) =>
          val sp = pre.pools.get(o.key).sp
          val e = exactAmounts(sp, o.liq, o.lo, o.up)
          o.by == DEX or (and {
            near(-delta(pre, post, o.key.x, o.by), e.x, o.liq, sp),
            near(-delta(pre, post, o.key.y, o.by), e.y, o.liq, sp) })
      | RemovePosition(o) => paidOut(pre, post, o.by, o.idx)
      | Burn(o) => paidOut(pre, post, o.owner, o.idx)
      | _ => true
    }
  pure def paidOut(pre: State, post: State, owner: Acct, idx: int): bool =
    val q = pre.pos.get(owner)[idx]
    val c = exactClaim(pre, q)
    val x = delta(pre, post, q.key.x, owner)
    val y = delta(pre, post, q.key.y, owner)
    val slack = 3 * grain(q.liq, pre.pools.get(q.key).sp) * S
    owner == DEX or (and {
      x * S <= c.x + 10^27, x * S >= c.x - slack,
      y * S <= c.y + 10^27, y * S >= c.y - slack })

  pure def depositLimits(pre: State, op: Op, post: State): bool =
    match op {
      | CreatePosition(o) =>
          val a = pre.pools.get(o.key).sp
          o.smin <= a and a <= o.smax and post.pools.get(o.key).sp == a
      | _ => true
    }

  // --------------------------------------------------------------- attached coins ----
  // an account parts with the amount due, however much it attached
  pure def coinsExact(pre: State, op: Op, out: List[int], post: State): bool =
    match op {
      | CreatePosition(o) =>
          val p = pre.pools.get(o.key)
          val due = rangeAmounts(p.tick, p.sp, o.liq, true, o.lo, o.up)
          and {
            -delta(pre, post, o.key.x, o.by) == due.x, -delta(pre, post, o.key.y, o.by) == due.y,
            isNative(o.key.x) implies (due.x == 0 or (not(noFundsOf(o.key.x, o.funds)) and o.funds.get(o.key.x) >= due.x)),
            isNative(o.key.y) implies (due.y == 0 or (not(noFundsOf(o.key.y, o.funds)) and o.funds.get(o.key.y) >= due.y))
          }
      | Swap(o) =>
          val t = tokenIn(o.key, o.xToY)
          and {
            -delta(pre, post, t, o.by) == out[0],
            isNative(t) implies (not(noFundsOf(t, o.funds)) and o.funds.get(t) >= out[0])
          }
      | SwapRoute(o) =>
          o.hops.length() > 0 implies
          val t = tokenIn(o.hops[0].key, o.hops[0].xToY)
          // a route that visits its first or last token again pays and receives it more than once
          val ins = o.hops.select(h => tokenIn(h.key, h.xToY) == t).length()
          val outs = o.hops.select(h => tokenOut(h.key, h.xToY) == t).length()
          and {
            (ins == 1 and outs == 0) implies -delta(pre, post, t, o.by) == o.amt,
            isNative(t) implies (not(noFundsOf(t, o.funds)) and o.funds.get(t) >= o.amt)
          }
      | _ => true
    }

  // ------------------------------------------------------------------ pool creation ----
  pure def poolCreated(pre: State, op: Op, post: State): bool =
    match op {
      | CreatePool(o) =>
          val k = keyOf(o.a, o.b, o.fee, o.s)
          and {
            o.a != o.b, not(pre.pools.keys().contains(k)), post.pools.keys() == pre.pools.keys().union(Set(k)),
            pre.tiers.select(t => t.fee == o.fee and t.s == o.s).length() > 0,
            tickOk(o.tick, o.s), priceInRange(o.sp), tickAt(o.sp, o.s) == o.tick,
            post.pools.get(k) == { liq: 0, sp: o.sp, tick: o.tick, fgx: 0, fgy: 0, fpx: 0, fpy: 0,
                                   start: ms(pre), last: ms(pre), recv: pre.admin },
            post.ticks.get(k) == Map(), post.bits.get(k) == Set()
          }
      | _ => post.pools.keys() == pre.pools.keys()
    }

  // ------------------------------------------- uniform interface of the step predicates ----
  // (pre, op, out, post) of an operation that was carried out
  pure def step_neverPoorer(pre: State, op: Op, out: List[int], post: State): bool = neverPoorer(pre, post)
  pure def step_dustOnly(pre: State, op: Op, out: List[int], post: State): bool = dustOnly(pre, op, post)
  pure def step_framePools(pre: State, op: Op, out: List[int], post: State): bool = framePools(pre, op, post)
  pure def step_framePositions(pre: State, op: Op, out: List[int], post: State): bool = framePositions(pre, op, post)
  pure def step_frameBalances(pre: State, op: Op, out: List[int], post: State): bool = frameBalances(pre, op, post)
  pure def step_conserved(pre: State, op: Op, out: List[int], post: State): bool = conserved(pre, post)
  pure def step_adminOnly(pre: State, op: Op, out: List[int], post: State): bool = adminOnly(pre, op, post)
  pure def step_protocolFeePaid(pre: State, op: Op, out: List[int], post: State): bool = protocolFeePaid(pre, op, post)
  pure def step_noTheft(pre: State, op: Op, out: List[int], post: State): bool = noTheft(pre, op, post)
  pure def step_approvalsGiven(pre: State, op: Op, out: List[int], post: State): bool = approvalsGiven(pre, op, post)
  pure def step_operatorsGiven(pre: State, op: Op, out: List[int], post: State): bool = operatorsGiven(pre, op, post)
  pure def step_ledger(pre: State, op: Op, out: List[int], post: State): bool = ledger(pre, op, post)
  pure def step_limits(pre: State, op: Op, out: List[int], post: State): bool = limits(pre, op, out, post)
  pure def step_reported(pre: State, op: Op, out: List[int], post: State): bool = reported(pre, op, out, post)
  pure def step_swapAmounts(pre: State, op: Op, out: List[int], post: State): bool = swapAmounts(op, out)
  pure def step_feeTaken(pre: State, op: Op, out: List[int], post: State): bool = feeTaken(pre, op, out, post)
  pure def step_feesEarned(pre: State, op: Op, out: List[int], post: State): bool = feesEarned(pre, op, post)
  pure def step_feesKept(pre: State, op: Op, out: List[int], post: State): bool = feesKept(pre, op, post)
  pure def step_claimOnce(pre: State, op: Op, out: List[int], post: State): bool = claimOnce(pre, op, out, post)
  pure def step_liquidityAmounts(pre: State, op: Op, out: List[int], post: State): bool = liquidityAmounts(pre, op, post)
  pure def step_depositLimits(pre: State, op: Op, out: List[int], post: State): bool = depositLimits(pre, op, post)
  pure def step_coinsExact(pre: State, op: Op, out: List[int], post: State): bool = coinsExact(pre, op, out, post)
  pure def step_poolCreated(pre: State, op: Op, out: List[int], post: State): bool = poolCreated(pre, op, post)
}
