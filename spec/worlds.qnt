// -*- mode: Bluespec; -*-
// Small worlds: a deployment, what has happened in it, and the few operations that are then tried in every
// order.  Each is a state machine of the specification (`init`, `step`; explored by `quint run` with the
// invariants of props.qnt) and, state by state and operation by operation, is carried out on the real contract
// (tools/world.js): one test of the contract per transition of the machine.
module worlds {
  import props.* from "./props"
  export props.*
  import events.* from "./events"
  export events.*

  pure val NO_FUNDS: Token -> int = Map()
  pure val NEVER: Exp = { k: "never", v: 0 }
  pure val M = 10^12                    // one million units of liquidity
  pure val ACCOUNTS: Set[Acct] = Set("admin", "alice", "bob", "carol", "dave", "fees", "vault", "dex")
  pure val HOLDERS: Set[Acct] = ACCOUNTS.exclude(Set("vault", "dex"))

  // a fresh deployment: what instantiation has to give
  pure def deploy(pfee: int, rich: int, poor: int): State = {
    admin: "admin", pfee: pfee, tiers: [],
    pools: Map(), ticks: Map(), bits: Map(),
    pos: ACCOUNTS.mapBy(a => []), ops: Map(),
    bal: tuples(TOKEN_SET, ACCOUNTS).mapBy(((t, a)) => if (not(HOLDERS.contains(a))) 0 else if (a == "dave") poor else rich),
    h: 1000, t: 1600000000000000000
  }

  type World = { pfee: int, rich: int, poor: int, setup: List[Op] }
  pure def world(setup: List[Op]): World = { pfee: 10000000000, rich: 10^24, poor: 1000, setup: setup }

  pure def pool(k: Key, sp: int, tick: int): Op =
    CreatePool({ by: "alice", a: k.x, b: k.y, fee: k.fee, s: k.s, sp: sp, tick: tick, funds: NO_FUNDS })
  pure def tier(k: Key): Op = AddFeeTier({ by: "admin", fee: k.fee, s: k.s })
  pure def open(by: Acct, k: Key, lo: int, up: int, liq: int): Op =
    CreatePosition({ by: by, key: k, lo: lo, up: up, liq: liq, smin: 0, smax: U128_MAX, funds: NO_FUNDS, mint: false })
  pure def sellX(k: Key, amt: int, byIn: bool, limit: int): Op =
    Swap({ by: "carol", key: k, xToY: true, amt: amt, byIn: byIn, limit: limit, funds: NO_FUNDS })
  pure def sellY(k: Key, amt: int, byIn: bool, limit: int): Op =
    Swap({ by: "carol", key: k, xToY: false, amt: amt, byIn: byIn, limit: limit, funds: NO_FUNDS })
  pure def down(k: Key, amt: int): Op = sellX(k, amt, true, MIN_SQRT_PRICE)
  pure def up(k: Key, amt: int): Op = sellY(k, amt, true, MAX_SQRT_PRICE)
  pure def blocks(n: int): Op = Advance({ dh: n, dt: n * 1000000000 })

  // what is left of a swap when the price stands exactly at tick i
  pure def toTickX(st: State, k: Key, i: int): int =
    val p = st.pools.get(k)
    if (p.sp <= priceOfTick(i) or p.liq == 0) 1 else
    val d = deltaX(priceOfTick(i), p.sp, p.liq, true)
    if (d <= 0) 1 else d + bigMulUp(d, k.fee, PCT)
  pure def toTickY(st: State, k: Key, i: int): int =
    val p = st.pools.get(k)
    if (p.sp >= priceOfTick(i) or p.liq == 0) 1 else
    val d = deltaY(p.sp, priceOfTick(i), p.liq, true)
    if (d <= 0) 1 else d + bigMulUp(d, k.fee, PCT)

  // ---- ranges and swaps over three ticks -------------------------------------------------------------------
  pure val K1: Key = { x: 1, y: 2, fee: 3000000000, s: 10 }
  pure val ticksWorld: World = world([tier(K1), pool(K1, priceOfTick(0), 0), open("bob", K1, -1000, 1000, M)])
  pure def ticksMoves(st: State): List[Op] = [
    open("alice", K1, -10, 0, M), open("alice", K1, 0, 10, 2 * M), open("alice", K1, -10, 10, M),
    RemovePosition({ by: "alice", idx: 0 }), RemovePosition({ by: "alice", idx: 1 }), RemovePosition({ by: "bob", idx: 0 }),
    ClaimFee({ by: "alice", idx: 0 }),
    down(K1, 1700), up(K1, 1700), down(K1, 300), up(K1, 300),
    down(K1, toTickX(st, K1, 0)), down(K1, toTickX(st, K1, -10)), up(K1, toTickY(st, K1, 0)), up(K1, toTickY(st, K1, 10)),
    sellX(K1, 700, false, MIN_SQRT_PRICE), sellY(K1, 700, false, MAX_SQRT_PRICE),
    sellX(K1, 300, true, priceOfTick(-10)), sellY(K1, 300, true, priceOfTick(10)),
    blocks(1)
  ]

  // ---- one unit next to a tick: steps that end at, just before and just after it --------------------------
  pure val K2: Key = { x: 1, y: 2, fee: 10000000000, s: 1 }
  pure val edgeWorld: World = world([tier(K2), pool(K2, priceOfTick(0), 0), open("bob", K2, -3, 4, 30 * M), open("alice", K2, 0, 1, 50 * M)])
  pure def edgeMoves(st: State): List[Op] = [
    down(K2, toTickX(st, K2, 0)), down(K2, toTickX(st, K2, 0) + 1), down(K2, toTickX(st, K2, -1)),
    up(K2, toTickY(st, K2, 0)), up(K2, toTickY(st, K2, 1)), up(K2, toTickY(st, K2, 1) + 1),
    down(K2, 1), down(K2, 2), up(K2, 1), up(K2, 2),
    sellX(K2, 1, false, MIN_SQRT_PRICE), sellY(K2, 1, false, MAX_SQRT_PRICE),
    sellX(K2, 50, true, priceOfTick(0)), sellY(K2, 50, true, priceOfTick(1)),
    sellX(K2, 3000, false, MIN_SQRT_PRICE), sellY(K2, 3000, false, MAX_SQRT_PRICE),
    RemovePosition({ by: "alice", idx: 0 }), open("alice", K2, 0, 1, 50 * M), open("alice", K2, -1, 0, 40 * M)
  ]

  // ---- fees of shared ranges ------------------------------------------------------------------------------
  pure val feesWorld: World = world([tier(K1), pool(K1, priceOfTick(0), 0), open("bob", K1, -20, 20, M), open("alice", K1, -10, 10, 3 * M)])
  pure def feesMoves(st: State): List[Op] = [
    down(K1, 90000), up(K1, 90000), down(K1, 2500), up(K1, 2500),
    ClaimFee({ by: "alice", idx: 0 }), ClaimFee({ by: "alice", idx: 1 }), ClaimFee({ by: "bob", idx: 0 }),
    open("alice", K1, 10, 20, 2 * M), open("bob", K1, -20, -10, 7 * M),
    RemovePosition({ by: "alice", idx: 0 }), RemovePosition({ by: "bob", idx: 1 }),
    WithdrawProtocolFee({ by: "admin", key: K1 }), ChangeProtocolFee({ by: "admin", fee: 500000000000 }), blocks(3)
  ]

  // ---- whose consent is needed ----------------------------------------------------------------------------
  pure val consentWorld: World = world([tier(K1), pool(K1, priceOfTick(0), 0),
    open("alice", K1, -10, 0, M), open("alice", K1, 0, 10, 2 * M), open("bob", K1, -10, 10, 3 * M)])
  pure def soon(st: State): Exp = { k: "height", v: 1001 }
  pure def later(st: State): Exp = { k: "time", v: 1600000002000000000 }
  pure def consentMoves(st: State): List[Op] = [
    Approve({ by: "alice", owner: "alice", idx: 0, spender: "carol", exp: NEVER }),
    Approve({ by: "alice", owner: "alice", idx: 1, spender: "carol", exp: soon(st) }),
    Approve({ by: "carol", owner: "alice", idx: 0, spender: "bob", exp: later(st) }),
    Revoke({ by: "alice", owner: "alice", idx: 0, spender: "carol" }),
    Revoke({ by: "carol", owner: "alice", idx: 0, spender: "carol" }),
    ApproveAll({ by: "alice", operator: "carol", exp: NEVER }), ApproveAll({ by: "alice", operator: "carol", exp: later(st) }),
    ApproveAll({ by: "bob", operator: "alice", exp: soon(st) }), RevokeAll({ by: "alice", operator: "carol" }),
    TransferNft({ by: "carol", owner: "alice", idx: 0, to: "carol" }), TransferNft({ by: "alice", owner: "alice", idx: 0, to: "bob" }),
    TransferNft({ by: "bob", owner: "alice", idx: 0, to: "bob" }), TransferNft({ by: "alice", owner: "bob", idx: 0, to: "alice" }),
    TransferNft({ by: "alice", owner: "alice", idx: 0, to: "alice" }),
    SendNft({ by: "carol", owner: "alice", idx: 1, to: "vault" }), SendNft({ by: "alice", owner: "alice", idx: 0, to: "bob" }),
    TransferPosition({ by: "alice", idx: 1, to: "carol" }), TransferPosition({ by: "bob", idx: 0, to: "bob" }), TransferPosition({ by: "carol", idx: 0, to: "alice" }),
    Burn({ by: "carol", owner: "alice", idx: 0 }), Burn({ by: "alice", owner: "bob", idx: 0 }), RemovePosition({ by: "alice", idx: 0 }),
    ClaimFee({ by: "carol", idx: 0 }), blocks(1)
  ]

  // ---- configuration --------------------------------------------------------------------------------------
  pure val T2: Key = { ...K1, fee: 500000000, s: 1 }
  pure val adminWorld: World = world([tier(K1), pool(K1, priceOfTick(0), 0), open("bob", K1, -1000, 1000, M), down(K1, 3000), up(K1, 5000)])
  pure def adminMoves(st: State): List[Op] = [
    tier(T2), AddFeeTier({ by: "alice", fee: T2.fee, s: T2.s }), tier({ ...T2, s: 0 }), tier({ ...T2, s: 101 }), tier({ ...T2, fee: PCT }), tier(K1),
    RemoveFeeTier({ by: "admin", fee: K1.fee, s: K1.s }), RemoveFeeTier({ by: "admin", fee: T2.fee, s: T2.s }), RemoveFeeTier({ by: "alice", fee: K1.fee, s: K1.s }),
    ChangeAdmin({ by: "admin", to: "alice" }), ChangeAdmin({ by: "alice", to: "admin" }), ChangeAdmin({ by: "bob", to: "bob" }),
    ChangeProtocolFee({ by: "admin", fee: 0 }), ChangeProtocolFee({ by: "alice", fee: PCT }),
    ChangeFeeReceiver({ by: "admin", key: K1, to: "bob" }), ChangeFeeReceiver({ by: "alice", key: K1, to: "alice" }), ChangeFeeReceiver({ by: "bob", key: K1, to: "bob" }),
    WithdrawProtocolFee({ by: "admin", key: K1 }), WithdrawProtocolFee({ by: "bob", key: K1 }), WithdrawProtocolFee({ by: "alice", key: K1 }),
    pool(T2, priceOfTick(0), 0), pool({ ...T2, x: 2, y: 1 }, priceOfTick(-4), -4), pool({ ...T2, x: 1, y: 1 }, priceOfTick(0), 0),
    pool(T2, priceOfTick(0) - 1, 0), pool({ ...K1, x: 0 }, priceOfTick(10) - 1, 0), pool({ ...K1, x: 0 }, priceOfTick(3), 3),
    down(K1, 4000), Migrate({ by: "admin" }), Migrate({ by: "bob" })
  ]

  // ---- routes and coins -----------------------------------------------------------------------------------
  pure val R1: Key = { x: 0, y: 1, fee: 3000000000, s: 10 }
  pure val R2: Key = { x: 1, y: 4, fee: 3000000000, s: 10 }
  pure val R3: Key = { x: 0, y: 4, fee: 3000000000, s: 10 }
  pure def openWith(by: Acct, k: Key, liq: int, funds: Token -> int): Op =
    CreatePosition({ by: by, key: k, lo: -100, up: 100, liq: liq, smin: 0, smax: U128_MAX, funds: funds, mint: true })
  pure def route(hops: List[Hop], amt: int, expected: int, slippage: int, funds: Token -> int): Op =
    SwapRoute({ by: "carol", amt: amt, expected: expected, slippage: slippage, hops: hops, funds: funds })
  pure def hop(k: Key, x: bool): Hop = { key: k, xToY: x }
  pure val coinsWorld: World = world([tier(R1), pool(R1, priceOfTick(0), 0), pool(R2, priceOfTick(0), 0), pool(R3, priceOfTick(0), 0),
    openWith("alice", R1, M * 10, Map(0 -> 10^6)), openWith("alice", R2, M * 10, Map(4 -> 10^6)), openWith("bob", R3, M * 10, Map(0 -> 10^6, 4 -> 10^6))])
  pure def coinsMoves(st: State): List[Op] = [
    route([hop(R1, true)], 1000, 900, 0, Map(0 -> 1000)), route([hop(R1, true)], 1000, 900, 0, Map(0 -> 999)),
    route([hop(R1, true), hop(R2, true)], 1000, 990, 10000000000, Map(0 -> 1500)),
    route([hop(R1, true), hop(R2, true), hop(R3, false)], 1000, 0, 0, Map(0 -> 1000)),
    route([hop(R1, true), hop(R2, true), hop(R3, false)], 1000, 0, 0, Map(0 -> 1000, 4 -> 2000)),
    route([hop(R3, true), hop(R3, false)], 1000, 0, 0, Map(0 -> 1000, 4 -> 1000)),
    route([hop(R1, false), hop(R3, true)], 1000, 1000, 0, NO_FUNDS), route([hop(R1, false), hop(R3, true)], 1000, 0, 0, Map(0 -> 995)),
    route([hop(R2, false), hop(R1, false)], 500, 0, 0, Map(4 -> 500)), route([], 500, 0, 0, Map(4 -> 500)),
    Swap({ by: "carol", key: R3, xToY: true, amt: 1000, byIn: true, limit: MIN_SQRT_PRICE, funds: Map(0 -> 1000, 4 -> 5) }),
    Swap({ by: "carol", key: R3, xToY: true, amt: 1000, byIn: false, limit: MIN_SQRT_PRICE, funds: Map(0 -> 2000) }),
    Swap({ by: "carol", key: R3, xToY: false, amt: 1000, byIn: true, limit: MAX_SQRT_PRICE, funds: Map(0 -> 1000) }),
    Swap({ by: "dave", key: R1, xToY: false, amt: 1001, byIn: true, limit: MAX_SQRT_PRICE, funds: NO_FUNDS }),
    openWith("carol", R3, M, Map(0 -> 10000, 4 -> 10000)), openWith("carol", R3, M, Map(0 -> 10000)), openWith("carol", R1, M, Map(0 -> 1, 4 -> 10)),
    RemovePosition({ by: "carol", idx: 0 }), RemovePosition({ by: "bob", idx: 0 }), ClaimFee({ by: "alice", idx: 0 })
  ]

  // ---- the ends of the price range ------------------------------------------------------------------------
  pure val K4: Key = { x: 1, y: 2, fee: 10000000000, s: 100 }
  pure val endsWorld: World = world([tier(K4), tier(T2), pool(K4, priceOfTick(221700), 221700), pool(T2, priceOfTick(-221817), -221817),
    open("alice", K4, 221600, 221800, M), open("alice", T2, -221818, -221810, M * 1000)])
  pure def endsMoves(st: State): List[Op] = [
    up(K4, 10^9), up(K4, 10^12), down(K4, 10), down(K4, 10^9), up(K4, toTickY(st, K4, 221800)),
    up(T2, 10), up(T2, 1000), down(T2, 10^9), down(T2, 10^14), down(T2, toTickX(st, T2, -221818)), down(T2, toTickX(st, T2, -221818) - 1),
    sellX(T2, 1, false, MIN_SQRT_PRICE), sellY(K4, 1, false, MAX_SQRT_PRICE),
    RemovePosition({ by: "alice", idx: 0 }), open("alice", K4, -221800, 221800, 10 * M), open("bob", T2, -221818, 221818, 10 * M), open("bob", T2, -221819, 0, M)
  ]

  pure def worldOf(name: str): World =
    if (name == "ticks") ticksWorld else if (name == "edge") edgeWorld else if (name == "fees") feesWorld
    else if (name == "consent") consentWorld else if (name == "admin") adminWorld else if (name == "coins") coinsWorld
    else endsWorld
  pure def movesOf(name: str, st: State): List[Op] =
    if (name == "ticks") ticksMoves(st) else if (name == "edge") edgeMoves(st) else if (name == "fees") feesMoves(st)
    else if (name == "consent") consentMoves(st) else if (name == "admin") adminMoves(st) else if (name == "coins") coinsMoves(st)
    else endsMoves(st)
  // questions asked in every state reached
  pure def asksOf(st: State): List[Query] =
    val people = ["alice", "bob", "carol", "vault"]
    val byOwner = people.foldl([], (l, a) => l.concat([
      QCount({ owner: a }), QPositions({ owner: a, limit: -1, offset: -1 }), QTokens({ owner: a, limit: -1, offset: -1 }),
      QTokens({ owner: a, limit: 1, offset: 1 }), QOperators({ owner: a, expired: false, after: [], limit: -1 }),
      QPosition({ owner: a, idx: st.pos.get(a).length() }), QPositionTicks({ owner: a, offset: 0 })
    ]))
    val byToken = people.foldl([], (l, a) => range(0, st.pos.get(a).length()).foldl(l, (m, i) => m.concat([
      QOwnerOf({ owner: a, idx: i, expired: false }), QOwnerOf({ owner: a, idx: i, expired: true }),
      QAllNftInfo({ owner: a, idx: i, expired: false }), QNftInfo({ owner: a, idx: i }), QPosition({ owner: a, idx: i })
    ])))
    val byPool = [K1, T2, R1, R3, K4].foldl([], (l, k) =>
      if (not(st.pools.keys().contains(k))) l.append(QPool({ a: k.y, b: k.x, fee: k.fee, s: k.s })) else l.concat([
        QPool({ a: k.x, b: k.y, fee: k.fee, s: k.s }), QPair({ a: k.y, b: k.x }),
        QTickMap({ key: k, lo: -1000, up: 1000, xToY: false }), QTickMap({ key: k, lo: -1000, up: 1000, xToY: true }),
        QLiqTicksAmount({ key: k, lo: -1000, up: 1000 }), QLiqTicks({ key: k, is: [-10, 0, 10] }),
        QTick({ key: k, i: 0 }), QIsTick({ key: k, i: 10 })
      ]))
    [QAdmin, QProtocolFee, QFeeTiers, QFeeTierExist({ fee: T2.fee, s: T2.s }), QPools({ limit: -1, after: [] }), QAllTokens({ limit: -1, after: [] }),
     QAllTokens({ limit: 1, after: [{ owner: "alice", idx: 0 }] })].concat(byOwner).concat(byToken).concat(byPool)
  pure def start(name: str): State =
    val w = worldOf(name)
    w.setup.foldl(deploy(w.pfee, w.rich, w.poor), (s, o) => apply(s, o).st)

  // ---- the machine ----------------------------------------------------------------------------------------
  pure val WORLDS: Set[str] = Set("ticks", "edge", "fees", "consent", "admin", "coins", "ends")
  var name: str
  var st: State
  var pre: State
  var op: Op
  var out: List[int]
  var taken: bool

  action init = {
    nondet n = oneOf(WORLDS)
    all { name' = n, st' = start(n), pre' = start(n), op' = blocks(0), out' = [], taken' = false }
  }
  action step = {
    val ms_ = movesOf(name, st)
    nondet i = oneOf(0.to(ms_.length() - 1))
    val r = apply(st, ms_[i])
    all { name' = name, st' = r.st, pre' = st, op' = ms_[i], out' = r.out, taken' = r.ok }
  }

  // what holds in every state, and of every operation carried out
  val states = and {
    activeLiquidity(st), tickLiquidity(st), tickBitmap(st), priceTick(st), liquidityCap(st), positionsWellFormed(st),
    poolKeys(st), tierList(st), secondsOutside(st), backed(st)
  }
  val steps = taken implies and {
    neverPoorer(pre, st), dustOnly(pre, op, st), framePools(pre, op, st), framePositions(pre, op, st), frameBalances(pre, op, st),
    conserved(pre, st), adminOnly(pre, op, st), protocolFeePaid(pre, op, st), noTheft(pre, op, st), approvalsGiven(pre, op, st),
    operatorsGiven(pre, op, st), ledger(pre, op, st), limits(pre, op, out, st), reported(pre, op, out, st), swapAmounts(op, out),
    feeTaken(pre, op, out, st), feesEarned(pre, op, st), feesKept(pre, op, st), claimOnce(pre, op, out, st), liquidityAmounts(pre, op, st),
    depositLimits(pre, op, st), coinsExact(pre, op, out, st), poolCreated(pre, op, st)
  }
  val correct = and { states, steps }
}
