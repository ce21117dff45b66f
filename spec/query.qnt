// -*- mode: Bluespec; -*-
// What every query of the contract answers in a given state.  No query changes the state.
module query {
  import dex.* from "./dex"
  export dex.*

  pure val MAX_LIMIT = 100
  pure val LIQUIDITY_TICK_LIMIT = 780
  pure val POSITION_TICK_LIMIT = 372

  type TokenId = { owner: Acct, idx: int }
  type Query =
    | QAdmin
    | QProtocolFee
    | QFeeTiers
    | QFeeTierExist({ fee: int, s: int })
    | QPosition({ owner: Acct, idx: int })
    | QPositions({ owner: Acct, limit: int, offset: int })      // -1: not given
    | QCount({ owner: Acct })
    | QPool({ a: Token, b: Token, fee: int, s: int })
    | QPools({ limit: int, after: List[Key] })
    | QPair({ a: Token, b: Token })
    | QTick({ key: Key, i: int })
    | QIsTick({ key: Key, i: int })
    | QPositionTicks({ owner: Acct, offset: int })
    | QTickMap({ key: Key, lo: int, up: int, xToY: bool })
    | QLiqTicks({ key: Key, is: List[int] })
    | QLiqTicksAmount({ key: Key, lo: int, up: int })
    | QQuote({ key: Key, xToY: bool, amt: int, byIn: bool, limit: int })
    | QQuoteRoute({ amt: int, hops: List[Hop] })
    | QOwnerOf({ owner: Acct, idx: int, expired: bool })
    | QOperators({ owner: Acct, expired: bool, after: List[Acct], limit: int })
    | QNftInfo({ owner: Acct, idx: int })
    | QAllNftInfo({ owner: Acct, idx: int, expired: bool })
    | QTokens({ owner: Acct, limit: int, offset: int })
    | QAllTokens({ limit: int, after: List[TokenId] })

  type Answer = {
    ok: bool, n: List[int], who: List[Acct], keys: List[Key], pools: List[Pool],
    ticks: List[Tick], pos: List[Position], toks: List[TokenId], appr: List[Approval]
  }
  pure val NONE: Answer = {
    ok: true, n: [], who: [], keys: [], pools: [], ticks: [], pos: [], toks: [], appr: []
  }
  pure val FAILED: Answer = { ...NONE, ok: false }
  pure def num(i: int): Answer = { ...NONE, n: [i] }
  pure def flag(b: bool): Answer = num(if (b) 1 else 0)

  // accounts in the byte order of their addresses (dex is contract3, vault contract4)
  pure val ACCT_ORDER: List[Acct] = ["admin", "alice", "bob", "carol", "dex", "vault", "dave", "fees"]
  pure def acctRank(a: Acct): int =
    ACCT_ORDER.indices().fold(99, (r, i) => if (ACCT_ORDER[i] == a) i else r)

  // the order in which pools are stored
  pure def before(a: Key, b: Key): bool =
    val ax = TOKENS[a.x].rank
    val bx = TOKENS[b.x].rank
    val ay = TOKENS[a.y].rank
    val by = TOKENS[b.y].rank
    if (ax != bx) ax < bx else if (ay != by) ay < by
    else if (a.fee != b.fee) a.fee < b.fee else a.s < b.s
  pure def sortedKeys(ks: Set[Key]): List[Key] =
    ks.fold([], (l, k) =>
      l.select(j => before(j, k)).append(k).concat(l.select(j => before(k, j))))
  pure def sortedInts(is_: Set[int]): List[int] =
    is_.fold([], (l, k) => l.select(j => j < k).append(k).concat(l.select(j => k < j)))

  pure def take(n: int, len: int): int = min2(n, len)
  pure def capped(limit: int): int = if (limit < 0) MAX_LIMIT else min2(limit, MAX_LIMIT)

  pure def posOf(st: State, owner: Acct): List[Position] =
    if (st.pos.keys().contains(owner)) st.pos.get(owner) else []

  pure def page(len: int, limit: int, offset: int): { from: int, upto: int } =
    val from = if (offset < 0) 0 else offset
    val upto = min2(len, from + (if (limit < 0) MAX_LIMIT else limit))
    if (from >= upto) { from: 0, upto: 0 } else { from: from, upto: upto }

  pure def liveApprovals(st: State, l: List[Approval], incl: bool): List[Approval] =
    l.select(a => incl or not(expired(st, a.exp)))

  // position of a tick in the bitmap
  pure def chunkOf(i: int, s: int): int = (i / s + MAX_TICK / s) / 64
  pure def bitOf(i: int, s: int): int = (i / s + MAX_TICK / s) % 64
  pure def tickNamed(i: int, s: int): bool = i >= MIN_TICK and i <= MAX_TICK and aligned(i, s)

  pure val TICKMAP_LIMIT = 1638     // chunks in one answer
  pure def reversed(l: List[int]): List[int] = l.foldl([], (a, c) => [c].concat(a))
  // the chunks that have a tick, in the direction of the swap, as many as fit into one answer
  pure def chunks(bits: Set[int], s: int, lo: int, up: int, down: bool): List[int] =
    val used = bits.map(b => chunkOf(b, s))
    val words = bits.fold(used.mapBy(c => 0), (m, b) => m.setBy(chunkOf(b, s), w => w + 2 ^ bitOf(b, s)))
    val cl = chunkOf(lo, s)
    val cu = chunkOf(up, s)
    val cs = if (used.size() < 40) sortedInts(used.filter(c => c >= cl and c <= cu))
             else range(cl, cu + 1).select(c => used.contains(c))
    val l = if (down) reversed(cs) else cs
    l.slice(0, min2(TICKMAP_LIMIT, l.length())).foldl([], (a, c) => a.concat([c, words.get(c)]))

  pure def ticksOf(st: State, key: Key): int -> Tick =
    if (st.ticks.keys().contains(key)) st.ticks.get(key) else Map()
  pure def bitsOf(st: State, key: Key): Set[int] =
    if (st.bits.keys().contains(key)) st.bits.get(key) else Set()

  pure def quoteRoute(st: State, amt: int, hops: List[Hop]): Answer =
    val r = hops.foldl({ ok: true, amt: amt }, (a, h) =>
      if (not(a.ok)) a else
      // a quote looks at the stored state only: hops through the same pool do not see each other
      val c = calcSwap(st, h.key, h.xToY, a.amt, true, routeLimit(h.xToY))
      { ok: c.ok, amt: c.aout })
    if (r.ok) num(r.amt) else FAILED

  pure def ask(st: State, q: Query): Answer =
    match q {
      | QAdmin => { ...NONE, who: [st.admin] }
      | QProtocolFee => num(st.pfee)
      | QFeeTiers => { ...NONE, n: st.tiers.foldl([], (l, t) => l.concat([t.fee, t.s])) }
      | QFeeTierExist(o) => flag(hasTier(st, o.fee, o.s))
      | QPosition(o) => if (hasPos(st, o.owner, o.idx)) { ...NONE, pos: [st.pos.get(o.owner)[o.idx]] } else FAILED
      | QPositions(o) =>
          val l = posOf(st, o.owner)
          val r = page(l.length(), o.limit, o.offset)
          { ...NONE, pos: l.slice(r.from, r.upto) }
      | QCount(o) => num(posOf(st, o.owner).length())
      | QPool(o) =>
          val k = keyOf(o.a, o.b, o.fee, o.s)
          if (o.a == o.b or not(st.pools.keys().contains(k))) FAILED
          else { ...NONE, pools: [st.pools.get(k)] }
      | QPools(o) =>
          val ks = sortedKeys(st.pools.keys().filter(k => o.after.length() == 0 or before(o.after[0], k)))
          val l = ks.slice(0, take(capped(o.limit), ks.length()))
          { ...NONE, keys: l, pools: l.foldl([], (a, k) => a.append(st.pools.get(k))) }
      | QPair(o) =>
          if (o.a == o.b) FAILED else
          val l = st.tiers.foldl([], (a, t) => a.append(keyOf(o.a, o.b, t.fee, t.s)))
                    .select(k => st.pools.keys().contains(k))
          { ...NONE, keys: l, pools: l.foldl([], (a, k) => a.append(st.pools.get(k))) }
      | QTick(o) =>
          if (ticksOf(st, o.key).keys().contains(o.i)) { ...NONE, ticks: [ticksOf(st, o.key).get(o.i)] } else FAILED
      | QIsTick(o) => if (tickNamed(o.i, o.key.s)) flag(bitsOf(st, o.key).contains(o.i)) else FAILED
      | QPositionTicks(o) =>
          val l = posOf(st, o.owner)
          if (o.offset > l.length()) FAILED else
          val ts = l.slice(o.offset, l.length()).foldl([], (a, p) =>
            if (a.length() >= POSITION_TICK_LIMIT) a else
            val m = ticksOf(st, p.key)
            a.concat([p.lo, p.up].select(i => m.keys().contains(i)).foldl([], (b, i) => b.append(m.get(i)))))
          { ...NONE, n: ts.foldl([], (a, t) => a.concat([t.ix, t.fox, t.foy, t.so])) }
      | QTickMap(o) =>
          if (not(tickNamed(o.lo, o.key.s)) or not(tickNamed(o.up, o.key.s))) FAILED
          else { ...NONE, n: chunks(bitsOf(st, o.key), o.key.s, o.lo, o.up, o.xToY) }
      | QLiqTicks(o) =>
          val m = ticksOf(st, o.key)
          if (o.is.length() > LIQUIDITY_TICK_LIMIT or
              o.is.select(i => not(m.keys().contains(i))).length() > 0) FAILED
          else { ...NONE, n: o.is.foldl([], (a, i) => a.concat([i, net(m.get(i))])) }
      | QLiqTicksAmount(o) =>
          if (not(tickOk(o.lo, o.key.s)) or not(tickOk(o.up, o.key.s))) FAILED
          else num(bitsOf(st, o.key).filter(i => i >= o.lo and i <= o.up).size())
      | QQuote(o) =>
          val c = calcSwap(st, o.key, o.xToY, o.amt, o.byIn, o.limit)
          if (not(c.ok)) FAILED
          else { ...NONE, n: [c.ain, c.aout, c.pool.sp],
                 ticks: c.crossed.foldl([], (a, i) => a.append(c.ticks.get(i))) }
      | QQuoteRoute(o) => quoteRoute(st, o.amt, o.hops)
      | QOwnerOf(o) =>
          if (not(hasPos(st, o.owner, o.idx))) FAILED
          else { ...NONE, who: [o.owner], appr: liveApprovals(st, st.pos.get(o.owner)[o.idx].appr, o.expired) }
      | QOperators(o) =>
          val l = ACCT_ORDER.select(a => st.ops.keys().contains((o.owner, a)) and
                    (o.after.length() == 0 or acctRank(o.after[0]) < acctRank(a)))
                  .foldl([], (b, a) => b.append({ spender: a, exp: st.ops.get((o.owner, a)) }))
          val live = liveApprovals(st, l, o.expired)
          { ...NONE, appr: live.slice(0, take(capped(o.limit), live.length())) }
      | QNftInfo(o) => if (hasPos(st, o.owner, o.idx)) { ...NONE, pos: [st.pos.get(o.owner)[o.idx]] } else FAILED
      | QAllNftInfo(o) =>
          if (not(hasPos(st, o.owner, o.idx))) FAILED else
          val p = st.pos.get(o.owner)[o.idx]
          { ...NONE, who: [o.owner], pos: [p], appr: liveApprovals(st, p.appr, o.expired) }
      | QTokens(o) =>
          val r = page(posOf(st, o.owner).length(), o.limit, o.offset)
          { ...NONE, toks: range(r.from, r.upto).foldl([], (a, i) => a.append({ owner: o.owner, idx: i })) }
      | QAllTokens(o) =>
          val every = ACCT_ORDER.foldl([], (a, w) =>
            a.concat(range(0, posOf(st, w).length()).foldl([], (b, i) => b.append({ owner: w, idx: i }))))
          val l = every.select(t => o.after.length() == 0
            or acctRank(o.after[0].owner) < acctRank(t.owner)
            or (o.after[0].owner == t.owner and o.after[0].idx < t.idx))
          { ...NONE, toks: l.slice(0, take(capped(o.limit), l.length())) }
    }
}
