// Carries out a small world of spec/worlds.qnt on the real contract, breadth first: every operation of the world in
// every state reached, each judged by the specification.
'use strict'
const { spawn } = require('child_process')
const readline = require('readline')
const crypto = require('crypto')
const path = require('path')
const { toRv, rvToJs, rv } = require('./qeval.js')
const { judge, differ } = require('./judge.js')
const ROOT = path.resolve(__dirname, '..')
const hash = s => crypto.createHash('md5').update(s).digest('hex')

// the contract behind `vharness serve`
class Contract {
  constructor (quiet) {
    this.waiting = []; this.last = Date.now(); this.doing = null
    this.child = spawn(path.join(ROOT, 'harness/target/debug/vharness'), ['serve'], { stdio: ['pipe', 'pipe', 'inherit'] })
    this.child.stdin.on('error', () => {})
    const rl = readline.createInterface({ input: this.child.stdout, crlfDelay: Infinity })
    rl.on('line', l => { this.last = Date.now(); const w = this.waiting.shift(); if (w) w.resolve(JSON.parse(l)) })
    this.timer = setInterval(() => { if (this.waiting.length && Date.now() - this.last > quiet) this.broken('hang') }, 1000)
    this.child.on('exit', () => this.broken('crash'))
  }

  broken (how) { this.gone = this.gone || how; for (const w of this.waiting.splice(0)) w.reject(Object.assign(new Error(how), { how: this.gone })) }
  send (o) { this.child.stdin.write(JSON.stringify(o) + '\n') }
  call (o) { return new Promise((resolve, reject) => { if (this.gone) return reject(Object.assign(new Error(this.gone), { how: this.gone })); this.waiting.push({ resolve, reject }); this.last = Math.max(this.last, Date.now()); this.send(o) }) }
  close () { clearInterval(this.timer); this.child.removeAllListeners('exit'); this.child.kill('SIGKILL') }
}

const quoteOf = op => {
  const v = op.value
  if (op.tag === 'Swap') return { tag: 'QQuote', value: { key: v.key, xToY: v.xToY, amt: v.amt, byIn: v.byIn, limit: v.limit } }
  if (op.tag === 'SwapRoute') return { tag: 'QQuoteRoute', value: { amt: v.amt, hops: v.hops } }
}

// world: { name, depth, cap }; the work is shared by job.shards workers
async function explore (sp, world, job, st, report, seen) {
  const c = new Contract(Number(job.quiet || 90) * 1000)
  try { return await walk(c, sp, world, job, st, report, seen) } catch (e) {
    if (!e.how) throw e
    report(e.how, { world: world.name, path: c.doing })
  } finally { c.close() }
}

async function walk (c, sp, world, job, st, report, seen) {
  const W = rvToJs(sp.fn('worldOf')(rv.mkStr(world.name)))
  const deployment = { pfee: W.pfee.slice(1), rich: W.rich.slice(1), poor: W.poor.slice(1) }
  const at = p => ({ world: world.name, deployment, path: p, step: p.length })
  const r0 = await c.call({ new: deployment })
  let cur = toRv(r0.st); let id = r0.id; let setup = []
  const fresh = sp.fn('deploy')(toRv(W.pfee), toRv(W.rich), toRv(W.poor))
  if (!fresh.equals(cur)) {
    const d = []
    differ(rvToJs(fresh), rvToJs(cur), '', d)
    for (const x of d) report('state:Instantiate:' + x[0], { ...at([]), specValue: x[1], realValue: x[2] })
  }
  const answer = (state, q, a, p) => {
    st.queries++
    st.asked[q.tag] = (st.asked[q.tag] || 0) + 1
    const want = sp.fn('ask')(state, toRv(q))
    if (!want.equals(toRv(a))) report('query:' + q.tag, { ...at(p), query: q, spec: rvToJs(want), real: a })
  }
  const askAll = async (state, id, p) => {
    if (!job.queries || job.quotesOnly) return
    const qs = rvToJs(sp.fn('asksOf')(state))
    const as = await Promise.all(qs.map(q => c.call({ at: id, q })))
    qs.forEach((q, i) => answer(state, q, as[i].a, p))
  }
  for (const op of W.setup) {
    setup = [...setup, op]
    c.doing = setup
    const a = await c.call({ at: id, op, keep: true })
    const post = judge(sp, cur, { ...a, op }, job.shard === 0 ? job : {}, st, report, () => at(setup))
    if (post === null || a.id === undefined) return
    cur = post; id = a.id
  }
  if (job.shard === 0) await askAll(cur, id, setup)
  const mark = s => { const h = hash(JSON.stringify(s)); if (seen.has(h)) return false; seen.add(h); return true }
  let n = 0; let count = 0; let done = 0
  const late = () => { if (job.deadline && Date.now() > job.deadline) st.cut = true; return st.cut }
  const mine = depth => depth > 1 || job.shard === 0     // all workers take the first step, one judges it
  // carries out `ops` in a state; the states they lead to
  const tryAll = async (node, ops, depth, keep, fresh) => {
    c.doing = [...node.path, ...ops]
    const quotes = job.queries && mine(depth) ? ops.map(quoteOf) : []
    const qa = await Promise.all(quotes.map(q => q && c.call({ at: node.id, q })))
    const as = await Promise.all(ops.map(op => c.call({ at: node.id, op, keep })))
    count += depth === 1 ? ops.length / job.shards : ops.length
    const next = []
    for (let i = 0; i < ops.length; i++) {
      const p = [...node.path, ops[i]]
      const e = { ...as[i], op: ops[i] }
      if (quotes[i]) {
        answer(node.cur, quotes[i], qa[i].a, p)
        const a = qa[i].a
        if (e.ok) st.quoted = (st.quoted || 0) + 1
        if (e.ok && quotes[i].tag === 'QQuote' && (!a.ok || a.n[0] !== e.out[0] || a.n[1] !== e.out[1])) report('quote:Swap', { ...at(p), quote: a, real: { ok: e.ok, out: e.out } })
      }
      const post = mine(depth) ? judge(sp, node.cur, e, job, st, report, () => at(p)) : (e.st ? toRv(e.st) : node.cur)
      const known = e.st && !mark(e.st)
      if (post === null || !keep || (fresh && (!e.st || known))) { if (e.id !== undefined) c.send({ drop: e.id }); continue }
      if (e.st && !known && mine(depth)) await askAll(post, e.id, p)
      next.push({ id: e.id, cur: post, path: p, ok: e.ok })
    }
    return next
  }
  const moves = node => rvToJs(sp.fn('movesOf')(rv.mkStr(world.name), node.cur))
  // every operation in every state, level by level
  let level = [{ id, cur, path: setup }]
  for (let depth = 1; depth <= world.depth && level.length && done === depth - 1; depth++) {
    const next = []
    done = depth
    for (let i = 0; i < level.length; i++) {
      const node = level[i]
      if (late() || (depth > 2 && count * job.shards >= world.cap)) { done = depth - 1; next.push(...level.slice(i)); break }
      let ops = moves(node)
      if (depth === 2) ops = ops.filter(() => n++ % job.shards === job.shard)   // from here on each worker has its own part
      next.push(...await tryAll(node, ops, depth, true, true))
      c.send({ drop: node.id })
    }
    level = next
  }
  // further, along single paths
  const rnd = rng(job.seed * 1000 + job.shard)
  for (let total = 0; level.length && total * job.shards < world.walks;) {
    const first = level[rnd(level.length)]
    let node = first
    for (let k = 0; k < (world.length || 12); k++) {
      if (late()) return done
      const ops = moves(node)
      const r = await tryAll(node, [ops[rnd(ops.length)]], 99, true, false)
      total++
      if (!r.length) break
      if (node !== first) c.send({ drop: node.id })
      node = r[0]
    }
    if (node !== first) c.send({ drop: node.id })
  }
  return done
}
// a reproducible sequence
function rng (seed) {
  let s = BigInt(seed) * 2862933555777941757n + 3037000493n
  return n => { s = (s * 6364136223846793005n + 1442695040888963407n) & ((1n << 64n) - 1n); return Number((s >> 33n) % BigInt(n)) }
}
module.exports = { explore }
