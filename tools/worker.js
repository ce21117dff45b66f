// One worker: runs a shard of histories on the real contract (vharness drive) and checks every
// step, every observed state and every query answer against the specification.
//   node worker.js '<job json>'
// job: { seed, from, to, step, len, profiles, state: [names], steps: [names], queries: bool, deadline }
'use strict'
const { spawn } = require('child_process')
const readline = require('readline')
const crypto = require('crypto')
const path = require('path')
const { Spec, toRv, rvToJs } = require('./qeval.js')
const { judge } = require('./judge.js')
const { explore } = require('./world.js')
const job = JSON.parse(process.argv[2])
const ROOT = path.resolve(__dirname, '..')
const sp = new Spec(path.join(ROOT, 'spec/worlds.qnt'), 'worlds', false)
const ask = sp.fn('ask')
const say = o => process.stdout.write(JSON.stringify(o) + '\n')

const st = { histories: 0, transitions: 0, carried: 0, evals: 0, queries: 0, ops: {}, rejected: {}, asked: {}, profiles: {}, quotes: 0, quoted: 0, cut: false }
const seen = new Set()
const perSym = new Map()
const said = new Set()
const saidSym = new Map()
let samples = 0
function report (sym, e) {
  // the first occurrence in each of the first few histories
  perSym.set(sym, (perSym.get(sym) || 0) + 1)
  const k = sym + '@' + (e.world || e.h)
  if (said.has(k)) return
  said.add(k)
  const n = (saidSym.get(sym) || 0) + 1
  saidSym.set(sym, n)
  if (n <= (job.max || 4)) say({ sym, ...e })
}
const hash = s => crypto.createHash('md5').update(s).digest('hex')

async function main () {
  if (job.worlds) await worlds()
  await histories()
}
// the small worlds of the specification, every operation in every state up to some depth
async function worlds () {
  st.depth = {}
  for (const w of job.worlds) {
    const d = await explore(sp, w, job, st, report, seen)
    if (d !== undefined) st.depth[w.name] = d
  }
}
async function histories () {
  const child = spawn(path.join(ROOT, 'harness/target/debug/vharness'),
    job.replay ? ['replay', job.replay] : ['drive', job.seed, job.from, job.to, job.step, job.len || 0, (job.profiles || []).join(',')].map(String),
    { stdio: ['ignore', 'pipe', 'inherit'] })
  const rl = readline.createInterface({ input: child.stdout, crlfDelay: Infinity })
  let cur = null; let h = 0; let prof = ''; let n = 0; let quote = null; let ops = []
  let finished = false
  // a driver that says nothing for this long is stuck inside the contract
  const QUIET = Number(job.quiet || 90) * 1000
  let last = Date.now(); let stuck = false
  const timer = setInterval(() => {
    if (!finished && Date.now() - last > QUIET) { stuck = true; finished = true; report('hang', { h, seed: job.seed, prof, step: n, after: ops[ops.length - 1] }); child.kill('SIGKILL') }
  }, 1000)
  for await (const line of rl) {
    last = Date.now()
    if (!line || finished) continue
    let e
    try { e = JSON.parse(line) } catch (err) { if (child.killed || child.signalCode) break; throw err }
    if (e.init) {
      if (job.deadline && Date.now() > job.deadline) { st.cut = true; finished = true; child.kill(); break }
      h = e.h; prof = e.prof; n = 0; cur = toRv(e.init); ops = []; quote = null
      st.profiles[prof] = (st.profiles[prof] || 0) + 1
      continue
    }
    if (cur === null) { if (e.end !== undefined) st.histories++; continue }
    const where = () => ({ h, seed: job.seed, prof, step: n })
    if (e.fatal !== undefined) { report('inconsistent', { ...e, h, prof }); st.histories++; continue }
    if (e.end !== undefined) { st.histories++; continue }
    if (e.q) {
      if (job.queries) {
        st.queries++
        st.asked[e.q.tag] = (st.asked[e.q.tag] || 0) + 1
        const want = ask(cur, toRv(e.q))
        if (!want.equals(toRv(e.a))) report('query:' + e.q.tag, { ...where(), query: e.q, spec: rvToJs(want), real: e.a })
        if (e.for === 'next') quote = e
      }
      continue
    }
    if (!e.op) continue
    n++
    const tag = e.op.tag
    ops.push(e.op)
    const post = judge(sp, cur, e, job, st, report, where)
    if (post === null) { cur = null; continue }
    if (e.st) seen.add(hash(JSON.stringify(e.st)))
    if (quote && job.queries) {
      // what the quote promised for the very next operation
      const a = quote.a; const q = quote.q.tag
      st.quotes++
      if (e.ok) {
        st.quoted++
        if (q === 'QQuote') {
          const [qi, qo] = [a.n[0], a.n[1]]
          if (!a.ok || qi !== e.out[0] || qo !== e.out[1]) report('quote:' + tag, { ...where(), op: e.op, real: { ok: e.ok, out: e.out }, quote: quote.a })
        }
      }
      quote = null
    }
    if (samples < 2 && e.st && e.ok && n > 4) { samples++; say({ sample: { history: h, profile: prof, step: n, op: e.op, out: e.out, error: e.err || undefined } }) }
    cur = post
  }
  clearInterval(timer)
  const code = finished ? 0 : await new Promise(resolve => child.exitCode !== null || child.signalCode ? resolve(child.exitCode === null ? child.signalCode : child.exitCode) : child.on('exit', (c, sig) => resolve(c === null ? sig : c)))
  if (code === 'SIGABRT' || code === 'SIGSEGV' || code === 101) { report('crash', { h, seed: job.seed, prof, step: n, after: ops[ops.length - 1], signal: code }); say({ stats: st, states: [...seen], symptoms: {}, code: 0 }); return }
  say({ stats: st, states: [...seen], symptoms: Object.fromEntries(perSym), code })
}
main().then(() => process.exit(0), e => { console.error(e.stack); process.exit(2) })
