// One worker: calls functions of the real code (vpure) and compares every result with the
// specification's definition of it.      node fnworker.js '<job json>'
// job: { seed, shard, shards, n, groups: [names], deadline }
'use strict'
const { spawn } = require('child_process')
const readline = require('readline')
const path = require('path')
const { Spec, toRv, rvToJs } = require('./qeval.js')
const job = JSON.parse(process.argv[2])
const ROOT = path.resolve(__dirname, '..')
const sp = new Spec(path.join(ROOT, 'spec/functions.qnt'), 'functions', false)
const say = o => process.stdout.write(JSON.stringify(o) + '\n')
const st = { calls: 0, fns: {}, failed_calls: 0, cut: false }
const said = new Map()
function report (sym, o) {
  const n = (said.get(sym) || 0) + 1
  said.set(sym, n)
  if (n <= 3) say({ sym, ...o })
}
async function main () {
  const child = spawn(path.join(ROOT, 'pure/target/debug/vpure'), [job.groups.join(','), job.seed, job.shard, job.shards, job.n].map(String), { stdio: ['ignore', 'pipe', job.noisy ? 'inherit' : 'ignore'] })
  const rl = readline.createInterface({ input: child.stdout, crlfDelay: Infinity })
  let finished = false; let last = Date.now(); let prev = ''; let samples = 0
  const timer = setInterval(() => {
    if (!finished && Date.now() - last > 90000) { finished = true; report('hang', { after: prev }); child.kill('SIGKILL') }
  }, 1000)
  for await (const line of rl) {
    last = Date.now()
    if (!line || finished) continue
    if (job.deadline && last > job.deadline) { st.cut = true; finished = true; child.kill('SIGKILL'); break }
    let e
    try { e = JSON.parse(line) } catch (err) { if (child.killed || child.signalCode) break; throw err }
    prev = line
    st.calls++
    st.fns[e.f] = (st.fns[e.f] || 0) + 1
    const want = sp.fn(e.s)(...e.a.map(toRv))
    if (!want.equals(toRv(e.r))) report('fn:' + e.f + ':' + e.s, { call: e, spec: rvToJs(want) })
    if (e.r === '#-1' || (Array.isArray(e.r) && e.r.length === 0)) st.failed_calls++
    if (samples < 2 && st.calls % 97 === 5) { samples++; say({ sample: e }) }
  }
  clearInterval(timer)
  const code = finished ? 0 : await new Promise(resolve => child.exitCode !== null || child.signalCode ? resolve(child.exitCode === null ? child.signalCode : child.exitCode) : child.on('exit', (c, sig) => resolve(c === null ? sig : c)))
  if (code === 'SIGABRT' || code === 'SIGSEGV' || code === 101) { report('crash', { after: prev, code }); say({ stats: { ...st, cut: true }, code: 0 }) } else say({ stats: st, code })
}
main().catch(e => { console.error(e.stack); process.exit(3) })
