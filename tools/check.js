// Decides one property:  node tools/check.js <id> [--tier quick|thorough] [--seed n]
// exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
'use strict'
const { spawn, spawnSync } = require('child_process')
const readline = require('readline')
const fs = require('fs')
const path = require('path')
const os = require('os')
const ROOT = path.resolve(__dirname, '..')
const P = require('./properties.js')
const t0 = Date.now()

const args = process.argv.slice(2)
const id = args[0]
const opt = n => { const i = args.indexOf('--' + n); return i < 0 ? undefined : args[i + 1] }
const tier = opt('tier') || process.env.VERIF_TIER || 'quick'
const seed = Number(opt('seed') || process.env.VERIF_SEED || 1)
const cores = Number(opt('jobs') || Math.max(2, Math.min(8, os.cpus().length)))
const prop = P[id]
if (!prop) { console.error('unknown property ' + id); process.exit(2) }
const quick = tier !== 'thorough'
const budget = Number(opt('budget') || (quick ? 150 : 3000)) * 1000   // wall-clock cap of the exploration
const known = readKnown()

function readKnown () {
  // lines  "KNOWN property=<id> symptom=<symptom> where=<substring of the operation> | text"
  const f = path.join(ROOT, 'known-findings.txt')
  if (!fs.existsSync(f)) return []
  return fs.readFileSync(f, 'utf8').split('\n').map(l => {
    const m = l.match(/^KNOWN property=(\S+) symptom=(\S+) where=(\S+) \| (.*)$/)
    return m && { property: m[1], symptom: m[2], where: m[3], text: m[4] }
  }).filter(k => k && k.property === id)
}
function fail (msg) { console.error(msg); process.exit(2) }

function build (script) {
  const r = spawnSync('bash', [path.join(ROOT, script)], { stdio: ['ignore', 'inherit', 'inherit'] })
  if (r.status !== 0) fail('building ' + script + ' against /repo failed')
}

function runWorkers (file, jobs, onLine) {
  return Promise.all(jobs.map(job => new Promise((resolve, reject) => {
    const c = spawn(process.execPath, ['--stack-size=4000', path.join(__dirname, file), JSON.stringify(job)], { stdio: ['ignore', 'pipe', 'inherit'] })
    const rl = readline.createInterface({ input: c.stdout, crlfDelay: Infinity })
    rl.on('line', l => { if (l) onLine(JSON.parse(l)) })
    c.on('error', reject)
    c.on('close', code => code === 0 ? resolve() : reject(new Error('worker ended with ' + code)))
  })))
}

async function main () {
  const hits = []; const other = new Map(); const samples = []
  const tot = { histories: 0, transitions: 0, carried: 0, evals: 0, queries: 0, quotes: 0, quoted: 0, calls: 0, ops: {}, rejected: {}, asked: {}, profiles: {}, fns: {}, cut: false, depth: {} }
  const states = new Set()
  const add = s => {
    for (const k in s) {
      if (typeof s[k] === 'number') tot[k] = (tot[k] || 0) + s[k]
      else if (typeof s[k] === 'boolean') tot[k] = tot[k] || s[k]
      else if (k === 'depth') for (const j in s[k]) tot.depth[j] = Math.min(tot.depth[j] === undefined ? 99 : tot.depth[j], s[k][j])
      else for (const j in s[k]) { tot[k] = tot[k] || {}; tot[k][j] = (tot[k][j] || 0) + s[k][j] }
    }
  }
  const own = sym => sym === 'hang' || sym === 'crash' || sym.startsWith('inv:') || sym.startsWith('step:') || sym.startsWith('fn:') || (prop.hears || []).some(r => r.test(sym))
  const onLine = o => {
    if (o.sample) { if (samples.length < 6) samples.push(o.sample); return }
    if (o.stats) {
      if (o.code !== 0 && !o.stats.cut) throw new Error('driver ended with ' + o.code)
      add(o.stats); for (const s of o.states || []) states.add(s)
      return
    }
    if (o.sym) { if (own(o.sym)) hits.push(o); else other.set(o.sym, (other.get(o.sym) || 0) + 1) }
  }
  const deadline = Date.now() + budget
  const kinds = [].concat(prop.kind)
  if (kinds.includes('histories')) {
    build('harness/build.sh')
    const n = Math.ceil((Number(opt('n')) || prop.n[quick ? 0 : 1]) / cores) * cores
    const jobs = []
    for (let i = 0; i < cores; i++) {
      jobs.push({ seed, from: i, to: n, step: cores, profiles: opt('profiles') ? opt('profiles').split(',') : prop.profiles, state: prop.state, steps: prop.steps, queries: prop.queries, events: prop.events, deadline, prop: id, shard: i, shards: cores, quotesOnly: prop.quotesOnly, worlds: opt('profiles') ? undefined : (prop.worlds || []).map(w => ({ name: w, depth: quick ? 3 : 8, cap: Math.ceil((quick ? 1600 : 60000) / prop.worlds.length), walks: Math.ceil((quick ? 1600 : 60000) / prop.worlds.length) })) })
    }
    await runWorkers('worker.js', jobs, onLine)
    if (prop.big && !opt('profiles')) {   // a few large deployments
      const n = Math.ceil(prop.big.n[quick ? 0 : 1] / cores) * cores
      const more = jobs.map((j, i) => ({ ...j, from: 1000000 + i, to: 1000000 + n, profiles: prop.big.profiles, worlds: undefined }))
      await runWorkers('worker.js', more, onLine)
    }
  }
  if (kinds.includes('functions')) {
    build('pure/build.sh')
    const jobs = []
    for (let i = 0; i < cores; i++) jobs.push({ seed, shard: i, shards: cores, n: prop.calls[quick ? 0 : 1], groups: prop.groups, deadline })
    await runWorkers('fnworker.js', jobs, onLine)
  }

  // ---- verdict ----
  const out = path.join(ROOT, 'out')
  fs.mkdirSync(out, { recursive: true })
  const fresh = []; const listed = new Map()
  for (const h of hits) {
    const k = known.find(k => k.symptom === h.sym && JSON.stringify(h).includes(k.where))
    if (k) listed.set(k.text, k); else fresh.push(h)
  }
  for (const k of listed.values()) console.log('KNOWN-FINDING: property=' + id + ' ' + k.text)
  const cov = { states: states.size, transitions: tot.transitions, traces_validated_against_impl: tot.histories, samples }
  const evidence = {
    property: id, tier: quick ? 'quick' : 'thorough', seed, level: prop.level || 'model_checking',
    coverage: {
      ...cov,
      evaluations: tot.transitions + tot.evals + tot.queries + tot.calls,
      small_worlds_explored_to_depth: tot.depth,
      operations_carried_out: tot.ops, operations_rejected: tot.rejected, kinds_of_history: tot.profiles,
      predicates: { of_states: prop.state, of_steps: prop.steps, evaluated: tot.evals },
      queries_answered: tot.asked, quotes_followed_by_execution: tot.quoted,
      function_calls: tot.fns, stopped_by_time: tot.cut,
      divergences_of_other_properties: Object.fromEntries(other)
    },
    assumptions: [
      'the specification in spec/*.qnt states the intended behaviour',
      'the contract is run natively (cw-multi-test), not as wasm; cw20-base and the bank module behave as on chain',
      'tokens are standard: transfers move the exact amount'
    ],
    wall_s: (Date.now() - t0) / 1000, violations: fresh.length
  }
  if (kinds[0] === 'functions' && kinds.length === 1) { evidence.coverage.states = tot.calls; evidence.coverage.transitions = tot.calls; evidence.coverage.traces_validated_against_impl = tot.calls }
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n')
  const rest = [...other].map(([k, n]) => k + ' x' + n).join(', ')
  if (rest) console.log('note: differences that do not concern ' + id + ': ' + rest.slice(0, 400))
  if (fresh.length) {
    fresh.sort((a, b) => (a.step || 0) - (b.step || 0))
    const f = path.join(out, id + '-' + (quick ? 'quick' : 'thorough') + '-' + seed + '.json')
    fs.writeFileSync(f, JSON.stringify({ property: id, how_to_repeat: repeat(fresh[0]), findings: fresh.slice(0, 40) }, null, 1) + '\n')
    const h = fresh[0]
    console.log('first: ' + h.sym + ' ' + JSON.stringify(h).slice(0, 900))
    console.log('VIOLATION property=' + id + ' replay=' + f)
    process.exit(1)
  }
  console.log(`ok ${id}: ${tot.histories} histories, ${tot.transitions} operations (${tot.carried} carried out), ${states.size} states, ${tot.evals} predicate evaluations, ${tot.queries} queries, ${tot.calls} calls; ${((Date.now() - t0) / 1000).toFixed(1)} s` + (tot.cut ? ' (cut by time)' : ''))
  process.exit(0)
}
function repeat (h) {
  if (h.path) return 'write {"pfee","rich","poor","ops"} of the finding (deployment, path) to a file; harness/target/debug/vharness replay <file>'
  return h.h !== undefined ? `harness/target/debug/vharness drive ${seed} ${h.h} ${h.h + 1} 1 0 ${h.prof || (prop.profiles || []).join(',')}   # step ${h.step}` : 'see findings'
}
main().catch(e => fail(e.stack))
