// Judges one operation that the contract was asked to carry out: does it do what the specification says, and do
// the property's predicates hold?
'use strict'
const { toRv, rvToJs } = require('./qeval.js')

// names of the parts of the state in which two values differ, e.g. pools.fgx, pos[].liq, bal[dex]
function differ (a, b, where, out, depth = 0) {
  const ja = JSON.stringify(a); const jb = JSON.stringify(b)
  if (ja === jb) return
  if (a === undefined || b === undefined) { out.push([where + (a === undefined ? '+' : '-'), ja, jb]); return }
  if (a && b && typeof a === 'object' && typeof b === 'object') {
    if (a['#map'] && b['#map']) {
      const m = x => new Map(x['#map'].map(([k, v]) => [JSON.stringify(k), v]))
      const ma = m(a); const mb = m(b)
      for (const k of new Set([...ma.keys(), ...mb.keys()])) {
        const dex = where === 'bal' ? (k.includes('"dex"') ? '[dex]' : '[user]') : ''
        differ(ma.get(k), mb.get(k), where + dex, out, depth + 1)
      }
      return
    }
    if (Array.isArray(a) && Array.isArray(b)) {
      if (a.length !== b.length) out.push([where + '#', ja, jb])
      for (let i = 0; i < Math.min(a.length, b.length); i++) differ(a[i], b[i], where, out, depth + 1)
      return
    }
    if (!a['#set'] && !a['#tup'] && !Array.isArray(a) && !Array.isArray(b)) {
      for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
        differ(a[k], b[k], where ? where + '.' + k : k, out, depth + 1)
      }
      return
    }
  }
  out.push([where, ja, jb])
}

// does the operation handle native coins?
function coinsIn (v) {
  return (v.funds && v.funds['#map'].length > 0) || (v.funds && [v.key, ...(v.hops || []).map(x => x.key)].some(k => k && (num(k.x) > 2 || num(k.y) > 2)))
}
const big = x => String(x).replace('#', '')
const num = x => typeof x === 'string' ? Number(x.slice(1)) : x

// sp: the specification; cur: state before (RuntimeValue); e: { op, ok, out, err, st?, ph? } what the contract did
// (st absent: the state is as before); job: { steps, state }; report(symptom, context).  Returns the state after.
function judge (sp, cur, e, job, st, report, where) {
  const tag = e.op.tag
  const k = e.ok ? st.ops : st.rejected
  k[tag] = (k[tag] || 0) + 1
  st.transitions++
  const op = toRv(e.op)
  const r = sp.fn('apply')(cur, op).toOrderedMap()
  const ok = r.get('ok').toBool()
  const ctx = () => ({ ...where(), op: e.op, real: { ok: e.ok, out: e.out, err: e.err }, spec: { ok, out: rvToJs(r.get('out')) }, phase: e.ph })
  if (e.obs_error !== undefined) { report('inconsistent', { ...ctx(), error: e.obs_error }); return null }
  const post = e.st ? toRv(e.st) : cur
  const coins = coinsIn(e.op.value)
  if (ok !== e.ok) {
    report((e.ok ? 'accepted:' : 'refused:') + tag, ctx())
    if (coins) report('funds:' + tag, ctx())
  } else {
    const d = []
    if (!r.get('st').equals(post)) differ(rvToJs(r.get('st')), rvToJs(post), '', d)
    const parts = new Map(d.map(x => [x[0], x]))
    if (coins && [...parts.keys()].some(p => p.startsWith('bal'))) report('funds:' + tag, ctx())
    for (const [p, x] of parts) report('state:' + tag + ':' + p, { ...ctx(), part: p, specValue: x[1], realValue: x[2] })
    if (ok && JSON.stringify(rvToJs(r.get('out'))) !== JSON.stringify(e.out)) report('out:' + tag, ctx())
    if (ok && job.events && e.ev) {
      st.evals++
      const want = rvToJs(sp.fn('announced')(cur, op, r.get('out')))
      const wrong = [...want.text['#map'].filter(([k, v]) => e.ev.text[k] !== v), ...want.nums['#map'].filter(([k, v]) => big(e.ev.nums[k]) !== big(v))]
      if (e.ev.events !== 1 || e.ev.text.twice !== undefined || wrong.length) report('event:' + tag, { ...ctx(), announced: e.ev, wrong })
    }
  }
  if (!e.ok && e.st) report('rollback:' + tag, ctx())
  if (e.ph === 'drain' && !e.ok) report('drain:' + tag, ctx())
  if (e.ok) {
    st.carried++
    const outv = toRv(e.out)
    for (const name of job.steps || []) {
      st.evals++
      if (!sp.fn('step_' + name)(cur, op, outv, post).toBool()) report('step:' + name, ctx())
    }
  }
  if (e.st) {
    for (const name of job.state || []) {
      st.evals++
      if (!sp.fn(name)(post).toBool()) report('inv:' + name, ctx())
    }
  }
  return post
}
module.exports = { judge, differ }
