// Loads a Quint specification once and evaluates its definitions on values that
// come from the implementation.  Uses the installed Quint's own parser, type
// checker and evaluator (the ones behind `quint run` / `quint repl`).
'use strict'
const fs = require('fs')
const path = require('path')
const QROOT = process.env.QUINT_LIB || findQuint()
function findQuint () {
  const cands = ['/opt/veriftools/quint/node_modules/@informalsystems/quint']
  for (const c of cands) if (fs.existsSync(c + '/dist/src/index.js')) return c
  throw new Error('quint library not found')
}
const src = m => require(path.join(QROOT, 'dist/src', m))
const { parse } = src('parsing/quintParserFrontend.js')
const { fileSourceResolver } = src('parsing/sourceResolver.js')
const { newIdGenerator } = src('idGenerator.js')
const { analyzeModules } = src('quintAnalyzer.js')
const { Evaluator } = src('runtime/impl/evaluator.js')
const { buildExpr } = src('runtime/impl/builder.js')
const { newTraceRecorder } = src('runtime/trace.js')
const { newRng } = src('rng.js')
const { rv } = src('runtime/impl/runtimeValue.js')

// JSON -> RuntimeValue.  Conventions (ITF plus a shorthand):
//   "#123" / number  integer        {"#map":[[k,v]..]} {"#set":[..]} {"#tup":[..]}
//   {"tag":T,"value":V}  variant    other object       record
function toRv (j) {
  if (typeof j === 'number') return rv.mkInt(BigInt(j))
  if (typeof j === 'boolean') return rv.mkBool(j)
  if (typeof j === 'string') return j[0] === '#' ? rv.mkInt(BigInt(j.slice(1))) : rv.mkStr(j)
  if (Array.isArray(j)) return rv.mkList(j.map(toRv))
  if (j['#bigint'] !== undefined) return rv.mkInt(BigInt(j['#bigint']))
  if (j['#map'] !== undefined) return rv.mkMap(j['#map'].map(([k, v]) => [toRv(k), toRv(v)]))
  if (j['#set'] !== undefined) return rv.mkSet(j['#set'].map(toRv))
  if (j['#tup'] !== undefined) return rv.mkTuple(j['#tup'].map(toRv))
  if (j.tag !== undefined && j.value !== undefined && Object.keys(j).length === 2) {
    return rv.mkVariant(j.tag, toRv(j.value))
  }
  return rv.mkRecord(Object.keys(j).map(k => [k, toRv(j[k])]))
}

// QuintEx value -> plain JS (ints as "#..", maps as {"#map"}, ...)
function exToJs (ex) {
  switch (ex.kind) {
    case 'int': return '#' + ex.value
    case 'bool': case 'str': return ex.value
    case 'app':
      switch (ex.opcode) {
        case 'List': return ex.args.map(exToJs)
        case 'Set': return { '#set': ex.args.map(exToJs) }
        case 'Tup': return { '#tup': ex.args.map(exToJs) }
        case 'Map': return { '#map': ex.args.map(a => a.args.map(exToJs)) }
        case 'variant': return { tag: exToJs(ex.args[0]), value: exToJs(ex.args[1]) }
        case 'Rec': {
          const o = {}
          for (let i = 0; i < ex.args.length; i += 2) o[ex.args[i].value] = exToJs(ex.args[i + 1])
          return o
        }
      }
  }
  throw new Error('unexpected value ' + JSON.stringify(ex, (k, v) => typeof v === 'bigint' ? String(v) : v))
}
const zero = { nextId: () => 0n }
const rvToJs = v => exToJs(rv.toQuintEx(v))

class Spec {
  constructor (file, mainName, check = true) {
    const abs = path.resolve(file)
    const text = fs.readFileSync(abs, 'utf8')
    const idGen = newIdGenerator()
    const resolver = fileSourceResolver(new Map())
    const sp = resolver.lookupPath(path.dirname(abs), path.basename(abs))
    const res = parse(idGen, abs, sp, text)
    if (res.errors && res.errors.length) {
      throw new Error('parse: ' + JSON.stringify(res.errors.slice(0, 3), (k, v) => typeof v === 'bigint' ? String(v) : v))
    }
    // the type and effect analysis does not influence evaluation; `setup.sh` runs it once
    const [errs] = check ? analyzeModules(res.table, res.modules) : [[]]
    if (errs.length) throw new Error('analysis: ' + JSON.stringify(errs.slice(0, 3), (k, v) => typeof v === 'bigint' ? String(v) : v))
    const main = res.modules.find(m => m.name === mainName)
    if (!main) throw new Error('no module ' + mainName)
    // names are unique across the modules of this specification
    this.defs = new Map([...res.modules, main].flatMap(m => m.declarations).filter(d => d.kind === 'def').map(d => [d.name, d]))
    this.recorder = newTraceRecorder(0, newRng())
    this.ev = new Evaluator(res.table, this.recorder, newRng())
    this.cache = new Map()
  }

  // returns a JS function over RuntimeValues for the operator `name` of the main module
  fn (name) {
    if (this.cache.has(name)) return this.cache.get(name)
    const d = this.defs.get(name)
    if (!d) throw new Error('no definition ' + name)
    let f
    if (d.expr.kind === 'lambda') {
      const lam = buildExpr(this.ev.builder, d.expr)(this.ev.ctx).unwrap()
      const arrow = lam.toArrow()
      f = (...args) => {
        const r = arrow(this.ev.ctx, args)
        if (r.isLeft()) throw new Error(name + ': ' + JSON.stringify(r.value, (k, v) => typeof v === 'bigint' ? String(v) : v))
        return r.value
      }
    } else {
      const e = buildExpr(this.ev.builder, d.expr)
      f = () => e(this.ev.ctx).unwrap()
    }
    this.cache.set(name, f)
    return f
  }
}
module.exports = { Spec, toRv, rvToJs, rv }
