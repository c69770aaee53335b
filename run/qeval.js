'use strict'
// Evaluates definitions of the Quint specification with Quint's own evaluator, on values that come from elsewhere.
const path = require('path')
const fs = require('fs')

function quintHome() {
  const dirs = [process.env.QUINT_LIB, '/opt/veriftools/quint/node_modules/@informalsystems/quint'].filter(Boolean)
  for (const d of dirs) if (fs.existsSync(path.join(d, 'dist/src/index.js'))) return path.join(d, 'dist/src')
  throw new Error('the Quint library is not installed')
}
const Q = quintHome()
const { newIdGenerator } = require(path.join(Q, 'idGenerator'))
const fe = require(path.join(Q, 'parsing/quintParserFrontend'))
const { fileSourceResolver } = require(path.join(Q, 'parsing/sourceResolver'))
const { Evaluator } = require(path.join(Q, 'runtime/impl/evaluator'))
const { buildDef } = require(path.join(Q, 'runtime/impl/builder'))
const rt = require(path.join(Q, 'runtime/impl/runtimeValue'))
const { noExecutionListener } = require(path.join(Q, 'runtime/trace'))
const { newRng } = require(path.join(Q, 'rng'))
const { right } = require(path.join(Q, '../../../../@sweet-monads/either'))
const { analyzeModules } = require(path.join(Q, 'quintAnalyzer'))
const rv = rt.rv

class Spec {
  constructor(file, main) {
    const idGen = newIdGenerator()
    const text = fs.readFileSync(file, 'utf8')
    const resolver = fileSourceResolver()
    const p = resolver.lookupPath(path.dirname(file), './' + path.basename(file))
    let d = fe.parsePhase1fromText(idGen, text, p.toSourceName ? p.toSourceName() : file)
    const stop = x => { if (x.errors.length > 0) throw new Error('specification: ' + JSON.stringify(x.errors.slice(0, 3), (k, v) => typeof v === 'bigint' ? String(v) : v)); return x }
    stop(d)
    d = stop(fe.parsePhase2sourceResolution(idGen, resolver, p, d))
    d = stop(fe.parsePhase3importAndNameResolution(d))
    d = stop(fe.parsePhase4toposort(d))
    this.ev = new Evaluator(d.table, noExecutionListener, newRng(1n))
    this.defs = new Map()
    for (const m of d.modules) for (const x of m.declarations) if (x.kind === 'def') { this.defs.set(m.name + '::' + x.name, x); if (m.name === main) this.defs.set(x.name, x) }
    this.fns = new Map()
  }
  lambda(name) {
    let f = this.fns.get(name)
    if (!f) {
      const def = this.defs.get(name)
      if (!def) throw new Error('no definition ' + name)
      const v = buildDef(this.ev.builder, def)(this.ev.ctx)
      if (v.isLeft()) throw new Error(name + ': ' + v.value.message)
      f = v.value
      this.fns.set(name, f)
    }
    return f
  }
  // the value of a top-level definition applied to runtime values
  call(name, ...args) {
    const f = this.lambda(name)
    if (args.length === 0) return f
    for (let i = 0; i < args.length; i++) f.registers[i].value = right(args[i])
    const r = f.body(this.ev.ctx)
    if (r.isLeft()) throw new Error(`${name}: ${r.value.code} ${r.value.message}`)
    return r.value
  }
}

// ---- values: JSON with integers "#n", {$map: [[k, v]]}, {$set: [..]}, variants {$v, x}
const BYTES = [...Array(256).keys()].map(b => rv.mkInt(BigInt(b)))
function dec(j) {
  if (typeof j === 'string') return j[0] === '#' ? rv.mkInt(BigInt(j.slice(1))) : rv.mkStr(j)
  if (typeof j === 'boolean') return rv.mkBool(j)
  if (Array.isArray(j)) return rv.mkList(j.map(dec))
  if (j && typeof j === 'object') {
    if ('$map' in j) return rv.mkMap(j.$map.map(([k, v]) => [dec(k), dec(v)]))
    if ('$bytes' in j) return rv.mkList([...Buffer.from(j.$bytes, 'hex')].map(b => BYTES[b]))
    if ('$set' in j) return rv.mkSet(j.$set.map(dec))
    if ('$v' in j) return rv.mkVariant(j.$v, dec(j.x))
    return rv.mkRecord(Object.entries(j).map(([k, v]) => [k, dec(v)]))
  }
  throw new Error('cannot decode ' + JSON.stringify(j))
}
function enc(v) {
  const n = v.constructor.name
  switch (n) {
    case 'RuntimeValueBool': return v.value
    case 'RuntimeValueInt': return '#' + v.value
    case 'RuntimeValueStr': return v.value
    case 'RuntimeValueTupleOrList': return [...v.list].map(enc)
    case 'RuntimeValueRecord': { const o = {}; for (const [k, x] of v.map) o[k] = enc(x); return o }
    case 'RuntimeValueVariant': return { $v: v.label, x: enc(v.value) }
    case 'RuntimeValueMap': return { $map: [...v.map].map(([k, x]) => [enc(k), enc(x)]) }
    case 'RuntimeValueSet': case 'RuntimeValueInterval': return { $set: [...v].map(enc) }
    default: throw new Error('cannot encode ' + n)
  }
}
const field = (v, k) => v.toOrderedMap().get(k)
module.exports = { Spec, dec, enc, rv, field }
