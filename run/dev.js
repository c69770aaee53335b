'use strict'
// Development aid: judge everything in generated histories.  node dev.js PROP SEED COUNT
const { Player } = require('./worker')
const path = require('path')
const show = (o) => JSON.stringify(o)
function diff(a, b, at, out) {
  if (typeof a !== 'object' || a === null || b === null || typeof b !== 'object') { if (a !== b) out.push(`${at}: ${show(a)} -> ${show(b)}`); return out }
  if (a.$map && b.$map) {
    const x = new Map(a.$map), y = new Map(b.$map)
    for (const k of new Set([...x.keys(), ...y.keys()])) diff(x.has(k) ? x.get(k) : null, y.has(k) ? y.get(k) : null, at + '.' + k, out)
    return out
  }
  if (a.$set && b.$set) { const x = a.$set.map(show).sort(), y = b.$set.map(show).sort(); if (show(x) !== show(y)) out.push(`${at}: ${x} -> ${y}`); return out }
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) diff(a[k] === undefined ? null : a[k], b[k] === undefined ? null : b[k], at + '.' + k, out)
  return out
}
async function main() {
  const [prop, seed0, count] = [process.argv[2], Number(process.argv[3] || 1), Number(process.argv[4] || 5)]
  const pl = new Player({ bin: path.join(__dirname, '../harness/target/debug/dbc-harness') })
  const stat = new Map(), whys = new Map()
  let bad = 0, trans = 0
  const t0 = Date.now()
  for (let s = seed0; s < seed0 + count; s++) {
    try {
      await pl.play(prop, s, (t, at) => {
        trans++
        const key = t.ix.act.$v + (t.ix.sub.length ? '*' : '') + (t.res.ok ? ' ok' : ' no')
        stat.set(key, (stat.get(key) || 0) + 1)
        const e0 = process.env.WHY ? pl.expect(t) : null
        if (e0 && !e0.ok) for (const y of e0.why.$set) { const q = t.ix.act.$v + ': ' + y.p + ' ' + y.r; whys.set(q, (whys.get(q) || 0) + 1) }
        const js = pl.judgeAll(t)
        if (js.length) {
          bad++
          console.log(`--- seed ${s} tx ${at.k}.${at.i} ${show(t.ix)}`)
          console.log('   prev ' + t.prev.map(x => x.act.$v + '/' + x.via + '/' + x.join + '/' + x.sv).join(', '))
          console.log('   err ' + t.res.err, js.map(j => j.prop + ':' + j.bad.join(',')).join('; '))
          const e = pl.expect(t)
          console.log('   expected ok=' + e.ok + ' why=' + show(e.why.$set))
          if (e.ok && t.res.ok) {
            console.log('   diff real->spec: ' + diff(t.post, e.w, 'w', []).slice(0, 14).join('\n      '))
            const k = x => show(x)
            console.log('   ev real-spec ' + diff(t.res.events.map(k).sort(), e.ev.map(k).sort(), 'ev', []).join('\n'))
            console.log('   calls real ' + show(t.res.calls) + '\n   calls spec ' + show(e.calls))
          }
          if (process.env.QUOTE) console.log('   quote', show(t.quote), show(t.res.events))
          if (process.env.STOP && bad >= Number(process.env.STOP)) process.exit(1)
        }
      })
    } catch (e) { console.log('seed', s, 'TOOL', e.message) ; pl.program.close(); process.exit(2) }
  }
  console.log('transitions', trans, 'bad', bad, 'ms/trans', ((Date.now() - t0) / trans).toFixed(2))
  for (const [k, v] of [...stat].sort()) console.log('  ', k, v)
  for (const [k, v] of [...whys].sort()) console.log('    why', k, v)
  pl.program.close()
}
main()
