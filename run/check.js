'use strict'
// Decides one property: plays histories generated by the specification on the real program, in parallel, and lets the
// specification judge every executed instruction.    node check.js PROP | node check.js --replay FILE
const { fork } = require('child_process')
const path = require('path')
const fs = require('fs')
const { Player, kindOf } = require('./worker')
const crypto = require('crypto')

const root = path.join(__dirname, '..')
const bin = process.env.DBC_HARNESS || path.join(root, 'harness/target/debug/dbc-harness')
const short = t => ({ instruction: t.ix, before: t.prev.length, ok: t.res.ok, error: t.res.err, events: t.res.events })
const digest = j => crypto.createHash('md5').update(JSON.stringify(j)).digest('base64').slice(0, 12)

// ---- a worker: histories number `from`, `from + step`, ... until the time is over
async function work(o) {
  const pl = new Player({ bin })
  const until = o.until
  const st = { histories: 0, transitions: 0, relevant: 0, skipped: 0, kinds: new Set(), states: new Set(), samples: [], acts: {} }
  let found = null, error = null
  let s = o.from
  for (; Date.now() < until && !found && st.histories + st.skipped < o.cap; s += o.step) {
    let trace = { head: null, txs: [] }
    let strange = false
    try {
      await pl.play(o.prop, s, (t, at) => {
        trace = { head: at.head, txs: at.txs }
        strange = t
        st.transitions++
        const v = pl.judge(o.prop, t)
        strange = false
        const key = t.ix.act.$v + (t.ix.sub.length ? '*' : '') + (t.res.ok ? ' ok' : ' refused')
        st.acts[key] = (st.acts[key] || 0) + 1
        st.states.add(digest(t.post))
        if (v.rel) {
          st.relevant++
          const k = kindOf(t.ix, t.res, t.pre)
          if (!st.kinds.has(k)) {
            st.kinds.add(k)
            if (st.samples.length < 3 && st.kinds.size % 40 === 1) st.samples.push({ history: s, transaction: at.k, ...short(t) })
          }
        }
        if (v.bad.length) { found = { history: s, at: at.k, inTx: at.i, bad: v.bad, ...short(t), head: at.head, txs: at.txs.slice(0, at.k + 1) }; return false }
      }, until)
      st.histories++
    } catch (e) {
      // states the specification cannot make sense of arise only after the program has left it: let the earlier judgements say so
      st.skipped++
      if (pl.program.dead) {
        pl.program.close()
        found = { history: s, at: -1, inTx: 0, bad: ['the program did not return: ' + e.message], instruction: null, head: trace.head, txs: trace.txs, crash: true }
        const p2 = new Player({ bin })
        try { await p2.replay(trace, () => {}); error = error || e.message; found = null } catch (e2) { if (!p2.program.dead) { found = null; error = error || e2.message } }
        p2.close && p2.close()
        break
      }
      let left = false
      try { await pl.replay(trace, t => { if (!left) { try { if (pl.judgeAll(t).length) left = true } catch (e2) { left = true; if (!error) error = e2.message } } }) } catch (e3) { error = error || e3.message }
      if (!left || error) error = error || e.message
      if (left && error && !found) { /* reported by the parent only when nothing else is found */ }
    }
  }
  pl.program.close()
  process.send({ st: { ...st, kinds: [...st.kinds], states: [...st.states] }, found, error }, () => process.exit(0))
}

// ---- does it happen again, and with how little
async function confirm(prop, f) {
  if (f.crash) return f
  const pl = new Player({ bin })
  const fails = async txs => {
    let hit = null
    try {
      await pl.replay({ head: f.head, txs }, (t, at) => {
        if (hit) return
        const v = pl.judge(prop, t)
        if (v.bad.length) hit = { at: at.k, inTx: at.i, bad: v.bad, ...short(t), txs: txs.slice(0, at.k + 1) }
      })
    } catch (e) { if (!hit) return null }
    return hit
  }
  let best = await fails(f.txs)
  if (!best) { pl.program.close(); return null }
  const until = Date.now() + 12000
  for (let size = Math.max(1, best.txs.length >> 1); size >= 1; size = size >> 1) {
    for (let i = 0; i + size < best.txs.length && Date.now() < until;) {
      const less = best.txs.slice(0, i).concat(best.txs.slice(i + size))
      const h = await fails(less)
      if (h) best = h; else i += size
    }
    if (Date.now() > until) break
  }
  pl.program.close()
  return { ...f, ...best }
}

function known() {
  const file = path.join(root, 'known-findings.txt')
  if (!fs.existsSync(file)) return []
  // finding: property=ID act=NAME label=TEXT  what fails
  return fs.readFileSync(file, 'utf8').split('\n').map(l => /^finding: property=(\S+) act=(\S+) label="([^"]*)" (.*)$/.exec(l)).filter(Boolean)
    .map(m => ({ prop: m[1], act: m[2], label: m[3], text: m[4] }))
}

async function main() {
  const prop = process.argv[2]
  if (prop === '--replay') {
    const h = JSON.parse(fs.readFileSync(process.argv[3]))
    const pl = new Player({ bin })
    let bad = 0
    await pl.replay(h, (t, at) => {
      const v = pl.judge(h.property, t)
      console.log(`${at.k}.${at.i} ${t.ix.act.$v} ${t.res.ok ? 'ok' : 'refused (' + t.res.err + ')'}${v.bad.length ? '   <== ' + v.bad.join('; ') : ''}`)
      if (v.bad.length) bad++
    })
    pl.program.close()
    process.exit(bad ? 1 : 0)
  }
  const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'
  const seed = Number(process.env.VERIF_SEED || 1)
  const secs = Number(process.env.DBC_SECONDS || (tier === 'quick' ? 32 : 700))
  const cores = Number(process.env.DBC_WORKERS || 8)
  const t0 = Date.now()
  const until = t0 + secs * 1000
  const results = []
  let lost = null
  await Promise.all([...Array(cores).keys()].map(i => new Promise(done => {
    const c = fork(__filename, ['--worker'], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'] })
    workers.push(c)
    let got = false
    c.send({ prop, from: seed * 1000003 + i, step: cores, until, cap: Number(process.env.DBC_CAP || 1e9) })
    c.on('message', m => { got = true; results.push(m); if (m.found) workers.forEach(w => { if (w !== c) w.kill('SIGKILL') }) })
    c.on('exit', (code, sig) => { if (!got && sig !== 'SIGKILL') lost = `a worker stopped (${code} ${sig})`; done() })
  })))
  const sum = k => results.reduce((a, r) => a + r.st[k], 0)
  const uni = k => { const s = new Set(); for (const r of results) for (const x of r.st[k]) s.add(x); return s.size }
  const acts = {}
  for (const r of results) for (const [k, n] of Object.entries(r.st.acts)) acts[k] = (acts[k] || 0) + n
  let violations = 0
  let replay = null
  const found = results.map(r => r.found).filter(Boolean).sort((a, b) => a.history - b.history)
  for (const f of found) {
    const c = await confirm(prop, f)
    if (!c) { lost = lost || 'a disagreement did not happen again on replay'; continue }
    const k = known().find(k => k.prop === prop && c.instruction && k.act === c.instruction.act.$v && c.bad.every(b => b === k.label))
    if (k) { console.log(`KNOWN-FINDING: property=${prop} ${k.text}`); continue }
    violations++
    fs.mkdirSync(path.join(root, '.cache/replays'), { recursive: true })
    replay = path.join(root, '.cache/replays', `${prop}-${c.history}.json`)
    fs.writeFileSync(replay, JSON.stringify({ property: prop, ...c }, null, 1))
    console.log(`${prop}: ${c.bad.join('; ')}   at transaction ${c.at}: ${JSON.stringify(c.instruction)} -> ${c.ok ? 'accepted' : 'refused ' + c.error}`)
    console.log(`VIOLATION property=${prop} replay=${replay}`)
    break
  }
  const error = lost || (results.find(r => r.error) || {}).error
  const wall = (Date.now() - t0) / 1000
  const ev = {
    property: prop, tier, seed, level: 'exploration',
    coverage: {
      evaluations: sum('transitions'), distinct_nontrivial: uni('kinds'),
      rule: 'Histories of transactions are generated by the specification (spec/gen.qnt) from the seed and the state the program is in, and executed on the real program; every executed instruction is judged by spec/props.qnt. ' +
        'An instruction is non-trivial when the specification says it bears on this property (props::relevant); two are the same case when action, outcome, replaced accounts, configuration features, stage and the magnitudes of the arguments agree.',
      relevant: sum('relevant'), states: uni('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('histories'),
      ...(process.env.DBC_PROVED ? { specification: process.env.DBC_PROVED.split('\n') } : {}), outcomes: acts, samples: results.flatMap(r => r.st.samples).slice(0, 4)
    },
    assumptions: ['the environment around the program (SPL Token, Token-2022, System, Metadata, the two venues, the locker and the zap program) behaves as the harness models it',
      'what is between the generated histories is not explored'],
    wall_s: wall, violations
  }
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(root, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1))
  console.log(`${prop} ${tier}: ${ev.coverage.traces_validated_against_impl} histories, ${ev.coverage.evaluations} instructions, ${ev.coverage.relevant} relevant, ${ev.coverage.distinct_nontrivial} distinct cases, ${wall.toFixed(1)} s`)
  if (violations) process.exit(1)
  if (error) { console.error('check error: ' + error); process.exit(2) }
  if (ev.coverage.relevant === 0) { console.error('check error: nothing relevant was explored'); process.exit(2) }
  process.exit(0)
}
const workers = []
if (process.argv[2] === '--worker') process.once('message', o => work(o).catch(e => { console.error(e); process.exit(3) }))
else main().catch(e => { console.error(e); process.exit(2) })
