'use strict'
// Plays generated histories on the real program and judges every executed instruction by the specification.
const { spawn } = require('child_process')
const path = require('path')
const { Spec, dec, enc, rv, field } = require('./qeval')

class Program {
  constructor(bin) {
    this.p = spawn(bin, [], { stdio: ['pipe', 'ignore', 'inherit', 'pipe'] })
    this.buf = []
    this.wait = null
    this.dead = null
    this.p.on('exit', (c, s) => { this.dead = `the harness stopped (${c} ${s})`; if (this.wait) this.wait.no(new Error(this.dead)) })
    this.p.stdin.on('error', () => {})
    let acc = []
    this.p.stdio[3].on('data', d => {
      let i
      while ((i = d.indexOf(10)) >= 0) {
        acc.push(d.subarray(0, i))
        const line = Buffer.concat(acc).toString('utf8')
        acc = []
        d = d.subarray(i + 1)
        const w = this.wait
        this.wait = null
        if (w) w.yes(line)
      }
      acc.push(d)
    })
  }
  ask(cmd) {
    if (this.dead) return Promise.reject(new Error(this.dead))
    return new Promise((yes, no) => {
      this.wait = { yes, no }
      this.p.stdin.write(JSON.stringify(cmd) + '\n')
    }).then(l => {
      const r = JSON.parse(l)
      if (r.toolError !== undefined) throw new Error('harness: ' + r.toolError)
      return r
    })
  }
  close() { this.p.stdin.end() }
}

const str = s => rv.mkStr(s)
const int = n => rv.mkInt(BigInt(n))

// what kind of case a judged instruction was, for counting distinct ones
const lg = x => { x = x < 0n ? -x : x; return x === 0n ? 'z' : Math.floor((x.toString(2).length - 1) / 4) }
function kindOf(ix, res, pre) {
  const a = ix.act
  const parts = [a.$v, res.ok ? 'ok' : 'no', ix.sub.map(s => s.slot + '=' + s.repl).join('+'), ix.via, ix.sv]
  const c = pre.cfg
  if (a.$v === 'CreateConfig') {
    const p = a.x
    parts.push(p.base.bmode, p.collect, p.migOpt, p.actType, p.tokenType, p.migFeeOpt, p.hasSupply, p.tokAuth, p.curve.length, p.mBaseMode, p.mCollect,
      p.pv.pct === '#0' ? 0 : 1, p.cv.pct === '#0' ? 0 : 1, p.lv.n === '#0' ? 0 : 1, p.hasDyn, res.err)
  } else if (a.$v === 'Warp' || a.$v === 'Donate') {} else {
    parts.push(pre.pool.stage, c.base.bmode, c.collect, c.migOpt, c.dyn.on, pre.quoteKind, pre.t22, c.curve.length > 2 ? 3 : c.curve.length)
    for (const [k, v] of Object.entries(a.x)) {
      if (typeof v === 'string') parts.push(k + v.replace(/^#(.*)/, (_, n) => lg(BigInt(n))))
      else if (typeof v === 'boolean') parts.push(k + v)
      else if (v && v.$v) parts.push(v.$v)
    }
    if (a.$v === 'Swap') parts.push(lg(BigInt(pre.pool.quoteRes.slice(1))), c.base.f1, pre.pool.hasSwap)
  }
  return parts.join('|')
}

const SILENT = dec({ on: false, data: [], accts: [], events: [], recs: { $map: [] }, key: { $map: [] }, texts: [] })
class Player {
  constructor(o) {
    this.spec = new Spec(path.join(__dirname, '../spec/check.qnt'), 'check')
    this.bin = o.bin
    this.program = new Program(o.bin)
  }
  open(bin) { this.program = new Program(bin) }
  close() { this.program.close() }
  start(h) {
    return this.program.ask({ cmd: 'new', seed: '#' + h.seed, t22: h.t22, quoteKind: h.quoteKind, slot: h.slot, ts: h.ts, wire: !!h.wire })
  }
  setting(prop, seed) { return this.spec.call('setting', str(prop), int(seed)) }
  // execute one transaction; returns the transitions with spec values, and the following world
  async tx(world, list, judge) {
    const r = await this.program.ask({ cmd: 'tx', ixs: list })
    const out = []
    let pre = world
    const prev = []
    for (let i = 0; i < r.trans.length; i++) {
      const t = r.trans[i]
      const post = t.post === null ? pre : { j: t.post, v: dec(t.post) }
      const ixv = dec(list[i])
      const tv = rv.mkRecord([['pre', pre.v], ['ix', ixv], ['prev', rv.mkList(prev.slice())], ['res', dec(t.res)], ['post', post.v], ['quote', dec(t.quote)], ['wire', t.wire ? dec(t.wire) : SILENT]])
      out.push({ ix: list[i], prev: list.slice(0, i), res: t.res, quote: t.quote, pre: pre.j, post: post.j, value: tv })
      prev.push(ixv)
      pre = post
    }
    const end = r.failed ? { j: r.world, v: dec(r.world) } : pre
    return { trans: out, world: end }
  }
  // one generated history; `see(transition, at)` is called for every executed instruction
  async play(prop, seed, see, until) {
    const st = this.setting(prop, seed)
    const sj = enc(st)
    const n = Number(sj.n.slice(1))
    const head = { seed: String(seed % 1000000007), t22: sj.t22, quoteKind: sj.quoteKind, slot: sj.slot, ts: sj.ts, wire: prop === 'C31' }
    const prof = field(st, 'prof')
    const w0 = (await this.start(head)).world
    let w = { j: w0, v: dec(w0) }
    const txs = []
    for (let k = 0; k < n; k++) {
      if (until && Date.now() > until) break
      const list = enc(this.spec.call('nextTx', prof, w.v, int(seed), int(k), int(n)))
      if (list.length === 0) break
      txs.push(list)
      const r = await this.tx(w, list)
      for (let i = 0; i < r.trans.length; i++) if (see(r.trans[i], { k, i, head, txs }) === false) return { head, txs }
      w = r.world
    }
    return { head, txs }
  }
  async replay(h, see) {
    const w0 = (await this.start(h.head)).world
    let w = { j: w0, v: dec(w0) }
    for (let k = 0; k < h.txs.length; k++) {
      const r = await this.tx(w, h.txs[k])
      for (let i = 0; i < r.trans.length; i++) see(r.trans[i], { k, i, head: h.head, txs: h.txs })
      w = r.world
    }
  }
  judge(prop, t) {
    const v = this.spec.call('props::judge', str(prop), t.value)
    return { rel: field(v, 'rel').toBool(), bad: enc(field(v, 'bad')).$set }
  }
  judgeAll(t) {
    return enc(this.spec.call('props::judgeAll', t.value)).map(([p, v]) => ({ prop: p, bad: v.bad.$set }))
  }
  expect(t) {
    const l = ['pre', 'ix', 'prev'].map(k => field(t.value, k))
    return enc(this.spec.call('props::expected', l[0], l[1], l[2]))
  }
}
module.exports = { Player, kindOf }
