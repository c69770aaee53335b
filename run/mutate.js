'use strict'
// Development aid: how many small changes of the program do the judgements notice?   node mutate.js DIR LIST FROM TO SECS
// DIR holds a copy of /repo (repo/) and of the harness (harness/, its paths changed to that copy).
const { fork, spawnSync, execFile } = require('child_process')
const fs = require('fs'), path = require('path')
if (process.argv[2] === '--worker') {
  const { Player } = require('./worker')
  const props = [...Array(33).keys()].map(i => 'C' + String(i + 1).padStart(2, '0'))
  let pl = null
  let halt = 0
  process.on('message', async o => {
    if (o.halt) { halt = o.halt; return }
    if (pl) { pl.program.close() } 
    if (!pl) pl = new Player({ bin: o.bin })
    else pl.open(o.bin)
    const until = Date.now() + o.secs * 1000
    let hit = null, n = 0
    for (let i = o.me; Date.now() < until && !hit && halt !== o.id; i += 8) {
      const prop = props[(i * 10) % 33]
      try {
        await pl.play(prop, o.seed + i, t => {
          n++
          if (halt === o.id) return false
          const js = pl.judgeAll(t)
          if (js.length) { hit = { prop, seed: o.seed + i, act: t.ix.act.$v, bad: js.map(j => j.prop + ':' + j.bad.join(',')).join('; ') }; return false }
        }, until)
      } catch (e) { if (!hit) hit = { prop, seed: o.seed + i, act: 'error', bad: e.message } }
    }
    process.send({ hit, n })
  })
} else main()

async function main() {
  const [dir, list, from, to, secs] = [process.argv[2], JSON.parse(fs.readFileSync(process.argv[3])), +process.argv[4], +process.argv[5], +process.argv[6]]
  const repo = path.join(dir, 'repo'), harness = path.join(dir, 'harness')
  const W = +(process.env.W || 8)
  const workers = [...Array(W).keys()].map(() => fork(__filename, ['--worker'], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'] }))
  const log = s => fs.appendFileSync(path.join(dir, 'log.txt'), s + '\n')
  fs.mkdirSync(path.join(dir, 'survivors'), { recursive: true })
  const build = () => new Promise(r => execFile('cargo', ['build', '--offline'], { cwd: harness, maxBuffer: 1 << 26, env: { ...process.env, RUSTUP_TOOLCHAIN: '1.85.0', CARGO_NET_OFFLINE: 'true', CARGO_INCREMENTAL: '1', RUSTFLAGS: '' } }, e => r(!e)))
  const next = async i => {
    const m = list[i], f = path.join(repo, m.file)
    const old = fs.readFileSync(f, 'utf8'), L = old.split('\n')
    const was = L.slice(m.line, m.line + m.n).join('\n')
    L.splice(m.line, m.n, m.new)
    fs.writeFileSync(f, L.join('\n'))
    const ok = await build()
    fs.writeFileSync(f, old)
    let bin = null
    if (ok) { bin = path.join(dir, 'bin-' + i); fs.copyFileSync(path.join(harness, 'target/debug/dbc-harness'), bin); fs.chmodSync(bin, 0o755) }
    return { i, m, was, ok, bin }
  }
  let pending = next(from)
  const sum = { built: 0, killed: 0, alive: 0 }
  for (let i = from; i < to; i++) {
    const x = await pending
    if (i + 1 < to) pending = next(i + 1)
    if (!x.ok) continue
    sum.built++
    const hits = []
    await new Promise(done => {
      let left = W, over = false
      workers.forEach((w, k) => {
        w.removeAllListeners('message')
        w.on('message', r => { if (r.hit) { hits.push(r.hit); workers.forEach(y => y.send({ halt: i })) } if (--left === 0) done() })
        w.send({ bin: x.bin, secs: secs, me: k, id: i, seed: 5000000 + i * 1000 })
      })
    })
    fs.unlinkSync(x.bin)
    const head = `${i} ${x.m.file}:${x.m.line + 1} [${x.m.op}]`
    if (hits.length) { sum.killed++; log(`killed ${head} by ${hits.length}: ${hits[0].act} ${hits[0].bad}`) }
    else {
      sum.alive++
      log(`ALIVE  ${head}\n    - ${x.was.trim()}\n    + ${x.m.new.trim()}`)
      fs.writeFileSync(path.join(dir, 'survivors', i + '.json'), JSON.stringify(x.m))
    }
  }
  log('done ' + JSON.stringify(sum))
  process.exit(0)
}
