// replay.mjs FILE [--trace]: re-run a recorded failure exactly. Exit 1 if it reproduces, 0 if it no longer does.
import { fork } from 'node:child_process'
import { mkdtempSync, readFileSync, rmSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { dirname, join } from 'node:path'
import { fileURLToPath } from 'node:url'
import { bundle } from './build.mjs'

const here = dirname(fileURLToPath(import.meta.url))
const f = JSON.parse(readFileSync(process.argv[2], 'utf8'))
const tmp = mkdtempSync(join(tmpdir(), 'xsai-sim-'))
const lib = join(tmp, 'lib.mjs')
process.on('exit', () => rmSync(tmp, { recursive: true, force: true }))
await bundle(lib)
const cfg = f.hang ? { mode: 'single', index: f.index } : f.sequence ? { mode: 'sequence', ...f.sequence } : { mode: 'replay', seed: f.seed, scenario: f.scenario, choices: f.choices }
const c = fork(join(here, 'worker.mjs'), [JSON.stringify({ lib, id: f.property, tier: f.tier, base: f.base, ...cfg })], { execArgv: ['--max-old-space-size=1500', '--unhandled-rejections=warn', '--no-warnings'], stdio: ['ignore', 'ignore', 'inherit', 'ipc'] })
let got = null
c.on('message', (m) => { if (m.t === 'replayed' || m.t === 'done' || m.t === 'violation') got ??= m })
const to = setTimeout(() => c.kill('SIGKILL'), 60_000)
c.on('exit', (code, sig) => {
  clearTimeout(to)
  if (f.hang) { console.log(got ? 'no longer hangs' : `REPRODUCED property=${f.property} progress.hang (${code}/${sig})`); process.exit(got ? 0 : 1) }
  if (process.argv.includes('--trace')) for (const e of got.history) console.log(JSON.stringify(e))
  const hit = got?.violations.find(v => v.rule === f.rule)
  if (hit) { console.log(`REPRODUCED property=${f.property} ${hit.rule}: ${hit.msg}\ndigest ${got.digest} (${got.digest === f.digest ? 'identical execution' : `recorded ${f.digest}`})`); process.exit(1) }
  console.log(`not reproduced: ${JSON.stringify(got?.violations)}`)
  process.exit(0)
})
