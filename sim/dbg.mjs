// dbg.mjs ID index [seed]: print one run (development)
import { bundle } from './build.mjs'
import { execute, loadProp, runSeed } from './engine.mjs'
import { mkdtempSync, rmSync } from 'node:fs'
const [id, i, base = 1] = process.argv.slice(2)
const tmp = mkdtempSync('/tmp/sv-')
process.on('exit', () => rmSync(tmp, { recursive: true, force: true }))
await bundle(`${tmp}/lib.mjs`)
const L = await import(`${tmp}/lib.mjs`)
const prop = await loadProp(id)
const r = await execute(prop, L, { seed: runSeed(Number(base), id, Number(i)) })
process.stdout.write(`${JSON.stringify(r.scenario)}\n${r.history.map(h => JSON.stringify(h).slice(0, 300)).join('\n')}\n${r.violations.map(v => `${v.rule}: ${v.msg}`).join('\n')}\n`)
process.exit(0)
