// shrinkaudit.mjs C01 [scenarios] [walk] [seed]: walks from clean scenarios through the minimiser's
// variants on the current tree; a violation met there would be an artefact of the minimiser.
import { mkdtempSync, rmSync } from 'node:fs'
import { bundle } from './build.mjs'
import { execute, fromTape, loadProp, runSeed, tapeVariant } from './engine.mjs'
import { Prng } from './prng.mjs'
import { installSeams } from './world.mjs'

const [id, n = 200, walk = 30, base = 1] = process.argv.slice(2)
const tmp = mkdtempSync('/tmp/sa-')
process.on('exit', () => rmSync(tmp, { recursive: true, force: true }))
await bundle(`${tmp}/lib.mjs`)
installSeams()
const L = await import(`${tmp}/lib.mjs`)
const prop = await loadProp(id)
const t = {}
let tried = 0
let gen = 0
for (let i = 0; i < n; i++) {
  const seed = runSeed(Number(base), id, i)
  const rng = new Prng(seed ^ 0x51)
  const first = await execute(prop, L, { seed })
  let cur = fromTape(prop, seed, 'quick', null)
  for (let j = 0; j < walk; j++) {
    const next = fromTape(prop, seed, 'quick', tapeVariant(cur, rng))
    if (!next) { gen++; continue }
    const r = await execute(prop, L, { seed, scenario: next.scenario, choices: rng.int(2) ? first.choices : null })
    tried++
    for (const x of r.violations) { t[x.rule] ??= { n: 0, ex: [] }; t[x.rule].n++; if (t[x.rule].ex.length < 3) t[x.rule].ex.push(`#${i} ${x.msg.slice(0, 300)}\n          ${diff(cur.scenario, next.scenario)}`) }
    if (!r.violations.length) cur = next
  }
}
/** the path at which two scenarios differ */
function diff(a, b, path = '') {
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return JSON.stringify(a) === JSON.stringify(b) ? '' : `${path}: ${JSON.stringify(a)?.slice(0, 100)} -> ${JSON.stringify(b)?.slice(0, 100)}`
  if (Array.isArray(a) && a.length !== b.length) return `${path}: length ${a.length} -> ${b.length}`
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) { const d = diff(a[k], b[k], `${path}.${k}`); if (d) return d }
  return ''
}
console.log(`${id}: ${tried} variants, ${gen} not generated, ${JSON.stringify(Object.fromEntries(Object.entries(t).map(([k, v]) => [k, v.n])))}`)
for (const [k, v] of Object.entries(t)) for (const x of v.ex) console.log(`  ${k}: ${x}`)
process.exit(0)
