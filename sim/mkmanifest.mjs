// Writes /verif/MANIFEST.json from properties.jsonl and the property modules.
import { existsSync, readFileSync, writeFileSync } from 'node:fs'
import { dirname, join, resolve } from 'node:path'
import { fileURLToPath } from 'node:url'
import { loadProp } from './engine.mjs'

const here = dirname(fileURLToPath(import.meta.url))
const verif = resolve(here, '..')
const NA = {
}
const list = readFileSync(join(verif, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const checks = []
const not_applicable = []
for (const p of list) {
  if (!existsSync(join(here, 'props', `${p.id}.mjs`))) { not_applicable.push({ property: p.id, reason: NA[p.id] }); continue }
  const m = await loadProp(p.id)
  checks.push({
    property: p.id,
    quick_cmd: `node sim/check.mjs --property ${p.id}`,
    thorough_cmd: `node sim/check.mjs --property ${p.id} --tier thorough`,
    evidence_file: `evidence/${p.id}.json`,
    technique: 'deterministic simulation with fault injection: seeded search over schedules, cuts, delays and fault sequences, judged against an executable reference model',
    level: 'exploration',
    level_note: `${(m.runs?.quick ?? 0).toLocaleString('en')} seeded runs (quick), time-boxed at 13 minutes (thorough). Real code: ${m.real.join(', ')}. Simulated: ${m.stub.join('; ')}. ${(m.assumptions ?? []).length ? `Assumes: ${m.assumptions.join('; ')}. ` : ''}Sampling, not proof: a violation needing a shape the generator never draws is not found.`,
  })
}
writeFileSync(join(verif, 'MANIFEST.json'), `${JSON.stringify({
  version: 1,
  setup_cmd: 'node --version && node sim/selftest.mjs',
  checks,
  not_applicable,
  notes: 'No hooks are needed: the code takes fetch as an option (or from globalThis), and timers, clocks, randomness and streams are global objects the simulator replaces, so every seam exists already. Checks bundle the sources of /repo\'s working tree into a temporary file outside both repositories. Replay: node sim/replay.mjs replays/<file>.json [--trace]. Known and fixed findings: known-findings.txt.',
}, null, 1)}\n`)
