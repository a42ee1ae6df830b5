// survey.mjs C01 [runs] [seed]: tally of every violated rule, for development
import { bundle } from './build.mjs'
import { execute, loadProp, runSeed } from './engine.mjs'
import { installSeams, real } from './world.mjs'
import { mkdtempSync, rmSync } from 'node:fs'
const [id, n = 1000, base = 1] = process.argv.slice(2)
const tmp = mkdtempSync('/tmp/sv-')
process.on('exit', () => rmSync(tmp, { recursive: true, force: true }))
await bundle(`${tmp}/lib.mjs`)
installSeams()
const L = await import(`${tmp}/lib.mjs`)
const prop = await loadProp(id)
const t = {}; const f = {}; const pr = {}
let nt = 0; let steps = 0; let aud = 0
const t0 = real.perfNow()
for (let i = 0; i < n; i++) {
  const seed = runSeed(Number(base), id, i)
  const r = await execute(prop, L, { seed })
  steps += r.steps
  for (const k in r.faults) f[k] = (f[k] ?? 0) + r.faults[k]
  for (const k in r.probes) pr[k] = (pr[k] ?? 0) + r.probes[k]
  nt += r.nontrivial
  for (const v of new Map(r.violations.map(v => [v.rule, v])).values()) { t[v.rule] ??= { n: 0, ex: [] }; t[v.rule].n++; if (t[v.rule].ex.length < 3) t[v.rule].ex.push(`#${i} ${v.msg.slice(0, 420)}`) }
  if (i % 20 === 0) { const q = await execute(prop, L, { seed, scenario: r.scenario, choices: r.choices }); if (q.digest !== r.digest) aud++ }
}
process.stdout.write(`${id}: ${n} runs ${((real.perfNow() - t0) / n).toFixed(2)} ms/run, nontrivial ${nt}, steps/run ${(steps / n).toFixed(0)}, audit fails ${aud}\nfaults ${JSON.stringify(f)}\nprobes ${JSON.stringify(pr)}\n`)
for (const [k, v] of Object.entries(t).sort((a, b) => b[1].n - a[1].n)) process.stdout.write(`  ${v.n}  ${k}\n${v.ex.map(x => `       ${x}\n`).join('')}`)
process.exit(0)
