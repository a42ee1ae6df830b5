// One worker process: runs the seeds it is handed, one after another.
import { execute, loadProp, minimise, runSeed } from './engine.mjs'
import { installSeams, real } from './world.mjs'

const cfg = JSON.parse(process.argv[2])
installSeams()
const L = await import(cfg.lib)
const prop = await loadProp(cfg.id)
const send = m => new Promise(r => process.send(m, r))
const known = new Set(cfg.known ?? [])

const agg = { runs: 0, steps: 0, branch: 0, simMs: 0, requests: 0, nontrivial: 0, sigs: [], scheds: [], ntSigs: [], faults: {}, probes: {}, faultRuns: 0, known: {}, audits: 0, auditFail: 0, stateful: 0, samples: [] }
const add = (a, b) => { for (const k in b) a[k] = (a[k] ?? 0) + b[k] }

const main = async () => {
  if (cfg.mode === 'replay') {
    const r = await execute(prop, L, { seed: cfg.seed, scenario: cfg.scenario, choices: cfg.choices })
    await send({ t: 'replayed', violations: r.violations, digest: r.digest, choices: r.choices, history: r.history.length > 3000 ? r.history.slice(-3000) : r.history })
    return
  }
  if (cfg.mode === 'sequence') {
    // several runs in one fresh process: state kept by the code under test carries over
    let r
    for (const i of cfg.indices) {
      r = await execute(prop, L, { seed: runSeed(cfg.base, cfg.id, i), tier: cfg.tier })
      if (i % 97 === 0 && cfg.audits) for (let n = 0; n < 2; n++) await execute(prop, L, { seed: runSeed(cfg.base, cfg.id, i), tier: cfg.tier })
      await send({ t: 'at', i })
    }
    await send({ t: 'replayed', seed: r.seed, violations: r.violations, digest: r.digest, scenario: r.scenario, choices: r.choices, faults: r.faults, history: r.history.slice(-3000) })
    return
  }
  if (cfg.mode === 'fresh') {
    // minimise with a fresh copy of the code under test for every attempt
    let n = 0
    const fresh = () => import(`${cfg.lib}?fresh=${n++}`)
    const r = await execute(prop, await fresh(), { seed: cfg.seed, tier: cfg.tier })
    const hit = r.violations.find(v => v.rule === cfg.rule) ?? r.violations[0]
    if (!hit) { await send({ t: 'replayed', violations: [] }); return }
    const original = { violations: r.violations, steps: r.steps, choices: r.choices.length, scenarioBytes: JSON.stringify(r.scenario).length }
    const { best, tried } = await minimise(prop, fresh, r, hit.rule, 10_000, real.perfNow, { known, maxTries: 400 })
    await send({ t: 'violation', i: cfg.index, seed: cfg.seed, rule: hit.rule, tried, original, min: { scenario: best.scenario, choices: best.choices, violations: best.violations, digest: best.digest, faults: best.faults, history: best.history.slice(-400) } })
    return
  }
  let last = real.perfNow()
  const list = cfg.mode === 'single' ? [cfg.index] : null
  for (let n = 0, i = list ? list[0] : cfg.from; list ? n < 1 : i < cfg.to; n++, i += cfg.stride) {
    if (cfg.deadline && real.dateNow() > cfg.deadline) { agg.budget = true; break }
    const seed = runSeed(cfg.base, cfg.id, i)
    const t = real.perfNow()
    if (t - last > 200 || n === 0) { await send({ t: 'beat', i }); last = t }
    else process.send({ t: 'at', i })
    const r = await execute(prop, L, { seed, tier: cfg.tier })
    agg.runs++
    agg.steps += r.steps; agg.branch += r.branch; agg.simMs += r.simMs; agg.requests += r.requests
    add(agg.faults, r.faults); add(agg.probes, r.probes)
    if (Object.keys(r.faults).length) agg.faultRuns++
    agg.sigs.push(r.sig); agg.scheds.push(r.sched)
    if (r.nontrivial) { agg.nontrivial++; agg.ntSigs.push(r.sig) }
    if (agg.samples.length < 1 && r.nontrivial && JSON.stringify(r.scenario).length < 4000) agg.samples.push({ index: i, seed, scenario: r.scenario, schedule: r.choices.slice(0, 80), steps: r.steps, faults: r.faults })
    if (i % 97 === 0) {
      agg.audits++
      const again = await execute(prop, L, { seed, tier: cfg.tier })
      const rep = await execute(prop, L, { seed, scenario: r.scenario, choices: r.choices })
      if (again.digest !== r.digest || rep.digest !== r.digest) {
        // the code may keep something between calls (a cache): then three runs with fresh copies of it agree
        const digests = new Set()
        if (agg.stateful < 6) for (let k = 0; k < 3; k++) digests.add((await execute(prop, await import(`${cfg.lib}?audit=${i}-${k}`), { seed, tier: cfg.tier })).digest)
        if (digests.size > 1) agg.auditFail++
        else agg.stateful++
      }
    }
    const fresh = r.violations.filter((v) => {
      const key = `${v.rule}`
      if (prop.knownKey) { const k = prop.knownKey(v, r); if (k && known.has(k)) { agg.known[k] = (agg.known[k] ?? 0) + 1; return false } }
      void key
      return true
    })
    if (fresh.length > 0) {
      const rule = fresh[0].rule
      await send({ t: 'found', i, rule })
      const original = { violations: fresh, steps: r.steps, choices: r.choices.length, scenarioBytes: JSON.stringify(r.scenario).length }
      const { best, tried } = await minimise(prop, L, r, rule, cfg.minimiseMs ?? 15000, real.perfNow, { known })
      await send({ t: 'violation', i, seed, rule, tried, original, min: { scenario: best.scenario, choices: best.choices, violations: best.violations, digest: best.digest, faults: best.faults, history: best.history.slice(-400) } })
      break
    }
  }
  await send({ t: 'done', agg })
}
await main()
process.disconnect?.()
process.exit(0)
