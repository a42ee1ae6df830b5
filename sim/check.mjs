// check.mjs --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
// Exit 0: held on everything explored. Exit 1: VIOLATION line + replay file. Exit 2: the check itself failed.
import { fork } from 'node:child_process'
import { existsSync, mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
import { availableParallelism, tmpdir } from 'node:os'
import { dirname, join, resolve } from 'node:path'
import { fileURLToPath } from 'node:url'
import { bundle, REPO } from './build.mjs'
import { loadProp, runSeed } from './engine.mjs'

const here = dirname(fileURLToPath(import.meta.url))
const verif = resolve(here, '..')
const arg = (k, d) => { const i = process.argv.indexOf(`--${k}`); return i >= 0 ? process.argv[i + 1] : d }
const id = arg('property')
const tier = arg('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
const base = Number.parseInt(arg('seed', process.env.VERIF_SEED ?? '1'), 10) || 1
const jobs = Number(arg('jobs', Math.min(8, availableParallelism())))
const t0 = Date.now()

const tmp = mkdtempSync(join(tmpdir(), 'xsai-sim-'))
const children = new Set()
process.on('exit', () => { for (const c of children) { try { c.kill('SIGKILL') } catch {} } try { rmSync(tmp, { recursive: true, force: true }) } catch {} })
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2))

const prop = await loadProp(id)
const lib = join(tmp, 'lib.mjs')
try { await bundle(lib) }
catch (e) { console.log(`check ${id}: cannot build the code under test: ${e.message ?? e}`); process.exit(2) }

const known = []
const kf = join(verif, 'known-findings.txt')
if (existsSync(kf)) {
  for (const line of readFileSync(kf, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line)
    if (m && m[1] === id) known.push({ key: m[2], text: m[3] })
  }
}

const STALL = 45_000
const BUDGET = tier === 'thorough' ? Number(arg('budget', 780)) * 1000 : 600_000
const runs = Number(arg('runs', tier === 'thorough' ? (prop.runs?.thorough ?? (prop.runs?.quick ?? 2400) * 25) : prop.runs?.quick ?? 2400))

const spawn = (cfg, onMsg, onExit) => {
  const c = fork(join(here, 'worker.mjs'), [JSON.stringify({ lib, id, tier, base, known: known.map(k => k.key), ...cfg })], { execArgv: ['--max-old-space-size=1500', '--unhandled-rejections=warn', '--no-warnings'], stdio: ['ignore', 'ignore', 'pipe', 'ipc'] })
  children.add(c)
  let err = ''
  c.stderr.on('data', (d) => { if (err.length < 4000) err += d })
  c.on('message', onMsg)
  // the last messages may still be on their way when the process has already exited
  let ended = null
  let connected = true
  const end = () => { if (ended && !connected) { const e = ended; ended = null; onExit(...e, err) } }
  c.on('disconnect', () => { connected = false; end() })
  c.on('exit', (code, sig) => { children.delete(c); ended = [code, sig]; setTimeout(() => { connected = false; end() }, 5000).unref(); end() })
  return c
}

const total = { runs: 0, steps: 0, branch: 0, simMs: 0, requests: 0, nontrivial: 0, faults: {}, probes: {}, faultRuns: 0, known: {}, audits: 0, auditFail: 0, stateful: 0, samples: [] }
const sigs = new Set(); const scheds = new Set(); const ntSigs = new Set()
const addAgg = (a) => {
  for (const k of ['runs', 'steps', 'branch', 'simMs', 'requests', 'nontrivial', 'faultRuns', 'audits', 'auditFail', 'stateful']) total[k] += a[k]
  for (const k of ['faults', 'probes', 'known']) for (const x in a[k]) total[k][x] = (total[k][x] ?? 0) + a[k][x]
  for (const s of a.sigs) sigs.add(s)
  for (const s of a.scheds) scheds.add(s)
  for (const s of a.ntSigs) ntSigs.add(s)
  if (total.samples.length < 2) total.samples.push(...a.samples.slice(0, 1))
}

let stopping = false
let over = false
/** run one worker over its share; resolves {violation?, stuck?} */
const share = k => new Promise((res) => {
  let at = null
  let beat = Date.now()
  let out = {}
  let found = null
  let finished = false
  const c = spawn({ mode: 'range', from: k, to: runs, stride: jobs, deadline: t0 + BUDGET }, (m) => {
    beat = Date.now()
    if (m.t === 'beat' || m.t === 'at') at = m.i
    else if (m.t === 'found') { found = m }
    else if (m.t === 'violation') { out.violation = m; stopOthers(c) }
    else if (m.t === 'done') { finished = true; addAgg(m.agg); if (m.agg.budget) over = true }
  }, (code, sig, err) => {
    clearInterval(timer)
    if (!finished && !out.violation && !stopping) out = { stuck: { i: found?.i ?? at, code, sig, err, stalled } }
    res(out)
  })
  let stalled = false
  const timer = setInterval(() => {
    if (Date.now() - beat > STALL) { stalled = true; c.kill('SIGKILL') }
  }, 500)
  c.simKill = () => c.kill('SIGKILL')
})
const stopOthers = (self) => { stopping = true; for (const c of children) if (c !== self) c.kill('SIGKILL') }

const single = (cfg, ms) => new Promise((res) => {
  let got = null
  const c = spawn(cfg, (m) => { if (m.t === 'done' || m.t === 'violation' || m.t === 'replayed') got ??= m }, (code, sig, err) => { clearTimeout(to); res({ got, code, sig, err, timedOut }) })
  let timedOut = false
  const to = setTimeout(() => { timedOut = true; c.kill('SIGKILL') }, ms)
})

const results = await Promise.all(Array.from({ length: Math.min(jobs, runs) }, (_, k) => share(k)))
let violation = results.filter(r => r.violation).map(r => r.violation).sort((a, b) => a.i - b.i)[0]
const stucks = results.filter(r => r.stuck).map(r => r.stuck).sort((a, b) => (a.i ?? 0) - (b.i ?? 0))
const stuck = stucks[0]
let replayPath
const replays = join(verif, 'replays')
const write = (data) => {
  mkdirSync(replays, { recursive: true })
  const p = join(replays, `${id}-${data.seed.toString(16)}.json`)
  writeFileSync(p, `${JSON.stringify(data, null, 1)}\n`)
  return p
}
let exit = 0
let message = ''
if (violation) {
  let m = violation.min
  const replays1 = async v => {
    const rep = await single({ mode: 'replay', seed: v.seed, scenario: v.min.scenario, choices: v.min.choices }, 60_000)
    return rep.got?.t === 'replayed' && rep.got.violations.some(x => x.rule === v.rule) && rep.got.digest === v.min.digest
  }
  let same = await replays1(violation)
  let sequence
  if (!same) {
    // the code under test keeps state between runs: repeat the run against fresh copies of it
    const f = await single({ mode: 'fresh', seed: violation.seed, index: violation.i, rule: violation.rule }, 120_000)
    if (f.got?.t === 'violation' && await replays1(f.got)) { violation = f.got; m = violation.min; same = true }
    else {
      // or with the runs that came before it in the same process
      const first = violation.i % jobs
      const all = []
      for (let i = first; i <= violation.i; i += jobs) all.push(i)
      for (let n = 2; ; n *= 2) {
        const audits = n >= all.length
        const indices = all.slice(-n)
        const cfg = { mode: 'sequence', indices, audits }
        const g = (await single(cfg, 120_000)).got
        if (g?.t === 'replayed' && g.violations.length > 0) {
          const h = (await single(cfg, 120_000)).got
          if (h?.digest === g.digest) { sequence = { indices, audits }; m = g; violation = { ...violation, rule: g.violations[0].rule }; same = true; break }
        }
        if (audits || Date.now() - t0 > 500_000) break
      }
    }
  }
  if (!same) {
    console.log(`check ${id}: internal error: the minimised failure did not replay (${violation.rule})`)
    exit = 2
  }
  else {
    replayPath = write({ property: id, tier, base, index: violation.i, seed: violation.seed, ...(sequence ? { sequence } : {}), rule: violation.rule, violations: m.violations, scenario: m.scenario, choices: m.choices, digest: m.digest, faults: m.faults, original: violation.original, minimiserAttempts: violation.tried, history: m.history })
    message = m.violations.find(v => v.rule === violation.rule).msg
    exit = 1
  }
}
else if (stuck && stuck.i != null) {
  // run that seed alone, in a fresh process: a real lack of progress repeats
  const again = await single({ mode: 'single', index: stuck.i }, STALL)
  if (again.got == null) {
    const seed = runSeed(base, id, stuck.i)
    replayPath = write({ property: id, tier, base, index: stuck.i, seed, rule: 'progress.hang', hang: true, note: `the process made no progress for ${STALL} ms or died (code ${again.code}, signal ${again.sig}): ${String(again.err).slice(0, 500)}` })
    violation = { rule: 'progress.hang' }
    message = `no progress: run ${stuck.i} never returns (${again.timedOut ? 'timed out' : `died ${again.code}/${again.sig}`})`
    exit = 1
  }
  else if (again.got.t === 'violation') {
    const m = again.got.min
    replayPath = write({ property: id, tier, base, index: stuck.i, seed: again.got.seed, rule: again.got.rule, violations: m.violations, scenario: m.scenario, choices: m.choices, digest: m.digest, history: m.history })
    violation = again.got
    message = m.violations[0].msg
    exit = 1
  }
  else { console.log(`check ${id}: worker died at run ${stuck.i} but it passes alone: ${JSON.stringify(stuck).slice(0, 800)}`); exit = 2 }
}
else if (stuck) { console.log(`check ${id}: worker failed to start: ${JSON.stringify(stuck).slice(0, 1500)}`); exit = 2 }

if (total.auditFail > 0) {
  console.log(`check ${id}: determinism audit: ${total.auditFail} of ${total.audits} runs differed between two executions`)
  if (exit === 0) exit = 2
}
const wall = (Date.now() - t0) / 1000
for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k.text} (${total.known[k.key] ?? 0} runs)`)
const ev = {
  property: id,
  tier,
  seed: base,
  level: 'exploration',
  coverage: {
    evaluations: total.runs,
    distinct_nontrivial: ntSigs.size,
    rule: prop.rule,
    samples: total.samples.map(s => ({ ...s, scenario: JSON.stringify(s.scenario).length > 6000 ? `${JSON.stringify(s.scenario).slice(0, 6000)}…` : s.scenario })),
    seeds_per_hour: wall > 0 ? Math.round(total.runs / wall * 3600) : 0,
    simulated_seconds: Math.round(total.simMs / 1000),
    scheduler_steps: total.steps,
    scheduling_decisions: total.branch,
    requests_simulated: total.requests,
    distinct_schedules: scheds.size,
    distinct_scenario_schedule_pairs: sigs.size,
    interleaving_measure: 'hash of the ordered labels of every scheduler action (delivery, timer, tool, hook, consumer read, abort) in a run; a pair adds the hash of the generated scenario',
    faults_injected: total.faults,
    runs_with_faults: total.faultRuns,
    probes: total.probes,
    determinism_audit: { runs_repeated_twice: total.audits, differing: total.auditFail, differing_only_through_state_kept_by_the_code: total.stateful },
    real_components: prop.real,
    stub_components: prop.stub,
    stopped_by_budget: over,
    known_findings_seen: total.known,
  },
  assumptions: prop.assumptions ?? [],
  wall_s: wall,
  violations: exit === 1 ? 1 : 0,
}
mkdirSync(join(verif, 'evidence'), { recursive: true })
writeFileSync(join(verif, 'evidence', `${id}.json`), `${JSON.stringify(ev, null, 1)}\n`)
if (exit === 1) {
  console.log(`${id}: ${violation.rule}: ${message}`)
  console.log(`VIOLATION property=${id} replay=${replayPath}`)
}
else if (exit === 0) {
  console.log(`${id}: held on ${total.runs} simulated runs (${ntSigs.size} distinct non-trivial, ${scheds.size} schedules, ${total.faultRuns} with faults) in ${wall.toFixed(1)} s [${REPO}]${over ? ' (stopped by time budget)' : ''}`)
}
process.exit(exit)
