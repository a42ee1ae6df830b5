// One simulated execution of one property's scenario, and the minimiser over it.
import { hashStr, mix, Prng } from './prng.mjs'
import { installSeams, safeJson, World } from './world.mjs'

export const loadProp = async id => (await import(`./props/${id}.mjs`)).default
export const runSeed = (base, id, i) => mix(mix(base, hashStr(id)), i)

/**
 * prop: {gen(rng, tier), main(w, L, sc) -> state, judge(w, L, sc, state) -> [{rule,msg}], nontrivial?}
 */
export const execute = async (prop, L, { seed, scenario, choices = null, tier = 'quick' }) => {
  installSeams()
  const sc = scenario ?? prop.gen(new Prng(mix(seed, 0x6E4)), tier)
  const scJson = JSON.stringify(sc)
  const w = new World({ seed, choices, maxSteps: prop.maxSteps ?? 6000 })
  let state
  let violations = []
  try {
    await w.run(async (w) => { state = await prop.main(w, L, JSON.parse(scJson)) })
    if (w.limit) violations.push({ rule: 'progress.step-limit', msg: `still active after ${w.maxSteps} scheduler steps` })
    if (!w.mainDone && !w.limit) violations.push({ rule: 'progress.main', msg: 'the simulated program never completed' })
    if (w.mainDone) violations.push(...w.violations, ...(prop.judge(w, L, JSON.parse(scJson), state) ?? []))
  }
  catch (e) {
    violations.push({ rule: 'exception', msg: `${e?.stack ?? e}`.slice(0, 1500) })
  }
  const nt = prop.nontrivial ? prop.nontrivial(w, sc, state) : w.choices.length > 0
  return {
    seed,
    tier,
    scenario: JSON.parse(scJson),
    choices: w.choices,
    digest: w.digest(),
    sig: (w.sig ^ hashStr(scJson)) >>> 0,
    sched: w.sig,
    violations,
    faults: w.faults,
    probes: w.probes,
    steps: w.steps,
    branch: w.choices.length,
    simMs: w.now,
    requests: w.requests.length,
    nontrivial: !!nt,
    history: w.history,
  }
}

/** the scenario a tape of draws stands for, with the draws it used; null when it stands for none */
export const fromTape = (prop, seed, tier, tape) => {
  const rng = Prng.taped(mix(seed, 0x6E4), tape)
  try { return { scenario: JSON.parse(JSON.stringify(prop.gen(rng, tier))), tape: rng.drawn, simplest: rng.simplest } }
  catch { return null }
}

/** the length of the scenario, and how far its draws are from their simplest values */
const cost = ({ scenario, simplest, tape }) => {
  let n = JSON.stringify(scenario).length
  for (let i = 0; i < tape.length; i++) n += (32 - Math.clz32(tape[i] ^ simplest[i])) / 4
  return n
}
/** a block of draws left out, or set to its simplest values */
const edits = ({ tape, simplest }, i, k) => {
  const from = Math.max(0, i)
  const to = i + k
  let moved = false
  const flat = tape.map((x, j) => { if (j < from || j >= to || x === simplest[j]) return x; moved = true; return simplest[j] })
  return { flat: moved ? flat : null, without: [...tape.slice(0, from), ...tape.slice(to)] }
}
const halved = ({ tape }, i) => [...tape.slice(0, i), tape[i] >>> 1, ...tape.slice(i + 1)]

/** one simpler tape, for the audit of the minimiser */
export const tapeVariant = (cur, rng) => {
  const n = cur.tape.length
  const k = 2 ** rng.int(Math.floor(Math.log2(Math.max(2, n))))
  const i = rng.int(n)
  const { flat, without } = edits(cur, i, k)
  return rng.pick([without, flat ?? without, halved(cur, i)])
}

/** Greedy shrinking of scenario and schedule that keeps the violated rule. */
export const minimise = async (prop, lib, first, rule, budgetMs, now, { known = new Set(), maxTries = Infinity } = {}) => {
  const getLib = typeof lib === 'function' ? lib : () => lib
  const until = now() + budgetMs
  let best = first
  const firstMsg = first.violations.find(v => v.rule === rule)?.msg.split('\n').slice(0, 2).join()
  let tried = 0
  const attempt = async (scenario, choices) => {
    if (++tried > maxTries) return false
    let r
    try { r = await execute(prop, await getLib(), { seed: first.seed, scenario, choices }) }
    catch { return false }
    // a listed finding is not the failure that is being minimised
    const hit = r.violations.find(v => v.rule === rule && !known.has(prop.knownKey?.(v, r)))
    // a harness exception only counts as the same failure when it is the same exception
    if (hit && (rule === 'exception' ? hit.msg.split('\n').slice(0, 2).join() === firstMsg : !r.violations.some(v => v.rule === 'exception'))) {
      best = r
      return true
    }
    return false
  }
  // schedule: cut tail, then zero single choices
  const shrinkChoices = async () => {
    let len = best.choices.length
    for (let cut = len; cut >= 1 && now() < until; cut = cut >> 1) {
      while (best.choices.length >= cut && now() < until) {
        const before = best.choices.length
        const trial = best.choices.slice(0, best.choices.length - cut)
        if (!(await attempt(best.scenario, trial))) break
        best.choices = trimZeros(best.choices)
        if (best.choices.length >= before) break
      }
    }
    len = best.choices.length
    for (let i = len - 1; i >= 0 && now() < until; i--) {
      if (best.choices[i]) {
        const t = best.choices.slice(); t[i] = 0
        await attempt(best.scenario, t)
      }
    }
    best.choices = trimZeros(best.choices)
  }
  await shrinkChoices()
  // scenario: edit the draws it was generated from, so that it stays one the generator makes
  let cur = fromTape(prop, first.seed, first.tier, null)
  const step = async (tape) => {
    const next = fromTape(prop, first.seed, first.tier, tape)
    if (next === null || cost(next) >= cost(cur) || !(await attempt(next.scenario, best.choices))) return false
    cur = next
    return true
  }
  let progress = cur !== null && JSON.stringify(cur.scenario) === JSON.stringify(first.scenario)
  while (progress && now() < until) {
    progress = false
    for (let k = 2 ** Math.floor(Math.log2(Math.max(1, cur.tape.length >> 1))); k >= 1; k >>= 1) {
      for (let i = cur.tape.length - k; i > -k && now() < until; i -= k) {
        const { flat, without } = edits(cur, i, k)
        if (await step(without) || (flat && await step(flat))) progress = true
      }
    }
    for (let i = cur.tape.length - 1; i >= 0 && now() < until; i--) {
      while (i < cur.tape.length && cur.simplest[i] === 0 && cur.tape[i] > 1 && now() < until) {
        if (!(await step(halved(cur, i)))) break
        progress = true
      }
    }
  }
  await shrinkChoices()
  // settle on the exact replayable form
  const fin = await execute(prop, await getLib(), { seed: first.seed, scenario: best.scenario, choices: trimZeros(best.choices) })
  if (fin.violations.some(v => v.rule === rule)) { fin.choices = trimZeros(fin.choices); return { best: fin, tried } }
  const again = await execute(prop, await getLib(), { seed: first.seed, scenario: first.scenario, choices: first.choices })
  return { best: again, tried }
}
const trimZeros = (c) => { let n = c.length; while (n > 0 && c[n - 1] === 0) n--; return c.slice(0, n) }

export const brief = (r, n = 60) => r.history.slice(-n).map(e => safeJson(e).slice(0, 400))
