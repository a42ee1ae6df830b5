// generateObject: only parsed and validated values come out; anything else rejects.
import { judgeConv, startConv } from '../chat-run.mjs'
import { BUSY, busyRun, STUB } from '../conv-prop.mjs'
import { genJson, writeJson } from '../json-gen.mjs'
import { deepEq, safeJson, show } from '../world.mjs'
import { genObjectScenario, judgeFormat, objectOptions, schemaOf } from './C15.mjs'

const short = (x) => { const s = safeJson(x) ?? 'undefined'; return s.length > 300 ? `${s.slice(0, 300)}…` : s }
const key = v => JSON.stringify(v)
const transformed = v => ({ checked: v })

export default {
  id: 'C16',
  rule: BUSY,
  runs: { quick: 40000, thorough: 8000000 },
  real: ['generate-object', 'generate-text', 'shared-chat', 'xsschema validation', 'shared'],
  stub: STUB,
  assumptions: ['the schema is any Standard Schema validator: accepting, transforming, reporting issues, throwing or rejecting, synchronously or later'],
  gen: (rng) => {
    const sc = genObjectScenario(rng, 'generateText')
    const t = sc.turns.at(-1)
    sc.bad = undefined
    if (!sc.empty) {
      const k = rng.wpick([[7, undefined], [1, 'truncated'], [1, 'prose'], [1, 'fenced'], [1, 'shape'], [1, 'notjson']])
      if (k === 'truncated') {
        const n = sc.text.trimEnd().length
        const cut = sc.text.slice(0, 1 + rng.int(Math.max(1, n - 1)))
        sc.text = cut.trim() === '' ? '{' : cut
        t.finish = 'length'
      }
      else if (k === 'prose') sc.text = rng.bool() ? `Here you go: ${sc.text}` : `${sc.text} Hope this helps!`
      else if (k === 'fenced') sc.text = `\`\`\`json\n${sc.text}\n\`\`\``
      else if (k === 'notjson') sc.text = rng.pick(['I cannot do that.', '{id: 1}', '{"id":1,}', 'undefined', '[1,2', 'NaN'])
      else if (k === 'shape' && sc.output === 'array') {
        sc.value = rng.pick([{ items: [1] }, { elements: { 0: 'a' } }, { elements: 'text' }, { elements: null }, [1, 2], 7, null, 'x', {}])
        sc.text = writeJson(rng, sc.value)
      }
      else if (k === 'shape') { sc.value = rng.pick([[1, 2], 7, 'x', null, true, genJson(rng, 2)]); sc.text = writeJson(rng, sc.value) }
      sc.bad = k
      t.deltas = [{ t: sc.text }]
    }
    if (t.fault) delete t.fault
    if (rng.bool(0.1)) t.fault = rng.pick([{ k: 'http', status: 500, body: 'x', split: 0 }, { k: 'reject' }])
    // what the validator says about each value it is given, in the order of first appearance
    const verdict = () => rng.wpick([[6, 'ok'], [3, 'transform'], [1, 'issues'], [0.6, 'throw'], [0.4, 'falsy']])
    sc.verdicts = Array.from({ length: 8 }, verdict)
    if (rng.bool(0.5)) sc.verdicts = sc.verdicts.map(v => v === 'issues' || v === 'throw' ? 'transform' : v)
    sc.valAsync = rng.wpick([[2, 'sync'], [3, 'later'], [2, 'mixed']])
    return sc
  },
  main: async (w, L, sc) => {
    const st = { seen: [], verdictOf: new Map() }
    const validate = (v) => {
      const k = key(v)
      if (!st.verdictOf.has(k)) st.verdictOf.set(k, sc.verdicts[st.verdictOf.size % sc.verdicts.length])
      const n = st.seen.push(k)
      const verdict = st.verdictOf.get(k)
      w.probe(`validator.${verdict}`)
      w.log('schema.validate', { v: k.slice(0, 100), verdict })
      const go = () => {
        if (verdict === 'throw') { w.fault('validator.throw'); throw new Error('validator exploded') }
        if (verdict === 'issues') { w.fault('validator.issues'); return { issues: [{ message: `issue with value ${n}`, path: ['a'] }] } }
        return { value: verdict === 'falsy' ? 0 : verdict === 'transform' ? transformed(v) : v }
      }
      return sc.valAsync === 'later' || (sc.valAsync === 'mixed' && n % 2) ? w.later('validate', `schema ${n}`, go) : go()
    }
    st.schema = schemaOf('x', validate)
    const opt = objectOptions(sc, st.schema)
    st.o = await startConv(w, L, sc, '', { addOptions: opt, call: (lib, options) => L.xsai.generateObject(options) })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg: `[${sc.output}] ${msg}` })
    const { o } = st
    const all = judgeConv(o, L)
    if (o.syncThrow) return all
    judgeFormat(sc, o.reqs, bad)
    const r = o.proms.result
    const fault = sc.turns.at(-1).fault
    for (const v of all) if (/^(history|loop|tools|contain)\./.test(v.rule) || v.rule === 'settle.pending') out.push(v)
    if (r.state === 'pending') { bad('object.pending', 'generateObject never settles'); return out }
    if (fault) {
      for (const v of all) if (/^errors\./.test(v.rule)) out.push(v)
      if (r.state === 'fulfilled') bad('object.swallowed', `resolved although the request failed with ${JSON.stringify(fault)}`)
      return out
    }
    let parsed
    let parses = false
    try { parsed = JSON.parse(sc.text); parses = true } catch {}
    const list = parses ? sc.output === 'array' ? (Array.isArray(parsed?.elements) ? parsed.elements : undefined) : [parsed] : undefined
    if (sc.empty) {
      if (r.state === 'fulfilled') bad('object.empty', `an empty response produced ${short(r.value?.object)}`)
      else if (!L.xsai.InvalidResponseError.isInstance(r.error) || r.error.reason !== 'empty_body') bad('object.empty', `an empty response failed with ${show(r.error)}`)
      return out
    }
    if (!list) {
      if (r.state === 'fulfilled') bad('object.invalid', `the response ${short(sc.text)} produced the object ${short(r.value?.object)}`)
      return out
    }
    const verdict = list.map(v => st.verdictOf.get(key(v)))
    const refused = verdict.some(x => x === 'issues' || x === 'throw')
    if (refused) {
      if (r.state === 'fulfilled') bad('object.unvalidated', `resolved with ${short(r.value?.object)} although the schema refused a value (${verdict})`)
      else if (!/issue with value|validator exploded/.test(String(r.error?.message ?? r.error))) bad('object.reason', `a refused value was reported as ${show(r.error)}`)
      return out
    }
    if (verdict.some(x => x === undefined)) { bad('object.unvalidated', `a value was never given to the schema: ${short(list)}`); return out }
    if (r.state !== 'fulfilled') { bad('object.spurious', `rejected with ${show(r.error)} although ${short(sc.text)} is valid`); return out }
    for (const v of all) if (/^(usage|errors|settle)\./.test(v.rule)) out.push(v)
    const want = list.map((v, i) => verdict[i] === 'transform' ? transformed(v) : verdict[i] === 'falsy' ? 0 : v)
    const wantObj = sc.output === 'array' ? want : want[0]
    if (!deepEq(r.value.object, wantObj)) bad('object.value', `resolved with ${short(r.value.object)}, expected ${short(wantObj)}`)
    if (r.value.text !== sc.text) bad('object.text', `text is ${short(r.value.text)}, the model wrote ${short(sc.text)}`)
    return out
  },
  nontrivial: busyRun,
}
