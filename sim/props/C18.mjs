// extractReasoningStream: the split of tagged text does not depend on how it was chunked.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { cutText, genCons, source } from '../source.mjs'
import { consume, show } from '../world.mjs'

const q = s => JSON.stringify(s)
/** independent reading of the whole text */
const split = (text, tag, sep, startWith) => {
  const segs = { text: [], reasoning: [] }
  let mode = startWith ? 'reasoning' : 'text'
  let rest = text
  let blocks = startWith ? 1 : 0
  for (;;) {
    const t = mode === 'text' ? `<${tag}>` : `</${tag}>`
    const i = rest.indexOf(t)
    const part = i < 0 ? rest : rest.slice(0, i)
    if (part) segs[mode].push(part)
    if (i < 0) break
    rest = rest.slice(i + t.length)
    if (mode === 'text') blocks++
    mode = mode === 'text' ? 'reasoning' : 'text'
  }
  // what a careful reader could already show: all but an unfinished tag at the very end
  const t = mode === 'text' ? `<${tag}>` : `</${tag}>`
  let hold = 0
  for (let n = Math.min(t.length - 1, rest.length); n > 0; n--) if (t.startsWith(rest.slice(rest.length - n))) { hold = n; break }
  // every block closed: then the complete text has only one reading
  const plain = mode === 'text'
  return { plain, blocks, text: segs.text.join(sep), reasoning: segs.reasoning.join(sep), mode, hold, restLen: rest.length }
}

export default {
  id: 'C18',
  rule: BUSY,
  runs: { quick: 60000, thorough: 12000000 },
  real: ['utils-reasoning (extractReasoningStream, extractReasoning)', 'Node web streams'],
  stub: ['the text source (scripted)', 'consumers (scripted)'],
  gen: (rng) => {
    const tag = rng.wpick([[5, undefined], [2, 'thinking'], [1, 'a'], [1, 'aa'], [1, 'x-y'], [1, 'think'], [0.5, '|think|'], [0.5, 'a.b'], [0.3, 'c++'], [0.3, '$(x)[y]{2}^?*\\']])
    const t = tag ?? 'think'
    const words = ['hello', ' ', '\n', '', 'a', 'x', '<', '</', '>', `<${t}`, `</${t}`, `<${t[0]}`, `</${t[0]}`, `<${t} >`, '<<', '</ ', '🙂', 'é', `${t}>`, '<b>', `<${t.toUpperCase()}>`]
    let text = rng.bool(0.01) ? 'lorem ipsum '.repeat(50 + rng.int(400)) : ''
    for (let n = rng.bool(0.01) ? 80 + rng.int(150) : rng.int(14); n > 0; n--) text += rng.wpick([[2, `<${t}>`], [2, `</${t}>`], [5, rng.pick(words)]])
    if (rng.bool(0.2)) text = text.replaceAll('<', `<<`)
    const sc = {
      text,
      chunks: [],
      tag,
      separator: rng.wpick([[4, undefined], [1, ''], [1, '\n\n'], [1, ' | ']]),
      startWith: rng.bool(0.3) ? rng.bool(0.8) : undefined,
      end: rng.wpick([[6, 'close'], [2, 'error'], [1, 'hang']]),
      push: rng.bool(0.3),
      hwm: rng.int(3),
      cons: { text: genCons(rng), reasoning: genCons(rng) },
    }
    sc.chunks = cutText(rng, text)
    return sc
  },
  main: async (w, L, sc) => {
    const st = { err: new TypeError('sim source') }
    const opts = sc.tag === undefined && sc.separator === undefined && sc.startWith === undefined ? [] : [{ tagName: sc.tag ?? 'think', ...(sc.separator !== undefined ? { separator: sc.separator } : {}), ...(sc.startWith !== undefined ? { startWithReasoning: sc.startWith } : {}) }]
    st.whole = L.xsai.extractReasoning(sc.text, ...opts)
    st.src = source(w, 'src', sc.chunks, { end: sc.end, endError: st.err, push: sc.push, hwm: sc.hwm })
    const res = L.xsai.extractReasoningStream(st.src.stream, ...opts)
    st.cons = { text: consume(w, 'text', res.textStream, sc.cons.text), reasoning: consume(w, 'reasoning', res.reasoningStream, sc.cons.reasoning) }
    w.onQuiescent.push(() => {
      if (st.late || st.src.state !== 'open') return
      const soFar = sc.chunks.slice(0, st.src.delivered).join('')
      const r = split(soFar, sc.tag ?? 'think', sc.separator ?? '\n', sc.startWith)
      for (const k of ['text', 'reasoning']) {
        const c = st.cons[k]
        if (c.mode !== 'read' || c.state !== 'open') continue
        const got = c.items.join('')
        const want = r.mode === k ? r[k].length - r.hold - (r.hold === r.restLen && r[k].length > r.hold ? (sc.separator ?? '\n').length : 0) : r[k].length
        if (got.length < want) st.late = { k, got, want: r[k].slice(0, want) }
      }
    })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg: `${msg} (text ${q(sc.text)}, chunks ${q(sc.chunks).slice(0, 200)})` })
    const r = split(sc.text, sc.tag ?? 'think', sc.separator ?? '\n', sc.startWith)
    // the two ways of extracting agree on a text with one reading
    if (r.plain && (st.whole.text !== r.text || (st.whole.reasoning ?? '') !== r.reasoning || (st.whole.reasoning === undefined) !== (r.blocks === 0))) bad('reasoning.whole', `extracting from the complete text gave ${q(st.whole)}, expected ${q({ text: r.text, reasoning: r.reasoning })}`)
    if (st.late) bad('reasoning.prompt', `${st.late.k} shows ${q(st.late.got)} while ${q(st.late.want)} had arrived`)
    for (const k of ['text', 'reasoning']) {
      const c = st.cons[k]
      if (c.mode === 'ignore') continue
      const got = c.items.join('')
      if (c.items.some(x => typeof x !== 'string')) bad('reasoning.type', `${k} delivered a non-string`)
      if (!r[k].startsWith(got)) bad(`reasoning.${k}`, `${k} is ${q(got)}, expected ${q(r[k])}`)
      else if (c.state === 'closed' && got !== r[k]) bad(`reasoning.${k}`, `${k} ended with ${q(got)}, expected ${q(r[k])}`)
      if (c.state === 'cancelled') { if (c.cancelResult !== 'ok' && c.cancelResult !== st.err) bad('reasoning.cancel', `cancelling ${k} gave ${show(c.cancelResult)}`); continue }
      const want = sc.end === 'close' ? 'closed' : sc.end === 'error' ? 'errored' : 'open'
      if (c.state !== want && !(c.mode === 'cancel' && c.state === 'open')) bad('reasoning.end', `${k} is ${c.state}, the source ${sc.end}`)
      if (c.state === 'errored' && c.error !== st.err) bad('reasoning.error', `${k} failed with ${show(c.error)}`)
    }
    for (const e of w.unhandled) bad('unhandled.rejection', show(e))
    return out
  },
  nontrivial: busyRun,
}
