// smoothStream and simulateReadableStream: nothing lost, boundaries kept, paced.
import { BUSY, busyRun } from '../conv-prop.mjs'
import { cutText, genCons, source } from '../source.mjs'
import { consume, show } from '../world.mjs'

const q = (s) => { const t = JSON.stringify(s); return t.length > 300 ? `${t.slice(0, 300)}…` : t }
/** does a match take anything off the front of the text? */
const moves = m => m !== null && m.index + m[0].length > 0
const RES = { word: /\s*\S+\s+/, line: /[^\n]*\n/ }

export default {
  id: 'C19',
  rule: BUSY,
  runs: { quick: 50000, thorough: 10000000 },
  real: ['utils-stream (smoothStream, simulateReadableStream)', '@moeru/std sleep', 'Node web streams'],
  stub: ['the text source and consumers (scripted)', 'clock and timers (virtual)'],
  assumptions: ['where a custom pattern matches the empty string at the very start of what is left, it makes no progress: holding the text back until more arrives, or the end, is right'],
  gen: (rng) => {
    if (rng.bool(0.3)) {
      return {
        kind: 'simulate',
        chunks: Array.from({ length: rng.bool(0.01) ? 60 : rng.int(7) }, (_, i) => rng.pick([`c${i}`, { i }, i, '', null, false])),
        initialDelay: rng.pick([0, 1, 10, 300]),
        chunkDelay: rng.pick([0, 1, 10, 100]),
        cons: genCons(rng),
        twice: rng.bool(0.3), // another stream over the same items
      }
    }
    const words = ['hello', 'a', 'wörld', '🙂', '中文', '.', ',', '!', 'foo-bar', '。', '12']
    const gaps = [' ', ' ', ' ', '  ', '\n', '\n\n', '\r\n', '\t', ', ', '']
    let text = rng.bool(0.01) ? 'unbroken'.repeat(20 + rng.int(120)) : rng.bool(0.2) ? rng.pick(gaps) : ''
    for (let n = rng.bool(0.01) ? 40 + rng.int(80) : rng.int(14); n > 0; n--) text += rng.pick(words) + rng.pick(gaps)
    const sc = {
      kind: 'smooth',
      text,
      chunks: cutText(rng, text),
      chunking: rng.wpick([[3, undefined], [3, 'word'], [3, 'line'], [1, { re: '[,.!。]' }], [1, { re: '.', flags: 's' }], [1, { re: '\\S+\\s' }], [1, { re: 'o+', flags: 'i' }], [1, { re: '.{1,3}', flags: 'su' }], [1, { re: '\\S+\\s+', flags: 'g' }], [0.5, { re: '[\\s\\S]{2}', flags: 'y' }], [0.5, { re: '[^,]*,?', empty: true }], [0.3, { re: '(?=\\s)', empty: true }], [0.3, { re: '\\w*', empty: true }], [0.3, { re: 'x*', flags: 'g', empty: true }], [0.4, { re: '.*\\n?', empty: true }], [0.3, { re: '$', empty: true }]]),
      delay: rng.wpick([[3, undefined], [1, 0], [2, 1], [2, 100], [0.3, 1500 + rng.int(9000)]]),
      end: rng.wpick([[6, 'close'], [2, 'error'], [1, 'hang']]),
      push: rng.bool(0.3),
      hwm: rng.int(3),
      cons: genCons(rng),
      twice: rng.bool(0.2),
    }
    return sc
  },
  main: async (w, L, sc) => {
    const st = { err: new TypeError('sim source') }
    if (sc.kind === 'simulate') {
      st.t0 = w.now
      const make = () => L.xsai.simulateReadableStream({ chunks: sc.chunks, initialDelay: sc.initialDelay, chunkDelay: sc.chunkDelay })
      const [a, b] = [make(), sc.twice ? make() : null]
      st.c = consume(w, 'out', a, sc.cons)
      if (b) st.c2 = consume(w, 'out2', b, { mode: 'read' })
      return st
    }
    const ch = sc.chunking
    const re = typeof ch === 'object' ? new RegExp(ch.re, ch.flags) : undefined
    const opts = {}
    if (ch !== undefined) opts.chunking = re ?? ch
    if (sc.delay !== undefined) opts.delay = sc.delay
    const make = () => Object.keys(opts).length ? L.xsai.smoothStream(opts) : L.xsai.smoothStream()
    // a second stream built from the same options runs alongside
    if (sc.twice) {
      st.src2 = source(w, 'src2', sc.chunks)
      st.c2 = consume(w, 'out2', st.src2.stream.pipeThrough(make()), { mode: 'read' })
    }
    st.src = source(w, 'src', sc.chunks, { end: sc.end, endError: st.err, push: sc.push, hwm: sc.hwm })
    st.c = consume(w, 'out', st.src.stream.pipeThrough(make()), sc.cons)
    const fresh = () => re ? new RegExp(re.source, re.flags.replace(/g/, '')) : RES[ch ?? 'word']
    st.re = fresh
    w.onQuiescent.push(() => {
      if (st.late || w.timers.size > 0 || sc.cons.mode !== 'read' || st.src.state !== 'open' || st.c.state !== 'open') return
      const soFar = sc.chunks.slice(0, st.src.delivered).join('')
      const got = st.c.items.join('')
      const rest = soFar.slice(got.length)
      if (soFar.startsWith(got) && moves(fresh().exec(rest))) st.late = { rest, got }
    })
    return st
  },
  judge: (w, L, sc, st) => {
    const out = []
    const bad = (rule, msg) => out.push({ rule, msg })
    const c = st.c
    const times = (c.itemSeqs ?? []).map(s => w.history[s].t)
    const gap = (min, what, ts = times, name = 'out') => {
      for (let i = 1; i < ts.length; i++) if (ts[i] - ts[i - 1] < min) { bad('pace.delay', `${name}: item ${i} came ${ts[i] - ts[i - 1]} ms after the one before, ${what} is ${min}`); break }
    }
    if (c.state === 'cancelled' && c.cancelResult !== 'ok' && c.cancelResult !== st.err) bad('pace.cancel', `cancel gave ${show(c.cancelResult)}`)
    for (const e of w.unhandled) bad('unhandled.rejection', show(e))
    for (const e of w.uncaught) bad('unhandled.exception', show(e))
    if (sc.kind === 'simulate') {
      const want = sc.chunks
      if (st.c2 && (st.c2.state !== 'closed' || JSON.stringify(st.c2.items) !== JSON.stringify(want))) bad('simulate.items', `a second stream over the same items is ${st.c2.state} with ${q(st.c2.items)}, expected ${q(want)}`)
      if (c.mode === 'ignore') return out
      for (let i = 0; i < c.items.length; i++) if (JSON.stringify(c.items[i]) !== JSON.stringify(want[i])) { bad('simulate.items', `item ${i} is ${q(c.items[i])}, expected ${q(want[i])}`); break }
      if (c.state === 'open' && c.mode !== 'cancel') bad('simulate.open', 'the stream never ends')
      if (c.state === 'open' && c.mode === 'cancel' && c.items.length < want.length) bad('simulate.open', 'the stream stopped')
      if (c.state === 'closed' && c.items.length !== want.length) bad('simulate.items', `${c.items.length} of ${want.length} items were delivered`)
      if (c.state === 'errored') bad('simulate.error', show(c.error))
      if (c.mode !== 'slow' && times.length && times[0] - st.t0 < sc.initialDelay) bad('pace.initial', `the first item came after ${times[0] - st.t0} ms, initialDelay is ${sc.initialDelay}`)
      if (c.mode === 'read') {
        gap(sc.chunkDelay, 'chunkDelay')
        // nothing but its own timers can hold it up
        times.forEach((t, i) => { const at = i ? times[i - 1] + Math.max(sc.chunkDelay, 0) : st.t0 + Math.max(sc.initialDelay, 0); if (t > at + 2) bad('pace.slow', `item ${i} came at ${t}, it was due at ${at}`) })
        const end = c.state === 'closed' ? w.history[c.s].t : undefined
        if (times.length && end > times.at(-1) + 2) bad('pace.slow', `the end came ${end - times.at(-1)} ms after the last item`)
      }
      return out
    }
    const check = (c, name, end, mode) => {
      if (mode === 'ignore') return
      const got = c.items.join('')
      if (!sc.text.startsWith(got)) bad('smooth.text', `${name}: ${q(got)} is not the beginning of ${q(sc.text)}`)
      else if (c.state === 'closed' && got !== sc.text) bad('smooth.lost', `${name}: ended with ${q(got)}, expected ${q(sc.text)}`)
      if (c.state !== 'cancelled') {
        const want = end === 'close' ? 'closed' : end === 'error' ? 'errored' : 'open'
        if (c.state !== want && !(mode === 'cancel' && c.state === 'open')) bad('smooth.end', `${name} is ${c.state}, the source ${end}`)
        if (c.state === 'errored' && c.error !== st.err) bad('smooth.error', `failed with ${show(c.error)}`)
      }
      // every piece except the flushed remainder ends exactly where the first match ends
      const n = c.state === 'closed' || c.state === 'cancelled' ? c.items.length - 1 : c.items.length
      const ends = []
      for (const c of sc.chunks) ends.push((ends.at(-1) ?? 0) + c.length)
      for (let i = 0, pos = 0; i < n; pos += c.items[i++].length) {
        if (sc.chunking?.empty) {
          // the match depends on how much had arrived
          const end = pos + c.items[i].length
          const fits = (b) => { const m = st.re().exec(sc.text.slice(pos, b)); return moves(m) && pos + m.index + m[0].length === end }
          if (!ends.some(b => b >= end && fits(b))) { bad('smooth.boundary', `${name}: piece ${i} ${q(c.items[i])} does not end at the first ${q(sc.chunking)} (pieces ${q(c.items)})`); break }
          continue
        }
        const m = st.re().exec(c.items[i])
        if (!m || m.index + m[0].length !== c.items[i].length) { bad('smooth.boundary', `${name}: piece ${i} ${q(c.items[i])} does not end at the first ${q(sc.chunking ?? 'word')} (pieces ${q(c.items)})`); break }
      }
      if (c.items.includes('')) bad('smooth.empty', `${name}: an empty piece was delivered`)
      if (c.state === 'closed' && c.items.length) {
        const last = c.items.at(-1)
        const m = st.re().exec(last)
        if (moves(m) && m.index + m[0].length !== last.length) bad('smooth.remainder', `${name}: the last piece ${q(last)} holds back a complete ${q(sc.chunking ?? 'word')}`)
      }
    }
    check(c, 'out', sc.end, sc.cons.mode)
    if (sc.cons.mode === 'read') {
      const delay = sc.delay ?? 10
      gap(delay, 'delay')
      // a piece whose end had arrived before the previous piece went out is only held up by the delay
      if (!sc.chunking?.empty) {
        const arrived = w.history.filter(e => e.k === 'source' && e.name === 'src')
        for (let i = 1, pos = c.items[0]?.length; i < c.items.length - (c.state === 'closed' ? 1 : 0); i++) {
          const text = arrived.filter(e => e.s < c.itemSeqs[i - 1]).map(e => e.v).join('')
          const m = st.re().exec(text.slice(pos))
          if (moves(m) && pos + m.index + m[0].length < text.length && m.index + m[0].length === c.items[i].length && times[i] - times[i - 1] > delay + 2) { bad('pace.slow', `piece ${i} came ${times[i] - times[i - 1]} ms after the one before, delay is ${delay}`); break }
          pos += c.items[i].length
        }
      }
    }
    if (st.c2) {
      check(st.c2, 'second stream', 'close', 'read')
      gap(sc.delay ?? 10, 'delay', st.c2.itemSeqs.map(s => w.history[s].t), 'second stream')
    }
    if (st.late) bad('smooth.prompt', `${q(st.late.rest)} is held back with nothing pending after ${q(st.late.got)}`)
    if (c.state === 'cancelled' && st.src.state === 'open' && !st.src.hung) bad('smooth.cancel', 'the source was not cancelled with the consumer')
    return out
  },
  nontrivial: busyRun,
}
