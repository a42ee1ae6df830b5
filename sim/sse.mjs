// How a provider puts events on the wire, and how the network cuts the bytes.
const enc = new TextEncoder()

export const genWire = (rng) => {
  const w = rawWire(rng)
  // with bare-CR line ends the parser can only be sure of the last event once another byte follows
  if (w.eol === '\r') w.done = 'done'
  return w
}

const rawWire = (rng) => ({
  eol: rng.wpick([[6, '\n'], [3, '\r\n'], [1, '\r']]),
  comments: rng.wpick([[3, 0], [1, 1], [1, 2]]),
  space: rng.bool(0.8),
  fields: rng.wpick([[6, 0], [2, 1], [2, 2], [1, 3]]),
  pretty: rng.bool(0.15),
  bom: rng.bool(0.08),
  done: rng.wpick([[6, 'done'], [2, 'none'], [1, 'done-noeol']]),
  split: rng.wpick([[3, 'random'], [2, 'event'], [2, 'whole'], [2, 'fine'], [1, 'bytes'], [2, 'lines']]),
  splitSeed: rng.u32(),
  push: rng.bool(0.3),
  byob: rng.bool(0.4),
  instant: rng.bool(0.05),
  hwm: rng.wpick([[3, 0], [1, 1], [1, 4]]),
  noise: rng.bool(0.1) ? rng.pick(['', 'null']) : null, // events without content in between
})

export const plainWire = () => ({ eol: '\n', comments: 0, space: true, fields: 0, pretty: false, bom: false, done: 'done', split: 'event', splitSeed: 1, push: false, byob: false, hwm: 0, noise: null })

/**
 * payloads: array of {data: string} or {json: any}, -> {bytes, ends[]} where ends[i] is the
 * byte offset at which event i is complete on the wire (its blank line has arrived).
 */
export const renderSSE = (payloads, wire) => {
  const { eol } = wire
  let out = wire.bom ? '\uFEFF' : ''
  const ends = []
  const byteLen = () => enc.encode(out).length
  const sp = wire.space ? ' ' : ''
  payloads.forEach((p, i) => {
    if (wire.comments === 1 && i % 3 === 0) out += `: keep-alive${eol}${eol}`
    if (wire.comments === 2) out += `: comment ${i}${eol}`
    if (wire.fields === 1) out += `event:${sp}message${eol}`
    if (wire.fields === 2) out += `id:${sp}${i}${eol}event:${sp}${p.event ?? (p.json?.error ? 'error' : ['chunk', 'ping', 'delta', 'message'][i % 4])}${eol}`
    // fields a reader does not know, or cannot use, are to be ignored
    if (wire.fields === 3) out += [`retry:${sp}3000${eol}`, `retry:${sp}soon${eol}`, `x-trace:${sp}abc${eol}`, `keepalive${eol}`, `Data:${sp}{}${eol}`][i % 5]
    if (wire.noise != null && i % 2 === 1) out += `data:${wire.noise}${eol}${eol}`
    const text = p.data !== undefined ? p.data : JSON.stringify(p.json, null, wire.pretty ? 1 : undefined)
    for (const line of text.split('\n')) out += `data:${sp}${line}${eol}`
    out += eol
    ends.push(byteLen())
  })
  if (wire.done === 'done') out += `data:${sp}[DONE]${eol}${eol}`
  else if (wire.done === 'done-noeol') out += `data:${sp}[DONE]`
  return { bytes: enc.encode(out), ends }
}

export const splitBytes = (bytes, ends, wire, Prng) => {
  const n = bytes.length
  if (n === 0) return []
  const rng = new Prng(wire.splitSeed)
  const cuts = new Set()
  switch (wire.split) {
    case 'event': for (const e of ends) cuts.add(e); break
    case 'whole': break
    case 'lines': for (let i = 0; i < n; i++) if (bytes[i] === 10 || bytes[i] === 13) cuts.add(i + 1); break
    case 'fine': for (let i = 0; i < n;) { i += 1 + rng.int(24); cuts.add(i) } break
    case 'bytes': if (n <= 400) { for (let i = 1; i < n; i++) cuts.add(i) } else { for (let i = 0; i < n;) { i += 1 + rng.int(Math.ceil(n / 120)); cuts.add(i) } } break
    default: { const k = 1 + rng.int(12); for (let i = 0; i < k; i++) cuts.add(1 + rng.int(n)) }
  }
  let list = [...cuts].filter(c => c > 0 && c < n).sort((a, b) => a - b)
  if (list.length > 150) list = list.filter((_, i) => i % Math.ceil(list.length / 150) === 0)
  const out = []
  let prev = 0
  for (const c of [...list, n]) {
    if (c > prev) out.push(bytes.slice(prev, c))
    prev = c
  }
  return out
}

/**
 * cut: null | {frac, mode:'error'|'close'|'hang'}: everything past the cut never arrives.
 */
export const wirePlan = (payloads, wire, Prng, cut, endError) => {
  const { bytes, ends } = renderSSE(payloads, wire)
  let b = bytes
  let end = 'close'
  if (cut) {
    const at = cut.at !== undefined ? Math.min(cut.at, bytes.length) : Math.floor(cut.frac * bytes.length)
    b = bytes.slice(0, at)
    end = cut.mode
  }
  const pieces = splitBytes(b, ends.filter(e => e < b.length), wire, Prng)
  // events fully on the wire
  const complete = ends.filter(e => e + (wire.eol === '\r' ? 1 : 0) <= b.length).length
  // events that a parser may already consider complete: a trailing CR can stand for the whole line end
  const maybe = ends.filter(e => e - (wire.eol === '\r\n' ? 1 : 0) <= b.length).length
  const cum = []
  let acc = 0
  for (const p of pieces) { acc += p.length; cum.push(acc) }
  return {
    status: 200,
    headers: { 'content-type': 'text/event-stream' },
    pieces,
    end,
    endError,
    push: wire.push,
    byob: wire.byob,
    instant: wire.instant,
    hwm: wire.hwm,
    meta: { ends, cum, complete, maybe, total: ends.length, eol: wire.eol },
  }
}

/** how many events are complete once `delivered` pieces have arrived */
export const completeEvents = (meta, delivered) => {
  if (delivered === 0) return 0
  const have = meta.cum[delivered - 1]
  // a bare CR at the very end of a chunk may be half of a CRLF: the event is only certain one byte later
  const margin = meta.eol === '\r' ? 1 : 0
  let k = 0
  while (k < meta.ends.length && meta.ends[k] + margin <= have) k++
  return k
}
