// One request, one response: generation, network plan and the error it must surface as.
import { errorBody, httpFault, LONG, STATUSES } from './chat-gen.mjs'
import { failureMatches } from './chat-run.mjs'
import { Prng } from './prng.mjs'
import { show } from './world.mjs'

const enc = new TextEncoder()
export const genUnaryFault = (rng, { json = true } = {}) => rng.wpick([
  [3, () => httpFault(rng)],
  [1, () => ({ k: 'http-broken', status: rng.pick(STATUSES), body: rng.bool(0.15) ? LONG : 'partial body' })],
  [2, () => ({ k: 'reject' })],
  [2, () => ({ k: 'cut', frac: rng.float(), mode: 'error' })],
  [json ? 2 : 0, () => ({ k: 'cut', frac: rng.float(), mode: 'close' })],
  [json ? 1 : 0, () => ({ k: 'badjson', data: rng.pick(['{"data":[', 'oops', '{]', '<html>', 'undefined', '{"data":[]};', '{"data":[]} {}', '{"data":[],}', `{"data":[ ${LONG}`]) })],
  [1, () => ({ k: 'null' })],
  [1, () => ({ k: 'nonstream' })],
  [0.4, () => ({ k: 'hang-headers' })],
])()
export const genBodyWire = rng => ({ seed: rng.u32(), push: rng.bool(0.3), byob: rng.bool(0.4), hwm: rng.int(3), instant: rng.bool(0.06), ...(rng.bool(0.12) ? { fine: 1 + rng.int(6) } : {}), ...(rng.bool(0.06) ? { ctype: rng.pick(['text/plain', 'text/plain;charset=UTF-8', 'application/json; charset=utf-8', 'application/vnd.api+json']) } : {}) })

/** bytes: the whole good body. mkErr(name) makes (and remembers) transport errors. */
export const unaryPlan = (bytes, wire, fault, mkErr, type = wire.ctype ?? 'application/json') => {
  const cutUp = (b) => {
    const rng = new Prng(wire.seed)
    const pieces = []
    for (let i = 0; i < b.length;) { const n = 1 + rng.int(Math.max(1, wire.fine ? Math.max(wire.fine, b.length / 200) : b.length)); pieces.push(b.slice(i, i + n)); i += n }
    return pieces
  }
  const base = { instant: wire.instant, push: wire.push, byob: wire.byob, hwm: wire.hwm }
  switch (fault?.k) {
    case 'hang-headers': return { hangHeaders: true }
    case 'reject': return { reject: mkErr('network') }
    case 'http': return { ...base, status: fault.status, statusText: 'Nope', headers: { 'content-type': 'application/json', 'x-req': 'r' }, pieces: fault.split ? cutUp(enc.encode(fault.body)) : [enc.encode(fault.body)].filter(x => x.length), end: 'close', faultName: 'net.http-status' }
    case 'http-broken': return { ...base, status: fault.status, pieces: [enc.encode(fault.body)], end: 'error', endError: mkErr('body'), faultName: 'net.http-status' }
    case 'null': return { kind: 'null', headers: {} }
    case 'nonstream': return { kind: 'nonstream', bodyValue: 'i am text', headers: { 'content-type': 'text/plain' } }
    case 'badjson': return { ...base, status: 200, headers: { 'content-type': type }, pieces: cutUp(enc.encode(fault.data)), end: 'close', faultName: 'net.badjson' }
    case 'cut': return { ...base, status: 200, headers: { 'content-type': type }, pieces: cutUp(bytes.slice(0, Math.min(bytes.length - 1, Math.floor(fault.frac * bytes.length)))), end: fault.mode, endError: mkErr('body'), faultName: `net.cut-${fault.mode}` }
  }
  return { ...base, status: 200, headers: { 'content-type': type }, pieces: cutUp(bytes), end: 'close' }
}
export const faultTerminal = (fault) => {
  switch (fault?.k) {
    case 'hang-headers': return { hang: true }
    case 'reject': return { err: 'network', marker: 'network' }
    case 'http': return { err: 'http', status: fault.status, body: fault.body }
    case 'http-broken': return { err: 'network', marker: 'body' }
    case 'null': return { err: 'empty_body' }
    case 'nonstream': return { err: 'invalid_body' }
    case 'badjson': return { err: 'json', text: fault.data }
    case 'cut': return fault.mode === 'error' ? { err: 'network', marker: 'body' } : { err: 'json' }
    case 'sseerror': return { err: 'remote', body: JSON.stringify(fault.json) }
  }
  return { ok: true }
}
/** null when the observed error is the one the fault must surface as */
export const wrongFailure = (fault, error, errs, L) => {
  const m = failureMatches({ terminal: faultTerminal(fault) }, error, { errs }, L)
  return m === true ? null : m ?? show(error)
}

/** settings a call passes through to the provider: every JSON value, the keys inside them the caller's own */
const EXTRAS = [
  ['metadata', [{ userId: 'u-1', 'Trace-ID': 'é' }, { nestedKey: { innerKey: [{ deepKey: null }] } }, {}]],
  ['stop', [null, 'END', ['a', 'b'], ['only'], []]],
  ['serviceTier', [null, 'flex']],
  ['user', ['', 'u-2']],
  ['store', [false, true]],
  ['frequencyPenalty', [0, -1.5]],
  ['logitBias', [{ 50256: -100 }]],
  ['reasoningEffort', ['none', 'high']],
  ['extraBody', [{ topK: 3 }, [null, false, { someKey: '' }]]],
  ['top2K', [0, 3]],
  ['_tag', ['x', null]],
  ['variantAB', [true]],
  ['snake_given', [{ innerCamel: 1 }, null]],
]
export const genExtras = (rng) => {
  const out = {}
  for (let n = 1 + rng.int(3); n > 0; n--) {
    const [k, vs] = rng.pick(EXTRAS)
    out[k] = rng.pick(vs)
  }
  return out
}
/** as the provider is to see them: only the names of the settings change */
export const wireNames = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [k.replace(/[A-Z]/g, x => `_${x.toLowerCase()}`), v]))
