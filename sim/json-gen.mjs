// Random JSON values, their textual variants, and an independent view of a partial JSON text.
const STR = ['', 'a', 'word', 'é', '🙂', '"q"', '\\', '\n', '\t', 'end.', '{', '}', '[1,2]', ',', ': ', '\u2028', 'null', '中文', '\u0000', '</s>', '//', '/* x */', '\'', '`']
export const genStr = (rng) => { let s = ''; for (let n = rng.int(4); n >= 0; n--) s += rng.pick(STR); return s }
export const genJson = (rng, depth = 2) => rng.wpick([
  [4, () => genStr(rng)],
  [2, () => rng.int(5000) - 1000],
  [1, () => rng.pick(EXP && rng.bool(0.05) ? [1e21, 1.5e-7, -2e-9] : [0, -1, 1.5, -0.25, 12345678901, 3.14159])],
  [1, () => rng.bool()],
  [1, () => null],
  [depth > 0 ? 2 : 0, () => Array.from({ length: rng.int(4) }, () => genJson(rng, depth - 1))],
  [depth > 0 ? 3 : 0, () => genObj(rng, depth - 1)],
])()
const EXP = true
// a text that stops inside the exponent counts: the parser drops it just the same
export const hasExponent = text => /[0-9][eE][+-]?([0-9]|$)/.test(text)
// plain identifiers, so that one key is never a prefix of itself in a confusing way
const KEYS = ['id', 'name', 'value', 'items', 'tags', 'elements', 'num', 'nested', 'ok', 'text', 'ünï', 'a b', 'x"y']
export const genObj = (rng, depth = 2) => {
  const o = {}
  for (let n = rng.int(4); n > 0; n--) o[rng.bool(0.01) ? rng.pick(['n', 'na']) : rng.pick(KEYS)] = genJson(rng, depth)
  return o
}

/** the same value, written the way different models write it */
export const writeJson = (rng, v) => {
  let s = JSON.stringify(v, null, rng.wpick([[5, undefined], [1, 1], [1, '\t'], [1, 2]]))
  if (rng.bool(0.2)) s = s.replace(/[^\x00-\x7F]/g, c => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`)
  if (rng.bool(0.15)) s = s.replaceAll('/', '\\/')
  if (rng.bool(0.15)) s = `${rng.pick([' ', '\n', '\n\n  '])}${s}`
  if (rng.bool(0.15)) s = `${s}${rng.pick([' ', '\n', '\r\n'])}`
  return s
}

/** cut a text at any code point boundary, including inside escapes and literals */
export const cutAnywhere = (rng, s) => {
  const cps = [...s]
  const style = rng.wpick([[3, 'mid'], [2, 'fine'], [1, 'whole'], [1, 'each']])
  if (style === 'whole') return [s]
  const parts = []
  for (let i = 0; i < cps.length;) {
    let k = style === 'each' ? 1 : style === 'fine' ? 1 + rng.int(4) : 1 + rng.int(Math.max(2, cps.length >> 1))
    if ((style === 'each' || style === 'fine') && cps.length > 400) k = 1 + rng.int(Math.ceil(cps.length / 30))
    else if (style === 'each' && cps.length > 90) k = 1 + rng.int(Math.ceil(cps.length / 60))
    parts.push(cps.slice(i, i + k).join(''))
    i += k
  }
  return parts
}

/** p could have been seen on the way to v */
export const partialOf = (p, v) => {
  if (typeof v === 'string') return typeof p === 'string' && v.startsWith(p)
  if (typeof v === 'number') return typeof p === 'number'
  if (v === null || typeof v === 'boolean') return p === v
  if (Array.isArray(v)) return Array.isArray(p) && p.length <= v.length && p.every((x, i) => i < p.length - 1 ? same(x, v[i]) : partialOf(x, v[i]))
  if (p === null || typeof p !== 'object' || Array.isArray(p)) return false
  const kv = Object.keys(v)
  const kp = Object.keys(p).filter(k => p[k] !== undefined) // a key whose value has not started yet
  // keys arrive in the order they are written (integer-like keys are not generated)
  return kp.every((k, i) => k === kv[i] && (i < kp.length - 1 ? same(p[k], v[k]) : partialOf(p[k], v[k])))
}
export const same = (a, b) => JSON.stringify(a) === JSON.stringify(b)

/** how many members of {"elements":[...]} are complete and followed by more text in the prefix */
export const completeElements = (text) => {
  let depth = 0
  let str = false
  let esc = false
  let n = 0
  for (const c of text) {
    if (str) {
      if (esc) esc = false
      else if (c === '\\') esc = true
      else if (c === '"') str = false
      continue
    }
    if (c === '"') str = true
    else if (c === '{' || c === '[') depth++
    else if (c === '}' || c === ']') depth--
    else if (c === ',' && depth === 2) n++
  }
  return n
}

/** some object has a key that begins like an earlier one */
export const hasPrefixKeys = (v) => {
  if (v === null || typeof v !== 'object') return false
  if (!Array.isArray(v)) {
    const ks = Object.keys(v)
    if (ks.some((k, i) => ks.slice(i + 1).some(x => x !== k && x.startsWith(k)))) return true
  }
  return Object.values(v).some(hasPrefixKeys)
}
