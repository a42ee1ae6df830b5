// One integer decides everything: every random draw of a run comes from a Prng derived from its seed.
export const mix = (...ns) => {
  let h = 0x9E3779B9
  for (const n of ns) {
    h = Math.imul(h ^ (n >>> 0), 0x85EBCA6B)
    h ^= h >>> 13
    h = Math.imul(h, 0xC2B2AE35)
    h ^= h >>> 16
  }
  return h >>> 0
}

export const hashStr = (s) => {
  let h = 0x811C9DC5
  for (let i = 0; i < s.length; i++)
    h = Math.imul(h ^ s.charCodeAt(i), 0x01000193)
  return h >>> 0
}

export class Prng {
  constructor(seed) {
    let a = seed >>> 0
    const next = () => { // splitmix32 to initialise
      a = (a + 0x9E3779B9) >>> 0
      let t = a ^ (a >>> 16)
      t = Math.imul(t, 0x21F0AAAD)
      t ^= t >>> 15
      t = Math.imul(t, 0x735A2D97)
      return (t ^ (t >>> 15)) >>> 0
    }
    this.s = [next(), next(), next(), next() || 1]
  }

  raw() { // xoshiro128**
    const s = this.s
    const x = Math.imul(s[1], 5)
    const r = Math.imul((x << 7) | (x >>> 25), 9) >>> 0
    const t = s[1] << 9
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]
    s[2] ^= t
    s[3] = (s[3] << 11) | (s[3] >>> 21)
    return r
  }

  /**
   * A recorded draw, for the minimiser: values come from the tape while it lasts, then each draw
   * takes its simplest value, so that every edit of a tape still generates a valid scenario.
   */
  static taped(seed, tape) {
    const r = new Prng(seed)
    r.tape = tape
    r.drawn = []
    r.simplest = []
    return r
  }

  draw(simplest) {
    if (this.drawn === undefined) return this.raw()
    const n = this.drawn.length
    const x = this.tape === null ? this.raw() : n < this.tape.length ? this.tape[n] : simplest
    this.drawn.push(x)
    this.simplest.push(simplest)
    return x
  }

  u32() { return this.draw(0) }
  float(simplest = 0) { return this.draw(simplest) / 4294967296 }
  /** integer in [0, n) */
  int(n) { return n <= 1 ? 0 : Math.floor(this.float() * n) }
  /** integer in [a, b] */
  range(a, b) { return a + this.int(b - a + 1) }
  bool(p = 0.5) { return this.float(0xFFFFFFFF) < p }
  pick(arr) { return arr[this.int(arr.length)] }
  /** weighted pick of [[weight, value], ...] */
  wpick(pairs) {
    let total = 0
    for (const [w] of pairs) total += w
    let x = this.float() * total
    for (const [w, v] of pairs) {
      if (x < w) return v
      x -= w
    }
    return pairs[pairs.length - 1][1]
  }

  shuffle(arr) {
    const a = [...arr]
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [a[i], a[j]] = [a[j], a[i]]
    }
    return a
  }

  fork(tag) { return new Prng(mix(this.draw(0), typeof tag === 'string' ? hashStr(tag) : tag | 0)) }
}
