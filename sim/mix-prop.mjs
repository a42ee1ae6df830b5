// One property decided over several kinds of scenario: its own and those of other calls,
// of which only the rules that state this property are kept.
import { busyRun } from './conv-prop.mjs'

const uniq = a => [...new Set(a)]

/** subs: [[weight, name, prop, rules | null]]; rules: rule names or prefixes that count (null: all) */
export const mixProps = (own, subs) => {
  const all = { own: [own, null], ...Object.fromEntries(subs.map(([, n, p, r]) => [n, [p, r]])) }
  const table = [[1 - subs.reduce((a, s) => a + s[0], 0), 'own'], ...subs.map(([wt, n]) => [wt, n])]
  return {
    ...own,
    real: uniq([...(own.real ?? []), ...subs.flatMap(s => s[2].real ?? [])]),
    stub: uniq([...(own.stub ?? []), ...subs.flatMap(s => s[2].stub ?? [])]),
    assumptions: uniq([...(own.assumptions ?? []), ...subs.flatMap(s => s[2].assumptions ?? [])]),
    maxSteps: Math.max(own.maxSteps ?? 6000, ...subs.map(s => s[2].maxSteps ?? 6000)),
    gen: (rng, tier) => { const k = rng.wpick(table); return { k, sc: all[k][0].gen(rng, tier) } },
    main: (w, L, s) => all[s.k][0].main(w, L, s.sc),
    judge: (w, L, s, st) => {
      const [p, rules] = all[s.k]
      const vs = p.judge(w, L, s.sc, st) ?? []
      return rules == null ? vs : vs.filter(v => rules.some(r => v.rule === r || v.rule.startsWith(`${r}.`)))
    },
    nontrivial: (w, s, st) => (all[s.k][0].nontrivial ?? busyRun)(w, s.sc, st),
  }
}
