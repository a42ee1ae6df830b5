// The schema libraries installed beside xsschema, and how a schema of each is written.
import { createRequire } from 'node:module'
import { join } from 'node:path'
import { REPO } from './build.mjs'

const req = createRequire(join(REPO, 'packages-top/xsschema/package.json'))
const tryReq = (n) => { try { return req(n) } catch { return undefined } }

/** the packages the converters load, by the name they are loaded under */
export const MODULES = Object.fromEntries(['effect', 'sury', '@valibot/to-json-schema', 'zod/v4/core', 'zod-to-json-schema'].map(n => [n, tryReq(n)]))
const Z4 = tryReq('zod/v4')
const ZM = tryReq('zod/v4-mini')
const Z3 = tryReq('zod/v3')
const V = tryReq('valibot')
const A = tryReq('arktype')
const E = MODULES.effect
const S = MODULES.sury

const zod = z => ({
  string: () => z.string(),
  number: () => z.number(),
  boolean: () => z.boolean(),
  enum: v => z.enum(v),
  union: () => z.union([z.string(), z.number()]),
  array: x => z.array(x),
  object: ps => z.object(Object.fromEntries(ps.map(([n, s, opt]) => [n, opt ? z.optional(s) : s]))),
})
const WRITERS = {
  zod4: Z4 && zod(Z4),
  zodmini: ZM && zod(ZM),
  zod3: Z3 && { ...zod(Z3), object: ps => Z3.object(Object.fromEntries(ps.map(([n, s, opt]) => [n, opt ? s.optional() : s]))) },
  valibot: V && {
    string: () => V.string(),
    number: () => V.number(),
    boolean: () => V.boolean(),
    enum: v => V.picklist(v),
    union: () => V.union([V.string(), V.number()]),
    array: x => V.array(x),
    object: ps => V.object(Object.fromEntries(ps.map(([n, s, opt]) => [n, opt ? V.optional(s) : s]))),
  },
  arktype: A && {
    string: () => A.type('string'),
    number: () => A.type('number'),
    boolean: () => A.type('boolean'),
    enum: v => A.type.enumerated(...v),
    union: () => A.type('string | number'),
    array: x => x.array(),
    object: ps => A.type(Object.fromEntries(ps.map(([n, s, opt]) => [opt ? `${n}?` : n, s]))),
  },
  effect: E && {
    string: () => E.Schema.String,
    number: () => E.Schema.Number,
    boolean: () => E.Schema.Boolean,
    enum: v => E.Schema.Literal(...v),
    union: () => E.Schema.Union(E.Schema.String, E.Schema.Number),
    array: x => E.Schema.Array(x),
    object: ps => E.Schema.Struct(Object.fromEntries(ps.map(([n, s, opt]) => [n, opt ? E.Schema.optional(s) : s]))),
    top: s => E.Schema.standardSchemaV1(s),
  },
  sury: S && {
    string: () => S.string,
    number: () => S.number,
    boolean: () => S.boolean,
    enum: v => S.union(v),
    union: () => S.union([S.string, S.number]),
    array: x => S.array(x),
    object: ps => S.schema(Object.fromEntries(ps.map(([n, s, opt]) => [n, opt ? S.optional(s) : s]))),
  },
}
/** as an earlier release of the library has it: without a JSON form of its own */
const older = (s) => {
  const { version, vendor, validate } = s['~standard']
  return Object.create(s, { '~standard': { value: { version, vendor, validate } } })
}
if (WRITERS.zod4) WRITERS['zod4-old'] = { ...WRITERS.zod4, top: older }
if (WRITERS.arktype) WRITERS['arktype-old'] = { ...WRITERS.arktype, top: older }
export const LIBRARIES = Object.keys(WRITERS).filter(k => WRITERS[k])

const write = (W, s) => s.k === 'enum' ? W.enum(s.values) : s.k === 'array' ? W.array(write(W, s.of)) : s.k === 'object' ? W.object(s.props.map(p => [p.name, write(W, p.s), p.opt])) : W[s.k]()
export const schemaIn = (lib, shape) => {
  const W = WRITERS[lib]
  const s = write(W, shape)
  return W.top ? W.top(s) : s
}

/** the package a conversion has to load, and the JSON Schema the library itself gives */
export const CONVERT = {
  'zod4': [null, s => s['~standard'].jsonSchema.input({ target: 'draft-07' })],
  'arktype': [null, s => s['~standard'].jsonSchema.input({ target: 'draft-07' })],
  'arktype-old': [null, s => s.toJsonSchema()],
  'zodmini': ['zod/v4/core', s => MODULES['zod/v4/core'].toJSONSchema(s, { target: 'draft-7' })],
  'zod4-old': ['zod/v4/core', s => MODULES['zod/v4/core'].toJSONSchema(s, { target: 'draft-7' })],
  'zod3': ['zod-to-json-schema', s => MODULES['zod-to-json-schema'].zodToJsonSchema(s)],
  'valibot': ['@valibot/to-json-schema', s => MODULES['@valibot/to-json-schema'].toJsonSchema(s)],
  'effect': ['effect', s => E.JSONSchema.make(s)],
  'sury': ['sury', s => S.toJSONSchema(s)],
}
