// A scripted producer: a ReadableStream whose next item, end or failure is a scheduler action.
export const source = (w, name, items, { end = 'close', endError, push = false, hwm = 0 } = {}) => {
  const s = { delivered: 0, state: 'open', items }
  let ctrl; let action = null; let wake = null
  const finish = (state) => { s.state = state; w.unpost(action); action = null; const f = wake; wake = null; f?.() }
  const arm = () => {
    if (action || s.state !== 'open') return
    if (s.delivered < items.length) {
      action = w.post('source', `${name}.${s.delivered}`, () => {
        action = null
        const v = items[s.delivered++]
        w.log('source', { name, v })
        ctrl.enqueue(v)
        if (push) arm()
        const f = wake; wake = null; f?.()
      })
    }
    else if (end === 'hang') { if (!s.hung) { s.hung = true; w.fault('source.stall') } }
    else {
      action = w.post('source', `${name} ${end}`, () => {
        action = null
        w.log(`source.${end}`, { name })
        if (end === 'error') { w.fault('source.error'); ctrl.error(endError); finish('errored') }
        else { ctrl.close(); finish('closed') }
      })
    }
  }
  s.stream = new ReadableStream({
    start: (c) => { ctrl = c; if (push) arm() },
    pull: () => { if (push) return; arm(); return new Promise((r) => { wake = r }) },
    cancel: (reason) => { w.log('source.cancel', { name }); s.cancelReason = reason; finish('cancelled') },
  }, { highWaterMark: hwm })
  return s
}

/** cut a string at arbitrary UTF-16 boundaries */
export const cutText = (rng, s) => {
  const style = rng.wpick([[3, 'mid'], [3, 'fine'], [1, 'whole'], [2, 'each']])
  if (style === 'whole') return s === '' ? [] : [s]
  const out = []
  for (let i = 0; i < s.length;) {
    const n = style === 'each' ? 1 + Math.floor(s.length / 300) : style === 'fine' ? 1 + rng.int(4 + Math.floor(s.length / 100)) : 1 + rng.int(Math.max(2, s.length >> 1))
    out.push(s.slice(i, i + n)); i += n
  }
  if (rng.bool(0.2)) out.splice(rng.int(out.length + 1), 0, '')
  return out
}
export const genCons = rng => rng.wpick([[5, { mode: 'read' }], [3, { mode: 'slow', late: rng.bool(0.4) }], [1, { mode: 'cancel', after: rng.int(4), deferred: rng.bool() }], [1, { mode: 'ignore' }]])
