'use strict';
const { agent, bad, runGuest, stats, show, host } = require('../common');
const AREA = { main512: 512, main513: 513, main1000: 1000, main4k: 4096, maindef: 4096, main64k: 65536, main65535: 65535, page512: 512, page4k: 4096, page1000: 1008 };
const ch = (rng) => rng.weighted([[6, () => String.fromCharCode(rng.range(33, 126))], [1, () => ' '], [1, () => String.fromCharCode(rng.range(1, 255))], [1, () => '\\'], [1, () => '"']])();
module.exports = {
  id: 'A01', runs: { quick: 9000, thorough: 240000 }, wall: { quick: 60, thorough: 800 },
  rule: 'A run boots the agent program, linked with one of twelve argument-area and stack options, in a host holding generated arguments (0 to some thousands, empty to tens of kilobytes long, every byte but NUL, sized around the edge of the area), optionally with a failing argument fetch, a closed or failing standard error, or a memory limit. Arguments are compared when main starts and again after heap, stack and static traffic; then the arguments are overwritten and the heap blocks compared. Non-trivial: two arguments or more, or a fetch that had to fail. Distinct by plan.',
  real: ['lib/src/crt.args.c', 'lib/src/crt.argv.c', 'lib/src/crt.void.c', 'lib/src/stdlib.c allocator', 'linker memory layout (w.c)'],
  stub: ['WASI host (in-memory simulator)', 'linear memory growth limit'],
  gen(rng) {
    const variant = rng.weighted([[3, 'main0'], [3, 'main512'], [2, 'main513'], [3, 'main1000'], [3, 'main4k'], [2, 'maindef'], [2, 'main64k'], [1, 'main65535'], [3, 'page512'], [3, 'page1000'], [3, 'page4k'], [1, 'void']]);
    const area = AREA[variant] || rng.pick([512, 4096, 65536, 200000]);
    const args = [];
    const word = (n) => { let s = ''; if (n > 300) { const u = ch(rng) + ch(rng) + ch(rng); while (s.length < n) s += u + (s.length % 7); return s.slice(0, n); } for (let i = 0; i < n; i++) s += ch(rng); return s; };
    const mode = rng.weighted([[1, 'none'], [5, 'few'], [2, 'many'], [5, 'edge'], [1, 'over'], [1, 'one']]);
    if (mode === 'few') for (let i = rng.range(1, 8); i > 0; i--) args.push(word(rng.pick([0, 1, rng.int(12), rng.int(80)])));
    else if (mode === 'one') args.push(word(rng.int(40)));
    else if (mode === 'many') { const n = rng.size(Math.min(6000, area >> 2)) + 1; for (let i = 0; i < n; i++) args.push(rng.chance(0.5) ? '' : word(rng.int(3))); } else if (mode !== 'none') {
      // bytes + pointers close to (or beyond) the area
      const target = mode === 'over' ? area + rng.size(area) + 64 : area + (rng.chance(0.6) ? rng.range(-16, 4) : rng.range(-40, 40));
      const n = rng.range(1, Math.min(40, area >> 4)); let left = target - 4 * (n + 1);
      for (let i = 0; i < n; i++) { const k = i === n - 1 ? Math.max(0, left - 1) : rng.int(Math.max(1, (2 * left / (n - i)) | 0)); args.push(word(k)); left -= k + 1; if (left < 1) left = 1; }
    }
    const faults = [];
    if (rng.chance(0.2)) faults.push({ sc: rng.pick(['args_sizes_get', 'args_get']), kind: 'err', errno: rng.pick([8, 21, 28, 29, 48, 52, 58, 76]), count: 1, after: rng.chance(0.4) });
    if (rng.chance(0.15)) faults.push({ sc: 'fd_write', kind: 'err', errno: rng.pick([8, 29, 64, 51]), count: 1 });
    const ops = [];
    for (let i = rng.range(1, 10); i > 0; i--) ops.push(rng.weighted([[4, () => ({ o: 'alloc', n: rng.size(70000), v: rng.int(256) })], [1, () => ({ o: 'free', i: rng.int(100) })], [2, () => ({ o: 'burn', d: rng.int(20), s: rng.int(256) })], [1, () => ({ o: 'io', v: rng.int(256) })], [1, () => ({ o: 'env', k: 'A' })], [1, () => ({ o: 'fill' })]])());
    return { variant, args, faults, ops, pages: rng.chance(0.3) ? rng.int(4) : 40, std2: rng.weighted([[6, 0], [1, 1]]), env: rng.chance(0.3) ? ['A=' + 'q'.repeat(rng.int(2000))] : [] };
  },
  lists: ['ops', 'args', 'faults', 'env'],
  *simplify(p) {
    for (let i = 0; i < p.args.length && i < 60; i++) if (p.args[i].length) { for (const r of [p.args[i].slice(0, p.args[i].length >> 1), 'x'.repeat(p.args[i].length)]) if (r !== p.args[i]) { const a = p.args.slice(); a[i] = r; yield { ...p, args: a }; } }
    if (p.pages !== 40) yield { ...p, pages: 40 };
    if (p.variant !== 'main512') yield { ...p, variant: 'main512' };
  },
  run(plan, ctx) {
    const w = new host.World({ args: [], env: plan.env, std: { 2: plan.std2 ? { closed: true } : {} } });
    w.args = plan.args.map((a) => Buffer.from(a, 'latin1'));
    w.armed = plan.faults.map((f) => ({ ...f }));
    const n = plan.args.length; const bytes = plan.args.reduce((t, a) => t + a.length + 1, 0);
    const raw = bytes + 4 * (n + 1);
    let failed = false;
    const res = runGuest(agent(ctx, plan.variant, plan.pages), w, function* (g) {
      const fetchFault = Object.keys(w.fired).some((k) => k.startsWith('args_'));
      const badErr = plan.std2 || Object.keys(w.fired).some((k) => k.startsWith('fd_write'));
      const said = badErr ? 1 : w.sinkBytes(2).length;
      w.armed = [];
      const void_ = plan.variant === 'void';
      const argc = g.argc; const base = g.argv;
      let fallback = false; let regions = [];
      const check = (when) => {
        const m = g.mem; const want = fallback ? [''] : plan.args; const c = want.length;
        if (g.argc !== c && when === 'at start') bad('wrong-argc', 'main got argc ' + g.argc + ', the host passed ' + c);
        if (base + 4 * (c + 1) > m.length) bad('bad-argv', 'argv points outside memory');
        const rg = fallback ? [] : [[base, base + 4 * (c + 1)]];
        for (let i = 0; i < c; i++) {
          const q = m.readUInt32LE(base + 4 * i);
          const l = want[i].length;
          if (q === 0 || q + l + 1 > m.length) bad('bad-argv', 'argv[' + i + '] is ' + q + ' ' + when);
          const got = m.toString('latin1', q, q + l);
          if (got !== want[i] || m[q + l] !== 0) bad('wrong-argument', 'argv[' + i + '] is ' + show(got) + (m[q + l] ? ' (not terminated)' : '') + ' ' + when + ', the host passed ' + show(want[i]));
          if (!fallback) rg.push([q, q + l + 1]);
        }
        if (m.readUInt32LE(base + 4 * c) !== 0) bad('no-null', 'argv[argc] is not a null pointer ' + when);
        regions = rg;
      };
      if (!void_) {
        const room = AREA[plan.variant];
        const fits = n > 0 && (room !== undefined ? raw + 15 <= room : plan.pages * 65536 >= 2 * bytes + 8 * n + 200000);
        const cannot = n === 0 || fetchFault || (room === undefined ? !fits : !fits);
        fallback = argc === 1 && cannot && g.mem.readUInt32LE(base) !== 0 && g.mem[g.mem.readUInt32LE(base)] === 0 && !(n === 1 && plan.args[0] === '' && !fetchFault && said === 0);
        if (fetchFault && !fallback) bad('failure-ignored', 'the host failed to hand over the arguments and main runs with argc ' + argc);
        if (fallback) {
          failed = true;
          if (!said) bad('failure-not-announced', 'the arguments could not be obtained, main got one empty argument, and nothing was written to standard error');
        } else if (said && !badErr) bad('false-alarm', 'the arguments were obtained and yet ' + show(w.sinkBytes(2)) + ' was written to standard error');
        check('at start');
        for (let i = 0; i < regions.length; i++) {
          if (regions[i][0] < g.iobase + 262144 && regions[i][1] > g.iobase) bad('overlap', 'an argument overlaps static data');
          if (regions[i][0] < g.recp + 72 && regions[i][1] > g.recp) bad('overlap', 'an argument overlaps static data');
        }
        const s = regions.slice().sort((a, b) => a[0] - b[0]);
        for (let i = 1; i < s.length; i++) if (s[i][0] < s[i - 1][1]) bad('overlap', 'arguments overlap each other');
      }
      const blocks = [];
      const clash = (p, k) => { for (const [a, b] of regions) if (a < p + k && b > p) bad('overlap', 'a heap block at ' + p + ' overlaps an argument'); };
      for (const op of plan.ops) {
        if (op.o === 'alloc') { const r = yield { op: 50, a: [op.n] }; if (r.ru) { clash(r.ru, op.n); g.mem.fill(op.v, r.ru, r.ru + op.n); blocks.push([r.ru, op.n, op.v]); } } else if (op.o === 'fill') {
          for (const sz of [30000, 3000, 300, 24]) for (let k = 0; k < 60; k++) { const r = yield { op: 50, a: [sz] }; if (!r.ru) break; clash(r.ru, sz); g.mem.fill(170, r.ru, r.ru + sz); blocks.push([r.ru, sz, 170]); }
        } else if (op.o === 'free') { if (blocks.length) { const b = blocks.splice(op.i % blocks.length, 1)[0]; yield { op: 53, a: [b[0]] }; } } else if (op.o === 'burn') yield { op: 54, a: [op.d, op.s] };
        else if (op.o === 'io') g.mem.fill(op.v, g.iobase, g.iobase + 262144);
        else if (op.o === 'env') { const r = yield { op: 140, a: [g.str(op.k)] }; const e = plan.env.length ? plan.env[0].slice(2) : null; if (r.ru && g.cstr(r.ru) !== e) bad('wrong-value', 'getenv disturbed'); }
        if (!void_) check('after ' + op.o);
      }
      if (!void_ && !fallback && n > 0) { // argument strings may be modified
        for (const [a, b] of regions.slice(1)) g.mem.fill(0xee, a, b);
        for (const b of blocks) for (let k = 0; k < b[1]; k++) if (g.mem[b[0] + k] !== b[2]) bad('overlap', 'overwriting the arguments changed a heap block');
      }
      const r = yield { op: 50, a: [10] };
      if (r.ru) yield { op: 53, a: [r.ru] };
      return 7;
    }, (end) => {
      if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + (end.started ? ' at op ' + JSON.stringify(end.lastOp) : ' before main'));
      if (end.code !== 7) bad('exit', 'the program exited with ' + end.code + ' instead of 7');
    });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), n > 1 || failed, { probes: { ['variant-' + plan.variant]: 1, fallback: failed ? 1 : 0, zero: n === 0 ? 1 : 0 } }) };
  },
};
