'use strict';
const { bad } = require('../common');
const { genPut, genMode } = require('../wstream');
const S01 = require('./S01');
const { runWriter } = S01;
const W = ['one', 'two words', '', '42', 'x', 'a longer line of input for the program', '-7 8', 'abc'];
module.exports = {
  id: 'S07', runs: { quick: 48000, thorough: 300000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run is an interactive session: standard output a terminal, pipe or file, standard input a terminal fed line by line, random setvbuf choices, output through every call mixed with getc/fgets/fread/scanf on stdin. After each call the bytes the host holds are compared with what the stream mode promises, and at the moment a read would block all default-mode terminal output, and that of streams made line-buffered, must be there. Non-trivial: a promise about a line, an unbuffered call or a blocking read was checked. Distinct by plan.',
  real: S01.real, stub: S01.stub,
  gen(rng) {
    const tty = rng.chance(0.75);
    let inp = ''; for (let i = rng.int(12); i > 0; i--) inp += rng.pick(W) + '\n'; if (rng.chance(0.2)) inp += 'unfinished';
    const cfg = { out: tty ? 'tty' : rng.pick(['pipe', 'file']), err: rng.pick(['tty', 'tty', 'pipe', 'file']), inp: { kind: rng.chance(0.85) ? 'tty' : 'pipe', data: inp }, variant: rng.pick(['main0', 'main0', 'void', 'main4k']), pages: rng.chance(0.1) ? rng.int(2) : 40 };
    const ops = []; const fresh = new Set([1, 2]);
    if (rng.chance(0.25)) { ops.push({ ...genMode(rng, 1) }); fresh.delete(1); }
    if (rng.chance(0.1)) ops.push({ o: 'imode', m: rng.pick(['lbf', 'nbf', 'fbf']), size: rng.pick([0, 9, 64, 1024]) });
    const file = rng.chance(0.5); if (file) { ops.push({ o: 'open', s: 3, p: 'log', m: 'w' }); ops.push(genMode(rng, 3)); }
    if (cfg.pages < 3 && rng.chance(0.5)) ops.push({ o: 'eat' });
    for (let i = rng.weighted([[2, rng.range(2, 10)], [3, rng.range(8, 40)]]); i > 0; i--) {
      const r = rng.int(10);
      if (r < 3) ops.push({ o: 'rd', via: rng.pick(['getc', 'fgetc', 'getchar', 'fgets', 'fgets', 'fread', 'scanf', 'scans', 'unget']), n: rng.pick([1, 2, 5, 30, 200]) });
      else if (r === 3 && fresh.size) { const s = rng.pick([...fresh]); fresh.delete(s); if (rng.chance(0.4)) ops.push(genMode(rng, s)); } else {
        const s = rng.weighted([[6, 1], [2, 2], [file ? 2 : 0, 3]]); fresh.delete(s);
        const op = genPut(rng, s, { small: rng.chance(0.8), nlp: 0.6, perror: true }); ops.push(op);
        if (rng.chance(0.08)) ops.push({ o: 'flush', s: rng.chance(0.3) ? -1 : s });
      }
    }
    return { cfg, existing: [], ops, end: rng.pick(['return', 'exit']), code: rng.int(256) };
  },
  simplify: S01.simplify,
  run(plan, ctx) {
    let E0 = null, chk = 0, inFp = 0, imode = 'default';
    return runWriter(plan, ctx, {
      interactive: true, ttyOut: plan.cfg.out === 'tty',
      *begin(g, e) {
        E0 = e; inFp = (yield { op: 2, a: [0] }).ru; this.buf = g.persist(1024);
        e.w.onBlock = () => {
          if (imode === 'fbf' || (plan.cfg.inp.kind !== 'tty' && imode === 'default')) return;
          for (const [k, st] of e.streams) {
            const own = st.mode === 'default' && k === 1 && plan.cfg.out === 'tty'; if (!own && st.mode !== 'lbf') continue; chk++;
            if (st.cursor !== st.wlen) bad('prompt-held-back', 'a read of ' + plan.cfg.inp.kind + ' input blocks while ' + (st.wlen - st.cursor) + ' of ' + st.wlen + ' bytes written to the ' + (own ? 'terminal' : 'line-buffered stream ' + k) + ' are still held back');
          }
        };
      },
      op(op, e, g) {
        if (op.o === 'imode') { if (this.reads) return null; return (function* () { imode = op.m; const r = yield { op: 15, a: [inFp, 0, { fbf: 0, lbf: 0o100, nbf: 4 }[op.m], op.size] }; if (r.r !== 0) bad('setvbuf-failed', 'setvbuf(stdin) returned ' + r.r); })(); }
        if (op.o !== 'rd') return null;
        this.reads = true; const b = this.buf;
        return (function* () {
          switch (op.via) {
            case 'getc': yield { op: 30, a: [inFp] }; break;
            case 'fgetc': yield { op: 31, a: [inFp] }; break;
            case 'getchar': yield { op: 38, a: [] }; break;
            case 'fgets': yield { op: 32, a: [inFp, b, op.n] }; break;
            case 'fread': yield { op: 33, a: [inFp, b, 1, op.n] }; break;
            case 'scanf': yield { op: 35, a: [inFp, b] }; break;
            case 'scans': yield { op: 36, a: [inFp, b] }; break;
            case 'unget': { const r = yield { op: 30, a: [inFp] }; if (r.r !== -1) yield { op: 34, a: [inFp, r.r] }; break; }
          }
        })();
      },
      nontrivial: (e) => chk + (e.probes.line_checked || 0) + (e.probes.full_checked || 0) + (e.probes.nbf_checked || 0) > 0,
    });
  },
};
