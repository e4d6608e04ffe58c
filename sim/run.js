#!/usr/bin/env node
'use strict';
// Check driver: seeded search over simulated runs of one property.
//   node run.js PROP                     run the check (VERIF_SEED, VERIF_TIER)
//   node run.js PROP --replay FILE       replay a violation file
//   node run.js PROP --seed-index I      run one generated run and print it
//   node run.js PROP --hashes OUT        also write every run's event-log hash
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const { Rng, hash32 } = require('./rng');
const build = require('./build');

const ROOT = build.ROOT, OUT = path.join(ROOT, 'out');
const SEED = process.env.VERIF_SEED || '1';
const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const mono = () => Number(process.hrtime.bigint() / 1000000n); // not the wall clock, which may jump
const loadProp = (id) => require('./props/' + id + '.js');

function seedOf(id, seed, i) { return id + '/' + seed + '/' + i; }
function makePlan(prop, seed, i, ctx) {
  const rng = new Rng(seedOf(prop.id, seed, i));
  const plan = prop.gen(rng, i, ctx);
  plan.seed = rng.seed;
  return plan;
}
function execPlan(prop, plan, ctx) {
  // deep copy: a run never changes its plan
  return prop.run(JSON.parse(JSON.stringify(plan)), ctx);
}

// ---------------------------------------------------------------- worker
if (!isMainThread) {
  const { id, seed, dir, ctl, times, slot, max, hashes } = workerData;
  const prop = loadProp(id);
  const c = new Int32Array(ctl), t = new Float64Array(times);
  const ctx = { dir, tier: workerData.tier, scratch: workerData.scratch, slot };
  if (prop.setup) prop.setup(ctx);
  const known = loadKnown(id);
  const agg = { known: 0, runs: 0, nontrivial: 0, faults: {}, probes: {}, calls: 0, simns: 0, ops: 0, samples: [] };
  const sigs = new Set(); const hl = []; const states = new Set();
  for (;;) {
    const i = Atomics.add(c, 0, 1);
    if (i >= max || i > Atomics.load(c, 1) || Atomics.load(c, 2)) break;
    Atomics.store(c, 8 + slot, i); t[slot] = mono();
    let plan, r;
    try { plan = makePlan(prop, seed, i, ctx); r = execPlan(prop, plan, ctx); } catch (e) {
      parentPort.postMessage({ error: 'run ' + i + ' (' + seedOf(id, seed, i) + '): ' + (e && e.stack || e) }); Atomics.store(c, 2, 1); break;
    }
    t[slot] = 0;
    const isKnown = r.violation && known.some((k) => k.cls === r.violation.cls && (k.key === undefined || k.key === r.violation.key));
    if (r.violation && isKnown) {
      if (agg.known < 3) { agg.known++; parentPort.postMessage({ violation: { i, cls: r.violation.cls, msg: r.violation.msg, key: r.violation.key, hash: r.hash } }); }
    } else if (r.violation) {
      for (;;) { const cur = Atomics.load(c, 1); if (i >= cur || Atomics.compareExchange(c, 1, cur, i) === cur) break; }
      parentPort.postMessage({ violation: { i, cls: r.violation.cls, msg: r.violation.msg, key: r.violation.key, hash: r.hash } });
    }
    agg.runs++; const s = r.stats || {};
    for (const k in s.faults || {}) agg.faults[k] = (agg.faults[k] || 0) + s.faults[k];
    for (const k in s.probes || {}) agg.probes[k] = (agg.probes[k] || 0) + s.probes[k];
    agg.calls += s.calls || 0; agg.simns += s.simns || 0; agg.ops += s.ops || 0;
    if (s.nontrivial) { agg.nontrivial++; sigs.add(hash32(String(s.sig)) * 1048576 + (hash32(String(s.sig), 77) & 0xfffff)); }
    for (const x of s.states || []) states.add(x);
    if (hashes) hl.push([i, r.hash, r.violation ? r.violation.cls : '']);
    if (agg.samples.length < 2 && s.nontrivial) agg.samples.push({ seed: plan.seed, plan: trimSample(plan), hash: r.hash, trace: (r.trace || []).slice(-6) });
  }
  parentPort.postMessage({ done: true, agg, sigs: [...sigs], states: [...states], hl });
}
function trimSample(plan) {
  const s = JSON.stringify(plan);
  if (s.length < 3000) return JSON.parse(s);
  const p = JSON.parse(s);
  if (Array.isArray(p.ops)) { p.ops_total = p.ops.length; p.ops = p.ops.slice(0, 12); }
  const q = JSON.stringify(p);
  return q.length < 6000 ? p : q.slice(0, 3000) + '...';
}

// ---------------------------------------------------------------- minimiser
function minimise(prop, plan, cls, key, ctx, budgetMs) {
  const t0 = mono(); let tries = 0;
  const same = (p) => {
    tries++;
    let r; try { r = execPlan(prop, p, ctx); } catch (e) { return false; }
    return !!(r.violation && r.violation.cls === cls && (key === undefined || r.violation.key === key));
  };
  const late = () => mono() - t0 > budgetMs;
  let cur = plan;
  const listKeys = prop.lists || ['ops'];
  for (let round = 0; round < 6 && !late(); round++) {
    const before = JSON.stringify(cur).length;
    for (const lk of listKeys) {
      if (!Array.isArray(cur[lk])) continue;
      let n = 2;
      while (cur[lk].length >= 1 && !late()) {
        const len = cur[lk].length, chunk = Math.ceil(len / n); let hit = false;
        for (let s = 0; s < len && !late(); s += chunk) {
          const cand = { ...cur, [lk]: cur[lk].slice(0, s).concat(cur[lk].slice(s + chunk)) };
          if (prop.fixup) prop.fixup(cand);
          if (same(cand)) { cur = cand; hit = true; n = Math.max(2, n - 1); break; }
        }
        if (!hit) { if (chunk === 1) break; n = Math.min(len, n * 2); }
      }
    }
    // drop faults, then module-specific simplifications
    for (const lk of listKeys) {
      if (!Array.isArray(cur[lk])) continue;
      for (let i = 0; i < cur[lk].length && !late(); i++) {
        const o = cur[lk][i];
        if (o && Array.isArray(o.f)) for (let k = o.f.length - 1; k >= 0 && !late(); k--) {
          const ops = cur[lk].slice(); const f = ops[i].f.slice(); f.splice(k, 1); ops[i] = { ...ops[i], f }; if (!f.length) delete ops[i].f;
          const cand = { ...cur, [lk]: ops }; if (same(cand)) cur = cand;
        }
      }
    }
    if (prop.simplify) {
      let again = true;
      while (again && !late()) {
        again = false;
        for (const cand of prop.simplify(JSON.parse(JSON.stringify(cur)))) {
          if (late()) break;
          if (JSON.stringify(cand).length > JSON.stringify(cur).length) continue;
          if (JSON.stringify(cand) === JSON.stringify(cur)) continue;
          if (same(cand)) { cur = cand; again = true; break; }
        }
      }
    }
    if (JSON.stringify(cur).length === before) break;
  }
  return { plan: cur, tries };
}

// ---------------------------------------------------------------- main
async function main() {
  const id = process.argv[2];
  const opt = (n) => { const k = process.argv.indexOf(n); return k < 0 ? undefined : process.argv[k + 1]; };
  const prop = loadProp(id);
  const t0 = mono();
  const dir = await build.ensure(prop.builds || ['base']);
  fs.mkdirSync(OUT, { recursive: true });
  const scratch = fs.mkdtempSync(path.join(OUT, 'scratch-' + id + '-'));
  const cleanup = () => { try { fs.rmSync(scratch, { recursive: true, force: true }); } catch (e) { /* ignore */ } };
  process.on('exit', cleanup);
  for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(130));
  const ctx = { dir, tier: TIER, scratch, slot: 99 };

  if (opt('--exec') !== undefined) { // run one plan file, print JSON
    if (prop.setup) prop.setup(ctx);
    const plan = JSON.parse(fs.readFileSync(opt('--exec'))).plan;
    const r = execPlan(prop, plan, ctx);
    console.log(JSON.stringify({ cls: r.violation ? r.violation.cls : null, key: r.violation ? r.violation.key : undefined, msg: r.violation ? r.violation.msg : null, hash: r.hash }));
    return 0;
  }
  if (opt('--minimise') !== undefined) {
    if (prop.setup) prop.setup(ctx);
    const d = JSON.parse(fs.readFileSync(opt('--minimise')));
    const m = minimise(prop, d.plan, d.cls, d.key, ctx, +(opt('--budget') || 20000));
    const r = execPlan(prop, m.plan, ctx);
    fs.writeFileSync(opt('--minimise'), JSON.stringify({ ...d, plan: m.plan, tries: m.tries, cls: r.violation ? r.violation.cls : null, key: r.violation ? r.violation.key : undefined, msg: r.violation ? r.violation.msg : null, hash: r.hash, trace: (r.trace || []).slice(-200) }, null, 1));
    return 0;
  }
  if (opt('--seed-index') !== undefined) {
    if (prop.setup) prop.setup(ctx);
    const plan = makePlan(prop, SEED, +opt('--seed-index'), ctx);
    const r = execPlan(prop, plan, ctx);
    console.log(JSON.stringify(plan, null, process.argv.includes('--pretty') ? 1 : 0));
    console.log((r.trace || []).join('\n'));
    console.log(JSON.stringify({ violation: r.violation, hash: r.hash, stats: r.stats }));
    return r.violation ? 1 : 0;
  }
  if (opt('--replay') !== undefined) {
    const d = JSON.parse(fs.readFileSync(opt('--replay')));
    if (d.cls === 'hang') {
      const k = execChild(id, opt('--replay'), 60000);
      if (k.hang) { console.log('replayed: hang'); console.log('VIOLATION property=' + id + ' replay=' + opt('--replay')); return 1; }
      console.log('did not hang'); return 0;
    }
    if (prop.setup) prop.setup(ctx);
    const r = execPlan(prop, d.plan, ctx);
    if (process.argv.includes('-v')) console.log((r.trace || []).join('\n'));
    if (!r.violation) { console.log('replay: property held (recorded: ' + d.cls + ')'); return 0; }
    console.log('replay: ' + r.violation.cls + ': ' + r.violation.msg);
    console.log('event log hash ' + r.hash + (r.hash === d.hash ? ' (identical)' : ' (recorded ' + d.hash + ')'));
    console.log('VIOLATION property=' + id + ' replay=' + opt('--replay'));
    return 1;
  }

  const max = +(opt('--count') || prop.runs[TIER]);
  const wall = (+(opt('--wall') || 0) || prop.wall[TIER]) * 1000;
  const nw = +(opt('--workers') || 8);
  const known = loadKnown(id);
  const ctl = new SharedArrayBuffer(4 * (8 + nw)), times = new SharedArrayBuffer(8 * nw);
  const c = new Int32Array(ctl), tm = new Float64Array(times);
  c[1] = 0x7fffffff;
  const viols = []; let err = null; const aggs = []; const sigs = new Set(); const states = new Set(); let hl = []; let hang = null, hangs = 0, stalls = 0;
  console.log('seed ' + SEED + ' tier ' + TIER + ' runs<=' + max + ' workers ' + nw);
  const start = mono();
  await new Promise((res) => {
    let live = nw;
    const ws = [];
    const fin = () => { if (--live === 0) { clearInterval(iv); res(); } };
    for (let k = 0; k < nw; k++) {
      const w = new Worker(__filename, { workerData: { id, seed: SEED, dir, ctl, times, slot: k, max, tier: TIER, scratch, hashes: !!opt('--hashes') } });
      ws.push(w); w.alive = true;
      w.on('message', (m) => {
        if (m.error) { err = err || m.error; }
        if (m.violation) viols.push(m.violation);
        if (m.done) { aggs.push(m.agg); for (const s of m.sigs) sigs.add(s); for (const s of m.states) states.add(s); hl = hl.concat(m.hl); }
      });
      w.on('error', (e) => { err = err || ('worker: ' + (e && e.stack || e)); Atomics.store(c, 2, 1); });
      w.on('exit', () => { w.alive = false; fin(); });
    }
    const iv = setInterval(() => {
      const now = mono();
      if (now - start > wall) Atomics.store(c, 2, 1);
      for (let k = 0; k < nw; k++) if (ws[k].alive && tm[k] && now - tm[k] > (prop.hangMs || 20000)) {
        const i = Atomics.load(c, 8 + k); if (hang === null || i < hang) hang = i;
        if (++hangs > 1) { const cur = Atomics.load(c, 1); if (hang < cur) Atomics.store(c, 1, hang); } // not a stalled machine: later runs are of no interest
        ws[k].terminate(); tm[k] = 0;
      }
    }, 250);
  });
  const searchMs = mono() - start;
  if (err) { console.error('ERROR: ' + err); return 3; }
  if (opt('--hashes')) fs.writeFileSync(opt('--hashes'), hl.sort((a, b) => a[0] - b[0]).map((x) => x.join(' ')).join('\n') + '\n');
  viols.sort((a, b) => a.i - b.i);
  // determinism spot check on this very build
  if (prop.setup) prop.setup(ctx);
  let recheck = 0;
  if (hang === null) for (let i = 0; i < Math.min(prop.recheck || 6, max) && !(viols.length && viols[0].i <= i); i++) {
    const p = makePlan(prop, SEED, i, ctx); const a = execPlan(prop, p, ctx), b = execPlan(prop, p, ctx); recheck++;
    if (a.hash !== b.hash) { console.error('ERROR: run ' + i + ' is not deterministic (' + a.hash + ' ' + b.hash + ')'); return 3; }
  }
  let exit = 0, reported = null; const knownHit = new Set();
  const cands = viols.slice(); if (hang !== null && !cands.some((v) => v.i <= hang)) {
    // is it the code that hangs, or was the machine stalled?
    const plan = makePlan(prop, SEED, hang, ctx); const file = path.join(OUT, id + '-' + SEED + '-' + hang + '.json'); fs.writeFileSync(file, JSON.stringify({ property: id, seed: plan.seed, cls: 'hang', plan }, null, 1));
    const k = execChild(id, file, Math.max(60000, prop.hangMs || 0));
    if (k.hang) cands.unshift({ i: hang, cls: 'hang' }); else { fs.rmSync(file, { force: true }); if (k.cls) cands.unshift({ i: hang, cls: k.cls, msg: k.msg, key: k.key, hash: k.hash }); else { stalls = hangs; console.log('note: ' + hangs + ' worker(s) stalled; run ' + hang + ' ends normally when repeated'); } }
  }
  for (const v of cands) {
    const kf = known.find((k) => k.cls === v.cls && (k.key === undefined || k.key === v.key));
    if (kf) { if (!knownHit.has(kf)) { knownHit.add(kf); console.log('KNOWN-FINDING: property=' + id + ' ' + kf.what); } continue; }
    reported = v; break;
  }
  let evNote = {};
  if (reported) {
    const plan = makePlan(prop, SEED, reported.i, ctx);
    const file = path.join(OUT, id + '-' + SEED + '-' + reported.i + '.json');
    const write = (o) => fs.writeFileSync(file, JSON.stringify(o, null, 1));
    if (reported.cls === 'hang') {
      write({ property: id, seed: plan.seed, cls: 'hang', msg: 'a run did not end within its time limit', plan });
      const small = minimiseHang(id, prop, plan, file, write);
      write({ property: id, seed: plan.seed, cls: 'hang', msg: 'a run did not end within its time limit', plan: small });
    } else {
      write({ property: id, seed: plan.seed, cls: reported.cls, key: reported.key, msg: reported.msg, hash: reported.hash, plan });
      const a = execChild(id, file, 120000);
      if (a.cls !== reported.cls || a.hash !== reported.hash) { console.error('ERROR: violation of run ' + reported.i + ' does not replay: ' + JSON.stringify(a) + ' vs ' + JSON.stringify(reported)); return 3; }
      const mini = file.replace(/\.json$/, '.min.json'); fs.copyFileSync(file, mini);
      const env = { ...process.env };
      const r = cp.spawnSync(process.execPath, [__filename, id, '--minimise', mini, '--budget', String(prop.minMs || 20000)], { env, timeout: 180000, killSignal: 'SIGKILL' });
      let d = null; try { d = JSON.parse(fs.readFileSync(mini)); } catch (e) { d = null; }
      if (r.status === 0 && d && d.cls === reported.cls) {
        const b = execChild(id, mini, 120000);
        if (b.cls === d.cls && b.hash === d.hash) { fs.renameSync(mini, file); reported.msg = d.msg; } else fs.rmSync(mini, { force: true });
      } else fs.rmSync(mini, { force: true });
    }
    const d = JSON.parse(fs.readFileSync(file));
    console.log('run ' + reported.i + ' seed ' + plan.seed + ': ' + d.cls + ': ' + d.msg);
    console.log('VIOLATION property=' + id + ' replay=' + file);
    exit = 1;
  }
  for (const k of known) if (!knownHit.has(k)) console.log('KNOWN-FINDING: property=' + id + ' ' + k.what);
  // evidence
  const sum = { runs: 0, nontrivial: 0, faults: {}, probes: {}, calls: 0, simns: 0, ops: 0, samples: [] };
  for (const a of aggs) {
    for (const k of ['runs', 'nontrivial', 'calls', 'simns', 'ops']) sum[k] += a[k];
    for (const m of ['faults', 'probes']) for (const k in a[m]) sum[m][k] = (sum[m][k] || 0) + a[m][k];
    for (const s of a.samples) if (sum.samples.length < 2) sum.samples.push(s);
  }
  const wallS = (mono() - t0) / 1000;
  const ev = {
    property: id, tier: TIER, seed: parseInt(SEED, 10) || 0, level: prop.level || 'exploration',
    coverage: {
      evaluations: sum.runs, distinct_nontrivial: sigs.size, rule: prop.rule, samples: sum.samples,
      nontrivial_runs: sum.nontrivial, operations: sum.ops, host_calls: sum.calls, simulated_seconds: sum.simns / 1e9,
      runs_per_hour: Math.round(sum.runs / (searchMs / 3600000)), seeds_per_hour: Math.round(sum.runs / (searchMs / 3600000)),
      faults_fired: sum.faults, probes: sum.probes, distinct_states: states.size, state_measure: prop.stateMeasure || undefined,
      determinism_rechecks: recheck, real_components: prop.real, stub_components: prop.stub, complete: sum.runs >= max || exit === 1,
      violations_seen: viols.length, known_findings: [...knownHit].map((k) => k.what), ...(prop.evidence ? prop.evidence(sum) : {}), ...evNote,
    },
    wall_s: wallS, environment: 'simulated', note: prop.note,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  console.log(id + ': ' + sum.runs + ' runs, ' + sigs.size + ' distinct, ' + sum.ops + ' ops, ' + wallS.toFixed(1) + ' s' + (exit ? '' : ', property held'));
  if (process.argv.includes('-v')) console.log(JSON.stringify({ faults: sum.faults, probes: sum.probes }, null, 1));
  return exit;
}
function loadKnown(id) {
  const f = path.join(ROOT, 'known_findings.json');
  if (!fs.existsSync(f)) return [];
  return (JSON.parse(fs.readFileSync(f)).findings || []).filter((k) => k.property === id);
}
function execChild(id, file, timeout) {
  const r = cp.spawnSync(process.execPath, [__filename, id, '--exec', file], { env: process.env, timeout, killSignal: 'SIGKILL', maxBuffer: 1 << 26 });
  if (r.error && r.error.code === 'ETIMEDOUT') return { hang: true };
  if (r.status !== 0) return { error: String(r.stderr).slice(0, 2000) };
  const lines = String(r.stdout).trim().split('\n'); return JSON.parse(lines[lines.length - 1]);
}
function minimiseHang(id, prop, plan, file, write) {
  const lk = (prop.lists || ['ops'])[0]; let cur = plan; if (!Array.isArray(cur[lk])) return cur;
  const t0 = mono(); let n = 2;
  while (cur[lk].length > 1 && mono() - t0 < 60000) {
    const len = cur[lk].length, chunk = Math.ceil(len / n); let hit = false;
    for (let s = 0; s < len && mono() - t0 < 60000; s += chunk) {
      const cand = { ...cur, [lk]: cur[lk].slice(0, s).concat(cur[lk].slice(s + chunk)) };
      write({ property: id, seed: plan.seed, cls: 'hang', plan: cand });
      if (execChild(id, file, 5000).hang) { cur = cand; hit = true; n = Math.max(2, n - 1); break; }
    }
    if (!hit) { if (chunk === 1) break; n = Math.min(len, n * 2); }
  }
  write({ property: id, seed: plan.seed, cls: 'hang', plan: cur });
  return execChild(id, file, 20000).hang ? cur : plan;
}
if (isMainThread) main().then((x) => process.exit(x), (e) => { console.error('ERROR: ' + (e && e.stack || e)); process.exit(3); });
