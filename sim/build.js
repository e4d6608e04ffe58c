'use strict';
// Builds everything the checks need from the current working tree of /repo, outside /repo.
const fs = require('fs'), path = require('path'), cp = require('child_process'), crypto = require('crypto');
const REPO = process.env.WCPL_REPO || '/repo';
const ROOT = path.dirname(__dirname);
const BUILDS = path.join(ROOT, '.build');

function listSources() {
  const out = [];
  for (const f of fs.readdirSync(REPO)) if (/\.[ch]$/.test(f)) out.push(f);
  for (const d of ['lib/src', 'lib/include']) {
    const walk = (r) => { for (const f of fs.readdirSync(path.join(REPO, r))) { const p = r + '/' + f; if (fs.statSync(path.join(REPO, p)).isDirectory()) walk(p); else if (!/\.wo$/.test(f)) out.push(p); } };
    walk(d);
  }
  for (const d of ['examples', 'tests']) {
    const dir = path.join(REPO, d); if (!fs.existsSync(dir)) continue;
    for (const f of fs.readdirSync(dir)) if (/\.[ch]$/.test(f)) out.push(d + '/' + f);
  }
  return out.sort();
}
function key() {
  const h = crypto.createHash('sha1');
  for (const f of listSources()) { h.update(f + '\0'); h.update(fs.readFileSync(path.join(REPO, f))); h.update('\0'); }
  for (const f of ['sim/guest/agent.c', 'sim/build.js', 'sim/native/simcc.c', 'sim/native/wraps.txt']) { const p = path.join(ROOT, f); if (fs.existsSync(p)) h.update(fs.readFileSync(p)); }
  return h.digest('hex').slice(0, 16);
}
const ENV = { PATH: '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL: 'C', TZ: '' };
function runAll(cmds, jobs = 8) { // [[argv, opts]] in parallel
  return new Promise((res, rej) => {
    let i = 0, live = 0, bad = null;
    const next = () => {
      if (bad && live === 0) return rej(bad);
      if (!bad && i >= cmds.length && live === 0) return res();
      while (!bad && live < jobs && i < cmds.length) {
        const [argv, opts] = cmds[i++]; live++;
        cp.execFile(argv[0], argv.slice(1), { env: ENV, maxBuffer: 1 << 24, timeout: 300000, ...opts }, (e, so, se) => {
          live--; if (e && !bad) bad = new Error(argv.join(' ') + '\n' + so + se + e.message); next();
        });
      }
    };
    next();
  });
}
const AGENTS = { main0: { a: '0' }, main512: { a: '512' }, main4k: { a: '4096' }, main64k: { a: '65536' }, main1000: { a: '1000', s: '40000' }, main65535: { a: '65535', s: '1000003' }, main513: { a: '513', s: '32769' }, maindef: {}, void: { void: true },
  // the argument area ends where the memory page ends, so the heap follows at once
  page512: { a: '512', s: '65536', page: 512 }, page4k: { a: '4096', s: '65536', page: 4096 }, page1000: { a: '1008', s: '65536', page: 1008 } };

async function ensure(want = ['base']) {
  const dir = path.join(BUILDS, key());
  fs.mkdirSync(dir, { recursive: true });
  for (const w of want) {
    const mark = path.join(dir, '.done-' + w);
    if (fs.existsSync(mark)) continue;
    // one builder at a time
    const lock = path.join(dir, '.lock'); let owned = false;
    for (let t = 0; ; t++) {
      try { fs.mkdirSync(lock); owned = true; break; } catch (e) {
        if (fs.existsSync(mark)) break;
        let stale = false; try { stale = Date.now() - fs.statSync(lock).mtimeMs > 600000; } catch (x) { stale = false; }
        if (stale) { try { fs.rmdirSync(lock); } catch (x) { /* raced */ } }
        if (t > 6000) throw new Error('build lock stuck');
        await new Promise((r) => setTimeout(r, 100));
      }
    }
    try {
      if (fs.existsSync(mark)) continue;
      if (w === 'base') await buildBase(dir);
      else if (w === 'native') await buildNative(dir);
      else if (w === 'self') await buildSelf(dir);
      else throw new Error('unknown build ' + w);
      fs.writeFileSync(mark, '');
    } finally { if (owned) try { fs.rmdirSync(lock); } catch (x) { /* gone */ } }
  }
  // keep the cache small; builds in use lately may belong to a check that is still running
  fs.utimesSync(dir, new Date(), new Date());
  const all = fs.readdirSync(BUILDS).map((d) => [fs.statSync(path.join(BUILDS, d)).mtimeMs, path.join(BUILDS, d)]).sort((a, b) => b[0] - a[0]);
  for (const [m, d] of all.slice(6)) if (d !== dir && Date.now() - m > 1200000) fs.rmSync(d, { recursive: true, force: true });
  return dir;
}
function ccsrc() { return fs.readdirSync(REPO).filter((f) => /\.c$/.test(f)).sort(); }

async function buildBase(dir) {
  fs.mkdirSync(path.join(dir, 'obj'), { recursive: true }); fs.mkdirSync(path.join(dir, 'lib'), { recursive: true });
  await runAll(ccsrc().map((f) => [['gcc', '-g', '-O1', '-w', '-c', '-o', path.join(dir, 'obj', f.replace(/\.c$/, '.o')), path.join(REPO, f)], {}]));
  const wcpl = path.join(dir, 'wcpl');
  await runAll([[['gcc', '-o', wcpl, ...ccsrc().map((f) => path.join(dir, 'obj', f.replace(/\.c$/, '.o'))), '-lm'], {}]]);
  const libs = fs.readdirSync(path.join(REPO, 'lib/src')).filter((f) => /\.c$/.test(f));
  await runAll(libs.map((f) => [[wcpl, '-q', '-c', '-I', '../include/', '-o', path.join(dir, 'lib', f.replace(/\.c$/, '.wo')), f], { cwd: path.join(REPO, 'lib/src') }]));
  const agent = fs.readFileSync(path.join(ROOT, 'sim/guest/agent.c'), 'utf8');
  const L = dir + '/lib/', I = path.join(REPO, 'lib/include') + '/';
  const cmds = [];
  for (const [k, v] of Object.entries(AGENTS)) {
    let src = agent;
    if (v.void) src = agent.slice(0, agent.indexOf('/*MAIN*/')) + 'int main(void)\n{\n  loop(-1);\n  return R.a[0];\n}\n';
    const p = path.join(dir, 'agent-' + k + '.c'); fs.writeFileSync(p, src);
    cmds.push([[wcpl, '-q', '-L', L, '-I', I, ...(v.a !== undefined ? ['-a', v.a] : []), ...(v.s ? ['-s', v.s] : []), '-o', path.join(dir, 'agent-' + k + '.wasm'), p], {}]);
  }
  await runAll(cmds);
  const again = [];
  for (const [k, v] of Object.entries(AGENTS)) {
    if (!v.page) continue;
    let lo = 0;
    try {
      const host = require('./host');
      const g = new host.Guest(new WebAssembly.Module(fs.readFileSync(path.join(dir, 'agent-' + k + '.wasm'))), new host.World({ args: ['p'] }));
      g.run(function* (gg) { lo = Math.min(gg.argv, gg.mem.readUInt32LE(gg.argv)); return 7; });
    } catch (e) { lo = 0; }
    const s = Number(v.s) + (65536 - (lo + v.page) % 65536) % 65536;
    if (lo) again.push([[wcpl, '-q', '-L', L, '-I', I, '-a', v.a, '-s', String(s), '-o', path.join(dir, 'agent-' + k + '.wasm'), path.join(dir, 'agent-' + k + '.c')], {}]);
  }
  await runAll(again);
}
async function buildNative(dir) {
  const out = (n) => path.join(dir, n);
  const wrap = fs.readFileSync(path.join(ROOT, 'sim/native/wraps.txt'), 'utf8').split(/\s+/).filter((x) => x);
  for (const [tag, extra, def] of [['plain', [], []], ['asan', ['-fsanitize=address', '-fno-omit-frame-pointer'], ['-DSIM_ASAN']]]) {
    const od = out('nobj-' + tag); fs.mkdirSync(od, { recursive: true });
    await runAll(ccsrc().map((f) => [['gcc', '-g', '-O1', '-w', '-fno-pie', '-U_FORTIFY_SOURCE', ...extra, '-Dmain=wcpl_main', '-c', '-o', path.join(od, f.replace(/\.c$/, '.o')), path.join(REPO, f)], {}])
      .concat([[['gcc', '-g', '-O1', '-Wall', '-fno-pie', '-U_FORTIFY_SOURCE', ...def, '-c', '-o', path.join(od, 'simcc.o'), path.join(ROOT, 'sim/native/simcc.c')], {}]]));
    await runAll([[['gcc', '-no-pie', ...extra, '-o', out('simcc-' + tag), path.join(od, 'simcc.o'), ...ccsrc().map((f) => path.join(od, f.replace(/\.c$/, '.o'))), ...wrap.map((s) => '-Wl,--wrap=' + s), '-lm'], {}]]);
  }
}
async function buildSelf(dir) {
  const wcpl = path.join(dir, 'wcpl');
  await runAll([[[wcpl, '-q', '-L', dir + '/lib/', '-I', path.join(REPO, 'lib/include') + '/', '-I', REPO + '/', '-o', path.join(dir, 'self.wasm'), ...ccsrc().map((f) => path.join(REPO, f))], {}]]);
}
module.exports = { ensure, REPO, ROOT, key, ENV, AGENTS, runAll };
if (require.main === module) ensure(process.argv.slice(2).length ? process.argv.slice(2) : ['base']).then((d) => console.log(d), (e) => { console.error(String(e && e.message || e)); process.exit(3); });
