'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const WD = ['Sunday', 'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday'], MO = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December'];
const fdiv = (a, b) => { let q = a / b; if (a % b !== 0n && (a < 0n) !== (b < 0n)) q -= 1n; return q; };
// proleptic Gregorian calendar, exact for any BigInt second
function civil(t) {
  const day = fdiv(t, 86400n); const sec = Number(t - day * 86400n);
  const z = day + 719468n; const era = fdiv(z, 146097n); const doe = Number(z - era * 146097n);
  const yoe = Math.floor((doe - Math.floor(doe / 1460) + Math.floor(doe / 36524) - Math.floor(doe / 146096)) / 365);
  const doy = doe - (365 * yoe + Math.floor(yoe / 4) - Math.floor(yoe / 100)); const mp = Math.floor((5 * doy + 2) / 153);
  const d = doy - Math.floor((153 * mp + 2) / 5) + 1; const m = mp < 10 ? mp + 3 : mp - 9; const y = BigInt(yoe) + era * 400n + (m <= 2 ? 1n : 0n);
  const leap = y % 4n === 0n && (y % 100n !== 0n || y % 400n === 0n); const cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
  return { year: y, mon: m - 1, mday: d, hour: Math.floor(sec / 3600), min: Math.floor(sec / 60) % 60, sec: sec % 60, wday: Number(((day + 4n) % 7n + 7n) % 7n), yday: cum[m - 1] + d - 1 + (leap && m > 2 ? 1 : 0) };
}
const p2 = (n) => String(n).padStart(2, '0');
const FIELDS = ['sec', 'min', 'hour', 'mday', 'mon', 'year', 'wday', 'yday', 'isdst'];
// TZ as "name[+-]hh[:mm[:ss]][name]"
function parseTZ(s) { const m = /^([A-Za-z]+)([+-]?)(\d{1,2})(?::(\d{1,2})(?::(\d{1,2}))?)?([A-Za-z]*)(,.*)?$/.exec(s); if (!m) return s === '' ? { off: 0, name: ['   ', '   '] } : { off: 0, name: null }; return { off: (m[2] === '-' ? -1 : 1) * (+m[3] * 3600 + +(m[4] || 0) * 60 + +(m[5] || 0)), name: [m[1], m[6] || '   '] }; }
const CONV = 'aAbBcdHIjmMpSUwWxXyYZ%';
function conv(ch, f, tz) {
  const y = f.year;
  switch (ch) {
    case 'a': return WD[f.wday].slice(0, 3); case 'A': return WD[f.wday]; case 'b': return MO[f.mon].slice(0, 3); case 'B': return MO[f.mon];
    case 'd': return p2(f.mday); case 'H': return p2(f.hour); case 'I': return p2(f.hour % 12 || 12); case 'j': return String(f.yday + 1).padStart(3, '0'); case 'm': return p2(f.mon + 1); case 'M': return p2(f.min); case 'p': return f.hour < 12 ? 'AM' : 'PM'; case 'S': return p2(f.sec);
    case 'U': return p2(Math.floor((f.yday + 7 - f.wday) / 7)); case 'W': return p2(Math.floor((f.yday + 7 - (f.wday + 6) % 7) / 7)); case 'w': return String(f.wday); case 'y': return p2(Number((y % 100n + 100n) % 100n)); case 'Y': return String(y);
    case 'Z': return tz.name ? tz.name[0] : null; case '%': return '%';
    case 'c': return null; case 'x': return p2(f.mon + 1) + '/' + p2(f.mday) + '/' + conv('y', f, tz); case 'X': return p2(f.hour) + ':' + p2(f.min) + ':' + p2(f.sec);
  }
}
const asc = (f) => WD[f.wday].slice(0, 3) + ' ' + MO[f.mon].slice(0, 3) + String(f.mday).padStart(3) + ' ' + p2(f.hour) + ':' + p2(f.min) + ':' + p2(f.sec) + ' ' + f.year + '\n';
module.exports = {
  id: 'T01', runs: { quick: 80000, thorough: 600000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run boots the program in a host with a generated clock (from the epoch to the year 2554, jumping forwards and backwards, failing now and then), CPU clock and TZ variable, and makes clock readings and calendar conversions of readings and of generated seconds (year, month, leap and overflow boundaries) mixed in any order; each result is compared with the clock value the host gave and with an exact proleptic Gregorian calendar. Non-trivial: at least one conversion outside 1970-2037 or with a TZ offset, or a clock fault that fired. Distinct by plan.',
  real: ['lib/src/time.c', 'lib/src/stdlib.c getenv', 'lib/src/stdio.c snprintf'], stub: ['host clocks and environment (in-memory simulator)'],
  gen(rng) {
    const tz = rng.weighted([[3, null], [1, ''], [6, 0], [1, 1]]); const nm = () => rng.pick(['UTC', 'EST', 'CET', 'X', 'GMT', 'Abc', 'LONGZONENAME', 'EDT', 'AEST']);
    let TZ = tz; if (tz === 0) TZ = nm() + rng.pick(['', '+', '-']) + rng.pick([0, 1, 2, 5, 9, 11, 12, 14, 23, 24, '05', '00', '09']) + (rng.chance(0.35) ? ':' + p2(rng.pick([0, 1, 15, 30, 45, 59])) + (rng.chance(0.3) ? ':' + p2(rng.int(60)) : '') : '') + (rng.chance(0.3) ? nm() + (rng.chance(0.2) ? ',M3.2.0,M11.1.0' : '') : ''); if (tz === 1) TZ = 'Zone' + 'y'.repeat(rng.range(200, 245)) + rng.pick(['', '-']) + rng.range(1, 9);
    const far = rng.chance(0.3); const sec = () => {
      const r = rng.int(14);
      if (r === 0) return BigInt(rng.pick([0, -1, 1, 86399, 86400, -86400, -86401, 951782399, 951782400, 951868800, 68169600, 2147483647, -2147483648]));
      if (r <= 3) { const y = r === 1 ? rng.range(1902, 2037) : rng.range(1583, 2500); return BigInt(Date.UTC(y, rng.pick([0, 1, 1, 2, 2, 11, rng.int(12)]), rng.pick([1, 28, 29, 30, 31, rng.range(1, 28)]), rng.pick([0, 23, 12, rng.int(24)]), rng.pick([0, 59, rng.int(60)]), rng.pick([0, 59, rng.int(60)])) / 1000 + rng.range(-1, 1)); }
      if (r <= 5 || !far) return BigInt(rng.range(-2145000000, 2145000000));
      if (r <= 8) return BigInt(rng.range(-62135596800, 253402300799)); if (r === 9) return BigInt(rng.range(-(2 ** 52), 2 ** 52)); if (r === 10) return BigInt(rng.pick([1, -1])) * (67767976233532799n + BigInt(rng.range(-90000, 90000))); if (r === 11) return rng.pick([67768036191676799n, 67768036191676800n, -67768040609740800n, -67768040609740801n]) + BigInt(rng.range(-2, 2)); if (r === 12) return rng.pick([2n ** 62n, -(2n ** 62n), 2n ** 63n - 1n, -(2n ** 63n)]); return BigInt(rng.range(-62167219200, -62135596800));
    };
    const ops = []; const n = rng.range(4, 40);
    for (let i = 0; i < n; i++) {
      const o = rng.weighted([[4, 'time'], [2, 'timenull'], [3, 'clock'], [4, 'gmtime'], [4, 'localtime'], [3, 'ctime'], [3, 'asctime'], [6, 'strftime'], [5, 'mktime'], [1, 'difftime'], [1, 'tzset']]);
      const op = { o, t: sec().toString(), r: rng.int(2), cur: rng.chance(0.2) };
      if (o === 'strftime') { let s = ''; for (let j = rng.range(0, 6); j > 0; j--) s += rng.chance(0.7) ? '%' + rng.pick([...CONV]) : rng.pick([' ', '-', 'abc', ':', 'T', 'x'.repeat(rng.int(40))]); op.fmt = s; op.max = rng.weighted([[3, 200], [4, -1 - rng.int(6)], [2, rng.int(30)]]); }
      if (o === 'difftime') op.t2 = sec().toString();
      if ((o === 'time' || o === 'timenull' || o === 'clock') && rng.chance(0.4)) op.f = [rng.chance(0.5) ? { sc: 'clock_time_get', n: 0, kind: 'err', errno: rng.pick([28, 29, 52, 58, 61, 63]) } : { sc: 'clock_time_get', n: 0, kind: 'jump', by: String(rng.pick([1, -1]) * rng.pick([1, 999999999, 1000000000, 86400e9, 3.2e16, rng.int(1e15)])) }];
      ops.push(op);
    }
    const rt = rng.weighted([[4, '1700000000' + String(rng.int(1e9)).padStart(9, '0')], [1, rng.pick(['0', '1', '999999999', '1000000000'])], [2, String(rng.int(4e9)) + String(rng.int(1e9)).padStart(9, '0')], [1, rng.pick(['2147483647999999999', '2147483648000000000', '4294967295999999999', '4294967296000000000', '9223372036000000000', '17000000000000000000'])]]);
    return { cfg: { TZ, rt, cpu: rng.pick(['0', '5', '123456789012', '4294967296', '9000000000000000']), tick: rng.pick([1, 1000, 999999937]), envfail: tz !== null && rng.chance(0.03) }, ops };
  },
  lists: ['ops'],
  *simplify(p) { if (p.cfg.TZ) yield { ...p, cfg: { ...p.cfg, TZ: null } }; for (let i = 0; i < p.ops.length; i++) { const o = p.ops[i]; const put = (c) => { const ops = p.ops.slice(); ops[i] = { ...o, ...c }; return { ...p, ops }; }; if (o.f) yield put({ f: undefined }); if (o.fmt && o.fmt.length > 2) { const m = o.fmt.match(/%.|[^%]+/g) || []; for (let j = 0; j < m.length && m.length > 1; j++) yield put({ fmt: m.filter((_, x) => x !== j).join('') }); } if (o.t && o.t !== '0') yield put({ t: '0' }); } },
  run(plan, ctx) {
    const c = plan.cfg; const w = new host.World({ env: c.TZ === null ? ['A=b'] : ['A=b', 'TZ=' + c.TZ, 'TZZ=X5'], realtime: c.rt, cpu: c.cpu, tick: c.tick });
    const tz = parseTZ(c.TZ || ''); let nt = 0, hit = 0; let clk = null; let known = false;
    w.onSys = (name, args, r, f, note) => { if (name === 'clock_time_get') clk = { id: args[0], r, v: note ? BigInt(note) : null }; };
    const res = runGuest(agent(ctx, 'main0', 40), w, function* (g) {
      if (c.envfail) { w.armed = [{ sc: 'environ_get', kind: 'err', errno: 29, count: 1 }]; tz.off = 0; tz.name = ['   ', '   ']; }
      const range = (f) => f.year - 1900n >= -2147483648n && f.year - 1900n <= 2147483647n;
      const rd = (p) => { const f = {}; FIELDS.forEach((k, i) => { f[k] = g.mem.readInt32LE(p + 4 * i); }); f.year = BigInt(f.year) + 1900n; return f; };
      const wr = (f) => { const p = g.alloc(40); FIELDS.forEach((k, i) => g.mem.writeInt32LE(k === 'year' ? Number(f.year - 1900n) : f[k] || 0, p + 4 * i)); return p; };
      const cmp = (what, got, want) => { for (const k of FIELDS) if (k === 'isdst' ? got[k] > 0 : got[k] !== want[k]) bad('calendar', what + ' gave tm_' + k + ' ' + got[k] + ' instead of ' + want[k], k); };
      let last = null;
      for (const op of plan.ops) {
        const what0 = op.o; clk = null; let t = op.cur && last !== null ? last : BigInt(op.t); let r;
        switch (op.o) {
          case 'time': case 'timenull': case 'clock': {
            r = yield { op: { time: 120, timenull: 134, clock: 121 }[op.o], a: [], f: op.f }; if (!clk) bad('clock', op.o + ' did not read the host clock'); hit += r.fired;
            if (op.o === 'time' && r.rl !== r.l1) bad('clock', 'time returned ' + r.rl + ' and stored ' + r.l1); if (op.o === 'clock' ? clk.id !== 2 : clk.id !== 0) bad('clock', op.o + ' read host clock ' + clk.id);
            if (clk.r !== 0) { if (r.rl !== -1n) bad('clock', op.o + ' returned ' + r.rl + ' although the clock failed'); break; }
            const want = op.o === 'clock' ? clk.v : clk.v / 1000000000n; if (BigInt.asUintN(64, r.rl) !== BigInt.asUintN(64, want)) bad('clock', op.o + ' returned ' + r.rl + ' when the host clock was ' + clk.v); if (op.o !== 'clock') last = want; break;
          }
          case 'gmtime': case 'localtime': {
            const lt = op.o === 'localtime' ? t - BigInt(tz.off) : t; if (op.o === 'localtime' && (lt > 2n ** 63n - 1n || lt < -(2n ** 63n))) break; const f = civil(lt); if (f.year < 1970n || f.year > 2037n || tz.off) nt++; const p = g.alloc(40);
            r = yield { op: op.o === 'gmtime' ? (op.r ? 122 : 128) : op.r ? 123 : 129, a: [0, 0, 0, 0, 0, 0, p], l: [t] }; const what = op.o + (op.r ? '_r' : '') + '(' + t + ') with TZ=' + c.TZ;
            if (!range(f)) { if (r.r !== 0) bad('overflow', what + ' returned a value for the year ' + f.year); if (r.err !== 61) bad('overflow', what + ' set errno ' + r.err); break; }
            if (!r.r) bad('overflow', what + ' failed with errno ' + r.err); cmp(what, rd(p), f); break;
          }
          case 'ctime': { const f = civil(t - BigInt(tz.off)); if (f.year > 9999n || f.year < 0n) break; if (tz.off) nt++; const b = g.alloc(60); g.mem.fill(0xa7, b, b + 60); r = yield { op: op.r ? 127 : 131, a: [b], l: [t] }; const s = r.ru ? g.cstr(r.ru) : null; if (s !== asc(f)) bad('text', 'ctime(' + t + ') with TZ=' + c.TZ + ' gave ' + show(String(s)) + ' instead of ' + show(asc(f))); for (let i = 26; i < 60; i++) if (g.mem[b + i] !== 0xa7) bad('overrun', 'ctime_r wrote beyond 26 bytes'); break; }
          case 'asctime': { const f = civil(t); if (f.year > 9999n || f.year < 0n) break; const p = wr(f), b = g.alloc(60); g.mem.fill(0xa7, b, b + 60); r = yield { op: op.r ? 126 : 130, a: [b, 0, 0, 0, 0, 0, p] }; const s = g.cstr(r.ru); if (s !== asc(f)) bad('text', 'asctime(' + t + ') gave ' + show(s) + ' instead of ' + show(asc(f))); for (let i = 26; i < 60; i++) if (g.mem[b + i] !== 0xa7) bad('overrun', 'asctime_r wrote beyond 26 bytes'); break; }
          case 'strftime': {
            const f = civil(t); if (!range(f)) break; const parts = op.fmt.match(/%.|[^%]+/g) || []; let want = '', unknown = false;
            for (const q of parts) { let s = q[0] !== '%' ? q : q === '%c' ? conv('a', f, tz) + ' ' + conv('b', f, tz) + ' \0' + ' ' + conv('X', f, tz) + ' ' + f.year : conv(q[1], f, tz); if (s === null) { unknown = true; break; } want += s; }
            if (unknown || ((f.year < 1000n || f.year > 9999n) && /%[Yc]/.test(op.fmt)) || ((f.year < 0n) && /%[yx]/.test(op.fmt))) break; if (f.year < 1970n || f.year > 2037n || tz.off) nt++;
            const alts = want.includes('\0') ? [want.replace(/\0/g, p2(f.mday)), want.replace(/\0/g, String(f.mday).padStart(2))] : [want]; // %c may pad the day either way
            const n = alts[0].length; const max = op.max < 0 ? Math.max(0, n + 4 + op.max) : op.max; const b = g.alloc(max + 64) + 16; g.mem.fill(0xa7, b - 16, b + max + 48);
            r = yield { op: 125, a: [b, max, g.str(op.fmt), 0, 0, 0, wr({ ...f, isdst: 0 })] }; const what = 'strftime(size ' + max + ', ' + show(op.fmt) + ', ' + t + ') with TZ=' + c.TZ;
            for (let i = 1; i <= 16; i++) if (g.mem[b - i] !== 0xa7 || g.mem[b + max + i - 1] !== 0xa7) bad('overrun', what + ' wrote outside the size it was given');
            if (n + 1 > max) { if (r.r !== 0) bad('strftime', what + ' returned ' + r.r + ' although ' + (n + 1) + ' bytes are needed'); break; }
            if (r.r !== n) bad('strftime', what + ' returned ' + r.r + ' instead of ' + n); const s = g.mem.toString('latin1', b, b + n); if (!alts.includes(s)) bad('strftime', what + ' gave ' + show(s) + ' instead of ' + show(alts[0])); if (g.mem[b + n] !== 0) bad('strftime', what + ' left its result without a terminator'); break;
          }
          case 'mktime': {
            const f = civil(t - BigInt(tz.off)); if (f.year < 1902n || f.year > 2037n || t < -2147483648n + 86400n || t > 2147483647n) break; if (f.year < 1970n || tz.off) nt++; const p = g.alloc(40);
            r = yield { op: 123, a: [0, 0, 0, 0, 0, 0, p], l: [t] }; if (!r.r) bad('overflow', 'localtime(' + t + ') failed'); r = yield { op: 124, a: [0, 0, 0, 0, 0, 0, p] }; if (r.rl !== t) bad('mktime', 'mktime(localtime(' + t + ')) with TZ=' + c.TZ + ' gave ' + r.rl + ' (' + JSON.stringify({ ...rd(p), year: Number(f.year) }) + ')'); break;
          }
          case 'difftime': { const t2 = BigInt(op.t2); if (t - t2 > 2n ** 53n || t2 - t > 2n ** 53n) break; r = yield { op: 132, a: [], l: [t, t2] }; if (r.rl !== t - t2) bad('difftime', 'difftime(' + t + ',' + t2 + ') gave ' + r.rl); break; }
          case 'tzset': { r = yield { op: 133, a: [] }; if (Number(r.rl) !== tz.off) bad('tz', 'timezone is ' + r.rl + ' instead of ' + tz.off + ' for TZ=' + c.TZ); if (tz.name) { const n = [g.cstr(r.a[4]), g.cstr(r.a[5])]; if (n[0] !== tz.name[0] || n[1] !== tz.name[1]) bad('tz', 'tzname is ' + show(JSON.stringify(n)) + ' instead of ' + show(JSON.stringify(tz.name))); } break; }
        }
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp, (k, v) => typeof v === 'bigint' ? String(v) : v)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), nt > 0 || hit > 0, { probes: { conversions: nt } }) };
  },
};
