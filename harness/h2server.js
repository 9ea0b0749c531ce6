// Scripted HTTP/2 (prior knowledge) server: obeys JSON lines on stdin, reports JSON lines on stdout.
// Byte strings travel as runs: [[byte, count], ...].
'use strict';
const http2 = require('http2'), readline = require('readline');
let reqs = new Map(), next = 0, sessions = new Set(), plans = [], gen = 0;
process.stdout.on('error', () => process.exit(0));
const say = o => process.stdout.write(JSON.stringify(o) + '\n');
const runs = b => { const r = []; for (let i = 0; i < b.length;) { let j = i; while (j < b.length && b[j] === b[i]) j++; r.push([b[i], j - i]); i = j; } return r; };
const bytes = r => Buffer.concat(r.map(([b, n]) => Buffer.alloc(n, b)));
const server = http2.createServer({ settings: { initialWindowSize: 4194304 } }), socks = new Set();
server.on('connection', k => { socks.add(k); k.on('close', () => socks.delete(k)); k.on('error', () => {}); });
server.on('session', s => { sessions.add(s); s.on('close', () => sessions.delete(s)); s.on('error', () => {}); if (s.setLocalWindowSize) s.setLocalWindowSize(8388608); });
server.on('sessionError', () => {});
server.on('stream', (st, headers) => {
  const id = ++next, r = { st, headers, head: false, ended: false, trailers: null };
  reqs.set(id, r);
  const chunks = [];
  st.on('error', () => {});
  st.on('data', c => chunks.push(c));
  st.on('end', () => {
    r.ended = true;
    const h = {}; for (const k of Object.keys(headers)) h[k] = String(headers[k]);
    say({ k: 'req', id, method: h[':method'], path: h[':path'], headers: h, body: runs(Buffer.concat(chunks)), gen: r.gen });
    if (plans.length) for (const c of plans.shift()) act(Object.assign({}, c, { id }), () => {});
  });
  r.gen = gen;
  st.on('close', () => { if (!r.done && !r.byServer) say({ k: 'cancel', id, code: st.rstCode, gen: r.gen }); });
  st.on('wantTrailers', () => { r.done = true; st.sendTrailers(r.trailers || {}); });
});
function head(r, extra, opt) { if (!r.head && !r.st.destroyed) { r.head = true; r.st.respond(Object.assign({ ':status': 200, 'content-type': 'application/grpc' }, extra || {}), opt || { waitForTrailers: true }); } }
function trailers(c) { const t = {}; if (c.code !== undefined && c.code !== '') t['grpc-status'] = String(c.code); if (c.msg !== undefined && c.msg !== '') t['grpc-message'] = c.msg; return t; }
function act(c, done) {
  const r = reqs.get(c.id);
  if (!r || r.st.destroyed || r.st.closed) { done(); return; }
  switch (c.op) {
  case 'head': head(r); done(); break;
  case 'data': head(r); { const b = bytes(c.runs); if (!b.length) done(); else r.st.write(b, () => done()); } break;
  case 'end': head(r); r.trailers = trailers(c); r.st.end(); done(); break;                 // trailers after data
  case 'only': if (r.head) { r.trailers = trailers(c); r.st.end(); } else { r.done = true; r.head = true; r.st.respond(Object.assign({ ':status': 200, 'content-type': 'application/grpc' }, trailers(c)), { endStream: true }); } done(); break;
  case 'nostatus': r.byServer = true; if (r.head) { r.trailers = {}; r.st.end(); } else { r.st.respond({ ':status': 200, 'content-type': 'application/grpc' }, { endStream: true }); } done(); break;
  case 'http': r.byServer = true; if (r.head) { r.st.close(2); } else { r.st.respond({ ':status': c.code }, { endStream: true }); } done(); break;
  case 'rst': r.byServer = true; r.st.close(c.code); done(); break;
  default: done();
  }
}
const noPing = process.argv[2] === 'native';     // that client reads its socket only while calls are running
function pingAll(done) {
  if (noPing) return setTimeout(done, 1);
  let n = 0; const live = [...sessions].filter(s => !s.destroyed && !s.closed);
  if (!live.length) return setImmediate(done);
  let t = setTimeout(() => { n = -1e9; done(); }, 2000);
  const fin = () => { if (++n === live.length) { clearTimeout(t); done(); } };
  for (const s of live) { try { s.ping(() => fin()); } catch (e) { fin(); } }
}
const rl = readline.createInterface({ input: process.stdin });
rl.on('line', line => {
  const c = JSON.parse(line);
  if (c.op === 'sync') { pingAll(() => say({ k: 'ack', n: c.n })); return; }
  if (c.op === 'new') { gen = c.gen; plans = []; for (const r of reqs.values()) { r.done = true; if (!r.st.destroyed) r.st.close(8); } reqs.clear(); next = 0; say({ k: 'ack', n: c.n }); return; }
  if (c.op === 'plan') { plans.push(c.acts); say({ k: 'ack', n: c.n }); return; }
  if (c.op === 'close') { for (const r of reqs.values()) r.byServer = true; for (const s of sessions) s.destroy(); setTimeout(() => say({ k: 'ack', n: c.n }), 5); return; }
  if (c.op === 'fin' || c.op === 'reset') { for (const r of reqs.values()) r.byServer = true; for (const k of socks) if (c.op === 'fin') k.destroy(); else k.resetAndDestroy(); setTimeout(() => say({ k: 'ack', n: c.n }), 5); return; }
  if (c.op === 'goaway') { for (const s of sessions) s.close(); say({ k: 'ack', n: c.n }); return; }
  act(c, () => pingAll(() => say({ k: 'ack', n: c.n })));
});
rl.on('close', () => process.exit(0));
server.listen(0, '127.0.0.1', () => say({ k: 'port', port: server.address().port }));
