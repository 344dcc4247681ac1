// A range server over TLS, HTTP/2 or HTTP/1.1, under control of a scenario. Commands are lines of JSON on stdin, each is
// answered by a line on stdout. Listens on one port for each certificate and protocol.
const http2 = require('http2'), https = require('https'), http = require('http'), fs = require('fs'), path = require('path'), readline = require('readline'), tls = require('tls'), crypto = require('crypto');
let S = null;                       // the scenario
const live = new Set(), raw = new Map(), secure = new Map();
function fresh(c) {
  for (const s of live) s.destroy();
  live.clear();
  let a = c.seed >>> 0;
  S = {c, log: [], tries: {}, waiting: [], most: 0, open: 0, connections: 0, handshakes: 0, nth: 0, names: [], rnd: () => {
    a = a + 0x6D2B79F5 | 0; let t = Math.imul(a ^ a >>> 15, 1 | a); t = t + Math.imul(t ^ t >>> 7, 61 | t) ^ t; return ((t ^ t >>> 14) >>> 0) / 4294967296; }};
}
function touch() {                  // the next response goes on after a moment without a new request
  if (!S) return;
  const s = S;
  clearTimeout(s.timer);
  s.timer = setTimeout(() => { if (s === S) step(); }, s.c.ms);
}
function step() {
  const s = S, w = s.waiting;
  if (!w.length) return;
  if (s.most < s.c.want && !s.short) {          // nothing proceeds before there are as many requests as there should be, or they fail to come
    s.since = s.since || Date.now();
    if (Date.now() - s.since < 3000) return touch();
    s.short = true;
  }
  if (s.c.how !== 'fifo') w.sort((x, y) => x.prio - y.prio);
  for (const r of w.slice(0, s.c.batch)) advance(r);
  touch();
}
function done(r) { const i = S.waiting.indexOf(r); if (i >= 0) S.waiting.splice(i, 1); if (r.close) r.close(); }
function advance(r) {
  if (r.gone) return done(r);
  const p = r.pieces.shift();
  if (!r.pieces.length) r.close();            // whoever knows the length has all of it
  if (S.c.how === 'random') r.prio = S.rnd();
  try {
    if (p === undefined) { done(r); r.res.end(); }
    else if (typeof p === 'function') { done(r); p(); }
    else if (p.head) { for (const h of p.early || []) if (r.res.stream) r.res.stream.additionalHeaders(h); r.res.writeHead(p.head, p.fields); }
    else r.res.write(p);
  } catch (e) { done(r); S.log.push({error: String(e)}); }
}
function cut(body) {
  const out = [], k = Math.floor(S.rnd() * (S.c.splits + 1));
  const at = [...new Set(Array.from({length: k}, () => Math.floor(S.rnd() * body.length)))].filter(x => x > 0).sort((a, b) => a - b);
  let i = 0;
  for (const x of [...at, body.length]) { if (x > i) out.push(body.subarray(i, x)); i = x; }
  return out;
}
function request(req, res) {
  const s = S;
  if (!s) return res.end();
  res.on('error', () => {});
  const r = {res, gone: false, prio: s.c.how === 'lifo' ? -s.log.length : s.rnd(), pieces: []};
  s.open++;
  s.most = Math.max(s.most, s.open);
  let closed = false;
  r.close = () => { if (!closed) { closed = true; s.open--; } };
  res.on('close', () => { r.gone = true; r.close(); });
  const sec = secure.get(req.socket.remotePort);
  if (sec && sec.cert === undefined) { const c = sec.getCertificate(); sec.cert = c && names[c.fingerprint256] || 'unknown'; sec.again = sec.isSessionReused(); }
  s.log.push({path: req.url, method: req.method, host: req.headers[':authority'] || req.headers.host, version: req.httpVersion, cert: sec ? sec.cert : 'none', again: !!(sec && sec.again)});
  const m = /^\/range\/([0-9A-F]{5})(\?mode=ntlm)?$/.exec(req.url);
  const body = m && s.c.bodies[m[1]] !== undefined ? Buffer.from(s.c.bodies[m[1]], 'latin1') : null;
  if (body === null) { r.pieces = [{head: 404, fields: {'content-length': 0}}]; s.waiting.push(r); return touch(); }
  const k = s.tries[m[1]] = (s.tries[m[1]] || 0) + 1;
  let kinds = s.c.fails[m[1]] || [], kind = 'ok';
  if (kinds[kinds.length - 1] === '*') { kinds = kinds.slice(0, -1); kind = kinds[(k - 1) % kinds.length]; }
  else if (k <= kinds.length) kind = kinds[k - 1];
  const half = body.subarray(0, Math.floor(s.rnd() * body.length));
  const f = {'content-type': 'text/plain'};
  const sized = n => s.c.frame === 'length' ? {...f, 'content-length': n} : f;
  const stream = res.stream, session = stream && stream.session, socket = req.socket;
  const reset = code => () => { r.gone = true; if (stream) stream.close(code); else socket.destroy(); };
  const early = s.c.early ? [{':status': 103, 'link': '</x>; rel=preload'}] : [];
  if (kind === 'ok') r.pieces = [{head: 200, fields: sized(body.length), early}, ...cut(body)];
  else if (/^\d\d\d /.test(kind)) {
    const b = kind.endsWith('records') ? half : kind.endsWith('text') ? Buffer.from('Service: unavailable, try: again later\r\n') : Buffer.alloc(0);
    r.pieces = [{head: +kind.slice(0, 3), fields: {...sized(b.length), ...(kind[0] === '3' ? {location: kind.endsWith('elsewhere') ? '/else/' + m[1] : 'https://api.pwnedpasswords.com/range/' + m[1] + (m[2] || '')} : {})}}, ...cut(b)];
  } else if (kind.startsWith('reset ')) r.pieces = [reset(+kind.slice(6))];
  else if (kind.startsWith('midreset ')) r.pieces = [{head: 200, fields: sized(body.length)}, ...(half.length ? [half] : []), reset(+kind.split(' ')[1])];
  else if (kind === 'short') r.pieces = [{head: 200, fields: {...f, 'content-length': body.length + 40}}, ...cut(half), () => { if (stream) res.end(); else socket.destroy(); }];
  else if (kind === 'cut' || kind === 'shut') r.pieces = [{head: 200, fields: {...f, 'content-length': body.length + 1}}, ...(half.length ? [half] : []), () => { r.gone = true; (kind === 'cut' ? raw : secure).get(socket.remotePort)[kind === 'cut' ? 'destroy' : 'destroySoon'](); }];
  else if (kind === 'goaway') r.pieces = [() => { r.gone = true; if (session) { session.goaway(0); stream.close(7); session.close(); } else socket.destroy(); }];
  else if (kind === 'hang') r.pieces = [{head: 200, fields: sized(body.length + 1)}, ...(half.length ? [half] : []), () => {}];
  else if (kind === 'hang early') r.pieces = [() => {}];
  s.waiting.push(r);
  touch();
}
const pems = {}, names = {}, contexts = {}, servers = {};
for (const name of ['good', 'wrong', 'expired', 'future', 'untrusted']) {
  pems[name] = fs.readFileSync(path.join(__dirname, name + '.pem'));
  names[new crypto.X509Certificate(pems[name]).fingerprint256] = name;
  contexts[name] = tls.createSecureContext({key: pems[name], cert: pems[name]});
}
// which certificate a handshake gets
function choose(name, cb) {
  const c = S && S.c.certs || ['good'], i = S ? S.nth++ : 0;
  if (S) S.names.push(name);
  cb(null, contexts[c[Math.min(i, c.length - 1)]]);
}
let todo = 3;
for (const proto of ['h2', 'h1', 'plain']) {
  const o = {key: pems.good, cert: pems.good, SNICallback: choose, settings: {maxConcurrentStreams: 1000}};
  const srv = proto === 'h2' ? http2.createSecureServer(o) : proto === 'h1' ? https.createServer({...o, keepAliveTimeout: 60000}) : http.createServer();
  srv.on('request', request);
  srv.on('session', s => s.on('error', () => {}));
  srv.on('sessionError', () => {});
  srv.on('tlsClientError', () => {});
  srv.on('clientError', (e, s) => s.destroy());
  srv.on('connection', s => {
    if (s.encrypted) return;
    live.add(s); raw.set(s.remotePort, s); secure.delete(s.remotePort);
    s.on('close', () => live.delete(s)); s.on('error', () => {});
    if (S) S.connections++;
  });
  srv.on('secureConnection', s => { secure.set(s.remotePort, s); s.on('error', () => {}); if (S) S.handshakes++; });
  srv.listen(0, '127.0.0.1', 512, () => { servers[proto] = srv.address().port; if (!--todo) console.log(JSON.stringify(servers)); });
}
process.on('uncaughtException', e => { if (S) S.log.push({error: 'uncaught ' + e.stack}); });
readline.createInterface({input: process.stdin}).on('line', l => {
  const c = JSON.parse(l);
  if (c.play) { fresh(c.play); console.log('{}'); }
  else { const s = S; console.log(JSON.stringify({log: s.log, most: s.most, short: !!s.short, connections: s.connections, handshakes: s.handshakes, names: s.names})); }
}).on('close', () => process.exit(0));
