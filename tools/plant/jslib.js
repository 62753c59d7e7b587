'use strict';
// What demonstrations with the browser client share: a page with the client,
// a Merkle tree, and a server over logs and maps made of such trees.
const fs = require('fs'), vm = require('vm'), path = require('path'), crypto = require('crypto');

const sha = (...b) => crypto.createHash('sha256').update(Buffer.concat(b)).digest();
const leafHash = d => sha(Buffer.from([0]), Buffer.from(d));
const node = (l, r) => sha(Buffer.from([1]), l, r);
const bin = b => Buffer.from(b).toString('latin1');
const b64 = b => Buffer.from(b).toString('base64');

class Tree {
    constructor(hashes) { this.h = hashes; }
    split(n) { let k = 1; while (k * 2 < n) { k *= 2; } return k; }
    mth(a, b) {
        if (a === b) { return sha(Buffer.alloc(0)); }
        if (b - a === 1) { return this.h[a]; }
        const k = this.split(b - a);
        return node(this.mth(a, a + k), this.mth(a + k, b));
    }
    path(m, a, b) {
        if (b - a === 1) { return []; }
        const k = this.split(b - a);
        return m - a < k ? [...this.path(m, a, a + k), this.mth(a + k, b)] : [...this.path(m, a + k, b), this.mth(a, a + k)];
    }
    sub(m, a, b, whole) {
        if (m === b - a) { return whole ? [] : [this.mth(a, b)]; }
        const k = this.split(b - a);
        return m <= k ? [...this.sub(m, a, a + k, whole), this.mth(a + k, b)] : [...this.sub(m - k, a + k, b, false), this.mth(a, a + k)];
    }
    proof(m, n) { return this.sub(m, 0, n, true); }
}

// Log is a log of entries ({input, extra} or strings).
class Log {
    constructor(entries) {
        this.e = entries.map(e => typeof e === 'string' ? { input: Buffer.from(e, 'latin1') } : e);
        this.t = new Tree(this.e.map(e => leafHash(e.input)));
    }
    root(n) { return this.t.mth(0, n); }
    // answer answers requests below the log's own path.
    answer(p) {
        let m;
        const num = n => n === 0 ? {} : { tree_size: n };
        if ((m = /^\/tree\/(\d+)$/.exec(p))) {
            const n = Number(m[1]) || this.e.length;
            return n > this.e.length ? null : { ...num(n), root_hash: n === 0 ? undefined : b64(this.root(n)) };
        }
        if ((m = /^\/tree\/(\d+)\/consistency\/(\d+)$/.exec(p))) {
            const n = Number(m[1]), f = Number(m[2]);
            return n > this.e.length || f >= n || f < 1 ? null : { from_size: f, tree_size: n, audit_path: this.t.proof(f, n).map(b64) };
        }
        if ((m = /^\/tree\/(\d+)\/inclusion\/(h\/)?([0-9a-f]+)$/.exec(p))) {
            const n = Number(m[1]), i = m[2] ? this.t.h.findIndex(h => h.toString('hex') === m[3]) : Number(m[3]);
            return n > this.e.length || i < 0 || i >= n ? null : { leaf_index: i, tree_size: n, audit_path: this.t.path(i, 0, n).map(b64) };
        }
        if ((m = /^\/entries\/(\d+)-(\d+)/.exec(p))) {
            return { values: this.e.slice(Number(m[1]), Number(m[2])).map(e => ({ leaf_input: b64(e.input), extra_data: e.extra ? b64(e.extra) : undefined })) };
        }
        return null;
    }
}

const json = o => o === null ? { status: 404, headers: {}, body: '' } : { status: 200, headers: {}, body: JSON.stringify(o) };

// page loads the client; handler answers its requests.
function page(handler) {
    let tasks = [], timers = [];
    class XMLHttpRequest {
        constructor() { this.responseType = ''; this.status = 0; this.response = null; this.h = []; }
        open(method, url) { this.q = { method, url: String(url), path: new URL(url).pathname, headers: {} }; }
        setRequestHeader(k, v) { this.q.headers[k.toLowerCase()] = String(v); }
        getResponseHeader(k) {
            const n = Object.keys(this.a.headers).find(x => x.toLowerCase() === k.toLowerCase());
            return n === undefined ? null : this.a.headers[n];
        }
        send(data) {
            let b = null;
            if (data !== null && data !== undefined) {
                b = typeof data === 'string' ? Buffer.from(data, 'utf8') : Buffer.from(data.buffer ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : new Uint8Array(data));
            }
            this.q.body = b;
            const a = handler(this.q);
            tasks.push(() => {
                this.readyState = 4;
                if (a === undefined) { if (this.onerror) { this.onerror({}); } return; }
                this.a = a;
                this.status = a.status;
                const body = Buffer.from(a.body);
                const u = new box.Uint8Array(body.length);
                u.set(body);
                this.response = u.buffer;
                if (this.onload) { this.onload({}); }
            });
        }
    }
    const quiet = () => { };
    const box = { XMLHttpRequest, atob, btoa, console: { log: quiet, warn: quiet, error: quiet }, setTimeout: f => { timers.push(f); } };
    box.window = box;
    vm.createContext(box);
    box.Uint8Array = vm.runInContext('Uint8Array', box);
    vm.runInContext(fs.readFileSync(path.join(process.cwd(), 'assets/static/continusec.js'), 'utf8'), box);
    // call runs code that may use args, S and F, and returns what happened
    box.call = (code, args) => {
        const events = [];
        box.args = args || {};
        box.S = (...a) => { events.push(['success', ...a]); };
        box.F = (...a) => { events.push(['failure', ...a]); };
        box.E = (...a) => { events.push(['each', ...a]); };
        tasks = []; timers = [];
        try {
            vm.runInContext('(function () {' + code + '\n})()', box);
            for (let n = 0; n < 1000 && (tasks.length || timers.length); n++) { (tasks.length ? tasks : timers).shift()(); }
        } catch (err) {
            events.push(['throw', String(err)]);
        }
        return events;
    };
    vm.runInContext("var client = new ContinusecClient('1', 'key', 'http://server.example');", box);
    return box;
}

// server answers for logs by the path below the account, as in {'/log/l': log}.
const server = logs => q => {
    const p = q.path.replace(/^\/v2\/account\/\d+/, '');
    for (const k of Object.keys(logs)) {
        if (p.startsWith(k + '/')) {
            const a = logs[k].answer(p.slice(k.length), q);
            return a && a.status ? a : json(a);
        }
    }
    return json(null);
};

const check = (ok, ...what) => {
    if (!ok) {
        console.log(...what);
        process.exit(1);
    }
};
module.exports = { Tree, Log, page, server, json, check, leafHash, node, sha, bin, b64 };
