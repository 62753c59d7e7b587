// Runs the browser client with just enough of a browser around it. Talks with
// its parent in lines of JSON on stdin and stdout.
'use strict';
const fs = require('fs'), vm = require('vm');

let buf = Buffer.alloc(0);
function readLine() {
    let parts = [buf];
    for (;;) {
        const last = parts[parts.length - 1], at = last.indexOf(10);
        if (at >= 0) {
            parts[parts.length - 1] = last.subarray(0, at);
            buf = Buffer.from(last.subarray(at + 1));
            return Buffer.concat(parts).toString('utf8');
        }
        const b = Buffer.alloc(1 << 16);
        let n = 0;
        try {
            n = fs.readSync(0, b, 0, b.length, null);
        } catch (e) {
            if (e.code === 'EAGAIN') { continue; }
            if (e.code !== 'EOF') { throw e; }
        }
        if (n === 0) { process.exit(0); }
        parts.push(b.subarray(0, n));
    }
}
function writeLine(o) {
    const b = Buffer.from(JSON.stringify(o) + '\n');
    for (let at = 0; at < b.length;) {
        try {
            at += fs.writeSync(1, b, at, b.length - at);
        } catch (e) {
            if (e.code !== 'EAGAIN') { throw e; }
        }
    }
}

// what waits to be done: tasks in order, and timers
let tasks = [], timers = [], now = 0, seq = 0, events = [];

function note(kind, args) {
    events.push({ kind: kind, args: Array.prototype.map.call(args, a => show(a, 0)) });
}
// what the page does runs as a script, so that what it promised follows it
const script = new vm.Script('__go()');
let go = null;
function attempt(f) {
    try {
        go = f;
        script.runInContext(box);
    } catch (e) {
        note('throw', [e]);
    }
}

const token = /^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$/;
function byteString(s) {
    s = String(s);
    for (let i = 0; i < s.length; i++) {
        if (s.charCodeAt(i) > 255) { throw new TypeError('not a byte string'); }
    }
    return s;
}

let realm;
class XMLHttpRequest {
    constructor() {
        this.status = 0; this.response = null; this.responseType = ''; this.onload = null; this.onerror = null; this.onloadend = null;
        this.readyState = 0;
        this._headers = []; this._answer = null; this._listeners = [];
    }
    open(method, url, async) {
        if (arguments.length < 2) { throw new TypeError('open needs a method and a URL'); }
        if (!token.test(method)) { throw new SyntaxError('bad method'); }
        let u;
        try {
            u = new URL(String(url), 'http://server.example/');
        } catch (e) {
            throw new SyntaxError('bad URL');
        }
        u.hash = '';
        const up = String(method).toUpperCase();
        this._method = ['DELETE', 'GET', 'HEAD', 'OPTIONS', 'POST', 'PUT'].indexOf(up) >= 0 ? up : String(method);
        this._url = u.href; this._sync = async === false; this._headers = []; this._sent = false; this.readyState = 1;
    }
    setRequestHeader(name, value) {
        if (this.readyState !== 1 || this._sent) { throw new Error('InvalidStateError'); }
        name = byteString(name);
        value = byteString(value).replace(/^[\t\n\r ]+|[\t\n\r ]+$/g, '');
        if (!token.test(name) || /[\0\r\n]/.test(value)) { throw new SyntaxError('bad header'); }
        this._headers.push([name, Buffer.from(value, 'latin1').toString('base64')]);
    }
    send(data) {
        if (this.readyState !== 1 || this._sent) { throw new Error('InvalidStateError'); }
        this._sent = true;
        let body = null;
        if (this._method !== 'GET' && this._method !== 'HEAD' && data !== null && data !== undefined) {
            if (realm.ArrayBuffer.isView(data)) {
                body = Buffer.from(data.buffer, data.byteOffset, data.byteLength);
            } else if (Object.prototype.toString.call(data) === '[object ArrayBuffer]') {
                body = Buffer.from(data);
            } else {
                body = Buffer.from(String(data).toWellFormed(), 'utf8');
                if (!this._headers.some(h => h[0].toLowerCase() === 'content-type')) {
                    this._headers.push(['Content-Type', Buffer.from('text/plain;charset=UTF-8').toString('base64')]);
                }
            }
        }
        writeLine({ request: { method: this._method, url: this._url, headers: this._headers, body: body === null ? null : body.toString('base64'), has: body !== null } });
        const a = JSON.parse(readLine());
        tasks.push(() => {
            this.readyState = 4;
            if (a.failed) {
                this._fire('readystatechange');
                this._fire('error');
            } else {
                this._answer = a;
                this.status = a.status;
                const b = Buffer.from(a.body || '', 'base64');
                if (this.responseType === 'arraybuffer') {
                    const r = new realm.Uint8Array(b.length);
                    r.set(b);
                    this.response = r.buffer;
                } else {
                    this.response = b.toString('utf8');
                }
                this._fire('readystatechange');
                this._fire('load');
            }
            this._fire('loadend');
        });
    }
    _fire(type) {
        const e = { type: type, target: this, currentTarget: this };
        const h = this['on' + type];
        if (typeof h === 'function') { attempt(() => h.call(this, e)); }
        for (const l of this._listeners.filter(l => l[0] === type)) {
            attempt(() => typeof l[1] === 'function' ? l[1].call(this, e) : l[1].handleEvent(e));
        }
    }
    addEventListener(type, f) { if (f && !this._listeners.some(l => l[0] === type && l[1] === f)) { this._listeners.push([type, f]); } }
    removeEventListener(type, f) { this._listeners = this._listeners.filter(l => l[0] !== type || l[1] !== f); }
    overrideMimeType() { }
    get responseText() {
        if (this.responseType !== '' && this.responseType !== 'text') { throw new Error('InvalidStateError'); }
        return this.response === null ? '' : this.response;
    }
    getResponseHeader(name) {
        if (this._answer === null) { return null; }
        const v = this._answer.headers.filter(h => h[0].toLowerCase() === String(name).toLowerCase()).map(h => Buffer.from(h[1] || '', 'base64').toString('latin1'));
        return v.length === 0 ? null : v.join(', ');
    }
    getAllResponseHeaders() { return this._answer === null ? '' : this._answer.headers.map(h => h[0].toLowerCase() + ': ' + Buffer.from(h[1] || '', 'base64').toString('latin1') + '\r\n').join(''); }
    abort() { }
}

const quiet = () => { };
const box = {
    XMLHttpRequest: XMLHttpRequest, btoa: btoa, atob: atob, TextEncoder: TextEncoder, TextDecoder: TextDecoder, URL: URL,
    console: { log: quiet, warn: quiet, error: quiet, info: quiet },
    setTimeout: (f, ms, ...args) => { timers.push({ at: now + (Number(ms) > 0 ? Number(ms) : 0), seq: ++seq, f: () => f(...args) }); return seq; },
    clearTimeout: id => { timers = timers.filter(t => t.seq !== id); },
};
box.window = box;
box.self = box;
box.__go = () => { const f = go; go = null; f(); };
vm.createContext(box, { microtaskMode: 'afterEvaluate' });
realm = vm.runInContext('({ArrayBuffer: ArrayBuffer, Uint8Array: Uint8Array, JSON: JSON, Error: Error})', box);

// show makes a value fit for the parent.
function show(v, depth) {
    if (v === undefined) { return { u: true }; }
    if (v === null) { return { z: true }; }
    switch (typeof v) {
    case 'string': return { s: v };
    case 'number': return { n: Object.is(v, -0) ? '-0' : String(v) };
    case 'boolean': return { b: v };
    case 'bigint': return { n: String(v) };
    case 'function': case 'symbol': return { f: true };
    }
    if (depth > 6) { return { f: true }; }
    if (Object.prototype.toString.call(v) === '[object Array]') { return { a: Array.prototype.map.call(v, e => show(e, depth + 1)) }; }
    if (Object.prototype.toString.call(v) === '[object Error]' || Object.prototype.toString.call(v) === '[object DOMException]') { return { e: String(v) }; }
    const o = {};
    for (let p = Object.getPrototypeOf(v); p !== null && p !== undefined && Object.getPrototypeOf(p) !== null; p = Object.getPrototypeOf(p)) {
        for (const k of Object.getOwnPropertyNames(p)) {
            const d = Object.getOwnPropertyDescriptor(p, k);
            if (/^get[A-Z]/.test(k) && typeof d.value === 'function' && d.value.length === 0) {
                try {
                    o[k] = show(v[k](), depth + 1);
                } catch (e) {
                    o[k] = { x: String(e) };
                }
            }
        }
    }
    return { o: o };
}

box.__note = note;
for (const [f, kind] of [['S', 'success'], ['F', 'failure'], ['E', 'each'], ['R', 'result']]) {
    vm.runInContext('var ' + f + ' = function () { __note("' + kind + '", arguments); };', box);
}

const setup = JSON.parse(readLine());
vm.runInContext(setup.source, box, { filename: 'continusec.js' });
const compiled = new Map();
writeLine({ ready: true });
for (;;) {
    const q = JSON.parse(readLine());
    tasks = []; timers = []; now = 0; events = [];
    let f = compiled.get(q.code);
    if (f === undefined) {
        f = vm.runInContext('(function (args) {' + q.code + '\n})', box, { filename: 'call.js' });
        compiled.set(q.code, f);
    }
    const args = realm.JSON.parse(q.args);
    attempt(() => f(args));
    let waits = 0;
    for (;;) {
        if (tasks.length > 0) {
            let i = 0;
            if (q.pick && tasks.length > 1) {
                writeLine({ choose: tasks.length });
                i = JSON.parse(readLine());
            }
            tasks.splice(i, 1)[0]();
        } else if (timers.length > 0 && waits < q.waits) {
            waits++;
            timers.sort((a, b) => a.at - b.at || a.seq - b.seq);
            const t = timers.shift();
            now = t.at;
            attempt(t.f);
        } else {
            break;
        }
    }
    writeLine({ done: { events: events, waiting: timers.length > 0, waited: now } });
}
