// One simulated run of the page and its worker: real sources, everything around them simulated.
import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';
import { Choices, Rng, mix, hashString } from './util.mjs';
import { Element, EventTarget_, fileList, parseHtml } from './dom.mjs';
import { Wasm, unguard, paletteOf, goodPalette, goodColor } from './wasm.mjs';

export const WEB = process.env.SIM_WEB_DIR || '/repo/image-palette-recoloring-web';
const MAX_TASKS = 60000;
const COLOR = /^#[0-9a-f]{6}$/i;

export function hex(c) { return '#' + c.map((x) => x.toString(16).padStart(2, '0')).join(''); }
export function unhex(s) { return [1, 3, 5].map((i) => parseInt(s.slice(i, i + 2), 16)); }

/** The picture of a file: RGBA pixels from a seed. */
export function bitmapOf(f) {
    const r = new Rng(mix(f.seed, 0x1111));
    const data = new Uint8ClampedArray(f.w * f.h * 4);
    for (let i = 0; i < data.length; i++) data[i] = i % 4 === 3 ? 255 : r.next() >>> 24;
    return { w: f.w, h: f.h, data, seed: f.seed };
}

function rgb(b) {
    const out = new Uint8Array(b.w * b.h * 3);
    for (let i = 0; i < b.w * b.h; i++) for (let k = 0; k < 3; k++) out[3 * i + k] = b.data[4 * i + k];
    return out;
}

const sources = new Map();
function source(file) {
    if (!sources.has(file)) sources.set(file, fs.readFileSync(file, 'utf8'));
    return sources.get(file);
}

class BlobStub {
    constructor(parts, o) {
        this.type = o?.type ?? '';
        Object.defineProperty(this, '_bitmap', { value: null, writable: true, enumerable: false });
        Object.defineProperty(this, '_birth', { value: 0, writable: true, enumerable: false });
        this.size = 0;
    }
    async arrayBuffer() { return new ArrayBuffer(0); }
    async text() { return ''; }
}

function sameBytes(a, b) {
    if (a.length !== b.length) return false;
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
    return true;
}

export class Sim {
    constructor(s) {
        this.s = s;
        this.choices = new Choices(mix(s.seed, 0x5eed), s.tape);
        this.now = 0;
        this.queue = new Map();
        this.counts = {};
        this.found = [];
        this.trace = [];
        this.faultsOn = true;
        this.nFault = 0;
        this.faults = new Map();
        for (const [k, n, w] of s.faults) this.faults.set(k + '#' + n, w);
        this.blobs = 0;
        this.notes = [];
        this.pending = new Map(); // requests without a reply
        this.requests = 0;
        this.userEvent = false;
        this.signature = 0;
        this.imgs = new Set();
    }

    // -------------------------------------------------------------- services

    count(k, n = 1) { this.counts[k] = (this.counts[k] ?? 0) + n; }
    note(kind, e) { this.count('page_' + kind); if (this.notes.length < 20) this.notes.push(`${kind}: ${e?.message ?? e}`); }
    violation(prop, msg) { if (this.found.length < 50) this.found.push({ prop, msg, at: this.now }); }
    fault(kind, n) {
        if (!this.faultsOn) return undefined;
        return this.faults.get(kind + '#' + n);
    }
    fired(name) { this.count(name); this.nFault++; }
    nth(kind) { const n = this.counts['n:' + kind] ?? 0; this.count('n:' + kind); return n; }
    post(source, label, f) {
        if (!this.queue.has(source)) this.queue.set(source, []);
        this.queue.get(source).push({ label, f });
    }
    fieldSet(el, user) {
        el._hist.push({ at: this.now, v: el.value, user: user || this.userEvent });
    }

    // -------------------------------------------------------------- realms

    realm(name, globals) {
        const ctx = vm.createContext({}, { name });
        const g = vm.runInContext('globalThis', ctx);
        const intr = vm.runInContext('({Error, TypeError, RangeError, Promise, Array, Object, ArrayBuffer, Uint8ClampedArray, Uint8Array, Map, Set, Date})', ctx);
        const realm = { ctx, global: g, plain: {}, ...intr };
        realm.RuntimeError = vm.runInContext('(class RuntimeError extends Error { get name() { return "RuntimeError"; } })', ctx);
        realm.DOMException = vm.runInContext('(class DOMException extends Error { constructor(m, n) { super(m); Object.defineProperty(this, "name", { value: n ?? "Error" }); } })', ctx);
        const rnd = new Rng(mix(this.s.seed, hashString(name)));
        vm.runInContext('(f, now) => { Math.random = f; const D = Date; globalThis.Date = class extends D { constructor(...a) { if (a.length) super(...a); else super(now()); } static now() { return now(); } }; }', ctx)(
            () => rnd.next() / 4294967296, () => 1700000000000 + this.now);
        const silent = () => {};
        const sim = this;
        const timers = new Map();
        let timerId = 1;
        const timer = (f, label, repeat) => {
            const id = timerId++;
            timers.set(id, true);
            const arm = () => sim.post(name + '-timer', label, () => {
                if (!timers.get(id)) return;
                if (repeat) arm(); else timers.delete(id);
                sim.guard(f);
            });
            arm();
            return id;
        };
        Object.assign(g, {
            self: g, console: { log: silent, warn: silent, error: silent, info: silent, debug: silent, time: silent, timeEnd: silent, assert: silent },
            setTimeout: (f, ms, ...a) => timer(() => f(...a), 'timeout'), clearTimeout: (id) => timers.delete(id),
            setInterval: (f, ms, ...a) => timer(() => f(...a), 'interval', true), clearInterval: (id) => timers.delete(id),
            requestAnimationFrame: (f) => timer(() => f(sim.now), 'frame'), cancelAnimationFrame: (id) => timers.delete(id),
            requestIdleCallback: (f) => timer(() => f({ timeRemaining: () => 10, didTimeout: false }), 'idle'),
            queueMicrotask: (f) => queueMicrotask(() => sim.guard(f)),
            performance: { now: () => sim.now, mark: silent, measure: silent },
            structuredClone: (v, o) => sim.clone(v, realm, realm, o?.transfer),
            AbortController, AbortSignal, URLSearchParams, TextEncoder,
            TextDecoder: class { decode(v) { return v === undefined ? '' : new TextDecoder().decode(unguard(v)); } },
            Blob: BlobStub, File: BlobStub, DOMException: realm.DOMException,
            navigator: { hardwareConcurrency: 4, userAgent: 'simulated' }, location: { href: 'http://localhost/index.html', origin: 'http://localhost', search: '', hash: '' },
            crypto: { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = rnd.next(); return a; }, randomUUID: () => 'uuid-' + rnd.next() },
            ImageData: this.imageData(realm), OffscreenCanvas: this.canvas(realm),
            createImageBitmap: (src) => new realm.Promise((ok, no) => sim.post('bitmap' + sim.nth('bitmap'), 'bitmap', () => {
                const b = src._img ? (src._img.state === 'ok' ? src._img.bitmap : null) : src._bitmap;
                if (b) ok({ width: b.w, height: b.h, _bitmap: b, close() {} }); else no(new realm.DOMException('cannot decode', 'InvalidStateError'));
            })),
            ...globals(realm),
        });
        return realm;
    }

    guard(f) {
        try { const r = f(); r?.then?.(undefined, (e) => this.note('unhandled', e)); } catch (e) { this.note('exception', e); }
    }

    async load(realm, file) {
        const make = (f) => new vm.SourceTextModule(source(f), {
            identifier: f, context: realm.ctx,
            initializeImportMeta: (m) => { m.url = 'http://localhost/' + path.basename(f); },
            importModuleDynamically: async (spec) => { const m = await link(spec, { identifier: f }); if (m.status === 'unlinked') await m.link(link); await m.evaluate(); return m; },
        });
        const cache = new Map();
        const link = async (spec, ref) => {
            if (spec.startsWith('.')) {
                const f = path.resolve(path.dirname(ref.identifier), spec);
                if (!cache.has(f)) cache.set(f, make(f));
                return cache.get(f);
            }
            if (!cache.has(spec)) {
                const e = this.packages(realm)[spec];
                if (!e) throw new Error('unknown package ' + spec);
                cache.set(spec, new vm.SyntheticModule(Object.keys(e), function () { for (const k of Object.keys(e)) this.setExport(k, e[k]); }, { context: realm.ctx, identifier: spec }));
            }
            return cache.get(spec);
        };
        const m = make(file);
        await m.link(link);
        return m;
    }

    packages(realm) {
        const sim = this;
        class Bytes { constructor(d) { this.data = new realm.Uint8Array(d ?? 0); } }
        return {
            '@bjorn3/browser_wasi_shim': {
                WASI: class { constructor(a, e, f) { this.wasiImport = {}; this.args = a; this.env = e; this.fds = f; } start() {} initialize() {} },
                File: Bytes, OpenFile: class { constructor(f) { this.file = f; } }, PreopenDirectory: class {}, Directory: class {}, Fd: class {},
                ConsoleStdout: { lineBuffered: () => ({}) }, strace: (x) => x,
            },
            'async-thread-worker': {
                Thread: class {
                    constructor(url) { sim.startWorker(String(url)); }
                    sendRequest(payload, transfer) { return sim.sendRequest(realm, payload, transfer); }
                    cancelRequest() {}
                    terminate() {}
                },
                ThreadWorker: class {
                    constructor() {
                        if (sim.worker.handler) sim.note('exception', 'second ThreadWorker');
                        sim.worker.handler = this;
                    }
                    onRequest() {}
                    onCancel() {}
                    sendResponse(id, payload, transfer) { sim.reply(realm, id, true, payload, transfer); }
                    sendError(id, payload, transfer) { sim.reply(realm, id, false, payload, transfer); }
                },
            },
        };
    }

    // -------------------------------------------------------------- messages

    clone(v, from, to, transfer) {
        const list = transfer ? Array.from(unguard(transfer)) : [];
        const bufs = new Map();
        const bad = (m) => { throw new from.DOMException(m, 'DataCloneError'); };
        const isBuf = (x) => Object.prototype.toString.call(x) === '[object ArrayBuffer]';
        for (const b of list) {
            if (!isBuf(b)) bad('not transferable');
            if (b.detached) bad('an ArrayBuffer is detached');
            if (bufs.has(b)) bad('a buffer is listed twice');
            if (this.wasm && this.wasm.buffers.has(b)) bad('the memory of the module cannot be transferred');
            bufs.set(b, null);
        }
        const seen = new Map();
        const copyBuf = (b) => {
            if (bufs.get(b)) return bufs.get(b);
            if (b.detached) bad('an ArrayBuffer is detached');
            const n = new to.ArrayBuffer(b.byteLength);
            new Uint8Array(n).set(new Uint8Array(b));
            bufs.set(b, n);
            return n;
        };
        const go = (x) => {
            if (x === null || (typeof x !== 'object' && typeof x !== 'function')) {
                if (typeof x === 'symbol') bad('a symbol cannot be cloned');
                return x;
            }
            if (typeof x === 'function') bad('a function cannot be cloned');
            const g = unguard(x);
            if (g !== x) {
                this.wasm.bad('W02', 'a view of the module\'s whole memory was sent');
                x = g;
            }
            if (seen.has(x)) return seen.get(x);
            if (x instanceof BlobStub) return x;
            if (x instanceof EventTarget_) bad('an element cannot be cloned');
            if (isBuf(x)) return copyBuf(x);
            if (ArrayBuffer.isView(x)) {
                const name = Object.prototype.toString.call(x).slice(8, -1);
                const C = to.plain[name] ?? to.global[name];
                const b = copyBuf(x.buffer);
                const r = name === 'DataView' ? new C(b, x.byteOffset, x.byteLength) : new C(b, x.byteOffset, x.length);
                seen.set(x, r);
                return r;
            }
            const tag = Object.prototype.toString.call(x);
            if (tag === '[object Error]') { const e = new to.Error(x.message); seen.set(x, e); return e; }
            if (tag === '[object Array]') {
                const r = new to.Array(x.length);
                seen.set(x, r);
                for (let i = 0; i < x.length; i++) r[i] = go(x[i]);
                return r;
            }
            if (tag === '[object Map]') { const r = new to.Map(); seen.set(x, r); for (const [k, v] of x) r.set(go(k), go(v)); return r; }
            if (tag === '[object Set]') { const r = new to.Set(); seen.set(x, r); for (const v of x) r.add(go(v)); return r; }
            if (tag === '[object Promise]') bad('a promise cannot be cloned');
            const r = new to.Object();
            seen.set(x, r);
            for (const k of Object.keys(x)) r[k] = go(x[k]);
            return r;
        };
        const out = go(v);
        for (const b of list) { copyBuf(b); b.transfer(); }
        return out;
    }

    sendRequest(realm, payload, transfer) {
        const id = this.requests++;
        return new realm.Promise((ok, no) => {
            const p = this.clone(payload, realm, this.worker.realm, transfer);
            this.pending.set(id, { ok, no, replies: 0, method: payload?.method });
            this.count('requests');
            this.worker.inbox.push({ id, p });
            if (this.worker.started) this.deliver();
        });
    }

    deliver() {
        for (const { id, p } of this.worker.inbox.splice(0)) {
            this.post('to-worker', 'request ' + p?.method, () => {
                const h = this.worker.handler;
                if (!h) return;
                this.guard(() => h.onRequest(id, p));
            });
        }
    }

    reply(realm, id, ok, payload, transfer) {
        const p = this.clone(payload, realm, this.page.realm, transfer);
        const r = this.pending.get(id);
        if (!r) {
            this.violation('W04', 'a reply belongs to no request');
            return;
        }
        r.replies++;
        if (r.replies > 1) {
            this.violation('W04', `the request ${r.method} got a second reply`);
            return;
        }
        if (!ok) this.count('error_replies');
        this.post('to-page', ok ? 'response' : 'error', () => { r.done = true; ok ? r.ok(p) : r.no(p); });
    }

    // -------------------------------------------------------------- the worker

    startWorker(url) {
        const sim = this;
        const w = this.worker = { inbox: [], started: false, handler: null };
        w.realm = this.realm('worker', (realm) => ({
            fetch: (u) => new realm.Promise((ok, no) => sim.post('wasm', 'fetch', () => {
                const f = sim.fault('wasm', 0);
                if (f === 'fetch') { sim.fired('wasm_load_failures'); sim.noWasm = true; no(new realm.TypeError('Failed to fetch')); } else ok({ ok: true, status: 200, wasm: true, arrayBuffer: async () => new realm.ArrayBuffer(8) });
            })),
            WebAssembly: sim.webAssembly(realm),
            postMessage: () => {}, addEventListener: () => {}, importScripts: () => {}, close: () => {},
        }));
        this.wasm = new Wasm(this, w.realm, this.s);
        this.wasm.guardRealm(w.realm);
        const file = path.join(WEB, 'src/js', path.basename(url.split('?')[0]));
        this.ready.push(this.load(w.realm, file).then((m) => {
            this.post('worker-start', 'worker starts', () => {
                m.evaluate().then(() => {
                    w.started = true;
                    this.deliver();
                }, (e) => this.note('worker_failed', e));
            });
        }));
    }

    webAssembly(realm) {
        const sim = this;
        const task = (label, f) => new realm.Promise((ok, no) => sim.post('wasm', label, () => { try { ok(f()); } catch (e) { no(e); } }));
        const compile = async (src) => {
            await src;
            return task('compile', () => {
                if (sim.fault('wasm', 0) === 'compile') { sim.fired('wasm_load_failures'); sim.noWasm = true; throw new realm.Error('CompileError'); }
                return { module: true };
            });
        };
        const instantiate = async (m, imports) => {
            await m;
            return task('instantiate', () => {
                if (sim.fault('wasm', 0) === 'instantiate') { sim.fired('wasm_load_failures'); sim.noWasm = true; throw new realm.Error('LinkError'); }
                return { exports: sim.wasm.exports() };
            });
        };
        return {
            Memory: class { constructor(d) { this.descriptor = d; } get buffer() { return (this.b ??= new realm.ArrayBuffer(0)); } grow() { return 0; } },
            Module: class {}, Instance: class {}, Table: class {}, Global: class {},
            RuntimeError: realm.RuntimeError, CompileError: realm.Error, LinkError: realm.Error,
            validate: () => true, compile, compileStreaming: compile,
            instantiate: async (m, i) => { const mod = await m; const inst = await instantiate(mod, i); return mod?.module ? inst : { module: {}, instance: inst }; },
            instantiateStreaming: async (m, i) => { const mod = await compile(m); return { module: mod, instance: await instantiate(mod, i) }; },
        };
    }

    // -------------------------------------------------------------- pictures

    imageData(realm) {
        return class ImageData {
            constructor(a, b, c) {
                if (typeof a === 'number') { this.width = a; this.height = b; this.data = new realm.Uint8ClampedArray(a * b * 4); } else {
                    a = unguard(a);
                    if (a.length === 0 || a.length % 4 || a.length !== 4 * b * (c ?? a.length / 4 / b)) throw new realm.DOMException('The input data length does not fit', 'IndexSizeError');
                    this.data = a; this.width = b; this.height = c ?? a.length / 4 / b;
                }
            }
        };
    }

    canvas(realm) {
        const sim = this;
        return class OffscreenCanvas {
            constructor(w, h) { this.width = w; this.height = h; Object.defineProperty(this, 'd', { value: null, writable: true }); }
            get px() { const n = this.width * this.height * 4; if (!this.d || this.d.length !== n) this.d = new Uint8ClampedArray(n); return this.d; }
            getContext(k) {
                if (k !== '2d') return null;
                const c = this;
                return (this.ctx ??= {
                    canvas: c,
                    drawImage(src, dx = 0, dy = 0) {
                        const b = src._img ? (src._img.state === 'ok' ? src._img.bitmap : src._img.state === 'broken' ? null : { w: 0, h: 0 }) : src._bitmap ?? (src.px ? { w: src.width, h: src.height, data: src.px } : { w: 0, h: 0 });
                        if (!b) throw new realm.DOMException('The image is broken', 'InvalidStateError');
                        for (let y = 0; y < b.h; y++) {
                            for (let x = 0; x < b.w; x++) {
                                if (x + dx < 0 || y + dy < 0 || x + dx >= c.width || y + dy >= c.height) continue;
                                for (let k = 0; k < 4; k++) c.px[4 * ((y + dy) * c.width + x + dx) + k] = b.data[4 * (y * b.w + x) + k];
                            }
                        }
                    },
                    clearRect() { c.px.fill(0); }, fillRect() {}, save() {}, restore() {},
                    createImageData(w, h) { return new realm.global.ImageData(w, h); },
                    getImageData(x0, y0, w, h) {
                        if (!w || !h) throw new realm.DOMException('The source width is 0', 'IndexSizeError');
                        if (sim.fault('canvas', sim.nth('canvas')) !== undefined) { sim.fired('canvas_failures'); throw new realm.DOMException('Out of memory', 'InvalidStateError'); }
                        const out = new realm.global.ImageData(w, h);
                        for (let y = 0; y < h; y++) for (let x = 0; x < w; x++) for (let k = 0; k < 4; k++) {
                            if (x + x0 < c.width && y + y0 < c.height) out.data[4 * (y * w + x) + k] = c.px[4 * ((y + y0) * c.width + x + x0) + k];
                        }
                        return out;
                    },
                    putImageData(d, dx = 0, dy = 0) {
                        for (let y = 0; y < d.height; y++) for (let x = 0; x < d.width; x++) for (let k = 0; k < 4; k++) {
                            if (x + dx < c.width && y + dy < c.height) c.px[4 * ((y + dy) * c.width + x + dx) + k] = d.data[4 * (y * d.width + x) + k];
                        }
                    },
                });
            }
            make() {
                const b = new BlobStub([], { type: 'image/png' });
                b._bitmap = { w: this.width, h: this.height, data: this.px.slice() };
                b._birth = ++sim.blobs;
                b.size = 100 + this.px.length;
                return b;
            }
            convertToBlob() {
                const b = this.make();
                const n = sim.nth('blob');
                return new realm.Promise((ok, no) => sim.post('blob' + n, 'blob', () => {
                    if (sim.fault('blob', n) !== undefined) { sim.fired('blob_failures'); no(new realm.DOMException('encoding failed', 'EncodingError')); } else ok(b);
                }));
            }
            toBlob(f) { const b = this.make(); sim.post('blob' + sim.nth('blob'), 'blob', () => sim.guard(() => f(b))); }
            toDataURL() { return 'data:image/png;base64,' + sim.page.data(this.make()); }
            transferToImageBitmap() { return { width: this.width, height: this.height, _bitmap: { w: this.width, h: this.height, data: this.px.slice() }, close() {} }; }
            addEventListener() {}
        };
    }

    // -------------------------------------------------------------- the page

    startPage() {
        const sim = this;
        const page = this.page = {
            urls: new Map(), // every object URL ever: {blob, live}
            available: new Map(),
            dataUrls: [],
            loaded: false,
            shown: 0,
            data: (b) => page.dataUrls.push(b) - 1,
            absolute: (u) => (/^[a-z]+:/i.test(u) ? u : 'http://localhost/' + u.replace(/^\.?\//, '')),
        };
        page.setImage = (el, url) => {
            const img = el._img = { state: 'loading', bitmap: null };
            if (!url) { img.state = 'none'; el._img = null; return; }
            const entry = url.startsWith('blob:') ? page.urls.get(url) : url.startsWith('data:') ? { live: true, blob: page.dataUrls[Number(url.split(',')[1])] } : url === 'http://localhost/example.png' ? { live: true, blob: page.example } : null;
            const blob = entry && (entry.live ? entry.blob : null);
            if (page.available.has(url)) { img.state = 'ok'; img.bitmap = page.available.get(url); }
            const fail = img.state !== 'ok' && sim.fault('image', sim.nth('image')) !== undefined;
            el._loadId ??= 'image' + sim.nth('element');
            sim.post(el._loadId, 'image', () => {
                if (el._img !== img) return;
                if (img.state === 'ok' || (blob && blob._bitmap && !fail)) {
                    if (img.state !== 'ok') { img.bitmap = blob._bitmap; img.state = 'ok'; }
                    page.available.set(url, img.bitmap);
                    if (el === page.srcImg) sim.trigger('load', img.bitmap);
                    el.dispatchEvent({ type: 'load', bubbles: false });
                } else {
                    if (fail) sim.fired('image_load_failures');
                    img.state = 'broken';
                    el.dispatchEvent({ type: 'error', bubbles: false });
                }
                img.waiting?.forEach((f) => f());
            });
            if (el === page.dstImg && entry?.blob) {
                if (entry.blob._birth < page.shown) sim.violation('W03', 'an older result replaced a newer one in the output image');
                page.shown = Math.max(page.shown, entry.blob._birth);
            }
        };
        page.decodeImage = (el) => new page.realm.Promise((ok, no) => {
            const img = el._img;
            const end = () => (img?.state === 'ok' && el._img === img ? ok() : no(new page.realm.DOMException('cannot decode', 'EncodingError')));
            if (!img || img.state !== 'loading') sim.post('decode' + sim.nth('decode'), 'decode', end);
            else (img.waiting ??= []).push(end);
        });
        page.realm = this.realm('page', (realm) => {
            const g = realm.global;
            const win = new EventTarget_(sim);
            for (const k of ['addEventListener', 'removeEventListener', 'dispatchEvent']) g[k] = win[k].bind(win);
            page.window = win;
            Object.defineProperty(win, 'onload', { get: () => g.onload, configurable: true });
            let urlNo = 0;
            class URL_ extends URL {
                static createObjectURL(b) {
                    if (!(b instanceof BlobStub)) throw new realm.TypeError('not a Blob');
                    const u = 'blob:http://localhost/' + (++urlNo).toString(16).padStart(8, '0');
                    page.urls.set(u, { blob: b, live: true });
                    sim.count('object_urls');
                    return u;
                }
                static revokeObjectURL(u) {
                    const e = page.urls.get(String(u));
                    if (!e) return;
                    if (!e.live) sim.violation('W05', 'an object URL was revoked twice');
                    e.live = false;
                }
            }
            return {
                window: g, URL: URL_, top: g, parent: g,
                Image: class { constructor() { return new Element(sim, 'img'); } },
                HTMLElement: Element, Element, HTMLImageElement: Element, Node: Element,
                Event: class { constructor(t, o) { this.type = t; this.bubbles = !!o?.bubbles; } }, CustomEvent: class { constructor(t, o) { this.type = t; this.bubbles = !!o?.bubbles; this.detail = o?.detail; } },
                EventTarget: EventTarget_,
                alert: () => {}, confirm: () => true, getComputedStyle: (e) => e.style,
                fetch: (u) => new realm.Promise((ok, no) => sim.post('fetch', 'fetch', () => {
                    const f = sim.fault('fetch', sim.nth('fetch'));
                    if (f !== undefined) sim.fired('fetch_failures');
                    if (f === 'reject') return no(new realm.TypeError('Failed to fetch'));
                    const blob = new BlobStub([], { type: f ? 'text/html' : 'image/png' });
                    if (f === undefined && /example\.png$/.test(String(u))) blob._bitmap = page.example._bitmap;
                    const body = () => new realm.Promise((o, n) => sim.post('fetch', 'body', () => (f === 'body' ? n(new realm.TypeError('network error')) : o(blob))));
                    ok({ ok: f !== '404', status: f === '404' ? 404 : 200, blob: body, arrayBuffer: async () => new realm.ArrayBuffer(0), text: async () => '' });
                })),
                FileReader: class extends EventTarget_ {
                    constructor() { super(sim); }
                    readAsDataURL(b) {
                        sim.post('reader' + sim.nth('reader'), 'reader', () => {
                            this.result = 'data:image/png;base64,' + page.data(b);
                            this.dispatchEvent({ type: 'load', bubbles: false });
                        });
                    }
                },
            };
        });
        page.example = new BlobStub([], { type: 'image/png' });
        page.example._bitmap = bitmapOf({ w: 4, h: 3, seed: 4242 });
        const root = parseHtml(this, source(path.join(WEB, 'src/html/index.html')));
        const doc = page.document = new EventTarget_(this);
        const g = page.realm.global;
        Object.assign(doc, {
            documentElement: root, body: root.querySelector('body') ?? root, head: root.querySelector('head'), readyState: 'interactive',
            getElementById: (id) => [...root.walk()].find((e) => e.id === id) ?? null,
            querySelector: (s) => root.querySelector(s), querySelectorAll: (s) => root.querySelectorAll(s),
            getElementsByName: (n) => root.querySelectorAll(`[name="${n}"]`),
            getElementsByTagName: (n) => root.getElementsByTagName(n), getElementsByClassName: (n) => root.getElementsByClassName(n),
            createElement: (t) => (t === 'canvas' ? new g.OffscreenCanvas(300, 150) : new Element(this, t.toLowerCase())),
            createDocumentFragment: () => new Element(this, 'fragment'), createTextNode: (t) => String(t),
            parentNode_: () => page.window,
        });
        g.document = doc;
        page.root = root;
        page.srcImg = doc.getElementById('src-img');
        page.dstImg = doc.getElementById('dst-img');
        page.wrapper = doc.getElementById('palette-wrapper');
        page.controls = ['recompute-output-button', 'recompute-palette-button', 'src-img-picker'].map((i) => doc.getElementById(i));
        page.picker = page.controls[2];
        page.spinner = doc.getElementById('dst-spinner');
        page.settings = ['min-palette-cnt', 'max-palette-cnt', 'palette-err-limit'].map((i) => doc.getElementById(i));
        this.ready.push(this.load(page.realm, path.join(WEB, 'src/js/index.js')).then((m) => {
            this.post('page-start', 'script', () => {
                m.evaluate().then(() => {
                    this.post('page-start', 'load', () => {
                        doc.dispatchEvent({ type: 'DOMContentLoaded', bubbles: true });
                        doc.readyState = 'complete';
                        page.loaded = true;
                        page.window.dispatchEvent({ type: 'load', bubbles: false });
                    });
                }, (e) => this.note('page_failed', e));
            });
        }));
    }

    /** The fields of the palette. */
    divs() {
        return [...this.page.wrapper._kids].map((d) => {
            const by = {};
            for (const e of d.walk()) by[e._attr.get('name')] ??= e;
            const f = (n) => by[n] ?? null;
            return { src: f('palette-src-color'), srcTxt: f('palette-src-color-txt'), dst: f('palette-dst-color'), dstTxt: f('palette-dst-color-txt'), img: f('palette-img') };
        });
    }

    busy() {
        const sp = this.page.spinner;
        const visible = !(sp.style.visibility === 'hidden' || sp.style.display === 'none' || sp.hidden);
        const off = this.page.controls.filter((c) => c.disabled).map((c) => '#' + c.id);
        return (visible ? ['the spinner is visible'] : []).concat(off.map((o) => o + ' is disabled')).join(', ');
    }

    /** Something was asked for: all that is shown later is judged against the last of these. */
    trigger(kind, bitmap) {
        if (!this.page.loaded) return;
        if (kind === 'load') this.image = bitmap;
        const px = this.image && rgb(this.image);
        const weights = this.wasm && px && [...this.wasm.handles.values()].some((h) => h.kind === 'weights' && h.w === this.image.w && h.h === this.image.h && sameBytes(h.px, px));
        this.op = {
            kind, at: this.now, faults: this.nFault, weights,
            src: this.divs().map((d) => d.src.value), dst: this.divs().map((d) => d.dst.value),
        };
        this.count('operations');
    }

    user(f) { this.userEvent = true; try { f(); } finally { this.userEvent = false; } }

    act(a) {
        const page = this.page;
        const fire = (el, ...types) => this.user(() => types.forEach((t) => el.dispatchEvent({ type: t, bubbles: true })));
        const div = () => { const d = this.divs(); return d.length ? d[a.i % d.length] : null; };
        this.count('user_actions');
        switch (a.t) {
            case 'pick': {
                if (page.picker.disabled) return this.count('actions_on_disabled_controls');
                const f = new BlobStub([], { type: 'image/png' });
                f.name = 'picture' + a.seed;
                if (!a.bad) f._bitmap = bitmapOf(a); else if (page.loaded) this.count('undecodable_files');
                page.picker.files = fileList(f);
                if (page.loaded) { this.picked = f; this.pickedAt = this.now; if (a.bad) this.nFault++; }
                fire(page.picker, 'input', 'change');
                break;
            }
            case 'cancel':
                if (page.picker.disabled) return this.count('actions_on_disabled_controls');
                page.picker.files = fileList();
                fire(page.picker, 'change');
                break;
            case 'out':
            case 'pal': {
                const b = page.controls[a.t === 'out' ? 0 : 1];
                if (b.disabled) return this.count('actions_on_disabled_controls');
                this.trigger(a.t);
                fire(b, 'click');
                break;
            }
            case 'col': {
                const d = div();
                if (!d) return;
                this.user(() => d[a.w].userValue(a.v));
                fire(d[a.w], 'input', 'change');
                break;
            }
            case 'type': {
                const d = div();
                if (!d) return;
                const el = d[a.w + 'Txt'];
                for (let k = 1; k <= a.v.length; k++) {
                    this.post('keys', 'key', () => {
                        if (!el.isConnected) return;
                        const typed = a.v.slice(0, k);
                        (el._colors ??= new Set()).add(d[a.w].value);
                        if (COLOR.test(typed)) el._colors.add(typed.toLowerCase());
                        this.user(() => el.userValue(typed));
                        fire(el, 'input');
                        if (k === a.v.length) fire(el, 'change');
                    });
                }
                break;
            }
            case 'set':
                this.user(() => page.settings[a.f].userValue(a.v));
                fire(page.settings[a.f], 'input', 'change');
                break;
        }
    }

    // -------------------------------------------------------------- judging

    afterTask() {
        if (!this.page?.root) return;
        for (const e of this.imgs) {
            const src = e._attr.get('src');
            if (!src || !src.startsWith('blob:') || !e.isConnected) continue;
            const u = this.page.urls.get(src);
            if (u && !u.live) this.violation('W05', `${e.id ? '#' + e.id : 'a preview'} shows an object URL that was revoked`);
        }
    }

    /** Nothing is left to be processed. */
    idle() {
        this.count('quiescent_states');
        for (const [, r] of this.pending) {
            if (!r.replies) this.violation('W04', `the request ${r.method} got no reply`);
        }
        if (this.wasm) {
            const left = [...this.wasm.blocks.values()].filter((b) => b.kind !== 'handle');
            if (left.length) this.violation('W02', `${left.length} temporary ${left[0].kind === 'palette' ? 'palettes' : 'buffers'} were not given back (the first has ${left[0].len} bytes)`);
        }
        if (this.s.mode === 'worker') return;
        if (!this.page.loaded) return;
        const kinds = { weights: 0, decomposition: 0 };
        for (const h of this.wasm.handles.values()) kinds[h.kind]++;
        for (const [k, n] of Object.entries(kinds)) if (n > 1) this.violation('W01', `${n} ${k} handles are alive`);
        const b = this.busy();
        if (b) this.violation('W04', `nothing is going on, but ${b}`);
        const shown = new Set();
        for (const e of this.page.root.walk()) if (e._tag === 'img') shown.add(e.src);
        for (const [u, e] of this.page.urls) {
            if (e.live && !shown.has(u)) { this.violation('W05', 'an object URL that nothing shows is still alive'); break; }
        }
        this.judgeShown();
    }

    judgeShown() {
        const divs = this.divs();
        for (const d of divs) {
            for (const w of ['src', 'dst']) {
                const t = d[w + 'Txt'].value;
                const legal = d[w + 'Txt']._colors;
                if (COLOR.test(t)) {
                    legal?.clear();
                    if (t.toLowerCase() !== d[w].value) {
                        this.violation('W03', `a text field says ${t} and its colour field ${d[w].value}`);
                        return;
                    }
                } else if (legal && !legal.has(d[w].value)) {
                    this.violation('W03', `after ${JSON.stringify(t)}, which is no colour, was typed, the colour field says ${d[w].value}`);
                    return;
                }
            }
        }
        const op = this.op;
        const page = this.page;
        if (!op || this.noWasm) return;
        const bad = (m) => this.violation('W03', `after ${{ load: 'an image was loaded', pal: 'the palette was recomputed', out: 'the output was recomputed' }[op.kind]}: ${m}`);
        if (this.picked && this.pickedAt > op.at) {
            // the last pick did not load
            if (this.nFault === op.faults) bad('the picked image was not loaded');
            return;
        }
        if (this.nFault !== op.faults) return;
        if (op.kind !== 'load' && !op.weights) return;
        if (this.picked && page.urls.get(page.srcImg.src)?.blob !== this.picked) return bad('the picked image is not shown');
        const during = (el) => (el._hist ?? []).filter((h) => h.user && h.at >= op.at).map((h) => h.v);
        const px = rgb(this.image);
        const { w, h } = this.image;
        let allowedS, allowedD;
        if (op.kind === 'out') {
            const S = op.src.map(unhex);
            if (!goodPalette(S)) return;
            if (divs.length !== S.length) return bad('the number of palette entries changed');
            allowedS = op.src.map((v) => [v]);
            allowedD = divs.map((d, i) => [op.dst[i], ...during(d.dst)]);
        } else {
            const values = page.settings.map((f) => {
                const hist = f._hist ?? [];
                const before = hist.filter((x) => x.at < op.at).pop()?.v ?? f.sanitize(f.getAttribute('value') ?? '');
                return [before, ...hist.filter((x) => x.at >= op.at).map((x) => x.v)];
            });
            const pals = [];
            for (const a of values[0]) for (const b of values[1]) for (const e of values[2]) pals.push(paletteOf(px, w, h, parseInt(a) | 0, parseInt(b) | 0, parseFloat(e)));
            if (pals.some((p) => !p)) return;
            const fits = pals.filter((p) => p.length === divs.length && p.every((c, i) =>
                (divs[i].src.value === hex(c) || during(divs[i].src).includes(divs[i].src.value))
                && (divs[i].dst.value === hex(c) || during(divs[i].dst).includes(divs[i].dst.value))));
            if (!fits.length) return bad(`the palette fields (${divs.map((d) => d.src.value).join()}) are not the palette of the image (${pals[0].map(hex).join()})`);
            allowedS = divs.map((d, i) => [...fits.map((p) => hex(p[i])), ...during(d.src)]);
            allowedD = divs.map((d, i) => [...fits.map((p) => hex(p[i])), ...during(d.dst)]);
        }
        const content = (el, gray) => {
            const b = page.urls.get(el.src)?.blob?._bitmap;
            if (!b) return null;
            const out = [];
            for (let i = 0; i < b.w * b.h; i++) {
                if (b.data[4 * i + 3] !== 255) return null;
                if (gray && (b.data[4 * i] !== b.data[4 * i + 1] || b.data[4 * i] !== b.data[4 * i + 2])) return null;
                for (let k = 0; k < (gray ? 1 : 3); k++) out.push(b.data[4 * i + k]);
            }
            return { w: b.w, h: b.h, out };
        };
        const log = this.wasm.log;
        const okPal = (p, allowed) => p.length === allowed.length && p.every((c, i) => allowed[i].includes(hex(c)));
        const isImage = (e) => e.w === w && e.h === h && sameBytes(e.px, px);
        const match = (e, c) => c && e.w === c.w && e.h === c.h && sameBytes(e.out, c.out);
        const c = content(page.dstImg, false);
        if (!c) return bad('there is no output image');
        const made = log.filter((e) => e.kind === 'output' && match(e, c));
        if (!made.length) return bad('the output image is not a result of the module');
        const good = made.filter((e) => isImage(e) && okPal(e.pal, allowedS) && okPal(e.dst, allowedD));
        if (!good.length) {
            const e = made[0];
            if (!isImage(e)) return bad('the output image was made from another image');
            if (!okPal(e.pal, allowedS)) return bad(`the output image was made with the source colours ${e.pal.map(hex).join()} instead of ${allowedS.map((x) => x[0]).join()}`);
            return bad(`the output image was made with the target colours ${e.dst.map(hex).join()} instead of ${allowedD.map((x) => x[0]).join()}`);
        }
        for (let i = 0; i < divs.length; i++) {
            const p = content(divs[i].img, true);
            if (!p) return bad(`preview ${i} shows nothing`);
            if (!log.some((e) => e.kind === 'channel' && e.n === i && isImage(e) && match(e, p) && good.some((g) => okPal(e.pal, g.pal.map((x) => [hex(x)]))))) {
                return bad(`preview ${i} does not show the channel ${i} of the output's decomposition`);
            }
        }
        this.count('strictly_judged_states');
    }

    // -------------------------------------------------------------- running

    async step(source, task) {
        this.now++;
        const key = mix(hashString(source + task.label), this.now);
        this.signature = mix(this.signature, key);
        if (this.s.verbose) this.trace.push(`${this.now} ${source}: ${task.label}`);
        this.guard(task.f);
        await new Promise(setImmediate);
        this.afterTask();
    }

    async run() {
        this.ready = [];
        const s = this.s;
        if (s.mode === 'worker') this.driver(); else this.startPage();
        while (this.ready.length) await Promise.all(this.ready.splice(0));
        const acts = [...s.acts];
        let phase = 0;
        const cls = (src) => src.replace(/\d+$/, '');
        while (this.now < MAX_TASKS) {
            while (this.ready.length) await Promise.all(this.ready.splice(0));
            const names = [...this.queue.keys()].filter((k) => this.queue.get(k).length);
            if (!names.length) {
                this.idle();
                if (!acts.length) {
                    if (phase++ === 0) {
                        this.faultsOn = false;
                        acts.push(...(s.mode === 'worker' ? [{ t: 'free-all' }] : s.recovery));
                        continue;
                    }
                    break;
                }
                await this.step('user', { label: acts[0].t, f: () => this.request ? this.request(acts.shift()) : this.act(acts.shift()) });
                continue;
            }
            const withUser = acts.length && phase === 0 && (this.page.loaded || s.early);
            const opts = withUser ? [...names, 'user'] : names;
            const k = opts.length === 1 ? 0 : this.choices.pick(opts.map((o) => s.weights[cls(o)] ?? 1));
            if (opts[k] === 'user') await this.step('user', { label: acts[0].t, f: () => this.request ? this.request(acts.shift()) : this.act(acts.shift()) });
            else {
                const q = this.queue.get(opts[k]);
                const t = q.shift();
                if (!q.length) this.queue.delete(opts[k]);
                await this.step(opts[k], t);
            }
        }
        if (this.now >= MAX_TASKS) this.violation('W04', `the page does not come to rest within ${MAX_TASKS} events`);
        if (this.wasm) {
            this.count('module_calls', this.wasm.nCalls);
            this.count('memory_growths', this.wasm.grown);
            this.count('memory_accesses_judged', this.wasm.accesses);
        }
        return this;
    }

    // -------------------------------------------------------------- a worker on its own

    driver() {
        const d = { weights: [], decompositions: [] };
        this.page = { realm: this.realm('page', () => ({})), loaded: true };
        this.startWorker('./webworker.js');
        const send = (payload, transfer) => this.sendRequest(this.page.realm, payload, transfer).then((v) => { this.count('requests_granted'); return v; }, () => undefined);
        const A = this.page.realm.Uint8ClampedArray;
        const picture = (f) => { const b = bitmapOf(f); const a = new A(b.data.length); a.set(b.data); return a; };
        this.request = (a) => {
            this.count('user_actions');
            const pickOf = (l) => (l.length ? l[a.i % l.length] : undefined);
            switch (a.t) {
                case 'weights': {
                    const p = picture(a);
                    send({ method: 'createImageWeights', args: [p, a.w, a.h] }, [p.buffer]).then((r) => r && d.weights.push({ p: r[0] }));
                    break;
                }
                case 'palette': {
                    const p = picture(a);
                    send({ method: 'computePalette', args: [p, a.w, a.h, a.min, a.max, a.err] }, [p.buffer]);
                    break;
                }
                case 'decompose': {
                    const w = pickOf(d.weights);
                    if (w) { w.use = (w.use ?? 0) + 1; send({ method: 'createDecomposedImage', args: [w.p, a.pal] }).then((r) => { w.use--; if (r !== undefined) d.decompositions.push({ p: r, n: a.pal.length }); }); }
                    break;
                }
                case 'channel': {
                    const x = pickOf(d.decompositions);
                    if (x) { x.use = (x.use ?? 0) + 1; send({ method: 'grayscaleImageChannel', args: [x.p, a.n] }).then(() => x.use--); }
                    break;
                }
                case 'output': {
                    const x = pickOf(d.decompositions);
                    if (x) {
                        x.use = (x.use ?? 0) + 1;
                        const pal = [];
                        for (let i = 0; i < Math.max(0, x.n + a.more); i++) pal.push([i, a.i & 255, 7]);
                        send({ method: 'reconstructImage', args: [x.p, pal] }).then(() => x.use--);
                    }
                    break;
                }
                case 'free': {
                    const l = a.w ? d.weights : d.decompositions;
                    const x = pickOf(l);
                    if (x && !x.use) { l.splice(l.indexOf(x), 1); send({ method: a.w ? 'freeImageWeights' : 'freeDecomposedImage', args: [x.p] }); }
                    break;
                }
                case 'bogus':
                    send({ method: a.m, args: [1, 2, 3] });
                    break;
                case 'free-all':
                    for (const x of d.decompositions.splice(0)) send({ method: 'freeDecomposedImage', args: [x.p] });
                    for (const x of d.weights.splice(0)) send({ method: 'freeImageWeights', args: [x.p] });
                    break;
            }
        };
    }
}
