// A strict stand-in for the compiled WebAssembly module: the same exports, a linear memory whose every
// access from outside is judged, handles that are judged, and results that are pure functions of the
// arguments, so that anything mixed up shows.
import { mix, Rng } from './util.mjs';

// ------------------------------------------------------------------ the pure functions

export function hashBytes(b, salt = 0) {
    let h = salt >>> 0;
    for (let i = 0; i < b.length; i++) h = Math.imul((h ^ b[i]) >>> 0, 0x01000193) >>> 0;
    return mix(h, b.length);
}
const flat = (p) => p.flatMap((c) => c);

export function goodColor(c) { return (c[0] + 2 * c[1] + 3 * c[2]) % 11 !== 3; }

export function goodPalette(p) {
    return p.length >= 4 && p.every(goodColor) && new Set(p.map((c) => c.join())).size === p.length;
}

/** The palette of an image, null when the computation fails. */
export function paletteOf(px, w, h, min, max, err) {
    min &= 255; max &= 255;
    if (min < 4 || !(err >= 0) || w * h === 0) return null;
    const r = new Rng(hashBytes(px, mix(mix(w, h), mix(min, mix(max, Math.floor(err * 1e6))))));
    let n = max < min ? 4 + r.below(6) : min + r.below(Math.min(max - min, 8) + 1);
    // the sizes asked for are not always met
    if (r.chance(.15)) n = r.pick([4, max + 1, max + 2, r.chance(.1) ? 120 : max + 5]);
    n = Math.max(4, Math.min(255, n));
    const out = [];
    while (out.length < n) {
        const c = [r.below(256), r.below(256), r.below(256)];
        if (goodColor(c) && !out.some((o) => o.join() === c.join())) out.push(c);
    }
    return out;
}

export function channelOf(px, w, h, pal, n) {
    const r = new Rng(mix(hashBytes(px, mix(w, h)), hashBytes(flat(pal), n + 1)));
    return Uint8Array.from({ length: w * h }, () => r.next() >>> 24);
}

export function recolored(px, w, h, pal, dst) {
    const r = new Rng(mix(hashBytes(px, mix(w, h)), mix(hashBytes(flat(pal), 77), hashBytes(flat(dst), 78))));
    return Uint8Array.from({ length: w * h * 3 }, () => r.next() >>> 24);
}

// ------------------------------------------------------------------ the module

const GUARD = 24;
const views = new WeakMap(); // guarded view -> the plain one

export const unguard = (v) => (v !== null && typeof v === 'object' && views.get(v)) || v;

export class Wasm {
    /** `faults`: name -> Map(number of the call -> kind) */
    constructor(sim, realm, scenario) {
        this.sim = sim;
        this.realm = realm;
        this.rng = new Rng(mix(scenario.mem, 0x33));
        this.reuse = scenario.mem % 3;
        this.growEvery = scenario.grow;
        this.calls = new Map();
        this.nCalls = 0;
        this.log = []; // results that were given out
        this.blocks = new Map(); // address -> {len, kind}
        this.handles = new Map(); // address -> {kind, ...}
        this.dead = new Map();
        this.free = [];
        this.buffers = new WeakSet();
        this.grown = 0;
        this.accesses = 0;
        this.top = 1024 + 8 * this.rng.below(64);
        this.newBuffer(new ArrayBuffer(8192));
        this.bytes.fill(0xcd);
        const self = this;
        this.memory = {
            get buffer() { return self.buffer; },
            grow(n) { self.grow(n); return 1; },
        };
    }

    newBuffer(b) {
        this.buffer = b;
        this.bytes = new Uint8Array(b);
        this.buffers.add(b);
    }
    grow() {
        this.grown++;
        const old = this.buffer.byteLength;
        this.newBuffer(this.buffer.transfer(old + 512)); // detaches all views
        this.bytes.fill(0xcd, old);
    }

    bad(prop, msg) { this.sim.violation(prop, msg); }
    trap(msg) { throw new this.realm.RuntimeError(msg); }

    take(len, kind) {
        const need = len + 2 * GUARD;
        let at = -1;
        if (this.reuse > 0) {
            const i = this.free.findIndex((f) => f.need >= need && f.need < need + 64);
            if (i >= 0 && (this.reuse === 2 || this.rng.chance(.5))) at = this.free.splice(i, 1)[0].at;
        }
        if (at < 0) {
            at = this.top;
            this.top += (need + 7 & ~7) + 8 * this.rng.below(8);
            while (this.top > this.bytes.length) this.grow();
        }
        const p = at + GUARD;
        for (let i = 0; i < len; i++) this.bytes[p + i] = this.rng.next() >>> 24;
        for (let i = 0; i < GUARD; i++) { this.bytes[at + i] = 0xa5; this.bytes[p + len + i] = 0xa5; }
        this.blocks.set(p, { len, kind, at, need });
        this.dead.delete(p);
        return p;
    }
    give(p, b) {
        for (let i = 0; i < GUARD; i++) {
            if (this.bytes[b.at + i] !== 0xa5 || this.bytes[p + b.len + i] !== 0xa5) {
                this.bad('W02', `the memory around a buffer of ${b.len} bytes was overwritten`);
                break;
            }
        }
        this.blocks.delete(p);
        this.dead.set(p, b.kind);
        for (let i = 0; i < b.len; i++) this.bytes[p + i] = 0xdd;
        if (this.reuse > 0) this.free.push({ at: b.at, need: b.need });
    }
    inside(p, n) {
        if (n === 0) return true;
        for (const [q, b] of this.blocks) if (b.kind !== 'handle' && p >= q && p + n <= q + b.len) return true;
        return false;
    }
    /** Whether a range can be accessed from outside; an access may span several buffers. */
    judge(p, n, what) {
        this.accesses++;
        for (let i = 0; i < n; i++) {
            if (!this.inside(p + i, 1)) {
                this.bad('W02', `${what} at a place in the module's memory that is no living buffer`);
                return;
            }
        }
    }
    use(p, kind, what) {
        const h = this.handles.get(p);
        if (h && h.kind === kind) return h;
        if (h) this.bad('W01', `${what} was called with a ${h.kind} handle`);
        else if (p == null || p === 0 || p !== p) this.bad('W01', `${what} was called without a handle (${p})`);
        else this.bad('W01', `${what} was called with a ${kind} handle that is ${this.dead.has(p) ? 'not alive any more' : 'none'}`);
        this.trap('memory access out of bounds');
    }
    read(p, n, what) {
        if (!this.inside(p, n)) {
            this.bad('W02', `${what} was given ${n} bytes that are not inside a living buffer`);
            this.trap('memory access out of bounds');
        }
        return this.bytes.slice(p, p + n);
    }
    write(p, v, what) {
        if (!this.inside(p, v.length)) {
            this.bad('W02', `${what} was given a place for ${v.length} bytes that is not inside a living buffer`);
            this.trap('memory access out of bounds');
        }
        this.bytes.set(v, p);
    }
    handle(h) {
        const p = this.take(8, 'handle');
        this.handles.set(p, h);
        return p;
    }

    exports() {
        const fns = {
            create_image_buffer: (n) => this.take(n, 'buffer'),
            free_image_buffer: (n, p) => {
                const b = this.blocks.get(p);
                if (!b || b.kind !== 'buffer') {
                    this.bad('W02', this.dead.has(p) ? 'a buffer was given back twice' : 'something that is no buffer was given back as one');
                    this.trap('invalid free');
                }
                if (b.len !== n) {
                    this.bad('W02', `a buffer of ${b.len} bytes was given back with the size ${n}`);
                    this.trap('invalid free');
                }
                this.give(p, b);
            },
            create_image_weights: (w, h, p) => {
                const px = this.read(p, w * h * 3, 'create_image_weights');
                if (w * h === 0) this.trap('unreachable');
                return this.handle({ kind: 'weights', w, h, px });
            },
            free_image_weights: (p) => { this.use(p, 'weights', 'free_image_weights'); this.handles.delete(p); this.give(p, this.blocks.get(p)); },
            compute_palette: (w, h, p, min, max, err, sizeAt) => {
                const px = this.read(p, w * h * 3, 'compute_palette');
                const pal = paletteOf(px, w, h, min, max, err);
                if (!pal) this.trap('unreachable');
                this.log.push({ kind: 'palette', at: this.sim.now, px, w, h, min, max, err, pal });
                this.write(sizeAt, [pal.length], 'compute_palette');
                const q = this.take(pal.length * 3, 'palette');
                this.bytes.set(flat(pal), q);
                return q;
            },
            free_computed_palette: (p, n) => {
                const b = this.blocks.get(p);
                if (!b || b.kind !== 'palette') {
                    this.bad('W02', this.dead.has(p) ? 'a palette was given back twice' : 'something that is no palette was given back as one');
                    this.trap('invalid free');
                }
                if (b.len !== 3 * n) {
                    this.bad('W02', `a palette of ${b.len / 3} colours was given back with the size ${n}`);
                    this.trap('invalid free');
                }
                this.give(p, b);
            },
            create_decomposed_image: (wp, n, p) => {
                const wt = this.use(wp, 'weights', 'create_decomposed_image');
                const b = this.read(p, n * 3, 'create_decomposed_image');
                const pal = Array.from({ length: n }, (_, i) => [...b.slice(3 * i, 3 * i + 3)]);
                if (!goodPalette(pal)) {
                    this.log.push({ kind: 'refused', at: this.sim.now });
                    return 0;
                }
                return this.handle({ kind: 'decomposition', w: wt.w, h: wt.h, px: wt.px, pal });
            },
            free_decomposed_image: (p) => { this.use(p, 'decomposition', 'free_decomposed_image'); this.handles.delete(p); this.give(p, this.blocks.get(p)); },
            get_decomposed_image_width: (p) => this.use(p, 'decomposition', 'get_decomposed_image_width').w,
            get_decomposed_image_height: (p) => this.use(p, 'decomposition', 'get_decomposed_image_height').h,
            get_decomposed_image_num_channels: (p) => this.use(p, 'decomposition', 'get_decomposed_image_num_channels').pal.length,
            reconstruct_image: (p, palAt, imgAt) => {
                const d = this.use(p, 'decomposition', 'reconstruct_image');
                const n = d.pal.length;
                const buf = this.blocks.get(palAt);
                const given = buf ? Math.floor(buf.len / 3) : n;
                const b = this.read(palAt, n * 3, 'reconstruct_image');
                const dst = Array.from({ length: n }, (_, i) => [...b.slice(3 * i, 3 * i + 3)]);
                const out = recolored(d.px, d.w, d.h, d.pal, dst);
                this.log.push({ kind: 'output', at: this.sim.now, px: d.px, w: d.w, h: d.h, pal: d.pal, dst, out });
                this.write(imgAt, out, 'reconstruct_image');
                return given >= n ? 1 : 0;
            },
            grayscale_image_channel: (p, n, imgAt) => {
                const d = this.use(p, 'decomposition', 'grayscale_image_channel');
                if (n >= d.pal.length) return 0;
                const out = channelOf(d.px, d.w, d.h, d.pal, n);
                this.log.push({ kind: 'channel', at: this.sim.now, px: d.px, w: d.w, h: d.h, pal: d.pal, n, out });
                this.write(imgAt, out, 'grayscale_image_channel');
                return 1;
            },
        };
        const FLOAT = { compute_palette: 5 };
        const out = { memory: this.memory };
        for (const [name, f] of Object.entries(fns)) {
            out[name] = (...args) => {
                this.nCalls++;
                const n = this.calls.get(name) ?? 0;
                this.calls.set(name, n + 1);
                // the conversions of the JavaScript interface
                const a = Array.from({ length: f.length }, (_, i) => (FLOAT[name] === i ? Number(args[i]) : (args[i] >>> 0)));
                if (typeof args[0] === 'undefined' && /free_(image_w|dec)|get_|reconstruct|grayscale|create_dec/.test(name)) a[0] = undefined;
                const fault = this.sim.fault('call:' + name, n) ?? this.sim.fault('call', this.nCalls - 1);
                const pure = /^(free_|get_)/.test(name);
                if (this.growEvery && this.rng.below(this.growEvery) === 0) this.grow();
                if (fault === 'grow') this.grow();
                if (fault === 'trap' && !pure) {
                    // arguments are judged all the same
                    if (name === 'create_decomposed_image') this.use(a[0], 'weights', name);
                    if (name === 'reconstruct_image' || name === 'grayscale_image_channel') this.use(a[0], 'decomposition', name);
                    this.sim.fired('module_traps');
                    this.trap('unreachable');
                }
                if (fault === 'null' && (name === 'create_decomposed_image' || name === 'reconstruct_image' || name === 'grayscale_image_channel')) {
                    this.use(a[0], name === 'create_decomposed_image' ? 'weights' : 'decomposition', name);
                    this.sim.fired('module_reported_failures');
                    return 0;
                }
                const r = f(...a);
                if (fault === 'grow-after') this.grow();
                return r;
            };
        }
        return Object.freeze(out);
    }

    // -------------------------------------------------------------- guarded views

    /** Replaces the constructors of views in a realm. */
    guardRealm(realm) {
        const names = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array',
            'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array', 'DataView'];
        for (const n of names) {
            const C = realm.global[n];
            realm.plain[n] = C;
            const P = new Proxy(C, {
                construct: (t, args, nt) => {
                    args = args.map(unguard);
                    if (this.buffers.has(args[0])) return this.guard(Reflect.construct(t, args, t), n);
                    return Reflect.construct(t, args, nt === P ? t : nt);
                },
                get: (t, k) => {
                    const v = Reflect.get(t, k, t);
                    if (k === 'from' || k === 'of') return v.bind(t);
                    return v;
                },
            });
            Object.defineProperty(realm.global, n, { value: P, writable: true, configurable: true, enumerable: false });
        }
    }

    guard(v, name) {
        const es = name === 'DataView' ? 1 : v.BYTES_PER_ELEMENT;
        const off = v.byteOffset, len = name === 'DataView' ? v.byteLength : v.length;
        const detached = () => v.buffer !== this.buffer;
        const check = (i, n, what) => {
            if (detached()) { this.bad('W02', `${what} through a view of the module's memory that is detached`); return; }
            if (i < 0 || i + n > len) { this.bad('W02', `${what} outside of a view of the module's memory`); return; }
            this.judge(off + i * es, n * es, what);
        };
        const range = (a, b) => {
            const f = (x, d) => { x = x === undefined ? d : Math.trunc(Number(x)) || 0; return x < 0 ? Math.max(0, len + x) : Math.min(x, len); };
            const s = f(a, 0), e = f(b, len);
            return [s, Math.max(0, e - s)];
        };
        const sizes = { Int8: 1, Uint8: 1, Int16: 2, Uint16: 2, Int32: 4, Uint32: 4, Float32: 4, Float64: 8, BigInt64: 8, BigUint64: 8 };
        const proxy = new Proxy(v, {
            get: (t, k) => {
                if (typeof k === 'string' && /^-?\d+$/.test(k)) {
                    check(Number(k), 1, 'a read');
                    return t[k];
                }
                const x = name === 'DataView' || typeof k === 'symbol' || !['length', 'byteLength', 'byteOffset', 'buffer'].includes(k)
                    ? Reflect.get(t, k, t) : Reflect.get(t, k, t);
                if (typeof x !== 'function' || k === 'constructor') return x;
                return (...a) => {
                    a = a.map(unguard);
                    const m = typeof k === 'string' && /^([gs]et)(\w+\d+)$/.exec(k);
                    if (m && name === 'DataView') check(Number(a[0]) || 0, sizes[m[2]] ?? 1, m[1] === 'get' ? 'a read' : 'a write');
                    else if (k === 'set') check(Number(a[1]) || 0, a[0].length, 'a write');
                    else if (k === 'fill') check(...range(a[1], a[2]), 'a write');
                    else if (k === 'slice') check(...range(a[0], a[1]), 'a read');
                    else if (k === 'subarray') return this.guard(x.apply(t, a), name);
                    else if (k === 'copyWithin') { check(...range(a[1], a[2]), 'a read'); check(range(a[0])[0], range(a[1], a[2])[1], 'a write'); }
                    else if (k === 'at') check(a[0] < 0 ? len + a[0] : a[0], 1, 'a read');
                    else check(0, len, 'a read');
                    return x.apply(t, a);
                };
            },
            set: (t, k, x) => {
                if (typeof k === 'string' && /^-?\d+$/.test(k)) check(Number(k), 1, 'a write');
                t[k] = x;
                return true;
            },
            has: (t, k) => k in t,
        });
        views.set(proxy, v);
        return proxy;
    }
}
