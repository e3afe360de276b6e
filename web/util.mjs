// Seeded choices, hashes and traces.

export function mix(a, b) {
    let h = (a ^ 0x9e3779b9) >>> 0;
    for (const v of [b >>> 0, Math.floor(b / 4294967296) >>> 0]) {
        h = Math.imul(h ^ v, 0x85ebca6b) >>> 0;
        h = (h ^ (h >>> 13)) >>> 0;
        h = Math.imul(h, 0xc2b2ae35) >>> 0;
        h = (h ^ (h >>> 16)) >>> 0;
    }
    return h >>> 0;
}

export function hashString(s) {
    let h = 0x811c9dc5;
    for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0;
    return mix(h, s.length);
}

export class Rng {
    constructor(seed) { this.s = seed >>> 0; }
    next() {
        this.s = (this.s + 0x6d2b79f5) >>> 0;
        let t = this.s;
        t = Math.imul(t ^ (t >>> 15), t | 1);
        t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
        return (t ^ (t >>> 14)) >>> 0;
    }
    below(n) { return n > 0 ? Math.floor(this.next() / 4294967296 * n) : 0; }
    range(a, b) { return a + this.below(b - a + 1); }
    chance(p) { return this.next() / 4294967296 < p; }
    pick(a) { return a[this.below(a.length)]; }
}

/** The decisions of a run: from a seed, or from a recorded list that is continued with zeros. */
export class Choices {
    constructor(seed, tape) {
        this.rng = tape ? null : new Rng(seed);
        this.tape = tape || [];
        this.used = [];
    }
    /** The index of a weight. */
    pick(weights) {
        let k;
        if (this.rng) {
            const total = weights.reduce((a, b) => a + b, 0);
            let x = this.rng.next() / 4294967296 * total;
            k = 0;
            while (k < weights.length - 1 && x >= weights[k]) x -= weights[k++];
        } else {
            const t = this.tape[this.used.length] ?? 0;
            k = t < weights.length ? t : 0;
        }
        this.used.push(k);
        return k;
    }
}
