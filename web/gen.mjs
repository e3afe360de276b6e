// What a run consists of, from a seed.
import { Rng, mix, hashString } from './util.mjs';

const CALLS = ['create_image_buffer', 'create_image_weights', 'compute_palette', 'create_decomposed_image', 'reconstruct_image', 'grayscale_image_channel', 'get_decomposed_image_width', 'get_decomposed_image_num_channels'];

function color(r) { return '#' + Array.from({ length: 6 }, () => r.below(16).toString(16)).join(''); }

function picture(r) { return { w: r.range(1, 6), h: r.range(1, 6), seed: r.below(r.chance(.3) ? 3 : 100000) }; }

function action(r, hot) {
    const k = r.below(100);
    if (k < hot.pick) return { t: 'pick', ...picture(r), ...(r.chance(.12) ? { bad: true } : {}) };
    if (k < hot.pick + 3) return { t: 'cancel' };
    if (k < hot.pick + 3 + hot.out) return { t: 'out' };
    if (k < hot.pick + 3 + hot.out + hot.pal) return { t: 'pal' };
    if (r.chance(.2)) {
        const f = r.below(3);
        return { t: 'set', f, v: f === 2 ? r.pick(['0', '0.0', '0.01', '0.5', '1e-3', '', '-1']) : r.pick(['4', '5', '6', '7', '8', '10', '12', '3', '', '4.5', '9']) };
    }
    if (r.chance(.3)) {
        let v = color(r);
        if (r.chance(.2)) v = v.toUpperCase();
        if (r.chance(.25)) v = r.pick(['#12', 'red', '#12345g', v + '0', v.slice(1), v + ' ', ' ' + v, '', '##12345']);
        return { t: 'type', w: r.pick(['src', 'dst', 'dst']), i: r.below(12), v };
    }
    return { t: 'col', w: r.pick(['src', 'dst', 'dst']), i: r.below(12), v: color(r) };
}

function request(r) {
    const k = r.below(100);
    if (k < 18) return { t: 'weights', ...picture(r) };
    if (k < 34) return { t: 'palette', ...picture(r), min: r.pick([4, 5, 6, 3, 8]), max: r.pick([4, 6, 8, 10, 12]), err: r.pick([0, 0, .1, -1]) };
    if (k < 54) {
        const pal = Array.from({ length: r.pick([4, 5, 6, 8, 4, 5, 3, 0]) }, () => [r.below(256), r.below(256), r.below(256)]);
        return { t: 'decompose', i: r.below(8), pal };
    }
    if (k < 70) return { t: 'channel', i: r.below(8), n: r.pick([0, 1, 2, 3, 4, 7, 12]) };
    if (k < 86) return { t: 'output', i: r.below(300), more: r.chance(.15) ? r.pick([-1, 1, -4]) : 0 };
    if (k < 95) return { t: 'free', w: r.below(2), i: r.below(8) };
    return { t: 'bogus', m: r.pick(['nothing', 'toString', 'constructor', '', null, undefined, 'freeimageweights']) };
}

export function generate(prop, seed, i) {
    const r = new Rng(mix(mix(seed, hashString(prop)), i));
    const s = { prop, mode: 'page', seed: r.next(), mem: r.next(), grow: r.chance(.4) ? r.pick([2, 5, 20]) : 0, weights: {}, acts: [], faults: [], recovery: [] };
    if ((prop === 'W02' || prop === 'W04') && r.chance(.45)) s.mode = 'worker';
    for (const k of ['to-worker', 'to-page', 'blob', 'image', 'wasm', 'worker-start', 'page-start', 'fetch', 'keys', 'bitmap', 'decode', 'page-timer', 'worker-timer']) {
        s.weights[k] = r.pick([1, 1, 1, .1, .02, 8]);
    }
    s.weights.user = r.pick([.02, .1, .3, 1, 3]);
    const n = Math.floor(Math.exp(r.next() / 4294967296 * Math.log(s.mode === 'page' ? 26 : 60)));
    s.early = r.chance(.1);
    const hot = { pick: r.pick([8, 20, 40]), out: r.pick([8, 20, 30]), pal: r.pick([8, 20]) };
    for (let k = 0; k < n; k++) s.acts.push(s.mode === 'page' ? action(r, hot) : request(r));
    const rate = prop === 'W03' ? .5 : .7;
    if (r.chance(rate)) {
        const m = r.pick([1, 1, 1, 2, 3, 6]);
        for (let k = 0; k < m; k++) {
            const d = r.below(100);
            if (d < 40) s.faults.push(['call:' + r.pick(CALLS), r.below(r.pick([2, 6, 20])), r.pick(['trap', 'trap', 'trap', 'null', 'grow', 'grow-after'])]);
            else if (d < 60) s.faults.push(['call', r.below(r.pick([10, 60, 200])), r.pick(['trap', 'null', 'grow', 'grow-after'])]);
            else if (d < 72) s.faults.push(['blob', r.below(r.pick([6, 30])), 'reject']);
            else if (d < 82) s.faults.push(['canvas', r.below(5), 'throw']);
            else if (d < 90) s.faults.push(['image', r.below(12), 'broken']);
            else if (d < 97) s.faults.push(['fetch', 0, r.pick(['reject', '404', 'broken', 'body'])]);
            else s.faults.push(['wasm', 0, r.pick(['fetch', 'compile', 'instantiate'])]);
        }
    }
    const set = [0, 1, 2].map((f) => ({ t: 'set', f, v: ['4', r.pick(['4', '7', '10']), '0'][f] }));
    s.recovery = [...set, { t: 'pick', ...picture(r) }, { t: 'col', w: 'dst', i: r.below(8), v: color(r) }, { t: 'out' }, { t: 'pal' }, { t: 'pick', ...picture(r) }];
    return s;
}
