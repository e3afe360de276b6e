// The part of a browser's document that a page like this one can touch.

const VOID = new Set(['br', 'img', 'input', 'meta', 'link', 'hr']);

function collection(get) {
    const t = { item: (i) => get()[i] ?? null, namedItem: (n) => named(n) };
    const named = (n) => get().find((e) => e.id === n) ?? get().find((e) => e.getAttribute('name') === n) ?? null;
    return new Proxy(t, {
        get(t, k) {
            if (k === 'length') return get().length;
            if (k === Symbol.iterator) return () => get()[Symbol.iterator]();
            if (typeof k === 'string' && /^\d+$/.test(k)) return get()[Number(k)];
            if (k in t) return t[k];
            return typeof k === 'string' ? named(k) ?? undefined : undefined;
        },
        has(t, k) { return k in t || (typeof k === 'string' && (named(k) !== null || Number(k) < get().length)); },
        ownKeys() { return get().map((_, i) => String(i)); },
        getOwnPropertyDescriptor(t, k) {
            const v = get()[Number(k)];
            return v === undefined ? undefined : { value: v, enumerable: true, configurable: true };
        },
    });
}

export class EventTarget_ {
    constructor(sim) {
        Object.defineProperty(this, '_l', { value: [], enumerable: false });
        Object.defineProperty(this, '_sim', { value: sim, enumerable: false });
    }
    addEventListener(type, f, o) {
        if (f && !this._l.some((l) => l.type === type && l.f === f)) this._l.push({ type, f, once: !!(o && o.once), signal: o && o.signal });
    }
    removeEventListener(type, f) {
        const i = this._l.findIndex((l) => l.type === type && l.f === f);
        if (i >= 0) this._l.splice(i, 1);
    }
    dispatchEvent(ev) {
        const path = [];
        let stop = false;
        for (let t = this; t; t = t.parentNode_?.() ?? null) path.push(t);
        if (ev.target == null) ev.target = this;
        ev.stopPropagation = ev.stopImmediatePropagation = () => { stop = true; };
        ev.preventDefault ??= () => { ev.defaultPrevented = true; };
        ev.composedPath ??= () => path;
        for (const t of path) {
            ev.currentTarget = t;
            const h = t['on' + ev.type];
            const call = (f, self) => {
                try { const r = f.call(self, ev); r?.then?.(undefined, (e) => this._sim.note('unhandled', e)); } catch (e) { this._sim.note('exception', e); }
            };
            if (typeof h === 'function') call(h, t);
            for (const l of [...t._l]) {
                if (l.type !== ev.type || l.signal?.aborted) continue;
                if (l.once) t.removeEventListener(l.type, l.f);
                call(typeof l.f === 'function' ? l.f : l.f.handleEvent, typeof l.f === 'function' ? t : l.f);
            }
            if (stop || ev.bubbles === false) break;
        }
        return !ev.defaultPrevented;
    }
}

export const fileList = (...f) => Object.assign(f, { item: (i) => f[i] ?? null });

export class Element extends EventTarget_ {
    constructor(sim, tag) {
        super(sim);
        const hide = (k, value) => Object.defineProperty(this, k, { value, enumerable: false, writable: true });
        hide('_tag', tag);
        hide('_attr', new Map());
        hide('_kids', []);
        hide('_parent', null);
        hide('_text', '');
        hide('_value', undefined);
        hide('_disabled', undefined);
        hide('_img', null);
        hide('_hist', []);
        hide('_loadId', null);
        if (tag === 'img') sim.imgs.add(this);
        this.style = {};
        this.dataset = {};
        this.children = collection(() => this._kids);
        this.childNodes = this.children;
        const cl = new Set();
        hide('_class', cl);
        this.classList = {
            add: (...c) => c.forEach((x) => cl.add(x)), remove: (...c) => c.forEach((x) => cl.delete(x)),
            contains: (c) => cl.has(c), toggle: (c, f) => ((f ?? !cl.has(c)) ? (cl.add(c), true) : (cl.delete(c), false)),
        };
        if (tag === 'input') this.files = fileList();
    }
    parentNode_() { return this._parent ?? (this._tag === 'html' ? this._sim.page?.document : null); }
    get tagName() { return this._tag.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get nodeType() { return 1; }
    get id() { return this._attr.get('id') ?? ''; }
    set id(v) { this._attr.set('id', String(v)); }
    get name() { return this._attr.get('name') ?? ''; }
    set name(v) { this._attr.set('name', String(v)); }
    get type() { return this._attr.get('type') ?? (this._tag === 'button' ? 'submit' : 'text'); }
    get className() { return [...this._class].join(' '); }
    set className(v) { this._class.clear(); String(v).split(/\s+/).filter(Boolean).forEach((c) => this._class.add(c)); }
    get hidden() { return this._attr.has('hidden'); }
    set hidden(v) { v ? this._attr.set('hidden', '') : this._attr.delete('hidden'); }
    get disabled() { return this._disabled ?? this._attr.has('disabled'); }
    set disabled(v) { this._disabled = !!v; }
    get parentNode() { return this._parent; }
    get parentElement() { return this._parent; }
    get firstElementChild() { return this._kids[0] ?? null; }
    get lastElementChild() { return this._kids[this._kids.length - 1] ?? null; }
    get firstChild() { return this.firstElementChild; }
    get lastChild() { return this.lastElementChild; }
    get childElementCount() { return this._kids.length; }
    sibling(d) { const k = this._parent?._kids; return k?.[k.indexOf(this) + d] ?? null; }
    get nextElementSibling() { return this.sibling(1); }
    get previousElementSibling() { return this.sibling(-1); }
    get nextSibling() { return this.sibling(1); }
    get previousSibling() { return this.sibling(-1); }
    get isConnected() { for (let e = this; e; e = e._parent) if (e._tag === 'html') return true; return false; }
    get ownerDocument() { return this._sim.page.document; }
    hasChildNodes() { return this._kids.length > 0; }
    contains(e) { for (; e; e = e._parent) if (e === this) return true; return false; }
    getAttribute(n) { return this._attr.get(n) ?? null; }
    hasAttribute(n) { return n === 'disabled' ? this.disabled : this._attr.has(n); }
    setAttribute(n, v) {
        if (n === 'disabled') this.disabled = true;
        else if (n === 'src' && this._tag === 'img') this.src = v;
        else if (n === 'class') this.className = v;
        else this._attr.set(n, String(v));
    }
    removeAttribute(n) {
        if (n === 'disabled') this._disabled = false;
        else if (n === 'src' && this._tag === 'img') { this._sim.page.setImage(this, null); this._attr.delete('src'); }
        this._attr.delete(n);
    }
    toggleAttribute(n, f) { (f ?? !this.hasAttribute(n)) ? this.setAttribute(n, '') : this.removeAttribute(n); }
    get textContent() { return this._text; }
    set textContent(v) { [...this._kids].forEach((k) => k.remove()); this._text = String(v); }
    get innerText() { return this._text; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this._text; }
    set innerHTML(v) { this.textContent = v; }

    insertBefore(e, ref) {
        if (typeof e !== 'object') { this._text += String(e); return e; }
        if (e._tag === 'fragment') { [...e._kids].forEach((k) => this.insertBefore(k, ref)); return e; }
        e.remove();
        const i = ref ? this._kids.indexOf(ref) : this._kids.length;
        if (i < 0) throw new (this._sim.page.realm.Error)('NotFoundError');
        this._kids.splice(i, 0, e);
        e._parent = this;
        return e;
    }
    appendChild(e) { return this.insertBefore(e, null); }
    append(...a) { a.forEach((e) => this.appendChild(e)); }
    prepend(...a) { a.reverse().forEach((e) => this.insertBefore(e, this._kids[0] ?? null)); }
    removeChild(e) {
        const i = this._kids.indexOf(e);
        if (i < 0) throw new (this._sim.page.realm.Error)('NotFoundError');
        this._kids.splice(i, 1);
        e._parent = null;
        return e;
    }
    remove() { this._parent?.removeChild(this); }
    replaceChildren(...a) { [...this._kids].forEach((k) => k.remove()); this.append(...a); }
    replaceWith(...a) { const p = this._parent; a.forEach((e) => p.insertBefore(e, this)); this.remove(); }
    cloneNode(deep) {
        const e = new Element(this._sim, this._tag);
        for (const [k, v] of this._attr) e._attr.set(k, v);
        e.className = this.className;
        Object.assign(e.style, this.style);
        e._value = this._value;
        e._disabled = this._disabled;
        if (this._tag === 'img' && this._attr.get('src')) e.src = this._attr.get('src');
        if (deep) this._kids.forEach((k) => e.appendChild(k.cloneNode(true)));
        return e;
    }
    *walk() { yield this; for (const k of this._kids) yield* k.walk(); }
    matches(sel) {
        return sel.split(',').some((s) => {
            const parts = s.trim().split(/\s*>\s*|\s+/);
            let e = this;
            if (!e.simple(parts.pop())) return false;
            while (parts.length) {
                const p = parts.pop();
                do e = e._parent; while (e && !e.simple(p));
                if (!e) return false;
            }
            return true;
        });
    }
    simple(s) {
        const re = /^([a-z0-9]+|\*)?((?:#[\w-]+|\.[\w-]+|\[[^\]]+\]|:[\w-]+(?:\([^)]*\))?)*)$/i.exec(s);
        if (!re) return false;
        if (re[1] && re[1] !== '*' && re[1].toLowerCase() !== this._tag) return false;
        for (const q of re[2].match(/#[\w-]+|\.[\w-]+|\[[^\]]+\]|:[\w-]+(?:\([^)]*\))?/g) ?? []) {
            if (q[0] === '#' && this.id !== q.slice(1)) return false;
            if (q[0] === '.' && !this._class.has(q.slice(1))) return false;
            if (q[0] === '[') {
                const m = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(q);
                if (!m || !this.hasAttribute(m[1]) || (m[2] !== undefined && this.getAttribute(m[1]) !== m[2])) return false;
            }
            if (q === ':first-child' && this._parent?._kids[0] !== this) return false;
            if (q === ':last-child' && this._parent?._kids.at(-1) !== this) return false;
            if (q === ':disabled' && !this.disabled) return false;
            if (q === ':enabled' && this.disabled) return false;
        }
        return true;
    }
    querySelectorAll(s) { return [...this.walk()].filter((e) => e !== this && e.matches(s)); }
    querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
    getElementsByTagName(t) { return collection(() => [...this.walk()].filter((e) => e !== this && (t === '*' || e._tag === t.toLowerCase()))); }
    getElementsByClassName(c) { return collection(() => [...this.walk()].filter((e) => e !== this && e._class.has(c))); }
    closest(s) { for (let e = this; e; e = e._parent) if (e.matches(s)) return e; return null; }
    focus() {}
    blur() {}
    click() { if (!this.disabled) this.dispatchEvent({ type: 'click', bubbles: true }); }

    sanitize(v) {
        if (this._tag !== 'input') return v;
        if (this.type === 'color') return /^#[0-9a-f]{6}$/i.test(v) ? v.toLowerCase() : '#000000';
        if (this.type === 'number') return /^-?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?$/i.test(v) ? v : '';
        return v.replace(/[\r\n]/g, '');
    }
    get value() { return this._value ?? this.sanitize(this._attr.get('value') ?? ''); }
    set value(v) { this._value = this.sanitize(v === null ? '' : String(v)); this._sim.fieldSet(this, false); }
    get defaultValue() { return this._attr.get('value') ?? ''; }
    get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); }
    set valueAsNumber(v) { this.value = String(v); }
    userValue(v) { this._value = this.sanitize(v); this._sim.fieldSet(this, true); }

    // images
    get src() { return this._attr.get('src') ? this._sim.page.absolute(this._attr.get('src')) : ''; }
    set src(v) {
        this._attr.set('src', String(v));
        if (this._tag === 'img') this._sim.page.setImage(this, this.src);
    }
    get currentSrc() { return this.src; }
    get complete() { return !this._img || this._img.state !== 'loading'; }
    get naturalWidth() { return this._img?.state === 'ok' ? this._img.bitmap.w : 0; }
    get naturalHeight() { return this._img?.state === 'ok' ? this._img.bitmap.h : 0; }
    get width() { return this.naturalWidth; }
    get height() { return this.naturalHeight; }
    decode() { return this._sim.page.decodeImage(this); }
}

export function parseHtml(sim, html) {
    const root = new Element(sim, 'html');
    let stack = [root];
    for (const m of html.replace(/<!--[\s\S]*?-->|<!DOCTYPE[^>]*>/gi, '').matchAll(/<(\/?)([a-z0-9]+)((?:[^>"']|"[^"]*"|'[^']*')*)>|([^<]+)/gi)) {
        const top = stack[stack.length - 1];
        if (m[4] !== undefined) {
            if (m[4].trim()) top._text += m[4].trim();
            continue;
        }
        const tag = m[2].toLowerCase();
        if (m[1]) {
            const i = stack.findLastIndex((e) => e._tag === tag);
            if (i > 0) stack = stack.slice(0, i);
            continue;
        }
        if (tag === 'html') continue;
        const e = new Element(sim, tag);
        for (const a of m[3].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) {
            const v = a[2] ?? a[3] ?? a[4] ?? '';
            if (a[1] === 'class') e.className = v;
            else if (a[1] === 'style') v.split(';').forEach((d) => { const [k, x] = d.split(':'); if (x) e.style[k.trim()] = x.trim(); });
            else e._attr.set(a[1].toLowerCase(), v);
        }
        top.appendChild(e);
        if (!VOID.has(tag) && !/\/\s*$/.test(m[3])) stack.push(e);
    }
    return root;
}
