// A small renderer for the page: function components with their own hook state, and React's rules for which of the
// earlier children a new list reuses (by position while the keys agree, by key or position after that).
const norm = (c) => (Array.isArray(c) ? c : c === undefined || c === null ? [] : [c]);

export class Page {
  constructor(world, element) {
    this.world = world;
    this.element = element;
    this.root = { tag: "#root", type: "#root", props: {}, kids: [], shown: [] };
    this.render();
  }
  render() {
    const w = this.world;
    globalThis.__pkg = w.pkg;
    this.flat = null;
    for (let round = 0; ; round++) {
      if (round > 60) throw new Error("the page keeps re-rendering");
      w.dirty = false;
      this.effects = [];
      this.reconcile(this.root, [this.element]);
      const todo = this.effects;
      for (const [c] of todo) if (c.undo) { c.undo(); c.undo = null; }
      for (const [c, f, d] of todo) { c.d = d; const u = f(); c.undo = typeof u === "function" ? u : null; }
      if (!w.dirty) return;
    }
  }
  /** Children of one parent: `parent.kids` are the live ones (with their slots), `parent.shown` what is on the screen. */
  reconcile(parent, list) {
    const old = parent.kids, kids = [], gone = new Set();
    const drop = (o) => { gone.add(o); this.unmount(o); };
    let at = 0, n = 0;
    const empty = (e) => e === null || e === undefined || typeof e === "boolean";
    const text = (e) => typeof e === "string" || typeof e === "number" || typeof e === "bigint";
    const kind = (e) => (text(e) ? "#text" : Array.isArray(e) ? "fragment" : e.type);
    const keyOf = (e) => (text(e) || Array.isArray(e) ? null : e.key);
    const place = (o, e, i) => {
      const t = kind(e), reuse = o && o.type === t;
      if (o && !reuse) drop(o);
      const node = reuse ? o : { type: t, cells: [], kids: [], shown: [] };
      node.key = keyOf(e);
      node.slot = i;
      this.update(node, e);
      kids.push(node);
      return reuse;
    };
    let slot = old[at] ?? null;
    for (; slot && n < list.length; n++) {
      const next = old[at + 1] ?? null;
      let o = slot, e = list[n];
      if (o.slot > n) o = null;
      if (empty(e) || (o ? o.key : null) !== keyOf(e)) break;
      place(o, e, n);
      if (o) { at++; slot = next; }
    }
    if (n === list.length) for (; at < old.length; at++) drop(old[at]);
    else {
      const left = new Map();
      for (; at < old.length; at++) left.set(old[at].key ?? old[at].slot, old[at]);
      for (; n < list.length; n++) {
        const e = list[n];
        if (empty(e)) continue;
        const k = keyOf(e) ?? n, o = left.get(k);
        if (o) left.delete(k);
        place(o ?? null, e, n);
      }
      for (const o of left.values()) drop(o);
    }
    // children that were neither taken over nor removed stay on the screen (rows with the same key)
    const stay = parent.shown.filter((o) => !kids.includes(o) && !gone.has(o));
    parent.kids = kids;
    parent.shown = [...stay, ...kids];
  }
  update(node, e) {
    if (node.type === "#text") { node.text = String(e); return; }
    if (Array.isArray(e)) { node.props = {}; this.reconcile(node, e); return; }
    node.props = e.props;
    if (typeof node.type === "function") {
      const effects = [];
      globalThis.__react.current = this.world.hooks(node.cells, effects);
      const out = node.type(e.props);
      globalThis.__react.current = null;
      this.reconcile(node, [out]);
      this.effects.push(...effects);
    } else {
      if (e.props.ref && typeof e.props.ref === "object") e.props.ref.current = { click: () => {}, value: "" };
      this.reconcile(node, norm(e.props.children));
    }
  }
  unmount(node) {
    for (const k of node.kids) this.unmount(k);
    for (const c of node.cells ?? []) if (c.undo) { c.undo(); c.undo = null; }
  }

  // ---- what a user sees and does
  /** Host elements on the screen, in document order, with their ancestors. */
  *walk(node = this.root, up = []) {
    for (const k of node.shown) {
      if (k.type === "#text") continue;
      const host = typeof k.type === "string" && k.type !== "fragment";
      if (host) { k.up = up; yield k; }
      yield* this.walk(k, host ? [...up, k] : up);
    }
  }
  all(test, node) {
    const list = node && node !== this.root ? [...this.walk(node, [...(node.up ?? []), node])] : (this.flat ??= [...this.walk()]);
    return list.filter(typeof test === "string" ? (x) => x.type === test : test);
  }
  text(node, skip = () => false) {
    let out = "";
    for (const k of node.shown) out += k.type === "#text" ? k.text : typeof k.type === "string" && skip(k) ? "" : this.text(k, skip);
    return out;
  }
  /** The control labelled so: the input or select within (or tied to) the label with that text. */
  fields(within) {
    const control = (x) => x.type === "input" || x.type === "select" || x.type === "textarea";
    const out = [];
    for (const l of this.all("label", within)) {
      const name = this.text(l, control).trim();
      const c = this.all(control, l)[0] ?? (l.props.htmlFor ? this.all((x) => x.props.id === l.props.htmlFor)[0] : undefined);
      if (c) out.push({ name, c });
    }
    return out;
  }
  event(target, more = {}) { return { target, currentTarget: target, preventDefault() {}, stopPropagation() { this.stopped = true; }, ...more }; }
  /** The handler runs on the node and, unless it is stopped, on those around it. */
  fire(node, name, ev) {
    globalThis.__pkg = this.world.pkg;
    for (const x of [node, ...[...(node.up ?? [])].reverse()]) {
      if (x.type === "button" && x.props.disabled) break;
      x.props[name]?.(ev);
      if (ev.stopped) break;
    }
    this.render();
  }
  enabled(c) { return !c.props.disabled && !c.up.some((x) => x.type === "fieldset" && x.props.disabled); }
  type(c, value) { this.fire(c, "onChange", this.event({ value: String(value) })); }
  tick(c) { this.fire(c, "onChange", this.event({ checked: !c.props.checked, value: "on" })); }
  click(node) { this.fire(node, "onClick", this.event({})); }
  button(text) { return this.all((x) => x.type === "button" && this.text(x).trim() === text)[0]; }
  rows(table) { return this.all("tr", table).map((r) => this.all((x) => x.type === "td" || x.type === "th", r).map((c) => this.text(c))); }
}
