// Programs that together exercise every construct, value kind and builtin that
// has no effect outside of the interpreter.  Fault/collection/abort points are
// enumerated exhaustively over them.
#ifndef CORPUS_HPP
#define CORPUS_HPP
static const char *CORPUS[] = {
    "emit(1 + 2 * 3, -4, 7 % 3, 1.5 / 2);",
    "a = [1, [2, 'x'], {k: 3}]; b = a; b[0] = a[1]; a[1][0] = none; emit(a, b);",
    "a = []; a[0] = a; m = {self: a}; m.m = m; a[1] = m; emit(a, m); a = none; emit(m);",
    "l = []; i = 0; while i < 12: { l[i] = [i, string.cat('s', string.chr(65 + i))]; i = i + 1; } emit(l, count(l)); emit(keysof(l));",
    "m = {}; i = 0; while i < 10: { m[i] = {v: i}; m[string.chr(97 + i)] = m[i]; i = i + 1; } emit(m); emit(m['c'] == none, m[3].v, keysof(m));",
    "fun mk(n) { fun get() return n; fun both() return get(), [n, n]; return get, both; } g, h = mk('q'); emit(g()); a, b = h(); emit(a, b); mk = none; g2 = h; h2 = g; emit(h2(), g2());",
    "fun f(a, b = [1, 2], c: ?int = none) { b[0] = a; return b, a, c; } emit(f('x')); x, y, z = f('y', [9], 5); emit(x, y, z); x, y = f(1); emit(x, y);",
    "fun fact(n: int) { if n == 0: return 1; return n * fact(n - 1); } emit(fact(6)); fun even(n) { if n == 0: return true; return odd(n - 1); } fun odd(n) { if n == 0: return false; return even(n - 1); } emit(even(6), odd(4));",
    "s = string.cat('a', 'b', string.chr(233)); t = string.slice(s, 1, 3); emit(s, t, s[2], count(s), string.trim('  x '), s == t, string.toInt('12'), string.ord(t)); print(s, [s, t], {k: s});",
    "b = buffer.new(6); c = buffer.sliceUp(b, 1, 4); d = buffer.sliceUp(c, 1, 2); d[0] = 65; c[0] = 66; b = none; emit(c, d); c = none; emit(d, buffer.toString(d)); e = buffer.fromString('hi'); emit(e); print(e);",
    "T = int | ?String; U = [int, any]; V = {k: T}; emit(istypeof(T, 1), istypeof(T, none), istypeof(T, 1.5), istypeof(U, [1, 's']), istypeof(U, ['s']), istypeof(V, {k: 'v'}), istypeof(?V, none)); fun g(x: T, y: U) return x; emit(g('ok', [2, []])); print(T, ?U, V, type(T));",
    "i = 0; do { j = 0; while true: { if j == 3: break; j = j + 1; } i = i + j; } while i < 9; if i == 9: emit('nine', i); else emit('other');",
    "emit([1, 2, 3][1], {a: {b: [5]}}.a.b[0], 'xyz'[2], [[1], [2]][1][0]); fun f1(x) return x + 1; fun f2(x) return [x]; l = [f1, f2]; emit(l[0](1), l[1](2));",
    "fun q() return 'in list'; x = [q]; fun get(self) return self.name; fun set(self, v) { self.name = v; return self; } m = {name: 'obj', get: get, set: set}; emit(m->get()); m->set('new'); emit(m->get(), m.name, x[0]()); n = m->set([1]); emit(n.name);",
    "fun outer() { v = 'outer'; fun mid() { fun inner() return [v, w]; w = 'mid'; return inner; } return mid(); } k = outer(); v = 'global'; w = 'g'; emit(k()); emit(v, w);",
    "emit(many(3)); a, b, c, d = many(3); emit(a, b, c, d); fun three() return 'x', [1], 2.5; p, q = three(); emit(p, q); emit(three(), three());",
    "a = 1.5; b = a * 2.0; l = [a, b, a == 1.5, b > a, not (a >= b), a != 2]; emit(l, true and false or true, none == none); print(a, b, true, none, [none, 1.25]);",
    "m = {1: 'int', 1.5: 'flt', 'k': 'str', true: 'bool', none: 'none'}; m[2] = 'two'; m[1] = 'one'; emit(m, m[1.5], m[none], m[true], m['zz'], count(m)); for_keys = keysof(m); emit(for_keys[3]);",
    "fun build(n) { if n == 0: return none; return {v: n, next: build(n - 1)}; } l = build(7); s = 0; while l != none: { s = s + l.v; l = l.next; } emit(s);" ,
    "fun counter() { box = [0]; fun inc() { box[0] = box[0] + 1; return box[0]; } return inc; } c1 = counter(); c2 = counter(); emit(c1(), c1(), c2(), c1()); l = [c1, c2]; c1 = none; emit(l[0](), l[1]());",
    "emit(type(1), type([]), type('s'), typename(1.5), typename(none), type(type(1)), type(emit), type(type), type(?int), type(int | bool), any, Buffer, type(buffer)); print(int, String, any);",
    "fun f() { } emit(f()); x = f(); emit(x); a, b = f(); emit(a, b); g = f; emit(g == none);" ,
    "x = y = [1]; x[1] = 2; emit(x, y); a = {b: [0, 0]}; a.b[1] = a.b; emit(a); a['c'] = a.b[1][1]; emit(a);",
    "i = 0; keep = []; while i < 25: { t = [i, [i], {k: i}, string.cat('g', 'h')]; if i % 8 == 0: keep[count(keep)] = t; i = i + 1; } emit(keep);",
    "a = [1, 2, 3]; return a, 'two', {three: 3}, 4.5, none, true;",
    // ones that end in an error, at some depth
    "a = [1]; emit(a); a[5] = 1; emit('unreachable');",
    "fun f(n) { l = [n]; if n == 0: return undefinedName; return f(n - 1); } emit('start'); f(5);",
    "fun g(x: int) return x; emit(g(1)); emit(g('s'));",
    "emit([1, 2] + 1);",
    "fun h() error('custom'); l = ['a', 'b']; emit(l); h();",
    "emit('before'); x = 9223372036854775807; emit(x); x = x + 1;",
    "m = {a: [1]}; emit(m.a(3));",
    "assert(true, 1 == 1); emit('ok'); assert(true, 1 == 2);",
};
static const int NCORPUS = sizeof CORPUS / sizeof *CORPUS;
// [n] objects with a destructor (functions, buffers and slices), of which those in [mask] are then
// dropped all together, then some more of them by [again]; the collections belong after the emits
static inline std::string destructibles(int kind, int n, int again, uint64_t mask)
{
    auto mk = [&](int i) { std::string k = std::to_string(i); int t = kind < 3 ? kind : i % 3; return t == 0 ? "buffer.fromString('b" + k + "')" : t == 1 ? "mk(" + k + ")" : "buffer.sliceUp(base, " + std::to_string(i % 5) + ", 2)"; };
    auto use = [&](int i, const std::string &e) { int t = kind < 3 ? kind : i % 3; return t == 1 ? e + "()" : e; };
    std::string s = "fun mk(i) { fun g() return [i]; return g; } base = buffer.fromString('abcdefg'); l = ["; for (int i = 0; i < n; i++) s += (i ? ", " : "") + mk(i); s += "]; emit('made'); l = [";
    std::vector<int> kept; for (int i = 0; i < n; i++) if (!(mask >> i & 1)) kept.push_back(i); for (size_t j = 0; j < kept.size(); j++) s += (j ? ", l[" : "l[") + std::to_string(kept[j]) + "]"; s += "]; emit('dropped'); ";
    s += "m = [" + mk(0) + ", " + mk(1) + "]; "; if (again == 3) s += "base = none; "; s += "emit('more'); l = ["; std::vector<int> left; for (size_t j = 0; j < kept.size(); j++) if (again == 0 || again == 3 || (again == 1 && j % 2) || (again == 2 && j + 2 < kept.size())) { s += (left.empty() ? "l[" : ", l[") + std::to_string(j) + "]"; left.push_back(kept[j]); }
    s += "]; emit('again'); emit(count(l), " + use(0, "m[0]") + ", " + use(1, "m[1]") + ");"; for (size_t j = 0; j < left.size(); j++) s += " emit(" + use(left[j], "l[" + std::to_string(j) + "]") + ");"; return s;
}
#endif
