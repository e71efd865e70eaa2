// Functional stand-in for big.js: exact decimals; division rounds to 20 places.
const DP = 20;
const ten = (n) => 10n ** BigInt(n);
export class Big {
  constructor(x) {
    if (x instanceof Big) {
      this.n = x.n;
      this.s = x.s;
      return;
    }
    const t = typeof x === 'bigint' ? x.toString() : String(x);
    const m = /^(-?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$/.exec(t);
    if (!m || (m[2] === '' && !m[3])) throw new Error('[big.js] Invalid number');
    let s = (m[3] || '').length - Number(m[4] || 0);
    let n = BigInt((m[2] || '') + (m[3] || '') || '0');
    if (m[1]) n = -n;
    if (s < 0) {
      n *= ten(-s);
      s = 0;
    }
    this.n = n;
    this.s = s;
    this.norm();
  }
  static of(n, s) {
    const r = new Big(0);
    r.n = n;
    r.s = s;
    return r.norm();
  }
  norm() {
    while (this.s > 0 && this.n % 10n === 0n) {
      this.n /= 10n;
      this.s--;
    }
    return this;
  }
  al(o) {
    o = new Big(o);
    const s = Math.max(this.s, o.s);
    return [this.n * ten(s - this.s), o.n * ten(s - o.s), s];
  }
  plus(o) {
    const [a, b, s] = this.al(o);
    return Big.of(a + b, s);
  }
  minus(o) {
    const [a, b, s] = this.al(o);
    return Big.of(a - b, s);
  }
  times(o) {
    o = new Big(o);
    return Big.of(this.n * o.n, this.s + o.s);
  }
  div(o) {
    const [a, b] = this.al(o);
    if (b === 0n) throw new Error('[big.js] Division by zero');
    const neg = a < 0n !== b < 0n;
    const x = (a < 0n ? -a : a) * ten(DP + 1);
    const y = b < 0n ? -b : b;
    const r = (x / y + 5n) / 10n;
    return Big.of(neg ? -r : r, DP);
  }
  mod(o) {
    const [a, b, sc] = this.al(o);
    if (b === 0n) throw new Error('[big.js] Division by zero');
    return Big.of(a % b, sc);
  }
  pow(n) {
    let r = new Big(1);
    for (let i = 0; i < Math.abs(n); ++i) r = r.times(this);
    return n < 0 ? new Big(1).div(r) : r;
  }
  abs() {
    return Big.of(this.n < 0n ? -this.n : this.n, this.s);
  }
  neg() {
    return Big.of(-this.n, this.s);
  }
  cmp(o) {
    const [a, b] = this.al(o);
    return a < b ? -1 : a > b ? 1 : 0;
  }
  eq(o) {
    return this.cmp(o) === 0;
  }
  gt(o) {
    return this.cmp(o) > 0;
  }
  gte(o) {
    return this.cmp(o) >= 0;
  }
  lt(o) {
    return this.cmp(o) < 0;
  }
  lte(o) {
    return this.cmp(o) <= 0;
  }
  // rm: 0 down, 1 half up, 2 half even, 3 up
  round(dp = 0, rm = 1) {
    if (this.s <= dp) return new Big(this);
    const d = ten(this.s - dp);
    const neg = this.n < 0n;
    const x = neg ? -this.n : this.n;
    let q = x / d;
    const r = x % d;
    if (rm === 3 ? r > 0n : rm === 1 ? r * 2n >= d : rm === 2 ? r * 2n > d || (r * 2n === d && q % 2n === 1n) : false) q += 1n;
    return dp >= 0 ? Big.of(neg ? -q : q, dp) : Big.of((neg ? -q : q) * ten(-dp), 0);
  }
  toFixed(dp, rm) {
    if (dp === undefined) return this.toPlain();
    const r = this.round(dp, rm);
    let t = r.toPlain();
    if (dp > 0) {
      const k = t.indexOf('.');
      if (k < 0) t += '.' + '0'.repeat(dp);
      else t += '0'.repeat(dp - (t.length - k - 1));
    }
    return t;
  }
  toPlain() {
    const neg = this.n < 0n;
    let t = (neg ? -this.n : this.n).toString();
    if (this.s > 0) {
      t = t.padStart(this.s + 1, '0');
      t = t.slice(0, t.length - this.s) + '.' + t.slice(t.length - this.s);
    }
    return (neg ? '-' : '') + t;
  }
  toString() {
    return this.toPlain();
  }
  valueOf() {
    return this.toPlain();
  }
  toJSON() {
    return this.toPlain();
  }
  toNumber() {
    return Number(this.toPlain());
  }
}
Big.prototype.mul = Big.prototype.times;
Big.prototype.add = Big.prototype.plus;
Big.prototype.sub = Big.prototype.minus;
Big.roundDown = 0;
Big.roundHalfUp = 1;
Big.roundHalfEven = 2;
Big.roundUp = 3;
const B = new Proxy(Big, { apply: (t, _s, a) => new t(...a) });
export default B;
