// Functional stand-in for bn.js (signed big integers, mutating i-methods included).
const A = (c, m) => {
  if (!c) throw new Error(m || 'Assertion failed');
};
const abs = (x) => (x < 0n ? -x : x);
function parse(s, base) {
  s = String(s).replace(/\s+/g, '');
  let neg = false;
  if (s[0] === '-') {
    neg = true;
    s = s.slice(1);
  }
  if (base === 'hex') base = 16;
  base = base || 10;
  let r = 0n;
  const b = BigInt(base);
  if (s.length === 0) throw new Error('Invalid character');
  for (const c of s) {
    const d = parseInt(c, base);
    if (Number.isNaN(d)) throw new Error('Invalid character');
    r = r * b + BigInt(d);
  }
  return neg ? -r : r;
}
function fromBytes(a, endian) {
  let l = Array.from(a);
  if (endian === 'le') l = l.reverse();
  let r = 0n;
  for (const x of l) r = (r << 8n) | BigInt(x & 255);
  return r;
}
export class BN {
  constructor(n, base, endian) {
    if (n instanceof BN) {
      this.v = n.v;
      return;
    }
    if (base === 'le' || base === 'be') {
      endian = base;
      base = 10;
    }
    if (n === null || n === undefined) this.v = 0n;
    else if (typeof n === 'number') {
      A(Math.abs(n) < 0x20000000000000);
      this.v = BigInt(Math.trunc(n));
    } else if (typeof n === 'bigint') this.v = n;
    else if (typeof n === 'object') this.v = fromBytes(n, endian);
    else this.v = parse(n, base);
  }
  static of(v) {
    const r = new BN(0);
    r.v = v;
    return r;
  }
  static isBN(x) {
    return x instanceof BN;
  }
  static max(a, b) {
    return a.v > b.v ? a : b;
  }
  static min(a, b) {
    return a.v < b.v ? a : b;
  }
  clone() {
    return BN.of(this.v);
  }
  copy(d) {
    d.v = this.v;
  }
  toString(base, pad) {
    let s = abs(this.v).toString(base === 'hex' ? 16 : base || 10);
    if (pad) while (s.length % pad !== 0) s = '0' + s;
    return (this.v < 0n ? '-' : '') + s;
  }
  toJSON() {
    return this.toString(16, 2);
  }
  toNumber() {
    A(abs(this.v) < 1n << 53n, 'Number can only safely store up to 53 bits');
    return Number(this.v);
  }
  bitLength() {
    return this.v === 0n ? 0 : abs(this.v).toString(2).length;
  }
  byteLength() {
    return Math.ceil(this.bitLength() / 8);
  }
  toArray(endian, length) {
    const r = [];
    let x = abs(this.v);
    while (x > 0n) {
      r.push(Number(x & 255n));
      x >>= 8n;
    }
    const n = length || Math.max(1, r.length);
    A(r.length <= n, 'byte array longer than desired length');
    while (r.length < n) r.push(0);
    return endian === 'le' ? r : r.reverse();
  }
  toArrayLike(T, endian, length) {
    const a = this.toArray(endian, length);
    if (T === Array) return a;
    return T.from ? T.from(a) : new T(a);
  }
  toBuffer(endian, length) {
    return this.toArrayLike(Buffer, endian, length);
  }
  isNeg() {
    return this.v < 0n;
  }
  isZero() {
    return this.v === 0n;
  }
  isOdd() {
    return (this.v & 1n) === 1n;
  }
  isEven() {
    return (this.v & 1n) === 0n;
  }
  cmp(o) {
    return this.v < o.v ? -1 : this.v > o.v ? 1 : 0;
  }
  ucmp(o) {
    const [a, b] = [abs(this.v), abs(o.v)];
    return a < b ? -1 : a > b ? 1 : 0;
  }
  divmod(o) {
    A(o.v !== 0n);
    return { div: BN.of(this.v / o.v), mod: BN.of(this.v % o.v) };
  }
  divRound(o) {
    const { div, mod } = this.divmod(o);
    if (mod.v === 0n) return div;
    const neg = this.v < 0n !== o.v < 0n;
    if (abs(mod.v) * 2n < abs(o.v)) return div;
    return BN.of(neg ? div.v - 1n : div.v + 1n);
  }
  maskn(n) {
    A(this.v >= 0n, 'imaskn works only with positive numbers');
    return BN.of(this.v & ((1n << BigInt(n)) - 1n));
  }
  imaskn(n) {
    this.v = this.maskn(n).v;
    return this;
  }
  testn(n) {
    return ((abs(this.v) >> BigInt(n)) & 1n) === 1n;
  }
  toTwos(w) {
    return this.v < 0n ? BN.of((1n << BigInt(w)) + this.v) : this.clone();
  }
  fromTwos(w) {
    return this.testn(w - 1) ? BN.of(this.v - (1n << BigInt(w))) : this.clone();
  }
  abs() {
    return BN.of(abs(this.v));
  }
  iabs() {
    this.v = abs(this.v);
    return this;
  }
  neg() {
    return BN.of(-this.v);
  }
  ineg() {
    this.v = -this.v;
    return this;
  }
  sqr() {
    return BN.of(this.v * this.v);
  }
}
const sh = (f) => (v, n) => f(v, BigInt(n));
const shl = sh((v, n) => (v < 0n ? -(-v << n) : v << n));
const shr = sh((v, n) => (v < 0n ? -(-v >> n) : v >> n));
const nz = (f) => (a, b) => {
  A(b !== 0n);
  return f(a, b);
};
const big = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
  div: nz((a, b) => a / b),
  mod: nz((a, b) => a % b),
  umod: nz((a, b) => {
    const r = a % b;
    return r < 0n ? r + abs(b) : r;
  }),
  pow: (a, b) => a ** b,
  and: (a, b) => a & b,
  or: (a, b) => a | b,
  xor: (a, b) => a ^ b,
};
for (const [k, f] of Object.entries(big)) {
  BN.prototype[k] = function (o) {
    return BN.of(f(this.v, o.v));
  };
  BN.prototype['i' + k] = function (o) {
    this.v = f(this.v, o.v);
    return this;
  };
}
for (const [k, f] of [
  ['addn', big.add],
  ['subn', big.sub],
  ['muln', big.mul],
  ['divn', big.div],
]) {
  BN.prototype[k] = function (n) {
    return BN.of(f(this.v, BigInt(n)));
  };
  BN.prototype['i' + k] = function (n) {
    this.v = f(this.v, BigInt(n));
    return this;
  };
}
for (const k of ['modn', 'modrn', 'andln'])
  BN.prototype[k] = function (n) {
    return k === 'andln' ? Number(this.v & BigInt(n)) : Number(this.v % BigInt(n));
  };
for (const [k, f] of [
  ['shln', shl],
  ['ushln', shl],
  ['shrn', shr],
  ['ushrn', shr],
]) {
  BN.prototype[k] = function (n) {
    return BN.of(f(this.v, n));
  };
  BN.prototype['i' + k] = function (n) {
    this.v = f(this.v, n);
    return this;
  };
}
for (const [k, f] of [
  ['gt', (c) => c > 0],
  ['gte', (c) => c >= 0],
  ['lt', (c) => c < 0],
  ['lte', (c) => c <= 0],
  ['eq', (c) => c === 0],
]) {
  BN.prototype[k] = function (o) {
    return f(this.cmp(o));
  };
  BN.prototype[k + 'n'] = function (n) {
    return f(this.cmp(BN.of(BigInt(n))));
  };
}
BN.prototype.cmpn = function (n) {
  return this.cmp(BN.of(BigInt(n)));
};
BN.BN = BN;
export default BN;
