// Functional stand-in for the parts of @solana/web3.js a client of the program can use.
import { createHash } from 'node:crypto';
import { BN } from './bn.js';

const AL = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58encode(b) {
  let z = 0;
  while (z < b.length && b[z] === 0) z++;
  let x = 0n;
  for (const c of b) x = (x << 8n) | BigInt(c);
  let s = '';
  while (x > 0n) {
    s = AL[Number(x % 58n)] + s;
    x /= 58n;
  }
  return '1'.repeat(z) + s;
}
export function b58decode(s) {
  let z = 0;
  while (z < s.length && s[z] === '1') z++;
  let x = 0n;
  for (const c of s) {
    const d = AL.indexOf(c);
    if (d < 0) throw new Error('Non-base58 character');
    x = x * 58n + BigInt(d);
  }
  const r = [];
  while (x > 0n) {
    r.push(Number(x & 255n));
    x >>= 8n;
  }
  return Buffer.from([...new Array(z).fill(0), ...r.reverse()]);
}
export const sha256 = (b) => createHash('sha256').update(b).digest();

const P = 2n ** 255n - 19n;
const mod = (a) => ((a % P) + P) % P;
function powm(b, e) {
  let r = 1n;
  b = mod(b);
  while (e > 0n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
    e >>= 1n;
  }
  return r;
}
const D = mod(-121665n * powm(121666n, P - 2n));
const SQ = powm(2n, (P - 1n) / 4n);
export function onCurve(bytes) {
  const b = Buffer.from(bytes);
  const sign = b[31] >> 7;
  b[31] &= 127;
  let y = 0n;
  for (let i = 31; i >= 0; --i) y = (y << 8n) | BigInt(b[i]);
  y = mod(y);
  const y2 = mod(y * y);
  const u = mod(y2 - 1n);
  const v = mod(D * y2 + 1n);
  const v3 = mod(v * v * v);
  let x = mod(u * v3 * powm(u * v3 * v3 * v, (P - 5n) / 8n));
  const vx2 = mod(v * x * x);
  if (vx2 === u) {
  } else if (vx2 === mod(-u)) x = mod(x * SQ);
  else return false;
  return !(x === 0n && sign === 1 && false);
}

const pdas = new Map();
export class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) this.b = v.b;
    else if (typeof v === 'string') {
      const d = b58decode(v);
      if (d.length !== 32) throw new Error('Invalid public key input');
      this.b = d;
    } else if (v instanceof BN) this.b = v.toArrayLike(Buffer, 'be', 32);
    else if (typeof v === 'number') this.b = new BN(v).toArrayLike(Buffer, 'be', 32);
    else if (v && v._bn) this.b = v._bn.toArrayLike(Buffer, 'be', 32);
    else {
      const d = Buffer.from(v);
      if (d.length > 32) throw new Error('Invalid public key input');
      this.b = Buffer.concat([Buffer.alloc(32 - d.length), d]);
    }
  }
  get _bn() {
    return new BN(this.b);
  }
  equals(o) {
    return this.b.equals(o.toBuffer());
  }
  toBase58() {
    return (this.s ??= b58encode(this.b));
  }
  toString() {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
  toBytes() {
    return new Uint8Array(this.b);
  }
  toBuffer() {
    return Buffer.from(this.b);
  }
  static isOnCurve(k) {
    return onCurve(k instanceof PublicKey ? k.b : typeof k === 'string' ? b58decode(k) : k);
  }
  static createProgramAddressSync(seeds, programId) {
    for (const s of seeds) if (s.length > 32) throw new TypeError('Max seed length exceeded');
    const h = sha256(
      Buffer.concat([...seeds.map((s) => Buffer.from(s)), programId.toBuffer(), Buffer.from('ProgramDerivedAddress')]),
    );
    if (onCurve(h)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(h);
  }
  static async createProgramAddress(s, p) {
    return PublicKey.createProgramAddressSync(s, p);
  }
  static findProgramAddressSync(seeds, programId) {
    const key = seeds.map((s) => Buffer.from(s).toString('hex')).join('/') + '@' + programId.toBase58();
    let r = pdas.get(key);
    if (r) return r;
    for (let nonce = 255; nonce > 0; --nonce) {
      try {
        r = [PublicKey.createProgramAddressSync([...seeds, Buffer.from([nonce])], programId), nonce];
        pdas.set(key, r);
        return r;
      } catch (e) {
        if (e instanceof TypeError) throw e;
      }
    }
    throw new Error('Unable to find a viable program address nonce');
  }
  static async findProgramAddress(s, p) {
    return PublicKey.findProgramAddressSync(s, p);
  }
  static unique() {
    return Keypair.generate().publicKey;
  }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');

let fresh = 0;
export class Keypair {
  // the harness builds key pairs from the public key: no cryptography is involved
  constructor(k) {
    this.publicKey = k instanceof PublicKey ? k : new PublicKey(sha256(Buffer.from(`fresh:${fresh++}`)));
    this.secretKey = new Uint8Array(64);
  }
  static generate() {
    return new Keypair();
  }
  static restart() {
    fresh = 0;
  }
}
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
export const SYSVAR_CLOCK_PUBKEY = new PublicKey('SysvarC1ock11111111111111111111111111111111');
export const LAMPORTS_PER_SOL = 1e9;

export class TransactionInstruction {
  constructor({ keys, programId, data }) {
    this.keys = keys;
    this.programId = programId;
    this.data = data ?? Buffer.alloc(0);
  }
}
const u32 = (n) => new BN(n).toArrayLike(Buffer, 'le', 4);
const u64 = (n) => new BN(n).toArrayLike(Buffer, 'le', 8);
export const SystemProgram = {
  programId: PublicKey.default,
  createAccount: ({ fromPubkey, newAccountPubkey, lamports, space, programId }) =>
    new TransactionInstruction({
      keys: [
        { pubkey: fromPubkey, isSigner: true, isWritable: true },
        { pubkey: newAccountPubkey, isSigner: true, isWritable: true },
      ],
      programId: PublicKey.default,
      data: Buffer.concat([u32(0), u64(lamports), u64(space), programId.toBuffer()]),
    }),
  transfer: ({ fromPubkey, toPubkey, lamports }) =>
    new TransactionInstruction({
      keys: [
        { pubkey: fromPubkey, isSigner: true, isWritable: true },
        { pubkey: toPubkey, isSigner: false, isWritable: true },
      ],
      programId: PublicKey.default,
      data: Buffer.concat([u32(2), u64(lamports)]),
    }),
};
const CB = new PublicKey('ComputeBudget111111111111111111111111111111');
export const ComputeBudgetProgram = {
  programId: CB,
  setComputeUnitPrice: ({ microLamports }) =>
    new TransactionInstruction({ keys: [], programId: CB, data: Buffer.concat([Buffer.from([3]), u64(microLamports)]) }),
  setComputeUnitLimit: ({ units }) =>
    new TransactionInstruction({ keys: [], programId: CB, data: Buffer.concat([Buffer.from([2]), u32(units)]) }),
};

function required(payer, ixs) {
  const s = new Set([payer.toBase58()]);
  for (const ix of ixs) for (const k of ix.keys) if (k.isSigner) s.add(k.pubkey.toBase58());
  return s;
}
class Signed {
  signed = new Set();
  put(list, need) {
    for (const k of list) {
      const n = k.publicKey.toBase58();
      if (!need.has(n)) throw new Error(`Cannot sign with non signer key ${n}`);
      this.signed.add(n);
    }
  }
}
export class Transaction extends Signed {
  instructions = [];
  add(...l) {
    for (const x of l) this.instructions.push(...(x.instructions ?? [x]));
    return this;
  }
  need() {
    return required(this.feePayer, this.instructions);
  }
  partialSign(...l) {
    this.put(l, this.need());
  }
  sign(...l) {
    if (!this.feePayer && l.length) this.feePayer = l[0].publicKey;
    this.put(l, this.need());
  }
  serialize() {
    return this;
  }
}
export class MessageV0 {
  static compile({ payerKey, instructions, recentBlockhash, addressLookupTableAccounts }) {
    const m = new MessageV0();
    Object.assign(m, { payerKey, instructions, recentBlockhash, addressLookupTableAccounts });
    return m;
  }
}
export class TransactionMessage {
  constructor(o) {
    Object.assign(this, o);
  }
  compileToV0Message(addressLookupTableAccounts) {
    return MessageV0.compile({ ...this, addressLookupTableAccounts });
  }
}
export class VersionedTransaction extends Signed {
  constructor(message) {
    super();
    this.message = message;
  }
  get feePayer() {
    return this.message.payerKey;
  }
  get instructions() {
    return this.message.instructions;
  }
  need() {
    return required(this.message.payerKey, this.message.instructions);
  }
  sign(l) {
    this.put(l, this.need());
  }
  serialize() {
    return this;
  }
}
export class Connection {}
export class Message {}
export class AddressLookupTableAccount {}
