// Functional stand-in for @coral-xyz/anchor 0.29: the IDL driven coder, account
// fetching through the provider's connection, and the instruction builder.
import { BN } from './bn.js';
import { PublicKey, SystemProgram, TransactionInstruction, Transaction, SYSVAR_RENT_PUBKEY, SYSVAR_CLOCK_PUBKEY, b58decode, b58encode, sha256 } from './web3.js';
import { TOKEN_PROGRAM_ID, ASSOCIATED_TOKEN_PROGRAM_ID } from './spl-token.js';
export { BN };
import * as web3 from './web3.js';
export { web3 };
import * as bytes from './bytes.js';
export const utils = { bytes, sha256: { hash: (s) => sha256(Buffer.from(s)).toString('hex') } };

const snake = (s) => s.replace(/([A-Z])/g, (c) => '_' + c.toLowerCase()).replace(/^_/, '').replace(/([a-z])(\d)/g, '$1$2');
const pascal = (s) => s[0].toUpperCase() + s.slice(1);
export const camel = (s) => {
  const t = s.replace(/_+([a-zA-Z0-9])/g, (_, c) => c.toUpperCase());
  return t[0].toLowerCase() + t.slice(1);
};

const ints = { u8: 1, i8: 1, u16: 2, i16: 2, u32: 4, i32: 4 };
const bigs = { u64: 8, i64: 8, u128: 16, i128: 16 };
class Reader {
  constructor(b) {
    this.b = b;
    this.o = 0;
  }
  take(n) {
    if (this.o + n > this.b.length) throw new RangeError('Index out of range');
    const r = this.b.subarray(this.o, this.o + n);
    this.o += n;
    return r;
  }
}
function rdBig(b, signed) {
  let v;
  if (b.length === 8) v = signed ? b.readBigInt64LE(0) : b.readBigUInt64LE(0);
  else v = b.readBigUInt64LE(0) | ((signed ? b.readBigInt64LE(8) : b.readBigUInt64LE(8)) << 64n);
  return BN.of(v);
}
// compiles an IDL type to { dec(reader), enc(value, chunks) }
class Types {
  constructor(idl) {
    this.defs = new Map([...(idl.types ?? []), ...(idl.accounts ?? [])].map((t) => [t.name, t]));
    this.cache = new Map();
  }
  defined(name) {
    let c = this.cache.get(name);
    if (!c) {
      const d = this.defs.get(name);
      if (!d) throw new Error(`Type not found: ${name}`);
      c = {};
      this.cache.set(name, c);
      Object.assign(c, this.compound(d.type));
    }
    return c;
  }
  fields(l) {
    const fs = l.map((f) => [camel(f.name), this.type(f.type)]);
    return {
      dec: (r) => {
        const o = {};
        for (const [n, t] of fs) o[n] = t.dec(r);
        return o;
      },
      enc: (v, w) => {
        for (const [n, t] of fs) {
          if (v[n] === undefined) throw new Error(`field ${n} is missing`);
          t.enc(v[n], w);
        }
      },
    };
  }
  compound(t) {
    if (t.kind === 'struct') return this.fields(t.fields);
    const vs = t.variants.map((v) => {
      const named = (v.fields ?? []).map((f, i) => (f.name ? f : { name: String(i), type: f }));
      return [camel(v.name), this.fields(named)];
    });
    return {
      dec: (r) => {
        const k = r.take(1)[0];
        if (!vs[k]) throw new Error('unknown variant');
        return { [vs[k][0]]: vs[k][1].dec(r) };
      },
      enc: (v, w) => {
        const n = Object.keys(v)[0];
        const k = vs.findIndex((x) => x[0] === n);
        if (k < 0) throw new Error(`unable to infer src variant ${n}`);
        w.push(Buffer.from([k]));
        vs[k][1].enc(v[n], w);
      },
    };
  }
  type(t) {
    if (typeof t === 'string') {
      if (t in ints) {
        const n = ints[t];
        const s = t[0] === 'i';
        return {
          dec: (r) => (s ? r.take(n).readIntLE(0, n) : r.take(n).readUIntLE(0, n)),
          enc: (v, w) => {
            const b = Buffer.alloc(n);
            if (s) b.writeIntLE(v, 0, n);
            else b.writeUIntLE(v, 0, n);
            w.push(b);
          },
        };
      }
      if (t in bigs) {
        const n = bigs[t];
        const s = t[0] === 'i';
        return {
          dec: (r) => rdBig(r.take(n), s),
          // the coder writes the two's complement of the number in the given width
          enc: (v, w) => w.push(v.toTwos(n * 8).toArrayLike(Buffer, 'le', n)),
        };
      }
      switch (t) {
        case 'bool':
          return { dec: (r) => r.take(1)[0] === 1, enc: (v, w) => w.push(Buffer.from([v ? 1 : 0])) };
        case 'f32':
        case 'f64': {
          const n = t === 'f32' ? 4 : 8;
          return {
            dec: (r) => (n === 4 ? r.take(4).readFloatLE(0) : r.take(8).readDoubleLE(0)),
            enc: (v, w) => {
              const b = Buffer.alloc(n);
              if (n === 4) b.writeFloatLE(v, 0);
              else b.writeDoubleLE(v, 0);
              w.push(b);
            },
          };
        }
        case 'publicKey':
          return { dec: (r) => new PublicKey(Buffer.from(r.take(32))), enc: (v, w) => w.push(v.toBuffer()) };
        case 'string':
          return {
            dec: (r) => r.take(r.take(4).readUInt32LE(0)).toString('utf8'),
            enc: (v, w) => {
              const b = Buffer.from(v, 'utf8');
              const l = Buffer.alloc(4);
              l.writeUInt32LE(b.length);
              w.push(l, b);
            },
          };
        case 'bytes':
          return {
            dec: (r) => Buffer.from(r.take(r.take(4).readUInt32LE(0))),
            enc: (v, w) => {
              const l = Buffer.alloc(4);
              l.writeUInt32LE(v.length);
              w.push(l, Buffer.from(v));
            },
          };
      }
      throw new Error(`unknown type ${t}`);
    }
    if (t.defined) return this.defined(t.defined.name ?? t.defined);
    if (t.option) {
      const i = this.type(t.option);
      return {
        dec: (r) => (r.take(1)[0] ? i.dec(r) : null),
        enc: (v, w) => {
          w.push(Buffer.from([v === null || v === undefined ? 0 : 1]));
          if (v !== null && v !== undefined) i.enc(v, w);
        },
      };
    }
    if (t.vec) {
      const i = this.type(t.vec);
      return {
        dec: (r) => {
          const n = r.take(4).readUInt32LE(0);
          const l = [];
          for (let k = 0; k < n; ++k) l.push(i.dec(r));
          return l;
        },
        enc: (v, w) => {
          const l = Buffer.alloc(4);
          l.writeUInt32LE(v.length);
          w.push(l);
          for (const x of v) i.enc(x, w);
        },
      };
    }
    if (t.array) {
      const [it, n] = t.array;
      if (it === 'u8') return { dec: (r) => Array.from(r.take(n)), enc: (v, w) => w.push(Buffer.from(v)) };
      const i = this.type(it);
      return {
        dec: (r) => {
          const l = [];
          for (let k = 0; k < n; ++k) l.push(i.dec(r));
          return l;
        },
        enc: (v, w) => {
          for (const x of v) i.enc(x, w);
        },
      };
    }
    throw new Error(`unknown type ${JSON.stringify(t)}`);
  }
}
class Layout {
  constructor(c) {
    this.c = c;
  }
  decode(b, off = 0) {
    return this.c.dec(new Reader(off ? b.subarray(off) : b));
  }
  encode(v, b, off = 0) {
    const w = [];
    this.c.enc(v, w);
    return Buffer.concat(w).copy(b, off);
  }
}
class TypesCoder {
  constructor(idl, types) {
    this.typeLayouts = new Map((idl.types ?? []).map((t) => [t.name, new Layout(types.defined(t.name))]));
    this.idl = idl;
  }
  encode(name, v) {
    const l = this.typeLayouts.get(name);
    if (!l) throw new Error(`Unknown type: ${name}`);
    const w = [];
    l.c.enc(v, w);
    return Buffer.concat(w);
  }
  decode(name, b) {
    const l = this.typeLayouts.get(name);
    if (!l) throw new Error(`Unknown type: ${name}`);
    return l.decode(b);
  }
}
class AccountsCoder {
  constructor(idl, types) {
    this.accountLayouts = new Map((idl.accounts ?? []).map((t) => [t.name, new Layout(types.defined(t.name))]));
    this.idl = idl;
  }
  static accountDiscriminator(name) {
    return sha256(Buffer.from(`account:${pascal(name)}`)).subarray(0, 8);
  }
  accountDiscriminator(name) {
    return AccountsCoder.accountDiscriminator(name);
  }
  decode(name, data) {
    if (AccountsCoder.accountDiscriminator(name).compare(data.subarray(0, 8)) !== 0) throw new Error('Invalid account discriminator');
    return this.decodeUnchecked(name, data);
  }
  decodeUnchecked(name, data) {
    const l = this.accountLayouts.get(name);
    if (!l) throw new Error(`Unknown account: ${name}`);
    return l.decode(data.subarray(8));
  }
  memcmp(name) {
    return { offset: 0, bytes: b58encode(AccountsCoder.accountDiscriminator(name)) };
  }
}
class EventsCoder {
  constructor(idl, types) {
    this.l = (idl.events ?? []).map((e) => [e.name, sha256(Buffer.from(`event:${e.name}`)).subarray(0, 8), types.fields(e.fields)]);
  }
  decode(log) {
    const b = Buffer.from(log, 'base64');
    const d = b.subarray(0, 8);
    for (const [name, disc, c] of this.l) if (disc.equals(d)) return { name, data: c.dec(new Reader(b.subarray(8))) };
    return null;
  }
}
class InstructionCoder {
  constructor(idl, types) {
    this.m = new Map(idl.instructions.map((i) => [i.name, types.fields(i.args)]));
  }
  encode(name, v) {
    const c = this.m.get(name);
    if (!c) throw new Error(`Unknown method: ${name}`);
    const w = [sha256(Buffer.from(`global:${snake(name)}`)).subarray(0, 8)];
    c.enc(v, w);
    return Buffer.concat(w);
  }
}
export class BorshCoder {
  constructor(idl) {
    const t = new Types(idl);
    this.instruction = new InstructionCoder(idl, t);
    this.accounts = new AccountsCoder(idl, t);
    this.types = new TypesCoder(idl, t);
    this.events = new EventsCoder(idl, t);
  }
}
export const BorshAccountsCoder = AccountsCoder;

class AccountClient {
  constructor(program, def) {
    this.program = program;
    this.name = def.name;
  }
  get conn() {
    return this.program.provider.connection;
  }
  dec(ai) {
    return this.program.coder.accounts.decode(this.name, ai.data);
  }
  async fetchNullable(k) {
    const ai = await this.conn.getAccountInfo(new PublicKey(k));
    return ai === null ? null : this.dec(ai);
  }
  async fetch(k) {
    const r = await this.fetchNullable(k);
    if (r === null) throw new Error(`Account does not exist or has no data ${k.toString()}`);
    return r;
  }
  async fetchAndContext(k) {
    return { data: await this.fetch(k), context: { slot: 0 } };
  }
  async fetchMultiple(l) {
    const ais = await this.conn.getMultipleAccountsInfo(l.map((k) => new PublicKey(k)));
    return ais.map((ai) => (ai === null ? null : this.dec(ai)));
  }
  async all(filters) {
    const fs = [{ memcmp: this.program.coder.accounts.memcmp(this.name) }];
    if (filters instanceof Buffer) fs[0].memcmp.bytes = b58encode(Buffer.concat([b58decode(fs[0].memcmp.bytes), filters]));
    else fs.push(...(filters ?? []));
    const l = await this.conn.getProgramAccounts(this.program.programId, { filters: fs });
    return l.map(({ pubkey, account }) => ({ publicKey: pubkey, account: this.dec(account) }));
  }
  getAccountInfo(k) {
    return this.conn.getAccountInfo(k);
  }
}

const known = {
  systemProgram: SystemProgram.programId,
  tokenProgram: TOKEN_PROGRAM_ID,
  associatedTokenProgram: ASSOCIATED_TOKEN_PROGRAM_ID,
  rent: SYSVAR_RENT_PUBKEY,
  clock: SYSVAR_CLOCK_PUBKEY,
};
class Builder {
  constructor(program, def, args) {
    if (args.length !== def.args.length) {
      // trailing options object is accepted by the library
      if (args.length !== def.args.length + 1) throw new Error(`provided too ${args.length < def.args.length ? 'few' : 'many'} arguments to instruction ${def.name}`);
      args = args.slice(0, def.args.length);
    }
    Object.assign(this, { program, def, args, acc: {}, rem: [], sig: [], pre: [], post: [] });
  }
  accounts(a) {
    Object.assign(this.acc, a);
    return this;
  }
  accountsStrict(a) {
    return this.accounts(a);
  }
  accountsPartial(a) {
    return this.accounts(a);
  }
  remainingAccounts(l) {
    this.rem = this.rem.concat(l);
    return this;
  }
  signers(l) {
    this.sig = this.sig.concat(l);
    return this;
  }
  preInstructions(l) {
    this.pre = l.concat(this.pre);
    return this;
  }
  postInstructions(l) {
    this.post = this.post.concat(l);
    return this;
  }
  async instruction() {
    const { program, def } = this;
    const keys = def.accounts.map((d) => {
      let k = this.acc[d.name];
      if (k === undefined) {
        if (d.isOptional) k = null;
        else if (d.isSigner) k = program.provider.wallet.publicKey;
        else if (d.name in known) k = known[d.name];
        else if (d.name === 'program') k = program.programId;
        else throw new Error(`Invalid arguments: ${d.name} not provided.`);
      }
      if (k === null) {
        if (!d.isOptional) throw new Error(`Invalid arguments: ${d.name} not provided.`);
        k = program.programId;
      }
      k = k.publicKey ?? new PublicKey(k);
      const absent = d.isOptional === true && k.equals(program.programId);
      return { pubkey: k, isSigner: d.isSigner && !absent, isWritable: d.isMut && !absent };
    });
    const v = {};
    def.args.forEach((a, i) => {
      v[camel(a.name)] = this.args[i];
    });
    return new TransactionInstruction({
      keys: keys.concat(this.rem),
      programId: program.programId,
      data: program.coder.instruction.encode(def.name, v),
    });
  }
  async transaction() {
    return new Transaction().add(...this.pre, await this.instruction(), ...this.post);
  }
  async rpc(opts) {
    const p = this.program.provider;
    return p.sendAndConfirm(await this.transaction(), this.sig, opts);
  }
  async pubkeys() {
    return this.acc;
  }
}
export class Program {
  constructor(idl, programId, provider, coder) {
    this._idl = idl;
    this._programId = new PublicKey(programId);
    this._provider = provider ?? getProvider();
    this._coder = coder ?? new BorshCoder(idl);
    this.account = {};
    for (const a of idl.accounts ?? []) this.account[camel(a.name)] = new AccountClient(this, a);
    this.methods = {};
    for (const i of idl.instructions) this.methods[i.name] = (...args) => new Builder(this, i, args);
  }
  get programId() {
    return this._programId;
  }
  get idl() {
    return this._idl;
  }
  get coder() {
    return this._coder;
  }
  get provider() {
    return this._provider;
  }
}
export class AnchorProvider {
  constructor(connection, wallet, opts) {
    this.connection = connection;
    this.wallet = wallet;
    this.opts = opts;
    this.publicKey = wallet?.publicKey;
  }
  static defaultOptions() {
    return { preflightCommitment: 'processed', commitment: 'processed' };
  }
  async sendAndConfirm(tx, signers = []) {
    tx.feePayer = tx.feePayer ?? this.wallet.publicKey;
    tx.sign(...signers);
    tx = await this.wallet.signTransaction(tx);
    return this.connection.sendRawTransaction(tx.serialize());
  }
}
let provider = null;
export const setProvider = (p) => {
  provider = p;
};
export const getProvider = () => provider;
export class Wallet {
  constructor(payer) {
    this.payer = payer;
  }
  get publicKey() {
    return this.payer.publicKey;
  }
  async signTransaction(tx) {
    if (tx.message) tx.sign([this.payer]);
    else tx.partialSign(this.payer);
    return tx;
  }
}
export default { BN, Program, AnchorProvider, Wallet, web3, utils, getProvider, setProvider, BorshCoder };
