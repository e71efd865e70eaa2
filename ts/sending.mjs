// Transactions of the client sent under every configuration and every course of
// answers of the wallet and the node.
import * as C from '@client';
import { AnchorProvider, Wallet } from '@coral-xyz/anchor';
import { Keypair, PublicKey, SystemProgram, TransactionInstruction, VersionedTransaction } from '@solana/web3.js';

const key = (n) => new PublicKey(Buffer.alloc(32, n));
const W = new Keypair(key(11));
const W2 = new Keypair(key(12));
const S = [new Keypair(key(21)), new Keypair(key(22)), W];
const PRICE = 'ComputeBudget111111111111111111111111111111';
const HASH = { blockhash: 'newest', lastValidBlockHeight: 77 };

// the answers of this course and what was asked
let course = {};
let log = [];
class Refused extends Error {}
const refuse = (w) => {
  throw new Refused(w);
};
const text = (ix) => `${ix.programId.toBase58()}/${Buffer.from(ix.data).toString('hex')}/${ix.keys.map((k) => `${k.pubkey.toBase58()}:${k.isSigner ? 's' : ''}${k.isWritable ? 'w' : ''}`).join(',')}`;
function send(who, tx) {
  log.push([
    'send',
    {
      who,
      ixs: tx.instructions.map(text),
      payer: tx.feePayer?.toBase58(),
      hash: tx.message ? tx.message.recentBlockhash : tx.recentBlockhash,
      alts: tx.message?.addressLookupTableAccounts ?? [],
      signed: [...tx.signed].sort().join(','),
      need: [...tx.need()].sort().join(','),
    },
  ]);
  if (course.send === 'refused') refuse('send');
  return course.signature;
}
const connection = (who) => ({
  commitment: 'processed',
  rpcEndpoint: who,
  async getLatestBlockhash(c) {
    log.push(['hash', { who, c: typeof c === 'object' ? c?.commitment : c }]);
    if (course.hash === 'refused') refuse('hash');
    return { ...HASH };
  },
  async getMinimumBalanceForRentExemption(n) {
    log.push(['rent', { who, n }]);
    if (course.rent === 'refused') refuse('rent');
    return 1000 + 3 * n;
  },
  async sendRawTransaction(tx) {
    return send(who, tx);
  },
  async sendTransaction(tx) {
    return send(who, tx);
  },
  async confirmTransaction(s, c) {
    log.push(['confirm', { who, s, c }]);
    if (course.confirm === 'refused') refuse('confirm');
    return { context: { slot: 1 }, value: { err: { fine: null, empty: '', failed: { InstructionError: [0, { Custom: 6001 }] }, text: 'AccountInUse' }[course.confirm] } };
  },
});
// a bank in the same process instead of a node
const bank = (who) => ({
  ...connection(who),
  banksClient: {
    async getLatestBlockhash() {
      log.push(['hash', { who }]);
      if (course.hash === 'refused') refuse('hash');
      return ['newest', 77n];
    },
    async processTransaction(tx) {
      send(who, tx);
    },
  },
});
// wallets that sign in place, or return a signed copy
class Same {
  constructor(k) {
    this.k = k;
  }
  get publicKey() {
    return this.k.publicKey;
  }
  async signTransaction(tx) {
    log.push(['sign', {}]);
    if (course.wallet === 'refused') refuse('wallet');
    tx.sign([this.k]);
    return tx;
  }
}
class Copy extends Same {
  async signTransaction(tx) {
    log.push(['sign', {}]);
    if (course.wallet === 'refused') refuse('wallet');
    const t = new VersionedTransaction(tx.message);
    for (const s of tx.signed) t.signed.add(s);
    t.sign([this.k]);
    return t;
  }
}
const wallets = { node: (k) => new Wallet(k), same: (k) => new Same(k), copy: (k) => new Copy(k) };

const made = new Map();
function callback(name, kind) {
  if (kind === undefined || kind === null) return kind;
  return (x) => {
    log.push(['told', { name, txid: x?.txid }]);
    if (kind === 'throws') throw new Refused('callback');
  };
}
function clientOf(g) {
  const id = JSON.stringify([g.wallet, g.clientFee, g.clientCommitment, g.providerCommitment, g.providerPreflight, g.clientCallback, g.moved, g.bank]);
  let c = made.get(id);
  if (!c) {
    const opts = {};
    if (g.providerCommitment) opts.commitment = g.providerCommitment;
    if (g.providerPreflight) opts.preflightCommitment = g.providerPreflight;
    const o = {};
    if (g.clientFee !== undefined) o.prioritizationFee = g.clientFee;
    if (g.clientCommitment) o.txConfirmationCommitment = g.clientCommitment;
    if (g.clientCallback) o.postSendTxCallback = callback('client', g.clientCallback);
    const at = g.bank ? bank : connection;
    c = new C.OpenBookV2Client(new AnchorProvider(at('first'), wallets[g.wallet](g.moved ? W2 : W), opts), C.OPENBOOK_PROGRAM_ID, o);
    if (g.moved) c.setProvider(new AnchorProvider(at('second'), wallets[g.wallet](W), opts));
    made.set(id, c);
  }
  return c;
}
// instruction number i asks for the signatures of `signers`
const instruction = (i, signers) =>
  new TransactionInstruction({
    programId: key(40 + i),
    keys: [{ pubkey: key(50 + i), isSigner: false, isWritable: true }, ...signers.map((s) => ({ pubkey: s.publicKey, isSigner: true, isWritable: false }))],
    data: Buffer.from([i, 7]),
  });
const price = (n) => {
  const b = Buffer.alloc(9);
  b[0] = 3;
  b.writeBigUInt64LE(BigInt(n), 1);
  return `${PRICE}/${b.toString('hex')}/`;
};
const settle = async (p) => {
  let t;
  const late = new Promise((r) => {
    t = setTimeout(() => r({ late: true }), 3000);
  });
  const r = await Promise.race([p.then((value) => ({ value }), (error) => ({ error })), late]);
  clearTimeout(t);
  return r;
};
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

// what has to be asked for, sent and reported, given configuration and course
function judge(g, ixs, signers, r, what) {
  const who = g.moved ? 'second' : 'first';
  const kinds = (k) => log.filter((x) => x[0] === k).map((x) => x[1]);
  const [hash, sent, confirm, told] = ['hash', 'send', 'confirm', 'told'].map(kinds);
  const e = (s) => `${s}; ${what}`;
  if (r.late) return e('the call does not end');
  for (const [, x] of log) if (x.who && x.who !== who) return e('another node is asked');
  if (g.bank) {
    if (course.hash === 'refused') return sent.length ? e('a transaction is sent after a refusal') : r.error ? null : e('a refusal is not reported');
    if (sent.length !== 1) return e(`the transaction is sent ${sent.length} times${r.error ? `: ${r.error.message}` : ''}`);
    const [t] = sent;
    const l = t.ixs.filter((x) => !x.startsWith(PRICE));
    if (!same(l, ixs.map(text))) return e(`instructions ${l} instead of ${ixs.map(text)}`);
    if (t.payer !== W.publicKey.toBase58()) return e(`paid by ${t.payer}`);
    if (t.hash !== HASH.blockhash) return e(`refers to block ${t.hash}`);
    // the bank does not ask for the signature of the one who pays
    for (const s of signers) if (!t.signed.includes(s.publicKey.toBase58())) return e(`signed by ${t.signed} only`);
    return !r.error === (course.send !== 'refused') ? null : e(r.error ? `failed: ${r.error.message}` : 'a refusal is not reported');
  }
  const given = g.blockhash === 'given' ? { blockhash: 'mine', lastValidBlockHeight: 55 } : g.blockhash === 'bare' ? { blockhash: 'mine' } : null;
  if (given && hash.length) return e('a block is asked for though one was given');
  if (!given) {
    const c = g.preflight ?? g.providerPreflight ?? 'finalized';
    if (hash.length !== 1) return e(`the newest block is asked for ${hash.length} times`);
    if (hash[0].c !== c) return e(`the newest ${hash[0].c} block is asked for, not the newest ${c}`);
  }
  const refused = (!given && course.hash === 'refused') || (g.wallet !== 'node' && course.wallet === 'refused');
  if (refused) {
    if (sent.length || told.length || confirm.length) return e('a transaction is sent after a refusal');
    return r.error ? null : e('a refusal is not reported');
  }
  if (sent.length !== 1) return e(`the transaction is sent ${sent.length} times${r.error ? `: ${r.error.message}` : ''}`);
  const t = sent[0];
  const fee = g.fee === undefined ? g.clientFee ?? 0 : g.fee ?? 0;
  const want = [...(fee ? [price(fee)] : []), ...ixs.map(text)];
  if (!same(t.ixs, want)) return e(`instructions ${t.ixs} instead of ${want}`);
  if (t.payer !== W.publicKey.toBase58()) return e(`paid by ${t.payer}`);
  const b = given ?? HASH;
  if (t.hash !== b.blockhash) return e(`refers to block ${t.hash}`);
  if (!same(t.alts, g.alts ?? [])) return e(`lookup tables ${JSON.stringify(t.alts)}`);
  const all = [...new Set([W, ...signers].map((s) => s.publicKey.toBase58()))].sort().join(',');
  if (t.signed !== all) return e(`signed by ${t.signed} instead of ${all}`);
  if (course.send === 'refused') {
    if (told.length || confirm.length) return e('a refused transaction is followed');
    return r.error ? null : e('a refusal of the transaction is not reported');
  }
  const cb = g.callback === undefined ? g.clientCallback && 'client' : g.callback && 'call';
  if (told.length !== (cb ? 1 : 0)) return e(`the callback is called ${told.length} times`);
  if (cb && (told[0].name !== cb || told[0].txid !== course.signature)) return e(`the callback of the ${told[0].name} is told ${told[0].txid}`);
  const c = g.commitment ?? g.clientCommitment ?? g.providerCommitment ?? 'processed';
  if (confirm.length !== 1) return e(`confirmed ${confirm.length} times`);
  if (confirm[0].c !== c) return e(`confirmed at ${confirm[0].c} instead of ${c}`);
  const s = confirm[0].s;
  if (b.lastValidBlockHeight !== undefined) {
    if (s?.signature !== course.signature || s?.blockhash !== b.blockhash || s?.lastValidBlockHeight !== b.lastValidBlockHeight) return e(`waits for ${JSON.stringify(s)}`);
  } else if ((s?.signature ?? s) !== course.signature) return e(`waits for ${JSON.stringify(s)}`);
  switch (course.confirm) {
    case 'fine':
    case 'empty':
      return same(r.value, course.signature) ? null : e(`result is ${r.error ? `the failure ${r.error.message}` : r.value}`);
    case 'refused':
      return r.error ? null : e('a transaction not confirmed is reported as done');
    default:
      if (!r.error) return e('a failed transaction is reported as done');
      if (r.error.txid !== course.signature) return e(`the failure names transaction ${r.error.txid}`);
      return String(r.error.message).includes(course.confirm === 'text' ? 'AccountInUse' : '6001') ? null : e(`the failure says ${r.error.message}`);
  }
}

function* product(dims) {
  const names = Object.keys(dims);
  const at = names.map(() => 0);
  for (;;) {
    yield Object.fromEntries(names.map((n, i) => [n, dims[n][at[i]]]));
    let i = names.length - 1;
    while (i >= 0 && ++at[i] === dims[names[i]].length) at[i--] = 0;
    if (i < 0) return;
  }
}
// courses that differ in something the client gets to see
function courses(g) {
  const l = [];
  if (g.bank) {
    const fine = { hash: 'fine', wallet: 'fine', send: 'fine', confirm: 'fine' };
    return [fine, { ...fine, hash: 'refused' }, { ...fine, send: 'refused' }];
  }
  for (const hash of g.blockhash === undefined ? ['fine', 'refused'] : ['fine'])
    for (const wallet of g.wallet === 'node' ? ['fine'] : ['fine', 'refused'])
      for (const send of ['fine', 'refused'])
        for (const confirm of ['fine', 'empty', 'failed', 'text', 'refused']) {
          const cut = hash === 'refused' ? 0 : wallet === 'refused' ? 1 : send === 'refused' ? 2 : 3;
          if ((cut < 1 && wallet === 'refused') || (cut < 2 && send === 'refused') || (cut < 3 && confirm !== 'fine')) continue;
          l.push({ hash, wallet, send, confirm });
        }
  return l;
}

// a.dims: values of every part of the configuration; a.part of a.parts: the share of this process
export async function sending(a) {
  let [n, asked, k, ok, failed] = [0, 0, 0, 0, 0];
  const bad = [];
  for (const raw of product(a.dims)) {
    if (k++ % a.parts !== a.part) continue;
    // "-" stands for an absent value
    const g = Object.fromEntries(Object.entries(raw).filter(([, v]) => v !== '-'));
    const signers = S.filter((_, i) => (g.signers ?? 0) & (1 << i));
    const ixs = [...Array(g.instructions).keys()].map((i) => instruction(i, i === g.instructions - 1 ? signers : []));
    if (g.instructions === 0 && signers.length) continue;
    const c = clientOf(g);
    const opts = {};
    if (g.signers !== undefined) opts.additionalSigners = signers;
    if (g.fee !== undefined) opts.prioritizationFee = g.fee;
    if (g.commitment) opts.txConfirmationCommitment = g.commitment;
    if (g.preflight) opts.preflightCommitment = g.preflight;
    if (g.alts) opts.alts = g.alts;
    if (g.callback !== undefined) opts.postSendTxCallback = callback('call', g.callback);
    const before = JSON.stringify(ixs.map(text));
    for (const co of courses(g)) {
      n++;
      course = { ...co, signature: `signature${n}` };
      log = [];
      if (g.blockhash === 'given') opts.latestBlockhash = { blockhash: 'mine', lastValidBlockHeight: 55 };
      if (g.blockhash === 'bare') opts.latestBlockhash = { blockhash: 'mine' };
      const what = `configuration ${JSON.stringify(raw)}, answers ${JSON.stringify(co)}`;
      const r = await settle((async () => (Object.keys(opts).length ? c.sendAndConfirmTransaction(ixs, opts) : c.sendAndConfirmTransaction(ixs)))());
      asked += log.length;
      if (r.error) failed++;
      else ok++;
      let v = judge(g, ixs, signers, r, what);
      if (!v && JSON.stringify(ixs.map(text)) !== before) v = `the caller's instructions are changed; ${what}`;
      if (v && bad.length < 3) bad.push(`bad ${v}`);
    }
  }
  return [`n ${n} ${asked} ${ok} ${failed}`, ...bad];
}

// accounts created for the program
export async function creating(a) {
  let [n, asked, ok, failed] = [0, 0, 0, 0];
  const bad = [];
  const fresh = new Set();
  for (const wallet of Object.keys(wallets))
    for (const clientFee of [undefined, 0, 5])
      for (const moved of [false, true])
        for (const authority of [W, S[0]])
          for (const size of a.sizes)
            for (const rent of ['fine', 'refused']) {
              const g = { wallet, clientFee, moved };
              for (const co of rent === 'fine' ? courses(g) : [{ hash: 'fine', wallet: 'fine', send: 'fine', confirm: 'fine' }]) {
                n++;
                course = { ...co, rent, signature: `signature${n}` };
                log = [];
                const what = `creation of ${size} bytes, configuration ${JSON.stringify(g)}, payer ${authority === W ? 'wallet' : 'other'}, answers ${JSON.stringify({ ...co, rent })}`;
                const c = clientOf(g);
                const r = await settle(c.createProgramAccount(authority, size));
                asked += log.length;
                if (r.error) failed++;
                else ok++;
                let v = null;
                if (rent === 'refused') {
                  if (log.some((x) => x[0] === 'send')) v = `a transaction is sent without knowing the rent; ${what}`;
                  else if (!r.error) v = `a refusal is not reported; ${what}`;
                } else {
                  // the address is known from the transaction
                  const t = log.find((x) => x[0] === 'send')?.[1];
                  let address = r.value ?? key(99);
                  if (t) {
                    const m = t.ixs[t.ixs.length - 1].split('/')[2].split(',')[1];
                    if (m) address = new PublicKey(m.split(':')[0]);
                  }
                  const ix = SystemProgram.createAccount({ fromPubkey: authority.publicKey, newAccountPubkey: address, lamports: 1000 + 3 * size, space: size, programId: C.OPENBOOK_PROGRAM_ID });
                  const was = r.value;
                  const done = { ...r };
                  if (!r.error) done.value = course.signature;
                  v = judge(g, [ix], [authority, new Keypair(address)], done, what);
                  if (!v && !r.error && String(was) !== address.toBase58()) v = `the result is ${was}, created is ${address.toBase58()}; ${what}`;
                  if (!v && t && fresh.has(address.toBase58())) v = `an address is used twice; ${what}`;
                  if (t) fresh.add(address.toBase58());
                }
                if (v && bad.length < 3) bad.push(`bad ${v}`);
                // the instruction alone
                if (rent === 'fine' && co.confirm === 'fine' && co.send === 'fine') {
                  log = [];
                  const x = await settle(c.createProgramAccountIx(authority.publicKey, size));
                  const [ix, s] = x.value ?? [];
                  const want = s && SystemProgram.createAccount({ fromPubkey: authority.publicKey, newAccountPubkey: s.publicKey, lamports: 1000 + 3 * size, space: size, programId: C.OPENBOOK_PROGRAM_ID });
                  if (bad.length < 3 && (!want || text(ix) !== text(want))) bad.push(`bad another instruction creates the account; ${what}`);
                  if (bad.length < 3 && log.some((y) => y[0] === 'send')) bad.push(`bad a transaction is sent while building; ${what}`);
                }
              }
            }
  return [`n ${n} ${asked} ${ok} ${failed}`, ...bad];
}
