// Runs the TypeScript client against a ledger received on standard input.
//   image <accounts>          followed by one line per account: key owner lamports len off:hex...
//   state <ts> <slot> <diffs> followed by one line per changed account: index lamports owner len off:hex...
//   <command> <json>          answered by lines, terminated by "."
import readline from 'node:readline';
import * as C from '@client';
import jsonIdl from '@idl';
import { AnchorProvider, BN, Program, Wallet, setProvider } from '@coral-xyz/anchor';
import { Keypair, PublicKey, b58decode } from '@solana/web3.js';
import { creating, sending } from './sending.mjs';

console.log = console.warn = console.error = () => {};
const BLK = 64;
let image = [];
let accts = [];
let index = new Map();
let touched = [];
let now = { ts: 0, slot: 0 };
let subs = new Map();
let subscriptions = 0;
let sent = [];
let history = [];

const info = (a) =>
  a === undefined || (a.lamports === 0n && a.data.length === 0)
    ? null
    : { data: Buffer.from(a.data), executable: false, owner: new PublicKey(a.owner), lamports: Number(a.lamports), rentEpoch: 0 };
const at = (k) => info(accts[index.get(k.toBase58())]);
function matches(a, filters) {
  for (const f of filters ?? []) {
    if (f.memcmp) {
      const b = f.memcmp.encoding === 'base64' ? Buffer.from(f.memcmp.bytes, 'base64') : b58decode(f.memcmp.bytes);
      const o = Number(f.memcmp.offset);
      if (o + b.length > a.data.length || !a.data.subarray(o, o + b.length).equals(b)) return false;
    } else if (f.dataSize !== undefined && a.data.length !== f.dataSize) return false;
  }
  return true;
}
const owned = (p, filters) => accts.filter((a) => a.owner.equals(p.b) && a.data.length > 0 && matches(a, filters));
const connection = {
  commitment: 'processed',
  rpcEndpoint: 'ledger',
  async getAccountInfo(k) {
    return at(k);
  },
  async getMultipleAccountsInfo(l) {
    return l.map(at);
  },
  async getMinimumBalanceForRentExemption(n) {
    return (n + 128) * 6960;
  },
  async getProgramAccounts(p, c) {
    return owned(p, (c?.filters ?? c) || []).map((a) => ({ pubkey: new PublicKey(a.key), account: info(a) }));
  },
  async _rpcRequest(method, [p, c]) {
    if (method !== 'getProgramAccounts') return { error: { message: `unknown method ${method}` } };
    return {
      error: null,
      result: owned(new PublicKey(p), c?.filters).map((a) => ({
        pubkey: new PublicKey(a.key).toBase58(),
        account: { data: [a.data.toString('base64'), 'base64'], executable: false, owner: new PublicKey(a.owner).toBase58(), lamports: Number(a.lamports) },
      })),
    };
  },
  onAccountChange(k, cb) {
    const id = ++subscriptions;
    subs.set(id, [k.toBase58(), cb]);
    return id;
  },
  removeAccountChangeListener(id) {
    subs.delete(id);
    return Promise.resolve();
  },
  async getLatestBlockhash() {
    return { blockhash: 'hash', lastValidBlockHeight: 1 };
  },
  async sendRawTransaction(tx) {
    sent.push(tx);
    return 'signature';
  },
  async sendTransaction(tx) {
    sent.push(tx);
    return 'signature';
  },
  async confirmTransaction() {
    return { value: { err: null } };
  },
  async getSlot() {
    return now.slot;
  },
  async getBlockTime() {
    return now.ts;
  },
  // the node answers with at most `limit` signatures, newest first
  async getSignaturesForAddress(_a, o) {
    let l = history.map((x) => ({ signature: x.signature }));
    if (o?.before !== undefined) l = l.slice(l.findIndex((x) => x.signature === o.before) + 1);
    return l.slice(0, o?.limit ?? 1000);
  },
  async getTransactions(l) {
    return l.map((s) => history.find((x) => x.signature === s)?.tx ?? null);
  },
  async getTransaction(s) {
    return history.find((x) => x.signature === s)?.tx ?? null;
  },
};

function camelIdl(j) {
  return { ...j, accounts: j.accounts.map((a) => ({ ...a, name: a.name[0].toLowerCase() + a.name.slice(1) })) };
}
const idl2 = camelIdl(jsonIdl);
const clients = new Map();
function client(walletKey, json = false) {
  const id = `${walletKey}/${json}`;
  let c = clients.get(id);
  if (!c) {
    const p = new AnchorProvider(connection, new Wallet(new Keypair(new PublicKey(walletKey))), { commitment: 'processed', preflightCommitment: 'processed' });
    c = new C.OpenBookV2Client(p);
    if (json) c.program = new Program(idl2, c.programId, p);
    clients.set(id, c);
  }
  return c;
}
const pk = (s) => new PublicKey(s);
const kp = (s) => new Keypair(pk(s));

function parseBlocks(a, toks) {
  for (const t of toks) {
    const c = t.indexOf(':');
    const o = Number(t.slice(0, c));
    const b = Buffer.from(t.slice(c + 1), 'hex');
    b.copy(a.data, o, 0, Math.min(b.length, a.data.length - o));
  }
}
function setImage(lines) {
  image = lines.map((l) => {
    const [key, owner, lamports, len, ...blocks] = l.split(' ');
    const a = { key: Buffer.from(key, 'hex'), owner: Buffer.from(owner, 'hex'), lamports: BigInt(lamports), data: Buffer.alloc(Number(len)) };
    parseBlocks(a, blocks);
    return a;
  });
  accts = image.slice();
  index = new Map(image.map((a, i) => [new PublicKey(a.key).toBase58(), i]));
  touched = [];
  subs = new Map();
  kept = null;
}
function setState(head, lines) {
  now = { ts: Number(head[0]), slot: Number(head[1]) };
  for (const i of touched) accts[i] = image[i];
  touched = [];
  for (const l of lines) {
    const [i, lamports, owner, len, ...blocks] = l.split(' ');
    const base = image[Number(i)];
    const a = { key: base.key, owner: Buffer.from(owner, 'hex'), lamports: BigInt(lamports), data: Buffer.alloc(Number(len)) };
    base.data.copy(a.data);
    parseBlocks(a, blocks);
    accts[Number(i)] = a;
    touched.push(Number(i));
  }
}

const orderText = (o) =>
  [o.priceLots, o.seqNum, o.sizeLots, o.leafNode.owner, o.leafNode.clientOrderId, o.isExpired, o.price, o.size, o.side.bid ? 'bid' : 'ask', o.leafNode.key].map(String).join(',');
function eventText(e) {
  const f =
    e.eventType === C.EventType.Fill
      ? ['fill', e.takerSide, e.makerOut, e.makerSlot, e.timestamp, e.seqNum, e.maker, e.makerTimestamp, e.taker, e.takerClientOrderId, e.price, e.pegLimit, e.quantity, e.makerClientOrderId]
      : ['out', e.side, e.ownerSlot, e.timestamp, e.owner, e.quantity];
  return f.map(String).join(',');
}
function picture(market, oos, times) {
  const out = [];
  for (const t of times) {
    for (const s of [market.bids, market.asks]) {
      s.clusterTime = new BN(t);
      out.push(`orders ${s.side.bid ? 'bid' : 'ask'} ${t} ${[...s.items()].map(orderText).join(';')}`);
    }
  }
  for (const s of [market.bids, market.asks]) {
    const n = s.side.bid ? 'bid' : 'ask';
    const b = s.best();
    out.push(`best ${n} ${b ? String(b.leafNode.key) : '-'}`);
    for (const d of [0, 1, 2, 3, 100]) {
      out.push(`levels ${n} ${d} ${s.getL2(d).map((l) => l.map(String).join(',')).join(';')}`);
    }
  }
  if (market.eventHeap) out.push(`events ${[...market.eventHeap.parsedEvents()].map(eventText).join(';')}`);
  oos.forEach((oo, i) => {
    const a = oo.account;
    const p = a.position;
    out.push(
      `account ${i} ${[a.owner, a.market, a.delegate.key, a.accountNum, p.bidsBaseLots, p.bidsQuoteLots, p.asksBaseLots, p.baseFreeNative, p.quoteFreeNative, p.lockedMakerFees, p.referrerRebatesAvailable, p.penaltyHeapCount, p.makerVolume, p.takerVolume].map(String).join(',')}`,
    );
    out.push(`owned ${i} ${[...oo.items()].map((o) => String(o.leafNode.key)).sort().join(';')}`);
  });
  const m = market.account;
  out.push(
    `market ${[m.baseDecimals, m.quoteDecimals, m.timeExpiry, m.bids, m.asks, m.eventHeap, m.quoteLotSize, m.baseLotSize, m.seqNum, m.makerFee, m.takerFee, m.feesAvailable, m.baseMint, m.quoteMint, m.marketBaseVault, m.baseDepositTotal, m.marketQuoteVault, m.quoteDepositTotal].map(String).join(',')}`,
  );
  return out;
}
async function loaded(c, a) {
  const market = await C.Market.load(c, pk(a.market));
  await market.loadOrderBook();
  await market.loadEventHeap();
  return market;
}
const differ = (name, a, b) => {
  if (a.length !== b.length) return [`differs ${name}: ${b.length} lines instead of ${a.length}`];
  for (let i = 0; i < a.length; ++i) if (a[i] !== b[i]) return [`differs ${name}: ${b[i]} instead of ${a[i]}`];
  return [];
};
let kept = null;

// what is followed under every choice of what to follow, and nothing afterwards
async function watchers(c, a) {
  const out = [];
  const before = new Set(subs.keys());
  const followed = () => [...subs].filter(([i]) => !before.has(i)).map(([, [k]]) => k).sort().join(',');
  for (const book of [undefined, true, false])
    for (const events of [undefined, true, false])
      for (let have = 0; have < 8; ++have) {
        const m = await loaded(c, a);
        const keys = [m.pubkey];
        if (!(have & 1)) m.bids = undefined;
        else if (book !== false) keys.push(m.account.bids);
        if (!(have & 2)) m.asks = undefined;
        else if (book !== false) keys.push(m.account.asks);
        if (!(have & 4)) m.eventHeap = undefined;
        else if (events !== false) keys.push(m.account.eventHeap);
        const w = new C.Watcher(connection);
        w.addMarket(m, book, events);
        const want = keys.map(String).sort().join(',');
        const got = followed();
        if (got !== want) out.push(`differs followed ${book} ${events} ${have}: ${got} instead of ${want}`);
        w.clear();
        if (followed() !== '') out.push(`differs followed after the end: ${followed()}`);
        for (const k of subs.keys()) if (!before.has(k)) subs.delete(k);
        if ([...before].some((k) => !subs.has(k))) out.push('differs followed: another watcher is ended');
      }
  return out.slice(0, 2);
}

const bn = (x) => new BN(x);
const types = { limit: 'Limit', ioc: 'ImmediateOrCancel', post: 'PostOnly', market: 'Market', slide: 'PostOnlySlide', fok: 'FillOrKill' };
const selfs = { decrement: 'DecrementTake', cancel: 'CancelProvide', abort: 'AbortTransaction' };
const side = (s) => (s === null ? null : s === 'bid' ? C.SideUtils.Bid : C.SideUtils.Ask);
const otype = (t) => C.PlaceOrderTypeUtils[types[t]];
const placeArgs = (a) => ({
  side: side(a.side),
  priceLots: bn(a.price ?? 0),
  priceOffsetLots: bn(a.offset ?? 0),
  pegLimit: bn(a.pegLimit ?? 0),
  maxBaseLots: bn(a.base),
  maxQuoteLotsIncludingFees: bn(a.quote),
  clientOrderId: bn(a.cid ?? 0),
  orderType: otype(a.type),
  expiryTimestamp: bn(a.expiry ?? 0),
  selfTradeBehavior: C.SelfTradeBehaviorUtils[selfs[a.self ?? 'decrement']],
  limit: a.limit,
});
const many = (l) => l.map((x) => ({ priceLots: bn(x[0]), maxQuoteLotsIncludingFees: bn(x[1]), expiryTimestamp: bn(x[2]) }));
const opt = (k) => (k ? pk(k) : null);
// every builder answers [instructions, signers] or, for the high level interface, sends
const builders = {
  async place(c, a, m, oo) {
    return c.placeOrderIx(pk(a.oo), m.pubkey, m.account, pk(a.token), placeArgs(a), a.rem.map(pk), a.delegate ? kp(a.delegate) : undefined);
  },
  async peg(c, a, m) {
    return c.placeOrderPeggedIx(pk(a.oo), m.pubkey, m.account, pk(a.token), opt(a.admin), placeArgs(a), a.rem.map(pk), a.delegate ? kp(a.delegate) : undefined);
  },
  async take(c, a, m) {
    return c.placeTakeOrderIx(m.pubkey, m.account, pk(a.baseToken), pk(a.quoteToken), opt(a.admin), placeArgs(a), a.rem.map(pk));
  },
  async many(c, a, m) {
    const f = a.cancel ? c.cancelAllAndPlaceOrdersIx : c.placeOrdersIx;
    return f.call(c, pk(a.oo), m.pubkey, m.account, pk(a.baseToken), pk(a.quoteToken), opt(a.admin), otype(a.type), many(a.bids), many(a.asks), a.limit, a.delegate ? kp(a.delegate) : undefined);
  },
  async cancel(c, a, m, oo) {
    return c.cancelOrderByIdIx(oo.pubkey, oo.account, m.account, bn(a.id), a.delegate ? kp(a.delegate) : undefined);
  },
  async cancelCid(c, a, m, oo) {
    return c.cancelOrderByClientIdIx(oo.pubkey, oo.account, m.account, bn(a.cid), a.delegate ? kp(a.delegate) : undefined);
  },
  async cancelAll(c, a, m, oo) {
    return c.cancelAllOrdersIx(oo.pubkey, oo.account, m.account, a.limit, side(a.side), a.delegate ? kp(a.delegate) : undefined);
  },
  async settle(c, a, m, oo) {
    return c.settleFundsIx(oo.pubkey, oo.account, m.pubkey, m.account, pk(a.baseToken), pk(a.quoteToken), opt(a.referrer), pk(a.payer), a.delegate ? kp(a.delegate) : undefined);
  },
  async deposit(c, a, m, oo) {
    return [await c.depositIx(oo.pubkey, oo.account, m.account, pk(a.baseToken), pk(a.quoteToken), bn(a.base), bn(a.quote)), []];
  },
  async consume(c, a, m) {
    return [await c.consumeEventsIx(m.pubkey, m.account, bn(a.limit), a.rem.map(pk)), null];
  },
  async consumeGiven(c, a, m) {
    return [await c.consumeGivenEventsIx(m.pubkey, m.account, a.slots.map(bn), a.rem.map(pk)), null];
  },
  async consumeFor(c, a, m) {
    return [await c.consumeEventsForAccountIx(m.pubkey, m.account, pk(a.oo)), null];
  },
  async consumeListed(c, a, m) {
    return [await c.consumeEventsIx(m.pubkey, m.account, bn(a.limit), await c.getAccountsToConsume(m.account)), null];
  },
  async prune(c, a, m) {
    return c.pruneOrdersIx(m.pubkey, m.account, pk(a.oo), a.limit, kp(a.closeAdmin));
  },
  async closeMarket(c, a, m) {
    return c.closeMarketIx(m.pubkey, m.account, pk(a.solDestination), kp(a.closeAdmin));
  },
  async closeOo(c, a) {
    return c.closeOpenOrdersAccountIx(kp(a.owner), pk(a.oo), pk(a.solDestination));
  },
  async closeIndexer(c, a, m) {
    return c.closeOpenOrdersIndexerIx(kp(a.owner), m.account);
  },
  async createOo(c, a, m) {
    const [ixs, key] = await c.createOpenOrdersIx(m.pubkey, a.name, pk(a.owner), opt(a.delegate));
    return [ixs, a.owner === c.walletPk.toBase58() ? [] : [kp(a.owner)], `created ${key.toBase58()}`];
  },
  async createMarket(c, a) {
    Keypair.restart();
    const [ixs, signers] = await c.createMarketIx(
      pk(a.payer), a.name, pk(a.quoteMint), pk(a.baseMint), bn(a.quoteLot), bn(a.baseLot), bn(a.makerFee), bn(a.takerFee), bn(a.expiry),
      opt(a.oracleA), opt(a.oracleB), opt(a.ooAdmin), opt(a.consumeAdmin), opt(a.closeAdmin),
      { confFilter: a.confFilter, maxStalenessSlots: a.maxStaleness }, kp(a.market), a.feeAdmin ? pk(a.feeAdmin) : undefined,
    );
    return [ixs, signers, ...signers.map((s) => `created ${s.publicKey.toBase58()}`)];
  },
  // through the interface of the account objects: amounts in user units, transaction sent by the client
  async placeUi(c, a, m, oo) {
    if (a.delegate) oo.setDelegate(kp(a.delegate));
    await oo.placeOrder({
      side: side(a.side), price: m.priceLotsToUi(bn(a.price)), size: m.baseLotsToUi(bn(a.base)), quoteLimit: a.quoteLimit ?? undefined, clientOrderId: Number(a.cid),
      orderType: otype(a.type), expiryTimestamp: Number(a.expiry), selfTradeBehavior: C.SelfTradeBehaviorUtils[selfs[a.self]], matchLoopLimit: a.limit,
    });
  },
  async cancelUi(c, a, m, oo) {
    if (a.delegate) oo.setDelegate(kp(a.delegate));
    for (const o of oo.items())
      if (String(o.leafNode.key) === a.id) {
        await oo.cancelOrder(o);
        return;
      }
    throw new Error('order is not listed');
  },
  async cancelCidUi(c, a, m, oo) {
    if (a.delegate) oo.setDelegate(kp(a.delegate));
    await oo.cancelOrder({ clientOrderId: Number(a.cid) });
  },
  async cancelAllUi(c, a, m, oo) {
    if (a.delegate) oo.setDelegate(kp(a.delegate));
    c.referrerWallet = opt(a.referrerWallet) ?? undefined;
    await oo.cancelAllOrders(side(a.side));
  },
  async createOoUi(c, a, m) {
    const k = await c.createOpenOrders(kp(c.walletPk.toBase58()), m.pubkey, a.name, kp(a.owner), opt(a.delegate));
    return [null, null, `created ${k.toBase58()}`];
  },
  // straight from the interface description
  async raw(c, a) {
    const conv = (v) => {
      if (v === null || typeof v !== 'object') return v;
      if (Array.isArray(v)) return v.map(conv);
      if ('bn' in v) return bn(v.bn);
      if ('pk' in v) return pk(v.pk);
      return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, conv(x)]));
    };
    const acc = Object.fromEntries(Object.entries(a.accounts).map(([k, v]) => [k, opt(v)]));
    const ix = await c.program.methods[a.name](...a.args.map(conv))
      .accounts(acc)
      .remainingAccounts(a.rem.map((k) => ({ pubkey: pk(k), isSigner: false, isWritable: true })))
      .instruction();
    return [ix, null];
  },
};
const ixText = (ix) =>
  `ix ${ix.programId.b.toString('hex')} ${ix.data.length ? Buffer.from(ix.data).toString('hex') : '-'} ${ix.keys.map((k) => `${new PublicKey(k.pubkey).b.toString('hex')}${k.isSigner ? 's' : ''}${k.isWritable ? 'w' : ''}`).join(',')}`;
async function build(a, json) {
  const c = client(a.wallet, json);
  sent = [];
  try {
    let m = null;
    let oo = null;
    if (a.market && a.op !== 'raw' && a.op !== 'createMarket') {
      m = await C.Market.load(c, pk(a.market));
      if (a.op.endsWith('Ui')) await m.loadOrderBook();
      if (a.oo) oo = await C.OpenOrders.load(pk(a.oo), m, c);
    }
    const r = await builders[a.op](c, a, m, oo);
    const out = [];
    if (sent.length) {
      const [tx] = sent;
      if (sent.length > 1) throw new Error('several transactions sent');
      for (const ix of tx.instructions) out.push(ixText(ix));
      out.push(`signed ${[...tx.signed].map((k) => pk(k).b.toString('hex')).join(',')}`);
    } else {
      for (const ix of [r[0]].flat()) out.push(ixText(ix));
      if (r[1]) out.push(`signers ${r[1].map((s) => s.publicKey.b.toString('hex')).join(',')}`);
    }
    if (r) out.push(...r.slice(2));
    return out;
  } catch (e) {
    return [`error ${String(e?.message ?? e).split('\n')[0]}`];
  }
}

const commands = {
  async read(a) {
    const c = client(a.wallet);
    const market = await loaded(c, a);
    const oos = [];
    for (const k of a.oos) oos.push(await C.OpenOrders.load(pk(k), market));
    const first = picture(market, oos, a.times);
    const out = first.slice();
    // the same objects, kept since the first state of this world and told about changes
    if (!kept) {
      const saved = accts;
      accts = image.slice();
      const m = await loaded(c, a);
      const o = [];
      const w = new C.Watcher(connection);
      w.addMarket(m);
      for (const k of a.oos) {
        const x = await C.OpenOrders.load(pk(k), m);
        w.addOpenOrders(x);
        o.push(x);
      }
      const m2 = await loaded(c, a);
      const o2 = [];
      for (const k of a.oos) o2.push(await C.OpenOrders.load(pk(k), m2));
      kept = { m, o, m2, o2 };
      accts = saved;
      out.push(...(await watchers(c, a)));
    }
    for (const [k, cb] of subs.values()) {
      const ai = info(accts[index.get(k)]);
      if (ai) cb(ai, { slot: now.slot });
    }
    out.push(...differ('watched', first, picture(kept.m, kept.o, a.times)));
    // reloading refreshes the books and the account, not the market and the events
    for (const o of kept.o2) await o.reload();
    const part = (l) => l.filter((x) => !x.startsWith('events') && !x.startsWith('market'));
    if (String(kept.m2.bids.pubkey) !== String(kept.m2.account.bids) || String(kept.m2.asks.pubkey) !== String(kept.m2.account.asks)) out.push('differs reloaded addresses of the books');
    out.push(...differ('reloaded', part(first), part(picture(kept.m2, kept.o2, a.times))));
    // books decoded through the interface description
    market.bids = new C.BookSide(market, market.account.bids, await c.program.account.bookSide.fetch(market.account.bids), C.SideUtils.Bid);
    market.asks = new C.BookSide(market, market.account.asks, await c.program.account.bookSide.fetch(market.account.asks), C.SideUtils.Ask);
    out.push(...differ('decoded by description', first, picture(market, oos, a.times)));
    return out;
  },
  async accounts(a) {
    // every way to find the open orders accounts of an owner
    const out = [];
    for (const owner of a.owners) {
      const c = client(a.wallet);
      const o = pk(owner);
      const list = await c.findAllOpenOrders(o);
      out.push(`all ${owner} ${list.map(String).join(',')}`);
      const ix = await C.OpenOrdersIndexer.loadNullable(c, o);
      if (ix) out.push(`loaded ${owner} ${(await ix.loadAllOpenOrders()).map((x) => [x.pubkey, x.market.pubkey, x.account.owner, [...x.items()].map((i) => i.leafNode.key).map(String).sort().join('+')].map(String).join(':')).join(',')}`);
      if (ix) {
        const same = await C.OpenOrdersIndexer.load(c, o);
        if (String(same.pubkey) !== String(ix.pubkey) || same.account.addresses.map(String).join() !== list.map(String).join()) out.push(`differs index ${owner}`);
        const mine = await C.OpenOrdersIndexer.load(client(owner));
        if (String(mine.pubkey) !== String(ix.pubkey)) out.push(`differs own index ${owner}`);
        // one by one, without knowing the market
        for (const x of await ix.loadAllOpenOrders()) {
          const y = await C.OpenOrders.load(x.pubkey, undefined, c);
          await y.market.loadOrderBook();
          out.push(...differ(`${x.pubkey} among all`, picture(y.market, [y], [0, now.ts]), picture(x.market, [x], [0, now.ts])));
          if (String(x.market.bids.pubkey) !== String(x.market.account.bids) || String(x.market.asks.pubkey) !== String(x.market.account.asks)) out.push(`differs books of ${x.pubkey}`);
        }
      }
      for (const mk of a.markets) {
        out.push(`formarket ${owner} ${mk} ${(await c.findOpenOrdersForMarket(o, pk(mk))).map(String).join(',')}`);
        const m = await C.Market.load(c, pk(mk));
        const x = await C.OpenOrders.loadNullableForMarketAndOwner(m, o);
        out.push(`first ${owner} ${mk} ${x ? x.pubkey.toString() : '-'}`);
      }
    }
    return out;
  },
  async balance(a) {
    const c = client(a.wallet);
    const market = await loaded(c, a);
    const out = [];
    for (const k of a.oos) {
      const oo = await C.OpenOrders.load(pk(k), market);
      const [b, q] = oo.getBalanceNative();
      out.push([b, q, oo.getBaseBalanceNative(), oo.getQuoteBalanceNative(), oo.getBaseBalanceUi(), oo.getQuoteBalanceUi()].map(String).join(','));
      const [b2, q2] = oo.getBalanceNative();
      if (!b2.eq(b) || !q2.eq(q)) out.push('differs on a second call');
    }
    return out;
  },
  async events(a) {
    const c = client(a.wallet);
    const m = await C.Market.load(c, pk(a.market));
    const out = [];
    for (const k of a.oos) out.push(`slots ${k} ${(await c.getSlotsToConsume(pk(k), m.account)).map(String).join(',')}`);
    out.push(`accounts ${(await c.getAccountsToConsume(m.account)).map(String).join(',')}`);
    return out;
  },
  async bymints(a) {
    const out = [];
    for (const [b, q] of a.pairs) {
      const l = await C.findAccountsByMints(connection, pk(b), pk(q), client(a.wallet).programId);
      out.push(`${b} ${q} ${l.map((x) => x.publicKey.toBase58()).sort().join(',')}`);
    }
    return out;
  },
  async allmarkets(a) {
    const c = client(a.wallet);
    const ea = PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], c.programId)[0];
    const other = pk(a.wallet);
    // one transaction per letter: m = market created, x = other program, o = fewer inner instructions, f = failed
    history = a.list.map((l, i) => {
      const data = Buffer.from(l.data, 'hex');
      const inner = new Array(11).fill({ accounts: [0], programIdIndex: 1, data: '' });
      const ix = { accounts: [0], programIdIndex: 1, data: bs58(data) };
      const meta = l.kind === 'f' ? null : { innerInstructions: [{ index: 0, instructions: l.kind === 'o' ? inner : [...inner, ix] }] };
      return {
        signature: `sig${i}`,
        tx: { blockTime: i, meta, transaction: { message: { staticAccountKeys: l.kind === 'x' ? [other, c.programId] : [ea, c.programId] } } },
      };
    });
    const r = await C.findAllMarkets(connection, c.programId, c.provider);
    return r.map((m) => [m.market, m.baseMint, m.quoteMint, m.name, m.timestamp].join(','));
  },
  async build(a) {
    const one = await build(a, false);
    const two = await build(a, true);
    const same = one.length === two.length && one.every((x, i) => x === two[i]);
    return same ? one : [...one, 'description', ...two];
  },
  async units(a) {
    return units(a);
  },
  sending,
  creating,
};
import { b58encode } from '@solana/web3.js';
const bs58 = (b) => b58encode(b);

// conversions between lots and user units over a grid; reports the first failures
function units(a) {
  let n = 0;
  const bad = [];
  const fail = (s) => {
    if (bad.length < 3) bad.push(`bad ${s}`);
  };
  // user units are kept to 20 decimals
  const close = (x, y, lots) => Math.abs(x - y) <= 1e-12 * Math.max(Math.abs(x), Math.abs(y)) + 1e-20 * lots;
  for (const bd of a.baseDecimals)
    for (const qd of a.quoteDecimals)
      for (const bl of a.baseLots)
        for (const ql of a.quoteLots) {
          const acc = { baseDecimals: bd, quoteDecimals: qd, baseLotSize: bn(String(bl)), quoteLotSize: bn(String(ql)), makerFee: bn(0), takerFee: bn(0) };
          const m = new C.Market(client(a.wallet), pk(a.wallet), acc);
          const where = `base decimals ${bd}, quote decimals ${qd}, base lot ${bl}, quote lot ${ql}`;
          const tick = (10 ** (bd - qd) * ql) / bl;
          const kinds = [
            ['price', (l) => m.priceLotsToUi(l), (l) => C.priceLotsToUi(acc, l), (u) => m.priceUiToLots(u), (u) => C.uiPriceToLots(acc, u), tick, ql * 10 ** bd],
            ['base', (l) => m.baseLotsToUi(l), (l) => C.baseLotsToUi(acc, l), (u) => m.baseUiToLots(u), (u) => C.uiBaseToLots(acc, u), bl / 10 ** bd, bl],
            ['quote', (l) => m.quoteLotsToUi(l), (l) => C.quoteLotsToUi(acc, l), (u) => m.quoteUiToLots(u), (u) => C.uiQuoteToLots(acc, u), ql / 10 ** qd, ql],
          ];
          for (const [name, up1, up2, down1, down2, unit, native] of kinds)
            for (const lots of a.lots) {
              // beyond this the intermediate numbers no longer fit a double, or the 20 decimals of the unit
              if (lots * native > 2 ** 50 || ((lots * 5e-21) / unit) * native > 0.25) continue;
              const l = bn(String(lots));
              for (const [i, up, down] of [
                ['object', up1, down1],
                ['function', up2, down2],
              ]) {
                n++;
                let u, r, h;
                try {
                  u = up(l);
                  r = String(down(u));
                  h = native >= 4 ? String(down(u + unit / 2)) : String(lots);
                } catch (e) {
                  fail(`${name} (${i}) ${lots} lots: ${e.message}; ${where}`);
                  continue;
                }
                if (!close(u, lots * unit, lots)) fail(`${name} (${i}): ${lots} lots become ${u} instead of ${lots * unit}; ${where}`);
                if (r !== String(lots)) fail(`${name} (${i}): ${lots} lots become ${u} and then ${r} lots; ${where}`);
                if (h !== String(lots)) fail(`${name} (${i}): half a lot above ${lots} lots becomes ${h} lots; ${where}`);
              }
            }
        }
  return [`n ${n}`, ...bad];
}

setProvider(null);
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let need = 0;
let head = null;
let buf = [];
let queue = Promise.resolve();
async function handle(kind, args, lines) {
  if (kind === 'image') return setImage(lines);
  if (kind === 'state') return setState(args, lines);
  let out;
  try {
    out = await commands[kind](JSON.parse(args.join(' ')));
  } catch (e) {
    out = [`error ${String(e?.stack ?? e).split('\n').slice(0, 3).join(' | ')}`];
  }
  process.stdout.write(out.join('\n') + (out.length ? '\n' : '') + '.\n');
}
rl.on('line', (l) => {
  if (need > 0) {
    buf.push(l);
    if (--need === 0) {
      const [h, b] = [head, buf];
      queue = queue.then(() => handle(h[0], h.slice(1), b));
    }
    return;
  }
  const t = l.split(' ');
  if (t[0] === 'image' || t[0] === 'state') {
    head = t;
    buf = [];
    need = Number(t[t.length - 1]);
    if (need === 0) queue = queue.then(() => handle(t[0], t.slice(1), []));
  } else queue = queue.then(() => handle(t[0], t.slice(1), []));
});
rl.on('close', () => queue.then(() => process.exit(0)));
