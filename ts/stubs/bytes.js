import { b58decode, b58encode } from './web3.js';
export const utf8 = { decode: (b) => new TextDecoder('utf-8').decode(b), encode: (s) => new TextEncoder().encode(s) };
export const bs58 = { decode: b58decode, encode: (b) => b58encode(Buffer.from(b)) };
export const base64 = { encode: (b) => Buffer.from(b).toString('base64'), decode: (s) => Buffer.from(s, 'base64') };
export const hex = { encode: (b) => '0x' + Buffer.from(b).toString('hex'), decode: (s) => Buffer.from(s.replace(/^0x/, ''), 'hex') };
