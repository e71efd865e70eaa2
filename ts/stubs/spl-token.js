// Functional stand-in for the parts of @solana/spl-token a client of the program can use.
import { PublicKey, SystemProgram, TransactionInstruction } from './web3.js';
export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');
export const ACCOUNT_SIZE = 165;
export const AccountLayout = { span: 165 };
export function getAssociatedTokenAddressSync(
  mint,
  owner,
  allowOwnerOffCurve = false,
  programId = TOKEN_PROGRAM_ID,
  ata = ASSOCIATED_TOKEN_PROGRAM_ID,
) {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new Error('TokenOwnerOffCurveError');
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], ata)[0];
}
export const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);
function ata(payer, account, owner, mint, data) {
  return new TransactionInstruction({
    keys: [
      { pubkey: payer, isSigner: true, isWritable: true },
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: owner, isSigner: false, isWritable: false },
      { pubkey: mint, isSigner: false, isWritable: false },
      { pubkey: SystemProgram.programId, isSigner: false, isWritable: false },
      { pubkey: TOKEN_PROGRAM_ID, isSigner: false, isWritable: false },
    ],
    programId: ASSOCIATED_TOKEN_PROGRAM_ID,
    data: Buffer.from(data),
  });
}
export const createAssociatedTokenAccountIdempotentInstruction = (p, a, o, m) => ata(p, a, o, m, [1]);
export const createAssociatedTokenAccountInstruction = (p, a, o, m) => ata(p, a, o, m, []);
export const createInitializeAccount3Instruction = (account, mint, owner) =>
  new TransactionInstruction({
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: mint, isSigner: false, isWritable: false },
    ],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.concat([Buffer.from([18]), owner.toBuffer()]),
  });
export const createSyncNativeInstruction = (account) =>
  new TransactionInstruction({
    keys: [{ pubkey: account, isSigner: false, isWritable: true }],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.from([17]),
  });
export const createCloseAccountInstruction = (account, destination, authority) =>
  new TransactionInstruction({
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: destination, isSigner: false, isWritable: true },
      { pubkey: authority, isSigner: true, isWritable: false },
    ],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.from([9]),
  });
