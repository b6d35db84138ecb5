import { publicKeyBytes, publicKey } from '@metaplex-foundation/umi';
export const SPL_TOKEN_PROGRAM_ID = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const SPL_ASSOCIATED_TOKEN_PROGRAM_ID = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const key = (k) => publicKeyBytes(publicKey(k));
export const findAssociatedTokenPda = (c, s) => c.eddsa.findPda(c.programs.getPublicKey('splAssociatedToken', SPL_ASSOCIATED_TOKEN_PROGRAM_ID), [key(s.owner), key(s.tokenProgramId ?? c.programs.getPublicKey('splToken', SPL_TOKEN_PROGRAM_ID)), key(s.mint)]);
