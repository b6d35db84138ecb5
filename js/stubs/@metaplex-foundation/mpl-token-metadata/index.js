import { publicKeyBytes, publicKey } from '@metaplex-foundation/umi';
export const TokenStandard = { NonFungible: 0, FungibleAsset: 1, Fungible: 2, NonFungibleEdition: 3, ProgrammableNonFungible: 4, ProgrammableNonFungibleEdition: 5 };
for (const k of Object.keys(TokenStandard)) TokenStandard[TokenStandard[k]] = k;
export const MPL_TOKEN_METADATA_PROGRAM_ID = 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s';
const text = (t) => new TextEncoder().encode(t);
const id = (c) => c.programs.getPublicKey('mplTokenMetadata', MPL_TOKEN_METADATA_PROGRAM_ID);
const key = (k) => publicKeyBytes(publicKey(k));
export const findMetadataPda = (c, s) => c.eddsa.findPda(id(c), [text('metadata'), key(id(c)), key(s.mint)]);
export const findMasterEditionPda = (c, s) => c.eddsa.findPda(id(c), [text('metadata'), key(id(c)), key(s.mint), text('edition')]);
export const findTokenRecordPda = (c, s) => c.eddsa.findPda(id(c), [text('metadata'), key(id(c)), key(s.mint), text('token_record'), key(s.token)]);
