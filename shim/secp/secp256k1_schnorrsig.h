// The secp256k1 release installed here has a later schnorrsig API than the one
// opencbdc-tx's submodule pins: sign takes one argument less (no nonce
// function) and verify takes the message length. These overloads give the
// older signatures; both compute BIP-340 over a 32-byte message.
#ifndef VERIF_SHIM_SECP_SCHNORR
#define VERIF_SHIM_SECP_SCHNORR
#include_next <secp256k1_schnorrsig.h>
static inline int secp256k1_schnorrsig_sign(const secp256k1_context* ctx,
                                            unsigned char* sig64,
                                            const unsigned char* msg32,
                                            const secp256k1_keypair* keypair,
                                            void* /* noncefp */,
                                            void* /* ndata */) {
    return (secp256k1_schnorrsig_sign)(ctx, sig64, msg32, keypair, nullptr);
}
static inline int
secp256k1_schnorrsig_verify(const secp256k1_context* ctx,
                            const unsigned char* sig64,
                            const unsigned char* msg32,
                            const secp256k1_xonly_pubkey* pubkey) {
    return (secp256k1_schnorrsig_verify)(ctx, sig64, msg32, 32, pubkey);
}
#endif
