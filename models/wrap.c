/* Entry points for the static inline functions of the public headers. */
#include <fingera_libc/hex.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/endian.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/btc/exkey.h>
size_t w_to_hex_length(size_t n) { return fingera_to_hex_length(n); }
size_t w_from_hex_length(size_t n) { return fingera_from_hex_length(n); }
size_t w_to_base64_length(size_t n) { return fingera_to_base64_length(n); }
size_t w_to_base64_urlsafe_length(size_t n) { return fingera_to_base64_urlsafe_length(n); }
size_t w_from_base64_urlsafe_length(size_t n) { return fingera_from_base64_urlsafe_length(n); }
size_t w_from_base64_length(const char *s, size_t n) { return fingera_from_base64_length(s, n); }
size_t w_to_base32_length(size_t n) { return fingera_to_base32_length(n); }
size_t w_to_base58_length(size_t n) { return fingera_to_base58_length(n); }
size_t w_from_base58_length(size_t n) { return fingera_from_base58_length(n); }
size_t w_to_base58_check_length(size_t n, size_t p) { return fingera_to_base58_check_length(n, p); }
size_t w_from_base58_check_length(size_t n) { return fingera_from_base58_check_length(n); }
size_t w_bech32_encode_length(size_t h, size_t n) { return fingera_bech32_encode_length(h, n); }
size_t w_exkey_string_max_length(void) { return fingera_exkey_string_max_length(); }
size_t w_key_string_max_length(void) { return fingera_key_string_max_length(); }
uint32_t w_read_little_32(const void *b) { return read_little_32(b); }
uint64_t w_read_little_64(const void *b) { return read_little_64(b); }
uint32_t w_read_big_32(const void *b) { return read_big_32(b); }
uint64_t w_read_big_64(const void *b) { return read_big_64(b); }
void w_write_little_32(void *b, uint32_t v) { write_little_32(b, v); }
void w_write_big_32(void *b, uint32_t v) { write_big_32(b, v); }
uint32_t w_le32(const void *b, size_t o) { return le32(b, o); }
uint64_t w_le64(const void *b, size_t o) { return le64(b, o); }
uint32_t w_be32(const void *b, size_t o) { return be32(b, o); }
uint64_t w_be64(const void *b, size_t o) { return be64(b, o); }
/* record layouts, so that no field offset is hard-wired in the checks */
#define OFF(n, T, f) size_t o_##n(void) { return offsetof(T, f); }
OFF(ext_depth, fingera_ex_key, ext.depth)
OFF(ext_fingerprint, fingera_ex_key, ext.fingerprint)
OFF(ext_child, fingera_ex_key, ext.child)
OFF(ext_chain_code, fingera_ex_key, ext.chain_code)
OFF(exkey_key, fingera_ex_key, key)
OFF(expub_depth, fingera_ex_pubkey, ext.depth)
OFF(expub_fingerprint, fingera_ex_pubkey, ext.fingerprint)
OFF(expub_child, fingera_ex_pubkey, ext.child)
OFF(expub_chain_code, fingera_ex_pubkey, ext.chain_code)
OFF(expub_pubkey, fingera_ex_pubkey, c_pubkey)
OFF(cp_pubkey, chain_parameters, prefix_pubkey_address)
OFF(cp_pubkey_size, chain_parameters, prefix_pubkey_address_size)
OFF(cp_script, chain_parameters, prefix_script_address)
OFF(cp_script_size, chain_parameters, prefix_script_address_size)
OFF(cp_secret, chain_parameters, prefix_secret_key)
OFF(cp_secret_size, chain_parameters, prefix_secret_key_size)
OFF(cp_xpub, chain_parameters, prefix_ext_public_key)
OFF(cp_xpub_size, chain_parameters, prefix_ext_public_key_size)
OFF(cp_xprv, chain_parameters, prefix_ext_secret_key)
OFF(cp_xprv_size, chain_parameters, prefix_ext_secret_key_size)
OFF(cp_hrp, chain_parameters, bech32_hrp)
OFF(cp_hrp_size, chain_parameters, bech32_hrp_size)
size_t z_exkey(void) { return sizeof(fingera_ex_key); }
size_t z_expub(void) { return sizeof(fingera_ex_pubkey); }
size_t z_chain(void) { return sizeof(chain_parameters); }
int e_addr(int i) {
  switch (i) {
    case 0: return BTC_BAD_ADDRESS;
    case 1: return BTC_PUBKEY_ADDRESS;
    case 2: return BTC_SCRIPT_ADDRESS;
    case 3: return BTC_WITNESSV0_KEYHASH_ADDRESS;
    case 4: return BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
    default: return BTC_WITNESS_UNKNOWN_ADDRESS;
  }
}
