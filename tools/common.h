#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static ENGINE *eng;
static void load_engine(const char *so)
{
    ENGINE_load_dynamic();
    eng = ENGINE_by_id("dynamic");
    if (!eng || !ENGINE_ctrl_cmd_string(eng, "SO_PATH", so, 0) || !ENGINE_ctrl_cmd_string(eng, "LOAD", NULL, 0) || !ENGINE_init(eng))
    {
        ERR_print_errors_fp(stderr);
        exit(99);
    }
    ENGINE_set_default(eng, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    alarm(120);
}
static EVP_PKEY *gen(int nid, const char *curve)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(nid, eng);
    EVP_PKEY *k = NULL;
    if (!c || EVP_PKEY_keygen_init(c) <= 0 || (curve && EVP_PKEY_CTX_ctrl_str(c, "curve", curve) <= 0) || EVP_PKEY_keygen(c, &k) <= 0)
    {
        ERR_print_errors_fp(stderr);
        exit(98);
    }
    EVP_PKEY_CTX_free(c);
    return k;
}
/* the engine's key object: { EC_KEY *ec; unsigned char *sbox; } */
static EC_KEY *ec_of(EVP_PKEY *k) { return *(EC_KEY **) EVP_PKEY_get0(k); }
static int raw_sign(EVP_PKEY *k, const unsigned char *h, size_t hl, unsigned char *sig, size_t *n)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, eng);
    int r = EVP_PKEY_sign_init(c) > 0 ? EVP_PKEY_sign(c, sig, n, h, hl) : -99;
    EVP_PKEY_CTX_free(c);
    return r;
}
static int raw_verify(EVP_PKEY *k, const unsigned char *h, size_t hl, const unsigned char *sig, size_t n)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, eng);
    int r = EVP_PKEY_verify_init(c) > 0 ? EVP_PKEY_verify(c, sig, n, h, hl) : -99;
    EVP_PKEY_CTX_free(c);
    return r;
}
static void rev(unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n / 2; i++) { unsigned char t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; }
}
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
