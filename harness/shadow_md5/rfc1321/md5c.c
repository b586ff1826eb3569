/* stands in for rfc1321/md5c.c: the digest is chosen by the harness */
#include <stdint.h>
#include <string.h>
extern void h_md5(const unsigned char *p, unsigned n, unsigned char *digest);
typedef struct { unsigned char b[256]; unsigned n; } MD5_CTX;
static void MD5Init(MD5_CTX *c) { c->n = 0; }
static void MD5Update(MD5_CTX *c, const unsigned char *p, unsigned n) { if (n > sizeof c->b - c->n) n = sizeof c->b - c->n; memcpy(c->b + c->n, p, n); c->n += n; }
static void MD5Final(unsigned char *d, MD5_CTX *c) { h_md5(c->b, c->n, d); }
