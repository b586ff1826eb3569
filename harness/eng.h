/* Engine environment: a server API for the real default engine, with a clock and a key hash the harness controls.
   Everything goes through the engine's public vtable (ENGINE_HANDLE_V1). */
#ifndef ENG_H
#define ENG_H
#include "config.h"
#include "sym.h"
#include "pth.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <memcached/engine.h>
#include <memcached/util.h>
#include <memcached/config_parser.h>
#include <memcached/extension_loggers.h>
extern ENGINE_ERROR_CODE create_instance(uint64_t interface, GET_SERVER_API get_server_api, ENGINE_HANDLE **handle);

static ENGINE_HANDLE *EH; static ENGINE_HANDLE_V1 *E;
static rel_time_t eng_now = 1000;          /* controllable clock (seconds since server start) */
static int eng_hashmode = 0;               /* 0: spread, 1: all keys collide, 2: harness-supplied table */
static int eng_evicting;                   /* number of evicting callbacks */
static uint32_t (*eng_hashfn)(const void *, size_t);
static int eng_notify_cnt, eng_wait_cnt; static bool eng_noreply;
static char eng_cookie_obj[64];
#define COOKIE ((const void *)eng_cookie_obj)

static rel_time_t e_time(void) { return eng_now; }
static rel_time_t e_realtime(const time_t t) { return (rel_time_t)t; }
static const char *e_version(void) { return VERSION; }
static uint32_t e_hash(const void *d, size_t n, uint32_t seed) {
  if (eng_hashfn) return eng_hashfn(d, n);
  if (eng_hashmode == 1) return 0x1234567;
  const unsigned char *p = d; uint32_t h = 5381; for (size_t i = 0; i < n; i++) h = h * 33 + p[i]; return h;
}
static int e_parse(const char *s, struct config_item it[], FILE *f) { return parse_config(s, it, f); }
static void e_store_spec(const void *c, void *d) { }
static void *e_get_spec(const void *c) { return NULL; }
static int e_fd(const void *c) { return 3; }
static const char *e_ip(const void *c) { return "127.0.0.1"; }
static int e_tidx(const void *c) { return 0; }
static bool e_noreply(const void *c) { return eng_noreply; }
#ifdef MULTI_NOTIFY_IO_COMPLETE
static void e_waitio(const void *c) { eng_wait_cnt++; }
#endif
static void e_notify(const void *c, ENGINE_ERROR_CODE s) { eng_notify_cnt++; }
static void e_shutdown(void) { }
static void *e_new_stats(void) { return NULL; }
static void e_rel_stats(void *p) { }
static void e_evicting(const void *c, const void *k, int n) { eng_evicting++; }
static const char *e_logname(void) { return "null"; }
static void e_log(EXTENSION_LOG_LEVEL sev, const void *c, const char *fmt, ...) {
#ifdef H_LOG
  sym_print(fmt);
#endif
}
static EXTENSION_LOGGER_DESCRIPTOR e_logger = { .get_name = e_logname, .log = e_log };
static EXTENSION_LOGGER_DESCRIPTOR *e_get_logger(void) { return &e_logger; }
static EXTENSION_LOG_LEVEL e_get_level(void) { return EXTENSION_LOG_WARNING; }
static void e_set_level(EXTENSION_LOG_LEVEL l) { }
static void e_regcb(ENGINE_HANDLE *h, ENGINE_EVENT_TYPE t, EVENT_CALLBACK cb, const void *d) { }
static void e_percb(ENGINE_EVENT_TYPE t, const void *d, const void *c) { }
static SERVER_CORE_API e_core = {
  .get_current_time = e_time, .realtime = e_realtime, .server_version = e_version, .hash = e_hash, .parse_config = e_parse,
  .store_engine_specific = e_store_spec, .get_engine_specific = e_get_spec, .get_socket_fd = e_fd, .get_client_ip = e_ip,
  .get_thread_index = e_tidx, .get_noreply = e_noreply,
#ifdef MULTI_NOTIFY_IO_COMPLETE
  .waitfor_io_complete = e_waitio,
#endif
  .notify_io_complete = e_notify, .shutdown = e_shutdown };
static SERVER_STAT_API e_stat = { .new_stats = e_new_stats, .release_stats = e_rel_stats, .evicting = e_evicting };
static SERVER_LOG_API e_logapi = { .get_logger = e_get_logger, .get_level = e_get_level, .set_level = e_set_level };
static SERVER_CALLBACK_API e_cb = { .register_callback = e_regcb, .perform_callbacks = e_percb };
static SERVER_EXTENSION_API e_ext;
static SERVER_HANDLE_V1 e_api = { .interface = 1, .core = &e_core, .stat = &e_stat, .extension = &e_ext, .callback = &e_cb, .log = &e_logapi };
static SERVER_HANDLE_V1 *e_get_api(void) { return &e_api; }

static void eng_init(const char *cfg) {
  ENGINE_ERROR_CODE r = create_instance(1, e_get_api, &EH);
  if (r != ENGINE_SUCCESS) sym_fail("create_instance failed");
  E = (ENGINE_HANDLE_V1 *)EH; e_api.engine = EH;
  r = E->initialize(EH, cfg);
  if (r != ENGINE_SUCCESS) sym_fail("engine initialize failed");
  symp_yield_all();
}
/* let the background collection-delete / scrub threads do their work */
static void eng_bg(void) { for (int i = 0; i < 3; i++) symp_tick(); }

/* ---- statistics ---- */
static const char *e_want; static char e_got[64]; static int e_found;
static void e_addstat(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie) {
  size_t n = strlen(e_want); if (klen == n && memcmp(key, e_want, n) == 0) { uint32_t m = vlen < 63 ? vlen : 63; memcpy(e_got, val, m); e_got[m] = 0; e_found = 1; }
}
static uint64_t eng_stat(const char *group, const char *name) {
  e_want = name; e_found = 0; E->get_stats(EH, COOKIE, group, group ? (int)strlen(group) : 0, e_addstat);
  if (!e_found) sym_fail("statistic missing");
  return strtoull(e_got, NULL, 10);
}

/* ---- kv helpers ---- */
static ENGINE_ERROR_CODE kv_alloc(item **it, const void *k, size_t nk, const void *v, size_t nv, uint32_t flags, rel_time_t exp, uint64_t cas) {
  ENGINE_ERROR_CODE r = E->allocate(EH, COOKIE, it, k, nk, nv + 2, (int)flags, exp, cas);
  if (r != ENGINE_SUCCESS) return r;
  item_info info; E->get_item_info(EH, COOKIE, *it, &info);
  sym_assert(info.nbytes == nv + 2, "allocated item has the requested value length");
  sym_assert(info.nkey == nk, "allocated item has the requested key length");
  memcpy((void *)info.value, v, nv); memcpy((char *)info.value + nv, "\r\n", 2);
  return ENGINE_SUCCESS;
}
static ENGINE_ERROR_CODE kv_store(const void *k, size_t nk, ENGINE_STORE_OPERATION op, const void *v, size_t nv, uint32_t flags, rel_time_t exp, uint64_t cas, uint64_t *casout) {
  item *it = NULL; ENGINE_ERROR_CODE r = kv_alloc(&it, k, nk, v, nv, flags, exp, cas);
  if (r != ENGINE_SUCCESS) return r;
  uint64_t c = 0; r = E->store(EH, COOKIE, it, &c, op, 0); if (casout) *casout = c;
  E->release(EH, COOKIE, it); return r;
}
static ENGINE_ERROR_CODE kv_get(const void *k, size_t nk, char *out, size_t cap, uint32_t *nv, uint32_t *flags, uint64_t *cas) {
  item *it = NULL; ENGINE_ERROR_CODE r = E->get(EH, COOKIE, &it, k, (int)nk, 0); if (r != ENGINE_SUCCESS) return r;
  item_info info; E->get_item_info(EH, COOKIE, it, &info);
  if (flags) *flags = info.flags; if (cas) *cas = info.cas; if (nv) *nv = info.nbytes - 2;
  sym_assert(info.nkey == nk && memcmp(info.key, k, nk) == 0, "get returns an item carrying the requested key");
  sym_assert(info.nbytes >= 2 && memcmp((char *)info.value + info.nbytes - 2, "\r\n", 2) == 0, "value ends with CRLF");
  if (out) memcpy(out, info.value, info.nbytes - 2 < cap ? info.nbytes - 2 : cap);
  E->release(EH, COOKIE, it); return r;
}
#endif
