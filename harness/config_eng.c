/* Limits of the engine configuration: at start (every value of every limited setting) and at run time. */
#include "eng.h"
#ifndef H_STEPS
#define H_STEPS 2
#endif
static const char *const key[] = { "max_list_size", "max_set_size", "max_map_size", "max_btree_size", "max_element_bytes", "scrub_count" };
static const uint32_t lo[] = { 10000, 10000, 10000, 10000, 1024, 16 }, hi[] = { 1000000, 1000000, 1000000, 1000000, 32768, 320 };
static uint32_t want[6];
static uint32_t get32(const char *k) { uint32_t v = 0xABCDEF01; sym_assert(E->get_config(EH, COOKIE, k, &v) == ENGINE_SUCCESS, "a setting can be read"); return v; }
static size_t get64(const char *k) { size_t v = 0xABCDEF01; sym_assert(E->get_config(EH, COOKIE, k, &v) == ENGINE_SUCCESS, "a setting can be read"); return v; }
#if H_MODE == 0
static int given; static bool conf_fails;
static int my_parse(const char *s, struct config_item *it, FILE *f) {
  for (int i = 0; i < 6; i++) if (given & (1 << i)) { int j = 0; while (it[j].key && strcmp(it[j].key, key[i])) j++; if (!it[j].key) sym_fail("a documented setting is missing"); sym_assert(it[j].datatype == DT_UINT32, "type of a limit"); *it[j].value.dt_uint32 = want[i]; it[j].found = true; }
  return conf_fails ? 1 : 0;
}
void harness(void) {
  e_core.parse_config = my_parse; bool ok = true; conf_fails = sym_bool("unknown key");
  static const uint32_t def[] = { 50000, 50000, 50000, 50000, 16384, 96 };
  int a = sym_choose(6, "first"), b = sym_choose(6, "second"); given = (1 << a) | (1 << b);
  for (int i = 0; i < 6; i++) { want[i] = def[i]; if (given & (1 << i)) { want[i] = sym_u32(key[i]); if (want[i] < lo[i] || want[i] > hi[i]) ok = false; } }
  if (create_instance(1, e_get_api, &EH) != ENGINE_SUCCESS) sym_fail("create_instance failed"); E = (ENGINE_HANDLE_V1 *)EH; e_api.engine = EH;
  ENGINE_ERROR_CODE r = E->initialize(EH, "given");
  sym_assert((r == ENGINE_SUCCESS) == (ok && !conf_fails), "the engine starts exactly when every limit is in its range and the text is accepted");
  if (r != ENGINE_SUCCESS) { sym_reach("refused"); return; }
  for (int i = 0; i < 6; i++) if (given & (1 << i)) sym_assert(get32(key[i]) == want[i], "a setting given at start is in force");
  sym_reach("started");
}
#else
/* a collection made now shows the limit in force */
static void limit_in_force(int c) {
  item_attr a; memset(&a, 0, sizeof a); a.flags = 0; a.exptime = 0; a.maxcount = -1; a.ovflaction = 0; a.readable = 1; char k[4] = { 'c', (char)('0' + c), 0, 0 }; ENGINE_ERROR_CODE r;
  if (c == 0) r = E->list_struct_create(EH, COOKIE, k, 2, &a, 0); else if (c == 1) r = E->set_struct_create(EH, COOKIE, k, 2, &a, 0); else if (c == 2) r = E->map_struct_create(EH, COOKIE, k, 2, &a, 0); else r = E->btree_struct_create(EH, COOKIE, k, 2, &a, 0);
  sym_assert(r == ENGINE_SUCCESS, "a collection is created"); ENGINE_ITEM_ATTR id[1] = { ATTR_MAXCOUNT }; item_attr g; memset(&g, 0, sizeof g);
  r = E->getattr(EH, COOKIE, k, 2, id, 1, &g, 0); sym_assert(r == ENGINE_SUCCESS, "the attributes are read"); sym_assert((uint32_t)g.maxcount == want[c], "the largest number of elements is the limit in force");
}
void harness(void) {
  eng_init("cache_size=67108864;sticky_limit=1048576");
  for (int i = 0; i < 6; i++) want[i] = get32(key[i]); size_t mem = get64("memlimit"), st = get64("sticky_limit"), vb = (size_t)get32("verbosity"); sym_assert(mem == 67108864 && st == 1048576, "settings given at start are in force");
  size_t sb = 0; if (sym_bool("sticky item")) { sym_assert(kv_store("k", 1, OPERATION_SET, "v", 1, 0, (rel_time_t)-1, 0, NULL) == ENGINE_SUCCESS, "a sticky item"); sb = eng_stat(NULL, "sticky_bytes"); sym_assert(sb > 0, "sticky bytes"); }
  size_t used = eng_stat(NULL, "engine_malloced"); int last = -1;
  for (int q = 0; q < H_STEPS; q++) {
    int w = sym_choose(10, "setting"); ENGINE_ERROR_CODE r;
    if (w < 6) { uint32_t v = sym_u32("value"); r = E->set_config(EH, COOKIE, key[w], &v); bool ok; uint32_t nv = v;
      if (w < 4) { if ((int32_t)v < 0 || v > hi[w]) nv = hi[w]; ok = nv > want[w]; } else ok = v >= lo[w] && v <= hi[w];
      sym_assert(r == (ok ? ENGINE_SUCCESS : ENGINE_EBADVALUE), "a value outside the range is refused, one inside is taken"); if (ok) want[w] = nv; last = w; }
    else if (w == 6) { size_t v = sym_u64("value"); r = E->set_config(EH, COOKIE, "memlimit", &v); sym_assert(r == ENGINE_SUCCESS || r == ENGINE_EBADVALUE, "the answer to a memory limit");
      if (v < st || v < used) sym_assert(r != ENGINE_SUCCESS, "a memory limit below what is used or kept for sticky items is refused"); if (v >= st && v / 2 >= mem) sym_assert(r == ENGINE_SUCCESS, "a larger memory limit is taken"); if (r == ENGINE_SUCCESS) { mem = v; sym_reach("memlimit"); } }
    else if (w == 7) { size_t v = sym_u64("value"); r = E->set_config(EH, COOKIE, "sticky_limit", &v); bool ok = v >= sb && v <= mem; sym_assert(r == (ok ? ENGINE_SUCCESS : ENGINE_EBADVALUE), "a sticky limit is taken exactly between what is in use and the memory limit"); if (ok) st = v; }
    else if (w == 8) { size_t v = sym_u32("value"); r = E->set_config(EH, COOKIE, "verbosity", &v); sym_assert(r == ENGINE_SUCCESS, "verbosity is taken"); vb = v; }
    else { size_t v = 5; r = E->set_config(EH, COOKIE, "max_lists_size", &v); sym_assert(r == ENGINE_ENOTSUP, "an unknown setting is refused"); sym_assert(E->get_config(EH, COOKIE, "maxbytes", &v) == ENGINE_ENOTSUP, "an unknown setting cannot be read"); }
    for (int i = 0; i < 6; i++) sym_assert(get32(key[i]) == want[i], "every setting keeps its value until it is changed");
    sym_assert(get64("memlimit") == mem && get64("sticky_limit") == st && (size_t)get32("verbosity") == vb, "every setting keeps its value until it is changed");
    if (r == ENGINE_SUCCESS) sym_reach("taken"); else sym_reach("refused");
  }
  if (last >= 0 && last < 4) { limit_in_force(last); sym_reach("limit"); }
  sym_reach("end");
}
#endif
