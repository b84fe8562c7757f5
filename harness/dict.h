/* A dictionary for the program under test, built in memory: key/value pairs
 * in the order of strcmp. */
#ifndef DICT_H
#define DICT_H
typedef struct { const char *k; const char *v; } Dent;
static char dict_buf[4096]; static int dict_n;
static char *dict_val[64];     /* where the values lie in dict_buf */
static void dict_make(Dent *d, int n) {
  int i; dict_n = 0; dict_buf[dict_n++] = 0; dict_buf[dict_n++] = 0; dict_buf[dict_n++] = n >> 8; dict_buf[dict_n++] = n & 255;
  for (i = 0; i < n; i++) { dict_buf[dict_n++] = strlen(d[i].k); dict_buf[dict_n++] = strlen(d[i].v); }
  for (i = 0; i < n; i++) { strcpy(dict_buf + dict_n, d[i].k); dict_n += strlen(d[i].k) + 1; dict_val[i] = dict_buf + dict_n; strcpy(dict_buf + dict_n, d[i].v); dict_n += strlen(d[i].v) + 1; }
}
static void dict_done(void) { sx_file_add("dict", dict_buf, dict_n); sx_env_dict = "dict"; }
#endif
