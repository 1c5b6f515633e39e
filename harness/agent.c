/* An application on the bus, driven over a pipe: one JSON command per line on stdin, one JSON line
   per result ({"id":..,"rc":..}) or per callback invocation ({"ev":..}) on stdout, in the order in
   which they happened in this process. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <stdint.h>
#include <time.h>
#include <signal.h>
#include <cjson/cJSON.h>
#include "rbus.h"
#include "rbus_message.h"
#include "rtConnection.h"
#include "rtError.h"
#include "rtMessageHeader.h"

static pthread_mutex_t outm = PTHREAD_MUTEX_INITIALIZER;
static void emit(cJSON *o)
{
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  char *s;
  pthread_mutex_lock(&outm);
  cJSON_AddNumberToObject(o, "at", (double)(ts.tv_sec % 1000000) * 1000 + ts.tv_nsec / 1000000);
  s = cJSON_PrintUnformatted(o);
  fputs(s, stdout); fputc('\n', stdout); fflush(stdout);
  pthread_mutex_unlock(&outm);
  free(s); cJSON_Delete(o);
}
static cJSON *ev(const char *k) { cJSON *o = cJSON_CreateObject(); cJSON_AddStringToObject(o, "ev", k); return o; }
#define S(o, k, v) cJSON_AddStringToObject(o, k, (v) ? (v) : "")
#define N(o, k, v) cJSON_AddNumberToObject(o, k, v)

/* ---- text form of values -------------------------------------------------------------------- */
typedef struct { char *p; size_t n, cap; } sb;
static void put(sb *b, const char *s, size_t n)
{
  if(b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); }
  memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void puts_(sb *b, const char *s) { put(b, s, strlen(s)); }
static void hex(sb *b, const void *d, size_t n)
{
  char t[3]; size_t i;
  for(i = 0; i < n; i++) { sprintf(t, "%02x", ((const unsigned char*)d)[i]); put(b, t, 2); }
}
static void encv(sb *b, rbusValue_t v);
static void encp(sb *b, rbusProperty_t p)
{
  const char *n = rbusProperty_GetName(p);
  hex(b, n ? n : "", n ? strlen(n) : 0); puts_(b, "="); encv(b, rbusProperty_GetValue(p));
}
static void enco(sb *b, rbusObject_t o)
{
  rbusProperty_t p; rbusObject_t c; const char *n = rbusObject_GetName(o);
  puts_(b, rbusObject_GetType(o) ? "m[" : "o["); hex(b, n ? n : "", n ? strlen(n) : 0); puts_(b, ";");
  for(p = rbusObject_GetProperties(o); p; p = rbusProperty_GetNext(p)) { encp(b, p); puts_(b, ","); }
  puts_(b, ";");
  for(c = rbusObject_GetChildren(o); c; c = rbusObject_GetNext(c)) enco(b, c);
  puts_(b, "]");
}
static void encv(sb *b, rbusValue_t v)
{
  char t[64]; int n; const uint8_t *y; const rbusDateTime_t *d; float f; double g; int32_t w[12];
  if(!v) { puts_(b, "null"); return; }
  switch(rbusValue_GetType(v)) {
  case RBUS_BOOLEAN: puts_(b, rbusValue_GetBoolean(v) ? "b:1" : "b:0"); return;
  case RBUS_CHAR: sprintf(t, "c:%d", rbusValue_GetChar(v)); break;
  case RBUS_BYTE: sprintf(t, "B:%u", rbusValue_GetByte(v)); break;
  case RBUS_INT8: sprintf(t, "i1:%d", rbusValue_GetInt8(v)); break;
  case RBUS_UINT8: sprintf(t, "u1:%u", rbusValue_GetUInt8(v)); break;
  case RBUS_INT16: sprintf(t, "i2:%d", rbusValue_GetInt16(v)); break;
  case RBUS_UINT16: sprintf(t, "u2:%u", rbusValue_GetUInt16(v)); break;
  case RBUS_INT32: sprintf(t, "i4:%d", rbusValue_GetInt32(v)); break;
  case RBUS_UINT32: sprintf(t, "u4:%u", rbusValue_GetUInt32(v)); break;
  case RBUS_INT64: sprintf(t, "i8:%lld", (long long)rbusValue_GetInt64(v)); break;
  case RBUS_UINT64: sprintf(t, "u8:%llu", (unsigned long long)rbusValue_GetUInt64(v)); break;
  case RBUS_SINGLE: f = rbusValue_GetSingle(v); puts_(b, "f:"); hex(b, &f, 4); return;
  case RBUS_DOUBLE: g = rbusValue_GetDouble(v); puts_(b, "d:"); hex(b, &g, 8); return;
  case RBUS_DATETIME: d = rbusValue_GetTime(v); puts_(b, "t:");
    if(d) {
      int32_t x[12] = {d->m_time.tm_sec, d->m_time.tm_min, d->m_time.tm_hour, d->m_time.tm_mday, d->m_time.tm_mon, d->m_time.tm_year,
        d->m_time.tm_wday, d->m_time.tm_yday, d->m_time.tm_isdst, d->m_tz.m_tzhour, d->m_tz.m_tzmin, d->m_tz.m_isWest};
      memcpy(w, x, sizeof w); hex(b, w, sizeof w);
    }
    return;
  case RBUS_STRING: { const char *s = rbusValue_GetString(v, &n); puts_(b, "s:"); if(s) hex(b, s, strlen(s)); return; }
  case RBUS_BYTES: y = rbusValue_GetBytes(v, &n); puts_(b, "y:"); if(y) hex(b, y, n); return;
  case RBUS_PROPERTY: { rbusProperty_t p = rbusValue_GetProperty(v); puts_(b, "p["); if(p) encp(b, p); puts_(b, "]"); return; }
  case RBUS_OBJECT: { rbusObject_t o = rbusValue_GetObject(v); puts_(b, "O["); if(o) enco(b, o); puts_(b, "]"); return; }
  case RBUS_NONE: puts_(b, "none"); return;
  default: sprintf(t, "type%d", rbusValue_GetType(v)); break;
  }
  puts_(b, t);
}
static char *vtext(rbusValue_t v) { sb b = {0}; put(&b, "", 0); encv(&b, v); return b.p; }
static char *otext(rbusObject_t o) { sb b = {0}; put(&b, "", 0); if(o) enco(&b, o); else puts_(&b, "null"); return b.p; }
static void AV(cJSON *o, const char *k, rbusValue_t v) { char *t = vtext(v); S(o, k, t); free(t); }
static void AO(cJSON *o, const char *k, rbusObject_t v) { char *t = otext(v); S(o, k, t); free(t); }

static char *unhex(const char **s, int *len)
{
  size_t n = strspn(*s, "0123456789abcdef"), i; char *r = malloc(n / 2 + 1); unsigned x;
  for(i = 0; i + 1 < n; i += 2) { sscanf(*s + i, "%2x", &x); r[i / 2] = (char)x; }
  r[n / 2] = 0; *s += n; if(len) *len = n / 2;
  return r;
}
static rbusValue_t decv(const char **s);
static rbusProperty_t decp(const char **s)
{
  rbusProperty_t p; char *n = unhex(s, NULL); rbusValue_t v;
  if(**s == '=') (*s)++;
  v = decv(s);
  rbusProperty_Init(&p, n, v); if(v) rbusValue_Release(v); free(n);
  return p;
}
static rbusObject_t deco(const char **s)
{
  rbusObject_t o, c, prev = NULL; int multi = **s == 'm'; char *n;
  *s += 2; n = unhex(s, NULL); (*s)++;
  if(multi) rbusObject_InitMultiInstance(&o, n); else rbusObject_Init(&o, n);
  free(n);
  while(**s && **s != ';') { rbusProperty_t p = decp(s); rbusObject_SetProperty(o, p); rbusProperty_Release(p); if(**s == ',') (*s)++; }
  (*s)++;
  while(**s == 'o' || **s == 'm') {
    c = deco(s);
    if(prev) rbusObject_SetNext(prev, c); else rbusObject_SetChildren(o, c);
    rbusObject_SetParent(c, o);
    rbusObject_Release(c);
    prev = c;
  }
  (*s)++;
  return o;
}
static rbusValue_t decv(const char **s)
{
  rbusValue_t v; char t[4] = {0}; const char *c = strchr(*s, ':'), *e; int n; char *d; float f; double g;
  if(!strncmp(*s, "null", 4)) { *s += 4; return NULL; }
  rbusValue_Init(&v);
  if(!strncmp(*s, "none", 4)) { *s += 4; return v; }
  if(!strncmp(*s, "p[", 2)) { *s += 2; rbusProperty_t p = decp(s); (*s)++; rbusValue_SetProperty(v, p); rbusProperty_Release(p); return v; }
  if(!strncmp(*s, "O[", 2)) { *s += 2; rbusObject_t o = deco(s); (*s)++; rbusValue_SetObject(v, o); rbusObject_Release(o); return v; }
  memcpy(t, *s, c - *s < 3 ? c - *s : 3); *s = e = c + 1;
#define NUM (*s += strspn(*s, "-0123456789"), e)
  if(!strcmp(t, "b")) rbusValue_SetBoolean(v, *NUM == '1');
  else if(!strcmp(t, "c")) rbusValue_SetChar(v, (char)atoi(NUM));
  else if(!strcmp(t, "B")) rbusValue_SetByte(v, (unsigned char)atoi(NUM));
  else if(!strcmp(t, "i1")) rbusValue_SetInt8(v, (int8_t)atoi(NUM));
  else if(!strcmp(t, "u1")) rbusValue_SetUInt8(v, (uint8_t)atoi(NUM));
  else if(!strcmp(t, "i2")) rbusValue_SetInt16(v, (int16_t)atoi(NUM));
  else if(!strcmp(t, "u2")) rbusValue_SetUInt16(v, (uint16_t)atoi(NUM));
  else if(!strcmp(t, "i4")) rbusValue_SetInt32(v, (int32_t)strtol(NUM, NULL, 10));
  else if(!strcmp(t, "u4")) rbusValue_SetUInt32(v, (uint32_t)strtoul(NUM, NULL, 10));
  else if(!strcmp(t, "i8")) rbusValue_SetInt64(v, strtoll(NUM, NULL, 10));
  else if(!strcmp(t, "u8")) rbusValue_SetUInt64(v, strtoull(NUM, NULL, 10));
  else if(!strcmp(t, "f")) { d = unhex(s, &n); memcpy(&f, d, 4); free(d); rbusValue_SetSingle(v, f); }
  else if(!strcmp(t, "d")) { d = unhex(s, &n); memcpy(&g, d, 8); free(d); rbusValue_SetDouble(v, g); }
  else if(!strcmp(t, "t")) {
    int32_t w[12]; rbusDateTime_t x; memset(&x, 0, sizeof x); d = unhex(s, &n); memcpy(w, d, sizeof w); free(d);
    x.m_time.tm_sec = w[0]; x.m_time.tm_min = w[1]; x.m_time.tm_hour = w[2]; x.m_time.tm_mday = w[3]; x.m_time.tm_mon = w[4]; x.m_time.tm_year = w[5];
    x.m_time.tm_wday = w[6]; x.m_time.tm_yday = w[7]; x.m_time.tm_isdst = w[8]; x.m_tz.m_tzhour = w[9]; x.m_tz.m_tzmin = w[10]; x.m_tz.m_isWest = w[11];
    rbusValue_SetTime(v, &x);
  }
  else if(!strcmp(t, "s")) { d = unhex(s, &n); rbusValue_SetString(v, d); free(d); }
  else if(!strcmp(t, "y")) { d = unhex(s, &n); rbusValue_SetBytes(v, (uint8_t*)d, n); free(d); }
  return v;
}
static rbusValue_t tv(const char *s) { return s ? decv(&s) : NULL; }
static rbusObject_t to(const char *s) { return s && strcmp(s, "null") ? deco(&s) : NULL; }

/* ---- commands' fields ------------------------------------------------------------------------ */
static const char *gs(cJSON *c, const char *k) { cJSON *i = cJSON_GetObjectItemCaseSensitive(c, k); return cJSON_IsString(i) ? i->valuestring : NULL; }
static int gi(cJSON *c, const char *k, int d) { cJSON *i = cJSON_GetObjectItemCaseSensitive(c, k); return cJSON_IsNumber(i) ? i->valueint : cJSON_IsTrue(i) ? 1 : d; }

/* ---- handles ----------------------------------------------------------------------------------- */
static struct { char n[32]; rbusHandle_t h; } hs[64];
static pthread_mutex_t hm = PTHREAD_MUTEX_INITIALIZER;
static rbusHandle_t H(cJSON *c)
{
  const char *n = gs(c, "h"); int i; rbusHandle_t r = NULL;
  pthread_mutex_lock(&hm);
  for(i = 0; n && i < 64; i++) if(hs[i].h && !strcmp(hs[i].n, n)) r = hs[i].h;
  pthread_mutex_unlock(&hm);
  return r;
}
static void setH(const char *n, rbusHandle_t h)
{
  int i;
  pthread_mutex_lock(&hm);
  for(i = 0; i < 64; i++) if(hs[i].h && !strcmp(hs[i].n, n)) { hs[i].h = h; goto out; }
  for(i = 0; i < 64 && h; i++) if(!hs[i].h) { snprintf(hs[i].n, 32, "%s", n); hs[i].h = h; goto out; }
out:
  pthread_mutex_unlock(&hm);
}
static const char *hn(rbusHandle_t h)
{
  int i; const char *r = "?";
  pthread_mutex_lock(&hm);
  for(i = 0; i < 64; i++) if(hs[i].h == h) { r = hs[i].n; break; }
  pthread_mutex_unlock(&hm);
  return r;
}

/* ---- what the provider callbacks do (configured by "cfg" commands) ------------------------------ */
typedef struct cfg { char kind[16]; char *name; char *val; int code, x; struct cfg *next; } cfg;
static cfg *cfgs; static pthread_mutex_t cm = PTHREAD_MUTEX_INITIALIZER;
static void setcfg(const char *kind, const char *name, const char *val, int code, int x)
{
  cfg *c;
  pthread_mutex_lock(&cm);
  for(c = cfgs; c; c = c->next) if(!strcmp(c->kind, kind) && !strcmp(c->name, name)) break;
  if(!c) { c = calloc(1, sizeof *c); snprintf(c->kind, 16, "%s", kind); c->name = strdup(name); c->next = cfgs; cfgs = c; }
  free(c->val); c->val = val ? strdup(val) : NULL; c->code = code; c->x = x;
  pthread_mutex_unlock(&cm);
}
static int getcfg(const char *kind, const char *name, cfg *out)
{
  cfg *c; int r = 0;
  memset(out, 0, sizeof *out);
  pthread_mutex_lock(&cm);
  for(c = cfgs; c; c = c->next) if(!strcmp(c->kind, kind) && !strcmp(c->name, name)) { *out = *c; out->val = c->val ? strdup(c->val) : NULL; r = 1; break; }
  pthread_mutex_unlock(&cm);
  return r;
}
static int quiet;
static void msleep(int ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, NULL); }

static rbusError_t onGet(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t *o)
{
  const char *n = rbusProperty_GetName(p); cfg c; rbusError_t rc = 0;
  if(getcfg("get", n, &c)) { rc = c.code; if(c.x) msleep(c.x); free(c.val); }
  if(!quiet) { cJSON *e = ev("get"); S(e, "h", hn(h)); S(e, "n", n); S(e, "from", o ? o->requestingComponent : ""); emit(e); }
  if(rc) return rc;
  if(getcfg("val", n, &c) && c.val) { rbusValue_t v = tv(c.val); rbusProperty_SetValue(p, v); if(v) rbusValue_Release(v); free(c.val); return 0; }
  return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
}
static rbusError_t onSet(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t *o)
{
  const char *n = rbusProperty_GetName(p); cfg c; rbusError_t rc = 0; char *t = vtext(rbusProperty_GetValue(p));
  if(getcfg("set", n, &c)) { rc = c.code; if(c.x) msleep(c.x); free(c.val); }
  /* a value this provider refuses */
  if(!rc && getcfg("refuse", n, &c)) { if(c.val && !strcmp(c.val, t)) rc = c.code; free(c.val); }
  if(!rc) setcfg("val", n, t, 0, 0);
  if(!quiet) { cJSON *e = ev("set"); S(e, "h", hn(h)); S(e, "n", n); S(e, "v", t); N(e, "session", o ? o->sessionId : 0); N(e, "commit", o ? o->commit : 0); S(e, "from", o ? o->requestingComponent : ""); N(e, "rc", rc); emit(e); }
  free(t);
  return rc;
}
static rbusError_t onAddRow(rbusHandle_t h, const char *table, const char *alias, uint32_t *inst)
{
  cfg c; rbusError_t rc = 0; cJSON *e;
  if(getcfg("addrow", table, &c)) { rc = c.code; free(c.val); }
  /* row numbers are handed out by this application over all its tables */
  if(!rc) { if(getcfg("inst", "", &c)) { *inst = c.code; free(c.val); } else *inst = 1; setcfg("inst", "", NULL, *inst + 1, 0); }
  e = ev("addrow"); S(e, "h", hn(h)); S(e, "n", table); S(e, "alias", alias); N(e, "rc", rc); emit(e);
  return rc;
}
static rbusError_t onRemoveRow(rbusHandle_t h, const char *row)
{
  cfg c; rbusError_t rc = 0; cJSON *e;
  if(getcfg("delrow", row, &c)) { rc = c.code; free(c.val); }
  e = ev("delrow"); S(e, "h", hn(h)); S(e, "n", row); N(e, "rc", rc); emit(e);
  return rc;
}
static rbusError_t onSub(rbusHandle_t h, rbusEventSubAction_t a, const char *name, rbusFilter_t f, int32_t interval, bool *autoPublish)
{
  cfg c; rbusError_t rc = 0; cJSON *e;
  if(getcfg("sub", name, &c)) { rc = c.code; if(c.x & 1) *autoPublish = false; if(c.x & 2) { free(c.val); return rc; } if(c.x & 4) msleep(300); free(c.val); }
  e = ev("subhandler"); S(e, "h", hn(h)); S(e, "n", name); N(e, "action", a); N(e, "interval", interval); N(e, "filter", f != NULL); N(e, "rc", rc); emit(e);
  return a == RBUS_EVENT_ACTION_SUBSCRIBE ? rc : 0;
}
static rbusMethodAsyncHandle_t asyncs[4096]; static char *asyncn[4096]; static int nasync; static pthread_mutex_t am = PTHREAD_MUTEX_INITIALIZER;
static rbusError_t onMethod(rbusHandle_t h, const char *name, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t ah)
{
  cfg c; rbusError_t rc = 0; cJSON *e; int k = -1;
  if(getcfg("bar", name, &c)) { free(c.val); return 0; }
  if(getcfg("method", name, &c)) {
    rc = c.code;
    if(c.x) msleep(c.x);
    if(c.val) {
      rbusObject_t o;
      if(!strcmp(c.val, "echo")) o = in, rbusObject_Retain(in); else o = to(c.val);
      if(o) {
        rbusProperty_t p; rbusObject_SetProperties(out, rbusObject_GetProperties(o)); rbusObject_SetChildren(out, rbusObject_GetChildren(o));
        if(rbusObject_GetName(o)) rbusObject_SetName(out, rbusObject_GetName(o));
        rbusObject_Release(o);
      }
    }
    free(c.val);
  }
  if(rc == RBUS_ERROR_ASYNC_RESPONSE) { pthread_mutex_lock(&am); k = nasync++; asyncs[k] = ah; pthread_mutex_unlock(&am); }
  e = ev("method"); S(e, "h", hn(h)); S(e, "n", name); AO(e, "in", in); N(e, "rc", rc); N(e, "async", k); emit(e);
  return rc;
}
static rbusError_t onSync(rbusHandle_t h, const char *table)
{
  cJSON *e = ev("sync"); S(e, "h", hn(h)); S(e, "n", table); emit(e);
  return 0;
}

/* ---- consumer callbacks ---------------------------------------------------------------------- */
static void onEvent(rbusHandle_t h, rbusEvent_t const *v, rbusEventSubscription_t *s)
{
  cJSON *e = ev("event"); cfg c;
  S(e, "h", hn(h)); S(e, "n", v->name); N(e, "type", v->type); AO(e, "data", v->data);
  N(e, "tag", s ? (intptr_t)s->userData : -1); S(e, "sub", s ? s->eventName : "");
  if(v->data) {
    rbusValue_t x;
    if((x = rbusObject_GetValue(v->data, "value"))) AV(e, "value", x);
    if((x = rbusObject_GetValue(v->data, "oldValue"))) AV(e, "old", x);
    if((x = rbusObject_GetValue(v->data, "filter"))) N(e, "filter", rbusValue_GetBoolean(x));
    if((x = rbusObject_GetValue(v->data, "initialValue"))) AV(e, "initial", x);
    if((x = rbusObject_GetValue(v->data, "rowName"))) S(e, "row", rbusValue_GetString(x, NULL));
    if((x = rbusObject_GetValue(v->data, "instNum"))) N(e, "inst", rbusValue_GetUInt32(x));
    if((x = rbusObject_GetValue(v->data, "alias"))) S(e, "alias", rbusValue_GetString(x, NULL));
    if((x = rbusObject_GetValue(v->data, "by"))) S(e, "by", rbusValue_GetString(x, NULL));
    if((x = rbusObject_GetValue(v->data, "numberOfEntries"))) AV(e, "entries", x);
  }
  emit(e);
  /* an application may call back into the bus from its handler */
  if(s && getcfg("onevent", s->eventName, &c)) {
    if(c.val && !strcmp(c.val, "unsub")) rbusEvent_Unsubscribe(h, s->eventName);
    if(c.val && !strcmp(c.val, "slow")) msleep(c.code);
    free(c.val);
  }
}
static void onRaw(rbusHandle_t h, rbusEventRawData_t const *v, rbusEventSubscription_t *s)
{
  cJSON *e = ev("raw"); sb b = {0};
  put(&b, "", 0); if(v->rawData) hex(&b, v->rawData, v->rawDataLen);
  S(e, "h", hn(h)); S(e, "n", v->name); S(e, "data", b.p); N(e, "tag", s ? (intptr_t)s->userData : -1); S(e, "sub", s ? s->eventName : ""); free(b.p);
  emit(e);
}
static void onAsyncSub(rbusHandle_t h, rbusEventSubscription_t *s, rbusError_t rc)
{
  cJSON *e = ev("subresp"); S(e, "h", hn(h)); S(e, "sub", s ? s->eventName : ""); N(e, "tag", s ? (intptr_t)s->userData : -1); N(e, "rc", rc); emit(e);
  cfg c;
  if(s && getcfg("onresp", s->eventName, &c)) {
    if(c.val && !strcmp(c.val, "unsub")) rbusEvent_Unsubscribe(h, s->eventName);
    if(c.val && !strcmp(c.val, "slow")) msleep(c.code);
    free(c.val);
  }
}
static pthread_mutex_t invm = PTHREAD_MUTEX_INITIALIZER;
static void onAsyncMethod(rbusHandle_t h, const char *name, rbusError_t rc, rbusObject_t out)
{
  cJSON *e = ev("methodresp"); S(e, "h", hn(h)); S(e, "n", name); N(e, "rc", rc); AO(e, "out", out); emit(e);
}
static void onMessage(rbusHandle_t h, rbusMessage_t *m, void *u)
{
  cJSON *e = ev("msg"); sb b = {0}; put(&b, "", 0); hex(&b, m->data, m->length);
  S(e, "h", hn(h)); S(e, "topic", m->topic); S(e, "data", b.p); N(e, "tag", (intptr_t)u); free(b.p);
  emit(e);
}
static rbusFilter_t mkfilter(cJSON *f)
{
  rbusFilter_t r = NULL; const char *op = gs(f, "op");
  if(!op) return NULL;
  if(!strcmp(op, "and") || !strcmp(op, "or") || !strcmp(op, "not")) {
    rbusFilter_t l = mkfilter(cJSON_GetObjectItem(f, "l")), q = cJSON_GetObjectItem(f, "r") ? mkfilter(cJSON_GetObjectItem(f, "r")) : NULL;
    rbusFilter_InitLogic(&r, op[0] == 'a' ? RBUS_FILTER_OPERATOR_AND : op[0] == 'o' ? RBUS_FILTER_OPERATOR_OR : RBUS_FILTER_OPERATOR_NOT, l, q);
    if(l) rbusFilter_Release(l);
    if(q) rbusFilter_Release(q);
  } else {
    rbusValue_t v = tv(gs(f, "v"));
    int o = !strcmp(op, ">") ? 0 : !strcmp(op, ">=") ? 1 : !strcmp(op, "<") ? 2 : !strcmp(op, "<=") ? 3 : !strcmp(op, "=") ? 4 : 5;
    rbusFilter_InitRelation(&r, o, v); rbusValue_Release(v);
  }
  return r;
}
static void mksub(cJSON *c, rbusEventSubscription_t *s)
{
  memset(s, 0, sizeof *s);
  s->eventName = gs(c, "n"); s->interval = gi(c, "interval", 0); s->duration = gi(c, "duration", 0);
  s->handler = gi(c, "raw", 0) ? (void*)onRaw : (void*)onEvent; s->userData = (void*)(intptr_t)gi(c, "tag", 0);
  s->publishOnSubscribe = gi(c, "pos", 0);
  if(cJSON_GetObjectItem(c, "filter")) s->filter = mkfilter(cJSON_GetObjectItem(c, "filter"));
}
static rbusDataElement_t mkel(cJSON *c)
{
  rbusDataElement_t d; const char *k = gs(c, "k"), *f = gs(c, "f"); memset(&d, 0, sizeof d);
  d.name = (char*)gs(c, "n");
  d.type = k[0] == 'p' ? RBUS_ELEMENT_TYPE_PROPERTY : k[0] == 't' ? RBUS_ELEMENT_TYPE_TABLE : k[0] == 'e' ? RBUS_ELEMENT_TYPE_EVENT : RBUS_ELEMENT_TYPE_METHOD;
  if(!f) f = "";
  if(strchr(f, 'g')) d.cbTable.getHandler = onGet;
  if(strchr(f, 's')) d.cbTable.setHandler = onSet;
  if(strchr(f, 'a')) d.cbTable.tableAddRowHandler = onAddRow;
  if(strchr(f, 'r')) d.cbTable.tableRemoveRowHandler = onRemoveRow;
  if(strchr(f, 'e')) d.cbTable.eventSubHandler = onSub;
  if(strchr(f, 'm')) d.cbTable.methodHandler = (void*)onMethod;
  return d;
}
#define ARR(c, k, it) for(cJSON *it = cJSON_GetObjectItem(c, k) ? cJSON_GetObjectItem(c, k)->child : NULL; it; it = it->next)
static int alen(cJSON *c, const char *k) { cJSON *a = cJSON_GetObjectItem(c, k); return a ? cJSON_GetArraySize(a) : 0; }

/* ---- a connection by itself (rtMessage) ------------------------------------------------------ */
static rtConnection con;
static int conSlow[256], conBusy;
static int64_t ms(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000; }
static int conrc(rtError e) { return e == RT_OK ? 0 : e == RT_ERROR_TIMEOUT ? 1 : e == RT_OBJECT_NO_LONGER_AVAILABLE ? 2 : 3; }
static void conreq(cJSON *c, cJSON *r, const char *key)
{
  const char *s = gs(c, "data"); int l; char *d = unhex(&s, &l); uint8_t *res = NULL; uint32_t n = 0; int64_t t0 = ms();
  int rc = conrc(rtConnection_SendBinaryRequest(con, (uint8_t*)d, l, gs(c, "n"), &res, &n, gi(c, "timeout", 1000)));
  N(r, "el", ms() - t0); N(r, "res", rc);
  if(rc == 0) { sb b = {0}; put(&b, "", 0); hex(&b, res, n); S(r, key, b.p); free(b.p); free(res); }
  free(d);
}
static void onCon(rtMessageHeader const *h, uint8_t const *d, uint32_t n, void *u)
{
  int tag = (int)(intptr_t)u, busy = __sync_fetch_and_add(&conBusy, 1); cJSON *e = ev("con"); sb b = {0};
  put(&b, "", 0); hex(&b, d, n);
  N(e, "tag", tag); S(e, "topic", h->topic); S(e, "data", b.p); N(e, "flags", h->flags); N(e, "busy", busy);
  if(n >= 4 && !memcmp(d, "NEST", 4)) {
    cJSON *q = cJSON_CreateObject(); S(q, "n", "NEST"); S(q, "data", b.p); N(q, "timeout", 8000); conreq(q, e, "ans"); cJSON_Delete(q);
  }
  if(h->flags & rtMessageFlags_Request) N(e, "sent", conrc(rtConnection_SendBinaryResponse(con, h, d, n, 1000)));
  if(conSlow[tag & 255]) msleep(conSlow[tag & 255]);
  __sync_fetch_and_sub(&conBusy, 1);
  free(b.p); emit(e);
}

static void run(cJSON *c)
{
  const char *cmd = gs(c, "cmd"); rbusHandle_t h = H(c); cJSON *r = cJSON_CreateObject(); int rc = -1; const char *n = gs(c, "n");
  N(r, "id", gi(c, "id", 0));
#define IS(x) !strcmp(cmd, x)
  if(IS("open")) { rbusHandle_t nh = NULL; rc = rbus_open(&nh, n); if(rc == 0) setH(gs(c, "h"), nh); }
  else if(IS("close")) { rc = rbus_close(h); if(rc == 0) { setH(gs(c, "h"), NULL); if(gs(c, "as")) setH(gs(c, "as"), h); } }
  else if(IS("forget")) { setH(gs(c, "h"), NULL); setH(gs(c, "as"), h); rc = 0; }
  else if(IS("reg") || IS("unreg")) {
    rbusDataElement_t d[64]; int k = 0; ARR(c, "els", e) d[k++] = mkel(e);
    rc = IS("reg") ? rbus_regDataElements(h, k, d) : rbus_unregDataElements(h, k, d);
  }
  else if(IS("cfg")) { setcfg(gs(c, "kind"), n, gs(c, "v"), gi(c, "code", 0), gi(c, "x", 0)); rc = 0; }
  else if(IS("store")) {
    cJSON *a = cJSON_AddArrayToObject(r, "vals"); cfg *q; rc = 0;
    pthread_mutex_lock(&cm);
    for(q = cfgs; q; q = q->next) if(!strcmp(q->kind, "val") && q->val) { cJSON *o = cJSON_CreateObject(); S(o, "n", q->name); S(o, "v", q->val); cJSON_AddItemToArray(a, o); }
    pthread_mutex_unlock(&cm);
  }
  else if(IS("quiet")) { quiet = gi(c, "x", 0); rc = 0; }
  else if(IS("peek")) { cfg g; rc = 0; if(getcfg("val", n, &g)) { S(r, "v", g.val); free(g.val); } }
  else if(IS("get")) { rbusValue_t v = NULL; rc = rbus_get(h, n, &v); if(rc == 0) { AV(r, "v", v); rbusValue_Release(v); } }
  else if(IS("gettyped")) {
    const char *k = gs(c, "k"); char b[64];
    if(*k == 'i') { int x = 0; rc = rbus_getInt(h, n, &x); sprintf(b, "%d", x); if(!rc) S(r, "v", b); }
    else if(*k == 'u') { unsigned x = 0; rc = rbus_getUint(h, n, &x); sprintf(b, "%u", x); if(!rc) S(r, "v", b); }
    else if(*k == 'b') { bool x = 0; rc = rbus_getBoolean(h, n, &x); sprintf(b, "%d", x); if(!rc) S(r, "v", b); }
    else { char *x = NULL; rc = rbus_getStr(h, n, &x); if(!rc) { S(r, "v", x); free(x); } }
  }
  else if(IS("settyped")) {
    const char *k = gs(c, "k"), *v = gs(c, "v");
    rc = *k == 'i' ? rbus_setInt(h, n, atoi(v)) : *k == 'u' ? rbus_setUInt(h, n, strtoul(v, NULL, 10)) : *k == 'b' ? rbus_setBoolean(h, n, *v == '1') : rbus_setStr(h, n, v);
  }
  else if(IS("getm")) {
    const char *ns[64]; int k = 0, m = 0; rbusProperty_t p = NULL, q; cJSON *a = cJSON_AddArrayToObject(r, "props");
    ARR(c, "ns", e) ns[k++] = e->valuestring;
    rc = rbus_getExt(h, k, ns, &m, &p);
    N(r, "num", m);
    if(rc == 0) { for(q = p; q; q = rbusProperty_GetNext(q)) { cJSON *o = cJSON_CreateObject(); S(o, "n", rbusProperty_GetName(q)); AV(o, "v", rbusProperty_GetValue(q)); cJSON_AddItemToArray(a, o); } if(p) rbusProperty_Release(p); }
  }
  else if(IS("set")) {
    rbusValue_t v = tv(gs(c, "v")); rbusSetOptions_t o = {gi(c, "commit", 1), gi(c, "session", 0)};
    rc = rbus_set(h, n, v, gi(c, "noopts", 0) ? NULL : &o); if(v) rbusValue_Release(v);
  }
  else if(IS("setcommit")) { rbusSetOptions_t o = {gi(c, "commit", 1), gi(c, "session", 0)}; rc = rbus_setCommit(h, n, &o); }
  else if(IS("setm")) {
    rbusProperty_t first = NULL; int k = 0; char *failed = NULL; rbusSetOptions_t o = {gi(c, "commit", 1), gi(c, "session", 0)};
    ARR(c, "props", e) { rbusProperty_t p; rbusValue_t v = tv(gs(e, "v")); rbusProperty_Init(&p, gs(e, "n"), v); if(v) rbusValue_Release(v); if(first) { rbusProperty_Append(first, p); rbusProperty_Release(p); } else first = p; k++; }
    if(gi(c, "ext", 0)) { rc = rbus_setMultiExt(h, k, first, gi(c, "noopts", 0) ? NULL : &o, gi(c, "timeout", 0), &failed); if(failed) { S(r, "failed", failed); free(failed); } else S(r, "failed", ""); }
    else { rc = rbus_setMulti(h, k, first, gi(c, "noopts", 0) ? NULL : &o); }
    if(first) rbusProperty_Release(first);
  }
  else if(IS("addrow")) { uint32_t i = 0; rc = rbusTable_addRow(h, n, gs(c, "alias"), &i); N(r, "inst", i); }
  else if(IS("delrow")) rc = rbusTable_removeRow(h, n);
  else if(IS("regrow")) rc = rbusTable_registerRow(h, n, gi(c, "inst", 0), gs(c, "alias"));
  else if(IS("unregrow")) rc = rbusTable_unregisterRow(h, n);
  else if(IS("rows")) {
    rbusRowName_t *w = NULL, *x; cJSON *a = cJSON_AddArrayToObject(r, "rows"); rc = rbusTable_getRowNames(h, n, &w);
    if(rc == 0) { for(x = w; x; x = x->next) { cJSON *o = cJSON_CreateObject(); S(o, "n", x->name); N(o, "inst", x->instNum); S(o, "alias", x->alias); cJSON_AddItemToArray(a, o); } rbusTable_freeRowNames(h, w); }
  }
  else if(IS("info")) {
    rbusElementInfo_t *w = NULL, *x; cJSON *a = cJSON_AddArrayToObject(r, "els"); rc = rbusElementInfo_get(h, n, gi(c, "depth", 0), &w);
    if(rc == 0) { for(x = w; x; x = x->next) { cJSON *o = cJSON_CreateObject(); S(o, "n", x->name); S(o, "comp", x->component); N(o, "k", x->type); N(o, "access", x->access); cJSON_AddItemToArray(a, o); } rbusElementInfo_free(h, w); }
  }
  else if(IS("synchandler")) rc = rbus_registerDynamicTableSyncHandler(h, n, onSync);
  else if(IS("invoke")) {
    rbusObject_t in = to(gs(c, "in")), out = NULL; rc = rbusMethod_Invoke(h, n, in, &out);
    AO(r, "out", out); if(in) rbusObject_Release(in); if(out) rbusObject_Release(out);
  }
  else if(IS("invokeasync")) { rbusObject_t in = to(gs(c, "in")); rc = rbusMethod_InvokeAsync(h, n, in, onAsyncMethod, gi(c, "timeout", 0)); if(in) rbusObject_Release(in); }
  else if(IS("respond")) { rbusObject_t o = to(gs(c, "out")); int k = gi(c, "k", 0); rc = asyncs[k] ? rbusMethod_SendAsyncResponse(asyncs[k], gi(c, "code", 0), o) : -2; asyncs[k] = NULL; if(o) rbusObject_Release(o); }
  else if(IS("sub")) {
    if(gi(c, "raw", 0)) rc = rbusEvent_SubscribeRawData(h, n, (rbusEventHandler_t)onRaw, (void*)(intptr_t)gi(c, "tag", 0), gi(c, "timeout", 0));
    else rc = rbusEvent_Subscribe(h, n, onEvent, (void*)(intptr_t)gi(c, "tag", 0), gi(c, "timeout", 0));
  }
  else if(IS("subasync")) rc = rbusEvent_SubscribeAsync(h, n, onEvent, onAsyncSub, (void*)(intptr_t)gi(c, "tag", 0), gi(c, "timeout", 0));
  else if(IS("unsub")) rc = gi(c, "raw", 0) ? rbusEvent_UnsubscribeRawData(h, n) : rbusEvent_Unsubscribe(h, n);
  else if(IS("subex") || IS("unsubex") || IS("subexasync") || IS("exists")) {
    rbusEventSubscription_t s[32]; int k = 0, i;
    if(cJSON_GetObjectItem(c, "subs")) { ARR(c, "subs", e) mksub(e, &s[k++]); } else mksub(c, &s[k++]);
    if(IS("exists")) rc = rbusEvent_IsSubscriptionExist(h, n, &s[0]);
    else if(IS("subexasync")) rc = rbusEvent_SubscribeExAsync(h, s, k, onAsyncSub, gi(c, "timeout", 0));
    else if(IS("subex")) rc = gi(c, "raw", 0) ? rbusEvent_SubscribeExRawData(h, s, k, gi(c, "timeout", 0)) : rbusEvent_SubscribeEx(h, s, k, gi(c, "timeout", 0));
    else rc = gi(c, "raw", 0) ? rbusEvent_UnsubscribeExRawData(h, s, k) : rbusEvent_UnsubscribeEx(h, s, k);
    for(i = 0; i < k; i++) if(s[i].filter) rbusFilter_Release(s[i].filter);
  }
  else if(IS("exist1")) rc = rbusEvent_IsSubscriptionExist(h, n, NULL);
  else if(IS("publish")) {
    rbusEvent_t e; memset(&e, 0, sizeof e); e.name = n; e.type = gi(c, "type", RBUS_EVENT_GENERAL); e.data = to(gs(c, "data"));
    if(!e.data) rbusObject_Init(&e.data, NULL);
    ARR(c, "vals", x) { rbusValue_t v = tv(gs(x, "v")); rbusObject_SetValue(e.data, gs(x, "n"), v); if(v) rbusValue_Release(v); }
    rc = rbusEvent_Publish(h, &e); rbusObject_Release(e.data);
  }
  else if(IS("publishraw")) { rbusEventRawData_t e; const char *s = gs(c, "data"); int l; char *d = unhex(&s, &l); e.name = n; e.rawData = d; e.rawDataLen = l; rc = rbusEvent_PublishRawData(h, &e); free(d); }
  else if(IS("sess")) { uint32_t s = 0; rc = rbus_createSession(h, &s); N(r, "s", s); }
  else if(IS("getsess")) { uint32_t s = 0; rc = rbus_getCurrentSession(h, &s); N(r, "s", s); }
  else if(IS("endsess")) rc = rbus_closeSession(h, gi(c, "s", 0));
  else if(IS("compname")) {
    const char *ns[64]; int k = 0, m = 0, i; char **out = NULL; cJSON *a = cJSON_AddArrayToObject(r, "names"); ARR(c, "ns", e) ns[k++] = e->valuestring;
    rc = rbus_discoverComponentName(h, k, ns, &m, &out);
    if(rc == 0) { for(i = 0; i < m; i++) { cJSON_AddItemToArray(a, cJSON_CreateString(out[i] ? out[i] : "")); free(out[i]); } free(out); }
  }
  else if(IS("compels")) {
    int m = 0, i; char **out = NULL; cJSON *a = cJSON_AddArrayToObject(r, "names");
    rc = rbus_discoverComponentDataElements(h, n, gi(c, "next", 0), &m, &out);
    if(rc == 0) { for(i = 0; i < m; i++) { cJSON_AddItemToArray(a, cJSON_CreateString(out[i] ? out[i] : "")); free(out[i]); } free(out); }
  }
  else if(IS("msgadd")) rc = gi(c, "private", 0) ? rbusMessage_AddPrivateListener(h, n, onMessage, (void*)(intptr_t)gi(c, "tag", 0), gi(c, "sid", 0)) : rbusMessage_AddListener(h, n, onMessage, (void*)(intptr_t)gi(c, "tag", 0), gi(c, "sid", 0));
  else if(IS("msgrm")) rc = gi(c, "private", 0) ? rbusMessage_RemovePrivateListener(h, n, gi(c, "sid", 0)) : rbusMessage_RemoveListener(h, n, gi(c, "sid", 0));
  else if(IS("msgrmall")) rc = rbusMessage_RemoveAllListeners(h);
  else if(IS("msghas")) rc = rbusMessage_HasListener(h, n);
  else if(IS("msgsend")) { const char *s = gs(c, "data"); int l; char *d = unhex(&s, &l); rbusMessage_t m = {n, (uint8_t*)d, l}; rc = rbusMessage_Send(h, &m, gi(c, "confirm", 0) ? RBUS_MESSAGE_CONFIRM_RECEIPT : RBUS_MESSAGE_NONE); free(d); }
  else if(IS("direct")) { rbusHandle_t d = NULL; rc = rbus_openDirect(h, &d, n); if(rc == 0) setH(gs(c, "as"), d); }
  else if(IS("closedirect")) { rc = rbus_closeDirect(h); if(rc == 0) setH(gs(c, "h"), NULL); }
  else if(IS("timeouts")) {
    rc = 0;
    if(gi(c, "set", 0)) rc |= rbusHandle_ConfigSetTimeout(h, gi(c, "set", 0));
    if(gi(c, "get", 0)) rc |= rbusHandle_ConfigGetTimeout(h, gi(c, "get", 0));
    if(gi(c, "getm", 0)) rc |= rbusHandle_ConfigGetMultiTimeout(h, gi(c, "getm", 0));
    if(gi(c, "setm", 0)) rc |= rbusHandle_ConfigSetMultiTimeout(h, gi(c, "setm", 0));
    if(gi(c, "sub", 0)) rc |= rbusHandle_ConfigSubscribeTimeout(h, gi(c, "sub", 0));
  }
  else if(IS("trace")) rc = rbusHandle_SetTraceContextFromString(h, gs(c, "parent"), gs(c, "state"));
  else if(IS("gettrace")) { char a[1024] = "", b[1024] = ""; rc = rbusHandle_GetTraceContextAsString(h, a, sizeof a, b, sizeof b); S(r, "parent", a); S(r, "state", b); }
  else if(IS("cleartrace")) rc = rbusHandle_ClearTraceContext(h);
  else if(IS("cnew")) rc = conrc(rtConnection_Create(&con, n, "unix:///tmp/rtrouted"));
  else if(IS("cdel")) rc = conrc(rtConnection_Destroy(con));
  else if(IS("creq")) { conreq(c, r, "data"); rc = 0; }
  else if(IS("creqs")) { cJSON *a = cJSON_AddArrayToObject(r, "all"); ARR(c, "rs", e) { cJSON *o = cJSON_CreateObject(); conreq(e, o, "data"); cJSON_AddItemToArray(a, o); } rc = 0; }
  else if(IS("csend")) { const char *s = gs(c, "data"); int l; char *d = unhex(&s, &l); int i, m = gi(c, "x", 1); for(i = 0, rc = 0; i < m && rc == 0; i++) rc = conrc(rtConnection_SendBinary(con, (uint8_t*)d, l, n)); free(d); }
  else if(IS("cadd")) rc = conrc(rtConnection_AddListenerWithId(con, n, gi(c, "sid", 0), onCon, (void*)(intptr_t)gi(c, "tag", 0)));
  else if(IS("crm")) rc = conrc(rtConnection_RemoveListenerWithId(con, n, gi(c, "sid", 0)));
  else if(IS("cdef")) rc = conrc(rtConnection_AddDefaultListener(con, onCon, (void*)(intptr_t)gi(c, "tag", 0)));
  else if(IS("cslow")) { conSlow[gi(c, "tag", 0) & 255] = gi(c, "x", 0); rc = 0; }
  else if(IS("status")) rc = rbus_checkStatus();
  else if(IS("sleep")) { msleep(gi(c, "x", 0)); rc = 0; }
  else if(IS("pid")) rc = getpid();
  else rc = -99;
  N(r, "rc", rc);
  emit(r);
  cJSON_Delete(c);
}

/* ---- worker threads -------------------------------------------------------------------------- */
typedef struct job { cJSON *c; struct job *next; } job;
static struct { pthread_t t; pthread_mutex_t m; pthread_cond_t c; job *first, *last; int up; } w[16];
static void *work(void *a)
{
  int k = (int)(intptr_t)a; job *j;
  for(;;) {
    pthread_mutex_lock(&w[k].m);
    while(!w[k].first) pthread_cond_wait(&w[k].c, &w[k].m);
    j = w[k].first; w[k].first = j->next; if(!j->next) w[k].last = NULL;
    pthread_mutex_unlock(&w[k].m);
    run(j->c); free(j);
  }
  return NULL;
}
int main(void)
{
  char *line = NULL; size_t cap = 0;
  signal(SIGPIPE, SIG_IGN);
  rbus_setLogLevel(RBUS_LOG_FATAL);
  while(getline(&line, &cap, stdin) > 0) {
    cJSON *c = cJSON_Parse(line); int t;
    if(!c) continue;
    if(gs(c, "cmd") && !strcmp(gs(c, "cmd"), "quit")) { fflush(stdout); _exit(0); }
    t = gi(c, "t", 0);
    if(t <= 0 || t > 15) { run(c); continue; }
    if(!w[t].up) { pthread_mutex_init(&w[t].m, NULL); pthread_cond_init(&w[t].c, NULL); w[t].up = 1; pthread_create(&w[t].t, NULL, work, (void*)(intptr_t)t); }
    job *j = calloc(1, sizeof *j); j->c = c;
    pthread_mutex_lock(&w[t].m);
    if(w[t].last) w[t].last->next = j; else w[t].first = j;
    w[t].last = j; pthread_cond_signal(&w[t].c); pthread_mutex_unlock(&w[t].m);
  }
  _exit(0);
}
