/* Runs container and thread pool operations read from stdin, one per line, and reports what they did as JSON lines. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include "rtVector.h"
#include "rtList.h"
#include "rtHashMap.h"

typedef struct { int id; } Box;
static int dead[4096][2], ndead, live;
static Box* boxes[100000];
static void* box(int id) { if(!id) return NULL; if(!boxes[id]) { boxes[id] = malloc(sizeof(Box)); boxes[id]->id = id; } return boxes[id]; }
static int idof(const void* p) { return p ? ((const Box*)p)->id : 0; }
static void die(void* p) { if(!p) return; dead[ndead][0] = 0; dead[ndead++][1] = idof(p); boxes[idof(p)] = NULL; free(p); }
static int cmp(const void* item, const void* v) { return item && idof(item) % 4 == *(const int*)v ? 0 : 1; }

static int mlist(rtList l)
{
  rtListItem i, last = NULL; size_t n = 0; int guard = 0; void* d;
  printf("\"fwd\":[");
  rtList_GetFront(l, &i);
  while(i && guard++ < 10000) { rtListItem_GetData(i, &d); printf("%s%d", last ? "," : "", idof(d)); last = i; rtListItem_GetNext(i, &i); }
  rtList_GetBack(l, &i);
  printf("],\"ends\":%d,\"bwd\":[", i == last);
  last = NULL; guard = 0;
  while(i && guard++ < 10000) { rtListItem_GetData(i, &d); printf("%s%d", last ? "," : "", idof(d)); last = i; rtListItem_GetPrev(i, &i); }
  rtList_GetFront(l, &i);
  rtList_GetSize(l, &n);
  printf("],\"size\":%zu,\"front\":%d", n, i == last);
  return 0;
}
static rtListItem at(rtList l, int pos) { rtListItem i; rtList_GetFront(l, &i); while(pos-- > 1 && i) rtListItem_GetNext(i, &i); return i; }

/* map: keys and values are copied */
typedef struct { int id; } Copy;
static const void* copyval(const void* p) { if(!p) return NULL; Copy* c = malloc(sizeof(Copy)); c->id = idof(p); live++; return c; }
static void dieval(void* p) { if(!p) return; dead[ndead][0] = 2; dead[ndead++][1] = ((Copy*)p)->id; live--; free(p); }
static const void* copykey(const void* k) { live++; return strdup(k); }
static void diekey(void* k) { dead[ndead][0] = 1; dead[ndead++][1] = atoi((char*)k + 1); live--; memset(k, 'x', strlen(k)); free(k); }
static uint32_t bad(rtHashMap m, const void* k) { (void)m; return atoi((const char*)k + 1) % 3; }

int main(void)
{
  char op[32]; int a, b, c;
  rtList l = NULL; rtVector v = NULL; rtHashMap m = NULL; int mode = 0, keys = 0;
  alarm(4); /* a list that has become a ring */
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  while(scanf("%31s %d %d %d", op, &a, &b, &c) == 4)
  {
    int rc = 0, res = 0;
    size_t len = 0; if(l) rtList_GetSize(l, &len);
    int pos = !strcmp(op, "linsert") ? c : !strcmp(op, "lremove") || !strcmp(op, "lset") ? a : 0, skip = pos > (int)len;
    ndead = 0;
    printf("{\"skip\":%d,", skip);
    if(skip) {} else
    if(!strcmp(op, "lnew")) rc = rtList_Create(&l);
    else if(!strcmp(op, "lpush")) { rtListItem i; void* d = c ? rtListReuseData : box(b); rc = a ? rtList_PushBack(l, d, &i) : rtList_PushFront(l, d, &i); rtListItem_GetData(i, &d); res = idof(d); }
    else if(!strcmp(op, "linsert")) { rtListItem i; void* d = box(b); rc = a ? rtList_InsertAfter(l, d, at(l, c), &i) : rtList_InsertBefore(l, d, at(l, c), &i); rtListItem_GetData(i, &d); res = idof(d); }
    else if(!strcmp(op, "lremove")) rc = rtList_RemoveItem(l, at(l, a), b ? die : NULL);
    else if(!strcmp(op, "lremdata")) rc = rtList_RemoveItemWithData(l, box(a), b ? die : NULL);
    else if(!strcmp(op, "lremcmp")) rc = rtList_RemoveItemByCompare(l, &a, cmp, b ? die : NULL);
    else if(!strcmp(op, "lclear")) rc = rtList_RemoveAllItems(l, a ? die : NULL);
    else if(!strcmp(op, "lfind")) { void* d = rtList_Find(l, &a, cmp); res = idof(d); if(!!d != rtList_HasItem(l, &a, cmp)) res = -2; }
    else if(!strcmp(op, "lset")) rc = rtListItem_SetData(at(l, a), box(b));
    else if(!strcmp(op, "lsweep"))
    {
      rtListItem i; rtList_GetFront(l, &i);
      while(i && res <= 100000) { rtListItem cur = i; void* d; rtListItem_GetData(cur, &d); rtListItem_GetNext(i, &i); if(d && idof(d) % 4 == a) { res++; rtList_RemoveItem(l, cur, b ? die : NULL); } }
    }
    else if(!strcmp(op, "ldestroy")) { rc = rtList_Destroy(l, a ? die : NULL); l = NULL; }
    else if(!strcmp(op, "vnew")) rc = rtVector_Create(&v);
    else if(!strcmp(op, "vpush")) rc = rtVector_PushBack(v, box(a));
    else if(!strcmp(op, "vrm")) rc = rtVector_RemoveItem(v, box(a), b ? die : NULL);
    else if(!strcmp(op, "vrmcmp")) rc = rtVector_RemoveItemByCompare(v, &a, cmp, b ? die : NULL);
    else if(!strcmp(op, "vfind")) { void* d = rtVector_Find(v, &a, cmp); res = idof(d); if(!!d != rtVector_HasItem(v, &a, cmp)) res = -2; }
    else if(!strcmp(op, "vfindp")) { void* d = rtVector_Find(v, box(a), NULL); res = idof(d); if(!!d != rtVector_HasItem(v, box(a), NULL)) res = -2; }
    else if(!strcmp(op, "vdestroy")) { rc = rtVector_Destroy(v, a ? die : NULL); v = NULL; }
    else if(!strcmp(op, "mnew"))
    {
      mode = a; keys = c;
      if(a == 0) rtHashMap_Create(&m);
      else rtHashMap_CreateEx(&m, b / 100.0f, a == 2 ? bad : NULL, NULL, copykey, diekey, copyval, dieval);
    }
    else if(m)
    {
      char k[16]; snprintf(k, sizeof(k), "k%d", a);
      if(!strcmp(op, "mset")) rtHashMap_Set(m, k, box(b));
      else if(!strcmp(op, "mget")) { void* p = rtHashMap_Get(m, k); res = p ? mode ? ((Copy*)p)->id : idof(p) : 0; }
      else if(!strcmp(op, "mhas")) res = rtHashMap_Contains(m, k);
      else if(!strcmp(op, "mrm")) res = rtHashMap_Remove(m, k);
      else if(!strcmp(op, "mdestroy")) { rtHashMap_Destroy(m); m = NULL; }
    }
    printf("\"rc\":%d,\"res\":%d,\"dead\":[", rc != 0, res);
    for(int i = 0; i < ndead; i++) printf("%s[%d,%d]", i ? "," : "", dead[i][0], dead[i][1]);
    printf("]");
    if(op[0] == 'l' && l) { printf(","); mlist(l); }
    if(op[0] == 'v' && v)
    {
      size_t n = rtVector_Size(v);
      printf(",\"size\":%zu,\"all\":[", n);
      for(size_t i = 0; i < n && i < 10000; i++) printf("%s%d", i ? "," : "", idof(rtVector_At(v, i)));
      printf("],\"beyond\":%d", idof(rtVector_At(v, n)) + idof(rtVector_At(v, n + 1)));
    }
    if(op[0] == 'm' && m)
    {
      printf(",\"size\":%zu,\"live\":%d,\"map\":[", rtHashMap_GetSize(m), live);
      int first = 1;
      for(int i = 0; i < keys; i++)
      {
        char k[16]; snprintf(k, sizeof(k), "k%d", i);
        if(rtHashMap_Contains(m, k)) { void* p = rtHashMap_Get(m, k); printf("%s[%d,%d]", first ? "" : ",", i, p ? mode ? ((Copy*)p)->id : idof(p) : 0); first = 0; }
      }
      printf("]");
    }
    printf("}\n"); fflush(stdout);
  }
  return 0;
}
