/* GLib and libc functions which the library doesn't use today but may use
 * tomorrow: lists, GString, more strings, arrays, tables, locks. Those who
 * encode a changed library need them; otherwise they are dropped. */
#define _GNU_SOURCE
#include "vf.h"
#include <stdarg.h>
#include <stdlib.h>
#include <errno.h>

/* Singly and doubly linked lists */
#undef g_slist_free_full
GSList* g_slist_alloc(void) { return g_malloc0(sizeof(GSList)); }
GList* g_list_alloc(void) { return g_malloc0(sizeof(GList)); }
void g_slist_free_1(GSList* l) { g_free(l); }
void g_list_free_1(GList* l) { g_free(l); }
static GSList* vf_sl(gpointer data, GSList* next)
{
    GSList* l = VF_NEW(GSList);
    l->data = data;
    l->next = next;
    return l;
}
GSList* g_slist_prepend(GSList* l, gpointer data) { return vf_sl(data, l); }
GSList* g_slist_last(GSList* l) { if (l) while (l->next) l = l->next; return l; }
GSList* g_slist_append(GSList* l, gpointer data)
{
    GSList* e = vf_sl(data, NULL);
    if (!l) return e;
    g_slist_last(l)->next = e;
    return l;
}
GSList* g_slist_insert(GSList* l, gpointer data, gint pos)
{
    GSList* p = l;
    if (pos < 0) return g_slist_append(l, data);
    if (!pos || !l) return g_slist_prepend(l, data);
    while (--pos && p->next) p = p->next;
    p->next = vf_sl(data, p->next);
    return l;
}
GSList* g_slist_concat(GSList* a, GSList* b)
{
    if (!a) return b;
    g_slist_last(a)->next = b;
    return a;
}
GSList* g_slist_reverse(GSList* l)
{
    GSList* r = NULL;
    while (l) { GSList* n = l->next; l->next = r; r = l; l = n; }
    return r;
}
guint g_slist_length(GSList* l) { guint n = 0; for (; l; l = l->next) n++; return n; }
GSList* g_slist_nth(GSList* l, guint n) { for (; l && n; n--) l = l->next; return l; }
gpointer g_slist_nth_data(GSList* l, guint n) { l = g_slist_nth(l, n); return l ? l->data : NULL; }
GSList* g_slist_find(GSList* l, gconstpointer data) { for (; l && l->data != data;) l = l->next; return l; }
GSList* g_slist_find_custom(GSList* l, gconstpointer data, GCompareFunc fn) { for (; l && fn(l->data, data);) l = l->next; return l; }
gint g_slist_index(GSList* l, gconstpointer data)
{
    gint i = 0;
    for (; l; l = l->next, i++) if (l->data == data) return i;
    return -1;
}
GSList* g_slist_remove_link(GSList* l, GSList* link)
{
    GSList* p;
    if (l == link) {
        if (l) { p = l->next; l->next = NULL; return p; }
        return NULL;
    }
    for (p = l; p; p = p->next) if (p->next == link) { p->next = link->next; link->next = NULL; break; }
    return l;
}
GSList* g_slist_delete_link(GSList* l, GSList* link)
{
    l = g_slist_remove_link(l, link);
    g_free(link);
    return l;
}
GSList* g_slist_remove(GSList* l, gconstpointer data)
{
    GSList* e = g_slist_find(l, data);
    return e ? g_slist_delete_link(l, e) : l;
}
GSList* g_slist_remove_all(GSList* l, gconstpointer data)
{
    GSList* e;
    while ((e = g_slist_find(l, data)) != NULL) l = g_slist_delete_link(l, e);
    return l;
}
void g_slist_foreach(GSList* l, GFunc fn, gpointer data) { while (l) { GSList* n = l->next; fn(l->data, data); l = n; } }
void g_slist_free(GSList* l) { while (l) { GSList* n = l->next; g_free(l); l = n; } }
void g_slist_free_full(GSList* l, GDestroyNotify fn)
{
    GSList* p;
    for (p = l; p; p = p->next) fn(p->data);
    g_slist_free(l);
}
GSList* g_slist_copy(GSList* l)
{
    GSList* r = NULL;
    for (; l; l = l->next) r = g_slist_prepend(r, l->data);
    return g_slist_reverse(r);
}

static GList* vf_l(gpointer data, GList* prev, GList* next)
{
    GList* l = VF_NEW(GList);
    l->data = data;
    l->prev = prev;
    l->next = next;
    if (prev) prev->next = l;
    if (next) next->prev = l;
    return l;
}
GList* g_list_prepend(GList* l, gpointer data) { return vf_l(data, l ? l->prev : NULL, l); }
GList* g_list_last(GList* l) { if (l) while (l->next) l = l->next; return l; }
GList* g_list_first(GList* l) { if (l) while (l->prev) l = l->prev; return l; }
GList* g_list_append(GList* l, gpointer data)
{
    GList* e = vf_l(data, g_list_last(l), NULL);
    return l ? l : e;
}
GList* g_list_insert(GList* l, gpointer data, gint pos)
{
    GList* p = l;
    if (pos < 0) return g_list_append(l, data);
    if (!pos || !l) return g_list_prepend(l, data);
    while (--pos && p->next) p = p->next;
    vf_l(data, p, p->next);
    return l;
}
GList* g_list_insert_before(GList* l, GList* sib, gpointer data)
{
    if (!sib) return g_list_append(l, data);
    sib = vf_l(data, sib->prev, sib);
    return sib->prev ? l : sib;
}
GList* g_list_concat(GList* a, GList* b)
{
    GList* e = g_list_last(a);
    if (!a) return b;
    e->next = b;
    if (b) b->prev = e;
    return a;
}
GList* g_list_reverse(GList* l)
{
    GList* r = NULL;
    while (l) { r = l; l = r->next; r->next = r->prev; r->prev = l; }
    return r;
}
guint g_list_length(GList* l) { guint n = 0; for (; l; l = l->next) n++; return n; }
GList* g_list_nth(GList* l, guint n) { for (; l && n; n--) l = l->next; return l; }
gpointer g_list_nth_data(GList* l, guint n) { l = g_list_nth(l, n); return l ? l->data : NULL; }
GList* g_list_find(GList* l, gconstpointer data) { for (; l && l->data != data;) l = l->next; return l; }
GList* g_list_find_custom(GList* l, gconstpointer data, GCompareFunc fn) { for (; l && fn(l->data, data);) l = l->next; return l; }
gint g_list_index(GList* l, gconstpointer data)
{
    gint i = 0;
    for (; l; l = l->next, i++) if (l->data == data) return i;
    return -1;
}
GList* g_list_remove_link(GList* l, GList* link)
{
    if (!link) return l;
    if (link->prev) link->prev->next = link->next;
    if (link->next) link->next->prev = link->prev;
    if (l == link) l = link->next;
    link->next = link->prev = NULL;
    return l;
}
GList* g_list_delete_link(GList* l, GList* link)
{
    l = g_list_remove_link(l, link);
    g_free(link);
    return l;
}
GList* g_list_remove(GList* l, gconstpointer data)
{
    GList* e = g_list_find(l, data);
    return e ? g_list_delete_link(l, e) : l;
}
GList* g_list_remove_all(GList* l, gconstpointer data)
{
    GList* e;
    while ((e = g_list_find(l, data)) != NULL) l = g_list_delete_link(l, e);
    return l;
}
void g_list_foreach(GList* l, GFunc fn, gpointer data) { while (l) { GList* n = l->next; fn(l->data, data); l = n; } }
void g_list_free(GList* l) { while (l) { GList* n = l->next; g_free(l); l = n; } }
void g_list_free_full(GList* l, GDestroyNotify fn)
{
    GList* p;
    for (p = l; p; p = p->next) fn(p->data);
    g_list_free(l);
}
GList* g_list_copy(GList* l)
{
    GList* r = NULL;
    for (; l; l = l->next) r = g_list_append(r, l->data);
    return r;
}

/* Double ended queues of GLib */
void g_queue_init(GQueue* q) { q->head = q->tail = NULL; q->length = 0; }
GQueue* g_queue_new(void) { return VF_NEW(GQueue); }
void g_queue_clear(GQueue* q) { g_list_free(q->head); g_queue_init(q); }
void g_queue_free(GQueue* q) { g_list_free(q->head); g_free(q); }
gboolean g_queue_is_empty(GQueue* q) { return !q->head; }
guint g_queue_get_length(GQueue* q) { return q->length; }
void g_queue_push_tail(GQueue* q, gpointer data)
{
    q->tail = vf_l(data, q->tail, NULL);
    if (!q->head) q->head = q->tail;
    q->length++;
}
void g_queue_push_head(GQueue* q, gpointer data)
{
    q->head = vf_l(data, NULL, q->head);
    if (!q->tail) q->tail = q->head;
    q->length++;
}
void g_queue_unlink(GQueue* q, GList* l)
{
    if (l == q->tail) q->tail = l->prev;
    q->head = g_list_remove_link(q->head, l);
    q->length--;
}
void g_queue_delete_link(GQueue* q, GList* l) { g_queue_unlink(q, l); g_free(l); }
gpointer g_queue_pop_head(GQueue* q)
{
    if (q->head) {
        const gpointer data = q->head->data;
        g_queue_delete_link(q, q->head);
        return data;
    }
    return NULL;
}
gpointer g_queue_pop_tail(GQueue* q)
{
    if (q->tail) {
        const gpointer data = q->tail->data;
        g_queue_delete_link(q, q->tail);
        return data;
    }
    return NULL;
}
gpointer g_queue_peek_head(GQueue* q) { return q->head ? q->head->data : NULL; }
gpointer g_queue_peek_tail(GQueue* q) { return q->tail ? q->tail->data : NULL; }
GList* g_queue_find(GQueue* q, gconstpointer data) { return g_list_find(q->head, data); }
gboolean g_queue_remove(GQueue* q, gconstpointer data)
{
    GList* l = g_list_find(q->head, data);
    if (l) g_queue_delete_link(q, l);
    return l != NULL;
}

gsize vf_render(char* buf, gsize size, const char* f, va_list va);
/* Growing strings. Blocks have a size which fits what is tested. */
#undef g_string_append_c
#undef g_string_append
#undef g_string_append_len
#undef g_string_free
#undef g_string_truncate
#define STRCAP 64
static void vf_gs_grow(GString* s, gsize extra)
{
    if (s->len + extra >= s->allocated_len) {
        gsize i, cap = s->allocated_len ? s->allocated_len : STRCAP;
        while (cap <= s->len + extra) cap <<= 1;
        gchar* p = g_malloc(cap);
        for (i = 0; s->str && i <= s->len; i++) p[i] = s->str[i];
        g_free(s->str);
        s->str = p;
        s->allocated_len = cap;
    }
}
GString* g_string_sized_new(gsize n)
{
    GString* s = VF_NEW(GString);
    vf_gs_grow(s, n);
    s->str[0] = 0;
    return s;
}
GString* g_string_insert_len(GString* s, gssize pos, const gchar* p, gssize len)
{
    const gsize n = len < 0 ? strlen(p) : (gsize) len;
    const gsize at = pos < 0 ? s->len : (gsize) pos;
    gsize i;
    __CPROVER_assert(at <= s->len, "GLib critical warning: position");
    vf_gs_grow(s, n);
    for (i = s->len; i > at; i--) s->str[i - 1 + n] = s->str[i - 1];
    for (i = 0; i < n; i++) s->str[at + i] = p[i];
    s->len += n;
    s->str[s->len] = 0;
    return s;
}
GString* g_string_new(const gchar* p)
{
    GString* s = g_string_sized_new(0);
    return p ? g_string_insert_len(s, -1, p, -1) : s;
}
GString* g_string_new_len(const gchar* p, gssize len) { return g_string_insert_len(g_string_sized_new(0), -1, p, len); }
GString* g_string_append_len(GString* s, const gchar* p, gssize len) { return g_string_insert_len(s, -1, p, len); }
GString* g_string_append(GString* s, const gchar* p) { return g_string_insert_len(s, -1, p, -1); }
GString* g_string_insert(GString* s, gssize pos, const gchar* p) { return g_string_insert_len(s, pos, p, -1); }
GString* g_string_prepend(GString* s, const gchar* p) { return g_string_insert_len(s, 0, p, -1); }
GString* g_string_insert_c(GString* s, gssize pos, gchar c) { return g_string_insert_len(s, pos, &c, 1); }
GString* g_string_append_c(GString* s, gchar c) { return g_string_insert_len(s, -1, &c, 1); }
GString* g_string_prepend_c(GString* s, gchar c) { return g_string_insert_len(s, 0, &c, 1); }
GString* g_string_truncate(GString* s, gsize n)
{
    if (n < s->len) s->len = n;
    s->str[s->len] = 0;
    return s;
}
GString* g_string_set_size(GString* s, gsize n)
{
    if (n > s->len) vf_gs_grow(s, n - s->len);
    s->len = n;
    s->str[n] = 0;
    return s;
}
GString* g_string_erase(GString* s, gssize pos, gssize len)
{
    const gsize n = len < 0 ? s->len - pos : (gsize) len;
    gsize i;
    for (i = pos; i + n < s->len; i++) s->str[i] = s->str[i + n];
    s->len -= n;
    s->str[s->len] = 0;
    return s;
}
GString* g_string_assign(GString* s, const gchar* p) { return g_string_append(g_string_truncate(s, 0), p); }
void g_string_append_vprintf(GString* s, const gchar* f, va_list va)
{
    static char scratch[256];
    g_string_append_len(s, scratch, vf_render(scratch, sizeof(scratch), f, va));
}
void g_string_append_printf(GString* s, const gchar* f, ...)
{
    va_list va;
    va_start(va, f);
    g_string_append_vprintf(s, f, va);
    va_end(va);
}
void g_string_printf(GString* s, const gchar* f, ...)
{
    va_list va;
    g_string_truncate(s, 0);
    va_start(va, f);
    g_string_append_vprintf(s, f, va);
    va_end(va);
}
gchar* (g_string_free)(GString* s, gboolean all)
{
    gchar* p = s->str;
    if (all) { g_free(p); p = NULL; }
    g_free(s);
    return p;
}
gchar* g_string_free_and_steal(GString* s) { return (g_string_free)(s, FALSE); }

/* More strings */
#undef strcat
#undef strncat
#undef strstr
#undef strspn
#undef strcspn
#undef strpbrk
#undef stpcpy
#undef stpncpy
#undef mempcpy
char* strcat(char* d, const char* s)
{
    gsize n = strlen(d), i = 0;
    do { d[n + i] = s[i]; } while (s[i++]);
    return d;
}
char* strncat(char* d, const char* s, size_t max)
{
    gsize n = strlen(d), i;
    for (i = 0; i < max && s[i]; i++) d[n + i] = s[i];
    d[n + i] = 0;
    return d;
}
char* strstr(const char* s, const char* w)
{
    for (;; s++) {
        gsize i = 0;
        while (w[i] && s[i] == w[i]) i++;
        if (!w[i]) return (char*)s;
        if (!*s) return NULL;
    }
}
static gboolean vf_among(char c, const char* set)
{
    for (; *set; set++) if (*set == c) return TRUE;
    return FALSE;
}
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && vf_among(s[n], set)) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !vf_among(s[n], set)) n++; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : NULL; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char* stpcpy(char* d, const char* s)
{
    size_t i = 0;
    while ((d[i] = s[i]) != 0) i++;
    return d + i;
}
gchar* g_stpcpy(gchar* d, const gchar* s) { return stpcpy(d, s); }
void* mempcpy(void* d, const void* s, size_t n) { return (guint8*)memcpy(d, s, n) + n; }
void* memrchr(const void* p, int c, size_t n)
{
    const guint8* b = p;
    while (n--) if (b[n] == (guint8)c) return (void*)(b + n);
    return NULL;
}
void bzero(void* p, size_t n) { memset(p, 0, n); }
void explicit_bzero(void* p, size_t n) { memset(p, 0, n); }
gsize g_strlcpy(gchar* d, const gchar* s, gsize size)
{
    gsize i = 0;
    if (size) {
        for (; i + 1 < size && s[i]; i++) d[i] = s[i];
        d[i] = 0;
    }
    while (s[i]) i++;
    return i;
}
gsize g_strlcat(gchar* d, const gchar* s, gsize size)
{
    gsize n = 0, i;
    while (n < size && d[n]) n++;
    if (n == size) return n + strlen(s);
    for (i = 0; s[i]; i++) if (n + i + 1 < size) d[n + i] = s[i];
    d[n + i < size ? n + i : size - 1] = 0;
    return n + i;
}
gchar* g_strstr_len(const gchar* s, gssize len, const gchar* w)
{
    if (len < 0) return strstr(s, w);
    for (;; s++, len--) {
        gssize i = 0;
        while (w[i] && i < len && s[i] && s[i] == w[i]) i++;
        if (!w[i]) return (gchar*)s;
        if (!len || !*s) return NULL;
    }
}
gchar* g_strrstr(const gchar* s, const gchar* w)
{
    gchar* r = NULL;
    while ((s = strstr(s, w)) != NULL) { r = (gchar*)s; if (!*s++) break; }
    return r;
}
gchar* g_strdelimit(gchar* s, const gchar* set, gchar c)
{
    gsize i;
    for (i = 0; s[i]; i++) if (vf_among(s[i], set ? set : "_-|> <.")) s[i] = c;
    return s;
}
gchar* g_ascii_strdown(const gchar* s, gssize len)
{
    gchar* r = len < 0 ? g_strdup(s) : g_strndup(s, len);
    gsize i;
    for (i = 0; r[i]; i++) r[i] = g_ascii_tolower(r[i]);
    return r;
}
gchar* g_ascii_strup(const gchar* s, gssize len)
{
    gchar* r = len < 0 ? g_strdup(s) : g_strndup(s, len);
    gsize i;
    for (i = 0; r[i]; i++) r[i] = g_ascii_toupper(r[i]);
    return r;
}
gchar* g_strreverse(gchar* s)
{
    gsize i = 0, n = strlen(s);
    for (; i + 1 < n; i++) { const gchar c = s[i]; s[i] = s[--n]; s[n] = c; }
    return s;
}
gchar* g_strconcat(const gchar* first, ...)
{
    GString* s;
    const gchar* p;
    va_list va;
    if (!first) return NULL;
    s = g_string_new(first);
    va_start(va, first);
    while ((p = va_arg(va, const gchar*)) != NULL) g_string_append(s, p);
    va_end(va);
    return (g_string_free)(s, FALSE);
}
gchar* g_strjoinv(const gchar* sep, gchar** v)
{
    GString* s = g_string_new(NULL);
    guint i;
    for (i = 0; v[i]; i++) {
        if (i && sep) g_string_append(s, sep);
        g_string_append(s, v[i]);
    }
    return (g_string_free)(s, FALSE);
}
guint g_str_hash(gconstpointer p)
{
    const signed char* s = p;
    guint32 h = 5381;
    for (; *s; s++) h = (h << 5) + h + *s;
    return h;
}
guint g_int_hash(gconstpointer p) { return *(const gint*)p; }
gboolean g_int_equal(gconstpointer a, gconstpointer b) { return *(const gint*)a == *(const gint*)b; }

/* C library numbers are those of GLib in the C locale; the base is constant */
long long strtoll(const char* s, char** end, int base) { return g_ascii_strtoll(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) { return g_ascii_strtoull(s, end, base); }
long strtol(const char* s, char** end, int base) { return g_ascii_strtoll(s, end, base); }
unsigned long strtoul(const char* s, char** end, int base) { return g_ascii_strtoull(s, end, base); }
int atoi(const char* s) { return (int) g_ascii_strtoll(s, NULL, 10); }
long atol(const char* s) { return g_ascii_strtoll(s, NULL, 10); }
int abs(int x) { return x < 0 ? (int) - (unsigned) x : x; }
long labs(long x) { return x < 0 ? (long) - (unsigned long) x : x; }
long long llabs(long long x) { return x < 0 ? (long long) - (unsigned long long) x : x; }

/* Locks. There is one thread, unless executions are concurrent. */
#ifdef VF_CONC
#define LOCK(v) do { __CPROVER_atomic_begin(); __CPROVER_assume(!(v)); (v) = 1; __CPROVER_atomic_end(); } while (0)
#define UNLOCK(v) do { __CPROVER_atomic_begin(); (v) = 0; __CPROVER_atomic_end(); } while (0)
#else
#define LOCK(v) do { __CPROVER_assert(!(v), "deadlock: the lock is taken"); (v) = 1; } while (0)
#define UNLOCK(v) do { __CPROVER_assert((v), "lock is taken"); (v) = 0; } while (0)
#endif
#undef g_mutex_lock
#undef g_mutex_unlock
void g_mutex_init(GMutex* m) { *(guint*)m = 0; }
void g_mutex_clear(GMutex* m) { }
void g_mutex_lock(GMutex* m) { LOCK(*(guint*)m); }
void g_mutex_unlock(GMutex* m) { UNLOCK(*(guint*)m); }
gboolean g_mutex_trylock(GMutex* m)
{
    gboolean ok;
    __CPROVER_atomic_begin();
    ok = !*(guint*)m;
    *(guint*)m = 1;
    __CPROVER_atomic_end();
    return ok;
}
void g_bit_lock(volatile gint* p, gint bit) { LOCK(*p); }
void g_bit_unlock(volatile gint* p, gint bit) { UNLOCK(*p); }
#ifndef VF_CONC
void g_rec_mutex_init(GRecMutex* m) { m->i[0] = 0; }
void g_rec_mutex_clear(GRecMutex* m) { }
void g_rec_mutex_lock(GRecMutex* m) { m->i[0]++; }
void g_rec_mutex_unlock(GRecMutex* m) { __CPROVER_assert(m->i[0], "lock is taken"); m->i[0]--; }
#endif

/* Sorting with data */
typedef struct { GCompareDataFunc fn; gpointer data; } VfSort;
static void vf_sort(void* base, gsize n, gsize size, GCompareDataFunc fn, gpointer data)
{
    guint8* p = base;
    gsize i, k, b;
    for (i = 1; i < n; i++) {
        for (k = i; k > 0 && fn(p + (k - 1) * size, p + k * size, data) > 0; k--) {
            if (size == 8) {
                void** x = (void**)(p + (k - 1) * size);
                void* t = x[0]; x[0] = x[1]; x[1] = t;
            } else if (size == 4) {
                int* x = (int*)(p + (k - 1) * size);
                int t = x[0]; x[0] = x[1]; x[1] = t;
            } else {
                for (b = 0; b < size; b++) {
                    guint8 t = p[(k - 1) * size + b];
                    p[(k - 1) * size + b] = p[k * size + b];
                    p[k * size + b] = t;
                }
            }
        }
    }
}
void g_qsort_with_data(gconstpointer base, gint n, gsize size, GCompareDataFunc fn, gpointer data) { vf_sort((void*)base, n, size, fn, data); }
void g_sort_array(const void* base, size_t n, size_t size, GCompareDataFunc fn, void* data) { vf_sort((void*)base, n, size, fn, data); }
void qsort_r(void* base, size_t n, size_t size, int (*fn)(const void*, const void*, void*), void* data) { vf_sort(base, n, size, fn, data); }

/* The rest of GArray */
#undef g_array_free
gpointer g_array_steal(GArray* a, gsize* len)
{
    gpointer p = a->data;
    if (len) *len = a->len;
    g_array_set_size(a, 0);
    ((struct { guint8* data; guint len; guint cap; }*)a)->data = NULL;
    ((struct { guint8* data; guint len; guint cap; }*)a)->cap = 0;
    return p;
}
GArray* g_array_copy(GArray* a)
{
    const guint size = g_array_get_element_size(a);
    GArray* c = g_array_sized_new(FALSE, FALSE, size, a->len);
    return a->len ? g_array_append_vals(c, a->data, a->len) : c;
}
void g_array_sort_with_data(GArray* a, GCompareDataFunc fn, gpointer data) { vf_sort(a->data, a->len, g_array_get_element_size(a), fn, data); }
gboolean g_array_binary_search(GArray* a, gconstpointer key, GCompareFunc fn, guint* out)
{
    const guint size = g_array_get_element_size(a);
    guint lo = 0, hi = a->len;
    while (lo < hi) {
        const guint mid = lo + (hi - lo) / 2;
        const gint c = fn(a->data + (gsize)mid * size, key);
        if (!c) { if (out) *out = mid; return TRUE; }
        if (c < 0) lo = mid + 1; else hi = mid;
    }
    return FALSE;
}

/* Byte arrays */
#undef g_byte_array_free
GByteArray* g_byte_array_new(void) { return (GByteArray*) g_array_sized_new(FALSE, FALSE, 1, 0); }
GByteArray* g_byte_array_sized_new(guint n) { return (GByteArray*) g_array_sized_new(FALSE, FALSE, 1, n); }
GByteArray* g_byte_array_append(GByteArray* a, const guint8* p, guint n) { return (GByteArray*) g_array_append_vals((GArray*)a, p, n); }
GByteArray* g_byte_array_prepend(GByteArray* a, const guint8* p, guint n) { return (GByteArray*) g_array_prepend_vals((GArray*)a, p, n); }
GByteArray* g_byte_array_set_size(GByteArray* a, guint n) { return (GByteArray*) g_array_set_size((GArray*)a, n); }
GByteArray* g_byte_array_ref(GByteArray* a) { return (GByteArray*) g_array_ref((GArray*)a); }
void g_byte_array_unref(GByteArray* a) { g_array_unref((GArray*)a); }
guint8* g_byte_array_free(GByteArray* a, gboolean all) { return (guint8*) g_array_free((GArray*)a, all); }
guint8* g_byte_array_steal(GByteArray* a, gsize* n) { return g_array_steal((GArray*)a, n); }
GBytes* g_byte_array_free_to_bytes(GByteArray* a)
{
    const gsize n = a->len;
    return g_bytes_new_take(g_byte_array_free(a, FALSE), n);
}

/* The rest of GBytes */
gint g_bytes_compare(gconstpointer a, gconstpointer b)
{
    gsize n, m;
    const guint8* p = g_bytes_get_data((GBytes*)a, &n);
    const guint8* q = g_bytes_get_data((GBytes*)b, &m);
    const gint c = memcmp(p, q, MIN(n, m));
    return c ? c : n < m ? -1 : n > m;
}
guint g_bytes_hash(gconstpointer a)
{
    gsize n, i;
    const signed char* p = g_bytes_get_data((GBytes*)a, &n);
    guint32 h = 5381;
    for (i = 0; i < n; i++) h = (h << 5) + h + p[i];
    return h;
}

/* The rest of pointer arrays */
typedef struct { gpointer* pdata; guint len; int refs; GDestroyNotify fn; } VfPA;
GPtrArray* g_ptr_array_sized_new(guint n) { return g_ptr_array_new(); }
GPtrArray* g_ptr_array_new_full(guint n, GDestroyNotify fn) { return g_ptr_array_new_with_free_func(fn); }
void g_ptr_array_set_free_func(GPtrArray* a, GDestroyNotify fn) { ((VfPA*)a)->fn = fn; }
gpointer g_ptr_array_steal_index(GPtrArray* a, guint i)
{
    const gpointer p = a->pdata[i];
    __CPROVER_assert(i < a->len, "GLib critical warning: index");
    for (; i + 1 < a->len; i++) a->pdata[i] = a->pdata[i + 1];
    a->len--;
    a->pdata[a->len] = NULL;
    return p;
}
gpointer g_ptr_array_remove_index(GPtrArray* a, guint i)
{
    const gpointer p = g_ptr_array_steal_index(a, i);
    if (((VfPA*)a)->fn) ((VfPA*)a)->fn(p);
    return p;
}
gboolean g_ptr_array_find(GPtrArray* a, gconstpointer p, guint* out)
{
    guint i;
    for (i = 0; i < a->len; i++) if (a->pdata[i] == p) { if (out) *out = i; return TRUE; }
    return FALSE;
}
gboolean g_ptr_array_remove(GPtrArray* a, gpointer p)
{
    guint i;
    if (g_ptr_array_find(a, p, &i)) { g_ptr_array_remove_index(a, i); return TRUE; }
    return FALSE;
}
void g_ptr_array_foreach(GPtrArray* a, GFunc fn, gpointer data)
{
    guint i;
    for (i = 0; i < a->len; i++) fn(a->pdata[i], data);
}
gpointer* g_ptr_array_steal(GPtrArray* a, gsize* n)
{
    gpointer* p = a->pdata;
    if (n) *n = a->len;
    a->pdata = NULL;
    a->len = 0;
    return p;
}
void g_ptr_array_set_size(GPtrArray* a, gint n)
{
    while (a->len > (guint) n) {
        const gpointer p = a->pdata[--a->len];
        if (((VfPA*)a)->fn) ((VfPA*)a)->fn(p);
    }
    while (a->len < (guint) n) g_ptr_array_add(a, NULL);
}

/* Main loop */
GMainContext* g_main_context_ref_thread_default(void)
{
    GMainContext* c = g_main_context_get_thread_default();
    return g_main_context_ref(c ? c : g_main_context_default());
}
void g_source_set_name(GSource* s, const gchar* name) { }
void g_source_set_static_name(GSource* s, const gchar* name) { }
#undef g_clear_handle_id
void g_clear_handle_id(guint* id, GClearHandleFunc fn)
{
    const guint v = *id;
    if (v) { *id = 0; fn(v); }
}
#undef g_clear_signal_handler
void g_clear_signal_handler(gulong* id, gpointer obj)
{
    const gulong v = *id;
    if (v) { *id = 0; g_signal_handler_disconnect(obj, v); }
}
