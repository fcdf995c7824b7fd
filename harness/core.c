// Executes operation scripts against the C core library. One operation per
// line on stdin, one observation per line on stdout. "case N" resets all.
#include "core/array.h"
#include "core/format.h"
#include "core/hmap.h"
#include "core/htable.h"
#include "core/mempool.h"
#include "core/strpool.h"
#include "core/sb.h"
#include "core/utils.h"
#include <assert.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// the only thing format.c needs from the rest of the compiler
__attribute__((weak)) void printType_() {}

static size_t ES;
static u64 HM, HS; // hash = (key * HS) & HM
static HashTable T;
static bool haveT;
static Hmap M;
static bool haveM;

static size_t klen(void) { return ES == 1 ? 1 : ES == 2 ? 1 : ES == 4 ? 2 : ES == 8 ? 4 : 8; }
static void mk(u8 *e, u64 k, u64 v)
{
    memset(e, 0xA5, ES);
    memcpy(e, &k, klen());
    if (ES > klen())
        memcpy(e + klen(), &v, klen());
    for (size_t i = 2 * klen(); i < ES; i++)
        e[i] = (u8)(k + i);
}
static u64 key(const void *e)
{
    u64 k = 0;
    memcpy(&k, e, klen());
    return k;
}
static u64 val(const void *e)
{
    u64 k = 0;
    if (ES > klen())
        memcpy(&k, (const u8 *)e + klen(), klen());
    for (size_t i = 2 * klen(); i < ES; i++)
        if (((const u8 *)e)[i] != (u8)(key(e) + i)) {
            printf("CORRUPT ");
            break;
        }
    return k;
}
static HashCode hashK(u64 k) { return HS ? (HashCode)((k * HS) & HM) : hashUint64(hashInit(), k); }
static bool eq(const void *a, const void *b) { return key(a) == key(b); }
static HashCode hm(const void *e) { return hashK(key(e)); }

static int cmpu(const void *a, const void *b)
{
    u64 x = *(u64 *)a, y = *(u64 *)b;
    return x < y ? -1 : x > y;
}
typedef struct { u64 *kv; size_t n; long left; } Acc;
static bool acc(void *ctx, const void *e)
{
    Acc *a = ctx;
    a->kv = realloc(a->kv, (a->n + 1) * 16);
    a->kv[2 * a->n] = key(e);
    a->kv[2 * a->n + 1] = val(e);
    a->n++;
    return --a->left != 0;
}
static void show(Acc *a)
{
    if (a->n)
        qsort(a->kv, a->n, 16, cmpu);
    printf("%zu:", a->n);
    for (size_t i = 0; i < a->n; i++)
        printf(" %" PRIu64 "=%" PRIu64, a->kv[2 * i], a->kv[2 * i + 1]);
    printf("\n");
    free(a->kv);
}

// ---- memory pool
typedef struct { u8 *p; size_t n; int tag; int live; int cls; } Blk;
static Blk B[4096];
static int nB;
static MemPool P;
static bool haveP;
static void fill(Blk *b)
{
    for (size_t i = 0; i < b->n; i++)
        b->p[i] = (u8)(b->tag * 31 + i * 7 + 3);
}
static bool intact(const Blk *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        if (b->p[i] != (u8)(b->tag * 31 + i * 7 + 3))
            return false;
    return true;
}
static void checkAll(void)
{
    for (int i = 0; i < nB; i++)
        if (B[i].live && !intact(&B[i], B[i].n))
            printf("CORRUPT %d ", i);
}

// ---- arrays
static DynArray A[8];
static bool haveA[8];

// ---- strings
static StrPool S;
static MemPool SP;
static bool haveS;
static const char *ptrs[65536];
static int nptr;
static int idOf(const char *s)
{
    for (int i = 0; i < nptr; i++)
        if (ptrs[i] == s)
            return i;
    ptrs[nptr] = s;
    return nptr++;
}
static FormatState F;
static bool haveF;
static StringBuilder *SB;

static void reset(void)
{
    if (haveT)
        freeHashTable(&T);
    if (haveM)
        hmapDestroy(&M);
    if (haveP)
        freeMemPool(&P);
    for (int i = 0; i < 8; i++)
        if (haveA[i])
            freeDynArray(&A[i]), haveA[i] = false;
    if (haveS)
        freeStrPool(&S), freeMemPool(&SP);
    if (haveF)
        freeFormatState(&F);
    if (SB)
        stringBuilderDelete(SB);
    SB = NULL;
    haveT = haveM = haveP = haveS = haveF = false;
    nB = nptr = 0;
}

static size_t unhex(const char *h, char *out)
{
    size_t n = 0;
    for (; h[0] && h[1] && h[0] != '\n' && h[0] != '.'; h += 2) {
        unsigned v;
        sscanf(h, "%2x", &v);
        out[n++] = (char)v;
    }
    out[n] = 0;
    return n;
}

static char line[1 << 20], a1[1 << 19], buf1[1 << 18], buf2[1 << 18], buf3[1 << 18];

static void hexout(const char *s, size_t n)
{
    for (size_t i = 0; i < n; i++)
        printf("%02x", (u8)s[i]);
    printf("\n");
}

int main(void)
{
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char op[32];
        u64 x = 0, y = 0, z = 0;
        int n = sscanf(line, "%31s %" SCNu64 " %" SCNu64 " %" SCNu64, op, &x, &y, &z);
        if (n < 1)
            continue;
        u8 e[64], f[64];
        if (!strcmp(op, "case")) {
            reset();
            printf("@@case %" PRIu64 "\n", x);
            fflush(stdout);
        }
        else if (!strcmp(op, "cfg"))
            ES = x, HS = y, HM = z;
        // hash table
        else if (!strcmp(op, "Tnew")) {
            if (haveT)
                freeHashTable(&T);
            T = x ? newHashTableWithCapacity(ES, x) : newHashTable(ES);
            haveT = true;
        }
        else if (!strcmp(op, "Tput")) {
            mk(e, x, y);
            printf("%d %zu\n", insertInHashTable(&T, e, hashK(x), ES, eq), T.size);
        }
        else if (!strcmp(op, "Tget")) {
            mk(e, x, 0);
            void *r = findInHashTable(&T, e, hashK(x), ES, eq);
            if (r)
                printf("%" PRIu64 "=%" PRIu64 "\n", key(r), val(r));
            else
                printf("none\n");
        }
        else if (!strcmp(op, "Tdel")) {
            mk(e, x, 0);
            void *r = findInHashTable(&T, e, hashK(x), ES, eq);
            if (r)
                removeFromHashTable(&T, r, ES);
            printf("%d %zu\n", r != NULL, T.size);
        }
        else if (!strcmp(op, "Tclr"))
            clearHashTable(&T), printf("%zu\n", T.size);
        else if (!strcmp(op, "Tall")) {
            Acc a = {0};
            a.left = x ? (long)x : -1;
            enumerateHashTable(&T, &a, acc, ES);
            if (x)
                printf("%zu\n", a.n), free(a.kv);
            else
                show(&a);
        }
        else if (!strcmp(op, "Tit")) {
            Acc a = {0};
            a.left = -1;
            HashtableIt it = newHashTableIt(&T, ES);
            while (1) {
                bool h = x ? hashTableItHasNext(&it) : true;
                void *r = hashTableItNext(&it);
                if (x && h != (r != NULL))
                    printf("HASNEXT ");
                if (!r)
                    break;
                acc(&a, r);
            }
            show(&a);
        }
        // hash map
        else if (!strcmp(op, "Mnew")) {
            if (haveM)
                hmapDestroy(&M);
            M = hmapCreateWithCapacity(ES, hm, eq, x);
            haveM = true;
        }
        else if (!strcmp(op, "Mput")) {
            mk(e, x, y);
            HmapStatus s = hmapPut(&M, e);
            printf("%d %" PRIu64 " %" PRIu64 "=%" PRIu64 "\n", s.s, M.nitems, key(s.f), val(s.f));
        }
        else if (!strcmp(op, "Mget") || !strcmp(op, "Mset")) {
            mk(e, x, 0);
            void *r = hmapGet(&M, e);
            if (r && hmapGet(&M, r) != r)
                printf("MOVED ");
            if (r && op[1] == 's')
                mk(r, x, y);
            if (r)
                printf("%" PRIu64 "=%" PRIu64 "\n", key(r), val(r));
            else
                printf("none\n");
        }
        else if (!strcmp(op, "Mdel")) {
            mk(e, x, 0);
            if (y) { // by the pointer the map handed out
                void *r = hmapGet(&M, e);
                if (r)
                    hmapRemove(&M, r);
            }
            else
                hmapRemove(&M, e);
            printf("%" PRIu64 "\n", M.nitems);
        }
        else if (!strcmp(op, "Mclr"))
            hmapClear(&M), printf("%" PRIu64 "\n", M.nitems);
        else if (!strcmp(op, "Mall")) {
            Acc a = {0};
            a.left = -1;
            HmapIterator it = hmapIterator(&M);
            void *r;
            while ((r = hmapNext(&it)))
                acc(&a, r);
            show(&a);
        }
        // memory pool
        else if (!strcmp(op, "Pnew"))
            P = newMemPool(), haveP = true, nB = 0;
        else if (!strcmp(op, "Palloc") || !strcmp(op, "Ptrack") || !strcmp(op, "Pcache")) {
            Blk *b = &B[nB];
            b->n = x;
            b->tag = nB;
            b->live = 1;
            b->cls = op[1] == 'a' ? 0 : op[1] == 't' ? 1 : 2 + (int)y;
            b->p = op[1] == 'a' ? allocFromMemPool(&P, x)
                   : op[1] == 't' ? allocTrackedMem(&P, x) : allocFromCacheOrPool(&P, y, x);
            nB++;
            if (x == 0)
                printf("%s\n", b->p ? "ptr" : "null"), b->live = b->p != NULL;
            else {
                if (op[1] != 't' && ((uintptr_t)b->p) % 16)
                    printf("MISALIGNED ");
                fill(b);
                checkAll();
                printf("ok\n");
            }
        }
        else if (!strcmp(op, "Prealloc")) {
            Blk *b = &B[x];
            size_t keep = b->n < y ? b->n : y;
            b->p = reallocTrackedMem(&P, b->p, y);
            if (!intact(b, keep))
                printf("LOST ");
            b->n = y;
            fill(b);
            checkAll();
            printf("ok\n");
        }
        else if (!strcmp(op, "Pfree")) {
            Blk *b = &B[x];
            b->live = 0;
            freeMemToPoolCache(&P, b->cls - 2, b->p, b->n);
            checkAll();
            printf("ok\n");
        }
        else if (!strcmp(op, "Preset")) {
            for (int i = 0; i < nB; i++)
                if (B[i].cls != 1)
                    B[i].live = 0;
            resetMemPool(&P);
            checkAll();
            printf("ok\n");
        }
        else if (!strcmp(op, "Pstat")) {
            MemPoolStats s;
            getMemPoolStats(&P, &s);
            printf("%zu %d\n", s.totalUsed, s.numberOfBlocks > 0);
        }
        // arrays
        else if (!strcmp(op, "Anew"))
            A[x] = y ? newDynArrayWithSize(ES, 0) : newDynArray(ES), haveA[x] = true;
        else if (!strcmp(op, "Apush")) {
            mk(e, y, z);
            void *r = pushOnDynArrayExplicit(&A[x], e, ES);
            printf("%zu %" PRIu64 "=%" PRIu64 "\n", A[x].size, key(r), val(r));
        }
        else if (!strcmp(op, "Apop")) {
            void *r = popDynArray(&A[x]);
            if (r)
                printf("%zu %" PRIu64 "=%" PRIu64 "\n", A[x].size, key(r), val(r));
            else
                printf("none\n");
        }
        else if (!strcmp(op, "Acopy"))
            copyDynArray(&A[x], &A[y]), printf("%zu\n", A[x].size);
        else if (!strcmp(op, "Adup")) {
            DynArray d = newDynArrayFromDataExplicit(A[y].elems, A[y].size, ES);
            freeDynArray(&A[x]);
            A[x] = d;
            printf("%zu\n", A[x].size);
        }
        else if (!strcmp(op, "Aall")) {
            for (size_t i = 0; i < A[x].size; i++) {
                u8 *r = (u8 *)A[x].elems + i * ES;
                printf("%" PRIu64 "=%" PRIu64 " ", key(r), val(r));
            }
            printf("%d\n", dynArrayEmpty(&A[x]));
        }
        // strings
        else if (!strcmp(op, "Snew"))
            SP = newMemPool(), S = newStrPool(&SP), haveS = true;
        else if (!strcmp(op, "Sput") || !strcmp(op, "Ssub") || !strcmp(op, "Strim") || !strcmp(op, "Scat") ||
                 !strcmp(op, "Sfmt") || !strcmp(op, "Spath")) {
            a1[0] = 0;
            char *p = strchr(line, ' ');
            char h1[1 << 14] = "", h2[1 << 14] = "", h3[1 << 14] = "";
            u64 k = 0;
            sscanf(p, " %" SCNu64 " x%16000s x%16000s x%16000s", &k, h1, h2, h3);
            size_t n1 = unhex(h1, buf1);
            unhex(h2, buf2), unhex(h3, buf3);
            const char *r = NULL;
            if (op[1] == 'p' && op[2] == 'u')
                r = makeString(&S, buf1);
            else if (op[1] == 's') {
                // not terminated where the string ends
                memset(buf2, 'Z', 8);
                char *t = malloc(n1 + 3);
                memcpy(t, buf1, n1);
                memcpy(t + n1, "ZZZ", 3);
                r = makeStringSized(&S, t, k < n1 ? k : n1);
                free(t);
            }
            else if (op[1] == 't')
                r = makeTrimmedString(&S, buf1);
            else if (op[1] == 'c')
                r = k == 2 ? makeStringConcat(&S, buf1, buf2) : makeStringConcat(&S, buf1, buf2, buf3);
            else if (op[1] == 'f')
                r = makeStringf(&S, "%s-%" PRIu64 "%s", buf1, k, buf2);
            else
                r = k == 2 ? joinPath(&S, buf1, buf2) : joinPath(&S, buf1, buf2, buf3);
            printf("#%d ", idOf(r));
            hexout(r, strlen(r));
        }
        else if (!strcmp(op, "Sanon")) {
            char h1[4096] = "";
            int got = sscanf(line, "%*s x%4000s", h1);
            unhex(h1, buf1);
            const char *r = makeAnonymousVariable(&S, got == 1 ? buf1 : NULL);
            int before = nptr;
            printf("%d %d\n", idOf(r) == before, got != 1 || !strncmp(r, buf1, strlen(buf1)));
        }
        // formatted output
        else if (!strcmp(op, "Fnew")) {
            F = newFormatState(x ? "\t" : "  ", y);
            haveF = true;
        }
        else if (!strcmp(op, "Fput")) {
            // Fput xFORMAT then args  kind:value
            static char *argv[32];
            static char strs[16][8192];
            FormatArg args[16];
            memset(args, 0, sizeof args);
            int na = 0, ns = 0;
            char *save = NULL, *tok = strtok_r(strchr(line, ' '), " \n", &save);
            unhex(tok + 1, buf1);
            while ((tok = strtok_r(NULL, " \n", &save))) {
                char *v = tok + 2;
                switch (tok[0]) {
                case 'u': args[na++].u64 = strtoull(v, NULL, 10); break;
                case 'i': args[na++].i64 = strtoll(v, NULL, 10); break;
                case 'f': args[na++].f64 = strtod(v, NULL); break;
                case 'g': args[na++].f32 = strtof(v, NULL); break;
                case 'b': args[na++].b = *v == '1'; break;
                case 'c': args[na++].c = strtoul(v, NULL, 10); break;
                case 'p': args[na++].p = (void *)strtoull(v, NULL, 10); break;
                case 'l': args[na++].len = strtoull(v, NULL, 10); break;
                case 'S': { FormatStyle st = {v[0] - '0', v[1] - '0'}; args[na++].style = st; break; }
                case 's': unhex(v, strs[ns]); args[na++].s = strs[ns++]; break;
                case 'n': args[na++].s = NULL; break;
                }
            }
            (void)argv;
            format(&F, buf1, args);
        }
        else if (!strcmp(op, "Fapp")) {
            size_t m = unhex(strchr(line, 'x') + 1, buf1);
            append(&F, buf1, m);
        }
        else if (!strcmp(op, "Fout")) {
            char *s = formatStateToString(&F);
            size_t m = 0;
            char *o = NULL;
            FILE *fp = open_memstream(&o, &m);
            writeFormatState(&F, fp);
            fclose(fp);
            if (m != strlen(s) || memcmp(s, o, m))
                printf("DIFFER ");
            hexout(s, strlen(s));
            free(s);
            free(o);
        }
        // string builder
        else if (!strcmp(op, "Bnew"))
            SB = stringBuilderNew();
        else if (!strcmp(op, "Bstr")) {
            size_t m = unhex(strchr(line, 'x') + 1, buf1);
            stringBuilderAppendCstr0(SB, buf1, m);
            printf("%" PRIu64 "\n", SB->size);
        }
        else if (!strcmp(op, "Bint"))
            stringBuilderAppendInt(SB, (i64)x);
        else if (!strcmp(op, "Buint"))
            stringBuilderAppendUInt(SB, x);
        else if (!strcmp(op, "Bbool"))
            stringBuilderAppendBool(SB, x);
        else if (!strcmp(op, "Bchar"))
            stringBuilderAppendChar(SB, x);
        else if (!strcmp(op, "Bout")) {
            u64 m = SB->size;
            char *s = stringBuilderRelease(SB);
            if (m && s[m] != 0)
                printf("UNTERMINATED ");
            hexout(s ? s : "", m);
            free(s);
        }
        else
            printf("BADOP %s\n", op), abort();
    }
    reset();
    printf("@@end\n");
    return 0;
}
