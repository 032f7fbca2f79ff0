// The observable state of a terminal, as the specification sees it (Seen in
// Tty.tla).  Uses only the fields tty.h documents as public.
#ifndef OBS_H
#define OBS_H
#include "tty.h"
#include "jout.h"

// the flag bits of Tty.tla
static int fl_of(uint64_t a)
{
    int f=0;
    if (a&VT100_ATTR_BOLD)      f|=1;
    if (a&VT100_ATTR_DIM)       f|=2;
    if (a&VT100_ATTR_ITALIC)    f|=4;
    if (a&VT100_ATTR_UNDERLINE) f|=8;
    if (a&VT100_ATTR_STRIKE)    f|=16;
    if (a&VT100_ATTR_INVERSE)   f|=32;
    if (a&VT100_ATTR_BLINK)     f|=64;
    if (a&VT100_ATTR_CJK)       f|=128;
    if (a&~(0x3ffffffULL|0x3ffffffULL<<32|VT100_ATTR_BOLD|VT100_ATTR_DIM
            |VT100_ATTR_ITALIC|VT100_ATTR_UNDERLINE|VT100_ATTR_STRIKE
            |VT100_ATTR_INVERSE|VT100_ATTR_BLINK|VT100_ATTR_CJK))
        f|=1<<20; // a bit that means nothing
    return f;
}
#define FG_OF(a) ((int)((a)&0x3ffffff))
#define BG_OF(a) ((int)((a)>>32&0x3ffffff))

static void o_attr(FILE *o, uint64_t a)
{
    fprintf(o, "%d,%d,%d", FG_OF(a), BG_OF(a), fl_of(a));
}

static long o_ch(ucs c)
{
    return c==VT100_CJK_RIGHT? -1 : c>0x7fffffff? -2 : (long)c;
}

// Writes the chain of combining marks of a cell.  Returns -1 if the chain
// is broken: out of range, endless, or sharing links with another cell.
static int o_comb(FILE *o, tty vt, attrchar *ac, unsigned char *used)
{
    int n=0, bad=0;
    putc('[', o);
    for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
    {
        if (!vt->combs || i>=vt->combs[0].ch || (used && used[i]) || n>64)
        {
            bad=-1;
            break;
        }
        if (used)
            used[i]=1;
        fprintf(o, n++? ",%ld":"%ld", o_ch(vt->combs[i].ch));
    }
    putc(']', o);
    return bad;
}

static void o_obs(FILE *o, tty vt)
{
    int ok=1;
    uint32_t nc=vt->combs? vt->combs[0].ch : 0;
    unsigned char *used=calloc(nc+1, 1);

    fprintf(o, "{\"sx\":%d,\"sy\":%d,\"cx\":%d,\"cy\":%d,\"at\":[", vt->sx, vt->sy, vt->cx, vt->cy);
    o_attr(o, vt->attr);
    fprintf(o, "],\"ti\":");
    if (vt->title)
        j_bytes(o, vt->title, strlen(vt->title));
    else
        fprintf(o, "[-1]");
    fprintf(o, ",\"scr\":[");
    for (int i=0; i<vt->sx*vt->sy; i++)
    {
        attrchar *c=&vt->scr[i];
        fprintf(o, i? ",[%ld,":"[%ld,", o_ch(c->ch));
        if (o_comb(o, vt, c, used))
            ok=0;
        putc(',', o);
        o_attr(o, c->attr);
        putc(']', o);
    }
    // every combining mark is either in exactly one cell or free
    uint32_t inuse=0, freec=0;
    for (uint32_t i=1; i<nc; i++)
        inuse+=used[i];
    if (nc)
        for (uint32_t i=vt->combs[0].next; i && i<nc; i=vt->combs[i].next)
        {
            if (used[i])
            {
                ok=0;
                break;
            }
            used[i]=1;
            freec++;
        }
    if (nc && inuse+freec!=nc-1)
        ok=0;
    fprintf(o, "],\"ok\":%d}", ok);
    free(used);
}
#endif
