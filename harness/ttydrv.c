// Drives real terminals with commands read from standard input and writes,
// for each command, one line of JSON saying what was done, what the
// terminal's listeners were told and what the terminal looks like after it.
//
//   I k sx sy rz    create terminal k
//   W k hex         send it bytes            p k hex   ... through tty_printf
//   R k sx sy       tty_resize               Z k       tty_reset
//   C a b           b := tty_copy(a)         F k       tty_free
//   L k             attach listeners that log every call
//   V k dump        redirect to a terminal (vtvt_attach)
//   S k sx sy       tell the redirection the size of its terminal
//   D k             vtvt_dump
//   O k             just observe
//   A k same        observe k, compare nothing
#include "config.h"
#include <locale.h>
#include "obs.h"

#define SLOTS 8
static tty T[SLOTS];
static char *VB[SLOTS];
static size_t VN[SLOTS], VP[SLOTS];
static FILE *VF[SLOTS];

// log of listener calls
static char *EB;
static size_t EN;
static FILE *E;
static int ne;

#define EV(...) do { fprintf(E, ne++? ",[":"["); fprintf(E, __VA_ARGS__); putc(']', E); } while (0)
#define CUR vt->cx, vt->cy

static void e_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
{
    EV("1,%d,%d,%d,%d,%ld,%d,%d,%d,%d", CUR, x, y, o_ch(ch), FG_OF(attr), BG_OF(attr), fl_of(attr), width);
}
static void e_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
{
    EV("2,%d,%d,%d,%d,%ld", CUR, x, y, o_ch(ch));
}
static void e_cursor(tty vt, int x, int y)
{
    EV("3,%d,%d,%d,%d", CUR, x, y);
}
static void e_clear(tty vt, int x, int y, int len)
{
    EV("4,%d,%d,%d,%d,%d,%d,%d,%d", CUR, x, y, len, FG_OF(vt->attr), BG_OF(vt->attr), fl_of(vt->attr));
}
static void e_scroll(tty vt, int nl)
{
    EV("5,%d,%d,%d,%d,%ld,%d,%d,%d", CUR, vt->s1, vt->s2, j_int(nl), FG_OF(vt->attr), BG_OF(vt->attr), fl_of(vt->attr));
}
static void e_flag(tty vt, int f, int v)
{
    EV("6,%d,%d,%d,%d", CUR, f, v);
}
static void e_osc(tty vt, int cmd, const char *str)
{
    fprintf(E, ne++? ",[7,%d,%d,%u,%u,":"[7,%d,%d,%u,%u,", CUR, (uint32_t)cmd>>16, (uint32_t)cmd&0xffff);
    j_bytes(E, str, strlen(str));
    putc(']', E);
}
static void e_resize(tty vt, int sx, int sy)
{
    EV("8,%d,%d,%d,%d,%d,%d,%d", CUR, sx, sy, FG_OF(vt->attr), BG_OF(vt->attr), fl_of(vt->attr));
}
static void e_flush(tty vt)
{
    EV("9,%d,%d", CUR);
}
static void e_bell(tty vt)
{
    EV("10,%d,%d", CUR);
}

static void listen_all(tty vt)
{
    vt->l_char=e_char;
    vt->l_comb=e_comb;
    vt->l_cursor=e_cursor;
    vt->l_clear=e_clear;
    vt->l_scroll=e_scroll;
    vt->l_flag=e_flag;
    vt->l_osc=e_osc;
    vt->l_resize=e_resize;
    vt->l_flush=e_flush;
    vt->l_bell=e_bell;
}

int main(int argc, char **argv)
{
    char *line=0;
    size_t cap=0;
    char *loc=getenv("DRV_LOCALE");

    setlocale(LC_CTYPE, loc? loc : "C");
    E=open_memstream(&EB, &EN);
    while (getline(&line, &cap, stdin)>0)
    {
        char op=line[0];
        int k=0, a=0, b=0, c=0, pos=0;
        char *hex="";
        size_t n=0;

        sscanf(line+1, " %d%n", &k, &pos);
        if (k<0 || k>=SLOTS)
            return 9;
        rewind(E); ne=0;
        switch (op)
        {
        case 'I':
            sscanf(line+1+pos, "%d %d %d", &a, &b, &c);
            tty_free(T[k]);
            VF[k]=0;
            T[k]=tty_init(a, b, c);
            break;
        case 'W': case 'p': case 'w':
            hex=line+1+pos;
            while (*hex==' ')
                hex++;
            n=unhex(hex);
            if (op!='p')
                tty_write(T[k], hex, n);
            else
                tty_printf(T[k], "%s", hex);
            break;
        case 'R':
            sscanf(line+1+pos, "%d %d", &a, &b);
            c=tty_resize(T[k], a, b);
            break;
        case 'Z':
            tty_reset(T[k]);
            break;
        case 'C':
            sscanf(line+1+pos, "%d", &a);
            if (a<0 || a>=SLOTS)
                return 9;
            tty_free(T[a]);
            VF[a]=0;
            T[a]=tty_copy(T[k]);
            break;
        case 'F':
            tty_free(T[k]);
            T[k]=0;
            VF[k]=0;
            printf("{\"op\":\"F\",\"k\":%d}\n", k);
            continue;
        case 'L':
            listen_all(T[k]);
            break;
        case 'V':
            sscanf(line+1+pos, "%d", &a);
            VF[k]=open_memstream(&VB[k], &VN[k]);
            VP[k]=0;
            vtvt_attach(T[k], VF[k], 0);
            if (a)
            {
                vtvt_resize(T[k], T[k]->sx, T[k]->sy);
                vtvt_dump(T[k]);
            }
            break;
        case 'S':
            sscanf(line+1+pos, "%d %d", &a, &b);
            vtvt_resize(T[k], a, b);
            break;
        case 'D':
            vtvt_dump(T[k]);
            break;
        case 'O':
            break;
        default:
            return 9;
        }
        printf("{\"op\":\"%c\",\"k\":%d,\"a\":%d,\"b\":%d,\"c\":%d,\"w\":", op, k, a, b, c);
        j_bytes(stdout, hex, n);
        fflush(E);
        printf(",\"e\":[%.*s],\"o\":", (int)ftell(E), EB);
        o_obs(stdout, T[k]);
        if (VF[k])
        {
            fflush(VF[k]);
            printf(",\"v\":");
            j_bytes(stdout, VB[k]+VP[k], VN[k]-VP[k]);
            VP[k]=VN[k];
        }
        printf("}\n");
    }
    for (int i=0; i<SLOTS; i++)
        tty_free(T[i]);
    return 0;
}
