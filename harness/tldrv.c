// Drives the timeline of libtty: commands on standard input, one line of
// JSON for each on standard output.
//
//   N sx sy hex      a new timeline on a terminal that got hex; N 0: default
//   L sx sy fmt path hex   the same, then loads a file (the reference: hex)
//   R s u hex        (no output) tell the reference: a frame
//   A s u hex        add a frame after a delay; A - - hex: without one
//   S s u | S - -    seek without a terminal
//   V k s u          seek with the caller's terminal k
//   M k hex          the caller writes to terminal k; Z k x y: resizes it
//   W s u s u fmt path     save a selection, "-" for none
//   Q s u            walk from where a seek ends
//   F k              free terminal k
//   X                free the timeline
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include "ttyrec.h"
#include "obs.h"

static char line[8<<20];
static ttyrec tr;
static tty slot[4], ref;

static uint64_t hash(const void *p, size_t n, uint64_t h)
{
    for (const unsigned char *b=p; n--; b++)
        h=(h^*b)*1099511628211ULL;
    return h;
}

static uint64_t look(tty vt, uint64_t h)
{
    static char *buf;
    static size_t n;
    FILE *o=open_memstream(&buf, &n);
    o_obs(o, vt);
    fclose(o);
    h=hash(buf, n, h);
    free(buf);
    return h;
}

// What can be told of a terminal: what it shows, and what it will show.
static uint64_t print_of(tty vt)
{
    static const char *probe[]={"A\xb8\x80;5;3mX\e[7mY\x07", "\e\\\e8Q\t\r\n\n\nZ\e#8\n", "\x18\eMq\x0er\x0fs\e[1;200HT\xe4\xb8\x80U", 0};
    uint64_t h=look(vt, 14695981039346656037ULL);
    for (int i=0; probe[i]; i++)
    {
        tty c=tty_copy(vt);
        if (!c)
            exit(8);
        tty_write(c, probe[i], strlen(probe[i]));
        h=look(c, h);
        tty_free(c);
    }
    return h&0xfffffffffffffULL;
}

// frames by the order they have in the recording; 0: before the first
static ttyrec_frame *list;
static int nlist;
static void index_frames(void)
{
    struct timeval ago={-(1LL<<60), 0};
    ttyrec_frame f=ttyrec_seek(tr, 0, 0);
    if (f==ttyrec_seek(tr, &ago, 0))
        f=0;    // nothing but the start
    nlist=0;
    while (f)
    {
        list=realloc(list, (nlist+1)*sizeof(*list));
        list[nlist++]=f;
        f=ttyrec_next_frame(tr, f);
    }
}
static int index_of(ttyrec_frame f)
{
    for (int i=0; i<nlist; i++)
        if (list[i]==f)
            return i+1;
    return f? 0 : -1;
}

static int tv(char **arg, struct timeval *t)
{
    char *a=strsep(arg, " "), *b=strsep(arg, " ");
    if (!strcmp(a, "-"))
        return 0;
    t->tv_sec=strtoll(a, 0, 10);
    t->tv_usec=strtoll(b, 0, 10);
    return 1;
}

#define TV(t) (long long)(t).tv_sec, (long long)(t).tv_usec

int main(void)
{
    setvbuf(stdout, 0, _IOFBF, 1<<20);
    while (fgets(line, sizeof(line), stdin))
    {
        char *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        char *arg=line+2;
        struct timeval t, t2;
        int n, k;
        switch (*line)
        {
        case 'N': case 'L':
            {
                int sx=strtol(arg, &arg, 10), sy=strtol(arg, &arg, 10);
                tty vt=sx? tty_init(sx, sy, 1) : 0;
                ref=tty_init(sx? sx : 80, sx? sy : 25, 1);
                arg++;
                char *fmt=0, *path=0;
                if (*line=='L')
                {
                    fmt=strsep(&arg, " ");
                    path=strsep(&arg, " ");
                }
                n=unhex(arg);
                tty_write(ref, arg, n);
                if (vt)
                    tty_write(vt, arg, n);
                tr= *line=='N'? ttyrec_init(vt) : ttyrec_load(-1, fmt, path, vt);
                for (k=0; k<4; k++)
                    slot[k]=tty_init(5, 2, 1);
                printf("{\"op\":\"%c\",\"ok\":%d,\"fp\":%llu}\n", *line, !!tr, (long long)print_of(ref));
            }
            break;
        case 'R':
        case 'A':
            {
                int known=tv(&arg, &t);
                n=arg? unhex(arg) : 0;
                static char none[1];
                if (!arg)
                    arg=none;
                tty_write(ref, arg, n);
                if (*line=='A')
                    ttyrec_add_frame(tr, known? &t : 0, arg, n);
                printf("{\"op\":\"%c\",\"len\":%d,\"data\":%llu,\"fp\":%llu}\n", *line, n, (long long)(hash(arg, n, 7)&0xfffffffffffffULL), (long long)print_of(ref));
                // the frame is the timeline's own: ours may change
                memset(arg, '#', n);
            }
            break;
        case 'S': case 'V':
            {
                k=0;
                if (*line=='V')
                    k=strtol(arg, &arg, 10), arg++;
                int known=tv(&arg, &t);
                index_frames();
                ttyrec_frame f=ttyrec_seek(tr, known? &t : 0, *line=='V'? &slot[k] : 0);
                printf("{\"op\":\"%c\",\"i\":%d,\"fp\":%llu,\"t\":[%lld,%lld]}\n", *line, index_of(f), *line=='V'? (long long)print_of(slot[k]) : 0LL, TV(f->t));
            }
            break;
        case 'Q':
            {
                int known=tv(&arg, &t);
                index_frames();
                ttyrec_frame f=ttyrec_seek(tr, known? &t : 0, 0);
                printf("{\"op\":\"Q\",\"fr\":[");
                for (k=0; f; f=ttyrec_next_frame(tr, f), k++)
                    printf("%s[%d,%lld,%lld,%d,%llu]", k? "," : "", index_of(f), TV(f->t), f->len,
                        (long long)(f->len? hash(f->data, f->len, 7)&0xfffffffffffffULL : 0));
                printf("]}\n");
            }
            break;
        case 'M':
            k=strtol(arg, &arg, 10), arg++;
            n=unhex(arg);
            tty_write(slot[k], arg, n);
            printf("{\"op\":\"M\"}\n");
            break;
        case 'Z':
            {
                k=strtol(arg, &arg, 10);
                int x=strtol(arg, &arg, 10), y=strtol(arg, &arg, 10);
                tty_resize(slot[k], x, y);
                printf("{\"op\":\"M\"}\n");
            }
            break;
        case 'F':
            k=strtol(arg, 0, 10);
            tty_free(slot[k]);
            slot[k]=tty_init(3, 3, 0);
            printf("{\"op\":\"M\"}\n");
            break;
        case 'W':
            {
                int a=tv(&arg, &t), b=tv(&arg, &t2);
                char *fmt=strsep(&arg, " "), *path=arg;
                int ok=ttyrec_save(tr, -1, fmt, path, a? &t : 0, b? &t2 : 0);
                printf("{\"op\":\"W\",\"ok\":%d}\n", ok);
            }
            break;
        case 'X':
            ttyrec_free(tr);
            tr=0;
            for (k=0; k<4; k++)
                tty_free(slot[k]);
            tty_free(ref);
            printf("{\"op\":\"X\"}\n");
            break;
        default:
            return 9;
        }
    }
    fflush(stdout);
    return 0;
}
