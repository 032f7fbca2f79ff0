// The pace of live recorders and players.  Commands on standard input:
//   O path s u w u known      opens a live recorder: the recording starts at
//                             s u, the clock is w u; known: if it is told
//   o s u hex e e             a frame: its text (or "-"), and how long the
//                             clock goes on before it comes.  Prints the clock
//                             then, the clock once it is written, and how many
//                             bytes of the file are there then
//   .                         closes it
//   I s u, s u n hex ...      a live player: the clock at the start, then the
//                             clock when n bytes arrive and the bytes.  What
//                             arrives does so once all that was before was
//                             shown.  Prints i, w and p as fmtdrv does.
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "ttyrec.h"
#include "jout.h"
#include "clock.h"

static char *arg;
static struct timeval get(void)
{
    struct timeval t;
    t.tv_sec=strtoll(arg, &arg, 10);
    t.tv_usec=strtoll(arg, &arg, 10);
    return t;
}
static char *word(void)
{
    while (*arg==' ')
        arg++;
    char *w=arg;
    while (*arg && *arg!=' ')
        arg++;
    if (*arg)
        *arg++=0;
    return w;
}
static void out(char k, struct timeval t)
{
    printf("%c %lld %lld\n", k, (long long)t.tv_sec, (long long)t.tv_usec);
}

static int pfd[2];
static long arrived, shown;
static void more(void)
{
    while (shown>=arrived)
    {
        while (*arg==' ')
            arg++;
        if (!*arg)
        {
            if (pfd[1]!=-1)
                close(pfd[1]);
            pfd[1]=-1;
            return;
        }
        now=get();
        char *h=word();
        int n=unhex(h);
        arrived+=n;
        if (write(pfd[1], h, n)!=n)
            abort();
    }
}
static void p_init(const struct timeval *t, void *a) { out('i', *t); more(); }
static void p_wait(const struct timeval *t, void *a) { out('w', *t); }
static void p_print(const char *b, int n, void *a)
{
    printf("p ");
    for (int i=0; i<n; i++)
        printf("%02x", (unsigned char)b[i]);
    printf("%s\n", n<0? "negative" : "");
    shown+=n;
    more();
}

int main(void)
{
    static char line[4<<20];
    static recorder r;
    static char *path;
    static int ok;
    while (fgets(line, sizeof(line), stdin))
    {
        char *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        alarm(60);
        arg=line+1;
        switch (*line)
        {
        case 'O':
            {
                path=strdup(word());
                struct timeval tm=get();
                now=get();
                int known=strtol(arg, 0, 10);
                r=ttyrec_w_open(-1, "live", path, known? &tm : 0);
                ok=!!r;
            }
            break;
        case 'o':
            {
                struct timeval tm=get(), e=get();
                now.tv_sec+=e.tv_sec;
                now.tv_usec+=e.tv_usec;
                if (now.tv_usec>=1000000)
                    now.tv_usec-=1000000, now.tv_sec++;
                out('c', now);
                char *h=word();
                int n=unhex(h);
                if (r)
                    ok&=!!ttyrec_w_write(r, &tm, h, n);
                out('o', now);
                struct stat st;
                printf("n %ld\n", stat(path, &st)? -1L : (long)st.st_size);
            }
            break;
        case '.':
            if (r)
                ok&=!!ttyrec_w_close(r);
            r=0;
            free(path);
            printf("= %d\n", ok);
            break;
        case 'I':
            now=get();
            arrived=shown=0;
            if (pipe(pfd))
                return 9;
            fcntl(pfd[1], F_SETPIPE_SZ, 1<<20);
            ok=ttyrec_r_play(pfd[0], "live", 0, p_init, p_wait, p_print, 0);
            if (pfd[1]!=-1)
                close(pfd[1]);
            printf("= %d\n", !!ok);
            break;
        default:
            return 9;
        }
    }
    return 0;
}
