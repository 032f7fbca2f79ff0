// Time arithmetic: the macros of ttyrec.h, and what the "live" recorder and
// player make of the clock.  Commands on standard input:
//   + s u s u | - s u s u | ? s u s u     add, subtract, compare
//   * s u m | / s u m                     scale
//   L s u w u, then s u w u ...           the live recorder: the start of the
//       recording and the clock then; each frame's time and the clock then.
//       Prints the sleeps it asks for.
//   P w u, w u...     the live player: the clock at the start and at each read
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "ttyrec.h"
#include "clock.h"

static struct timeval clk[1000];
static int nclk, atclk;

static char *arg;
static struct timeval get(void)
{
    struct timeval t;
    t.tv_sec=strtoll(arg, &arg, 10);
    t.tv_usec=strtoll(arg, &arg, 10);
    return t;
}
static void out(struct timeval t)
{
    printf("%lld %lld\n", (long long)t.tv_sec, (long long)t.tv_usec);
}

// the clock goes on when something is to be read
static int pfd[2];
static void more(void)
{
    if (atclk<nclk)
        now=clk[atclk++], write(pfd[1], "x", 1);
    else
        close(pfd[1]);
}
static void p_init(const struct timeval *t, void *a) { out(*t); more(); }
static void p_wait(const struct timeval *t, void *a) { out(*t); }
static void p_print(const char *b, int n, void *a) { more(); }

int main(void)
{
    static char line[1<<16];
    while (fgets(line, sizeof(line), stdin))
    {
        arg=line+1;
        switch (*line)
        {
        case '+': case '-': case '?':
            {
                struct timeval a=get(), b=get();
                if (*line=='+')
                    tadd(a, b);
                else if (*line=='-')
                    tsub(a, b);
                else
                {
                    printf("%d\n", tcmp(a, b));
                    break;
                }
                out(a);
            }
            break;
        case '*': case '/':
            {
                struct timeval a=get();
                int m=strtol(arg, 0, 10);
                if (*line=='*')
                    tmul1000(a, m);
                else
                    tdiv1000(a, m);
                out(a);
            }
            break;
        case 'L':
            {
                struct timeval tm=get();
                now=get();
                int f=open("/dev/null", 1);
                recorder r=ttyrec_w_open(f, "live", 0, &tm);
                int n=0;
                while (*arg==' ')
                {
                    tm=get();
                    now=get();
                    slept=0;
                    sleepfor=(struct timeval){0, 0};
                    ttyrec_w_write(r, &tm, "x", 1);
                    if (slept)
                        out(sleepfor);
                    else
                        printf("-\n");
                }
                ttyrec_w_close(r);
                printf("=\n");
            }
            break;
        case 'P':
            nclk=atclk=0;
            while (*arg==' ')
                clk[nclk++]=get();
            pipe(pfd);
            now=clk[atclk++];
            ttyrec_r_play(pfd[0], "live", 0, p_init, p_wait, p_print, 0);
            printf("=\n");
            break;
        }
    }
    return 0;
}
