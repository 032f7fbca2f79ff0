// Plays DosRecorder files, named on standard input, into a terminal; writes
// the delays and, after each frame, what the terminal shows:
//   w delay   t title-in-hex   s attributes; cells   then "="
// attributes: fg,bg,flags of each that there is; a cell: char*512+attribute
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include "ttyrec.h"
#include "obs.h"

static tty vt;

static void cb_init(const struct timeval *t, void *arg) {}
static void cb_wait(const struct timeval *t, void *arg)
{
    printf("w %lld %lld\n", (long long)t->tv_sec, (long long)t->tv_usec);
}
static void cb_print(const char *buf, int len, void *arg)
{
    if (len<=0)
        return;
    tty_write(vt, buf, len);
    printf("t ");
    for (const char *p=vt->title? vt->title : ""; *p; p++)
        printf("%02x", *p&255);
    uint64_t at[512];
    int n=0, i, j;
    static char cells[1<<20];
    char *w=cells;
    if (vt->sx!=80 || vt->sy!=25)
    {
        printf("\nsize %d %d\n", vt->sx, vt->sy);
        return;
    }
    for (i=0; i<2000; i++)
    {
        for (j=0; j<n; j++)
            if (at[j]==vt->scr[i].attr)
                break;
        if (j==n && n<511)
            at[n++]=vt->scr[i].attr;
        w+=sprintf(w, "%d ", vt->scr[i].ch<0x10000 && !vt->scr[i].comb? (int)vt->scr[i].ch*512+j : -1);
    }
    printf("\ns ");
    for (j=0; j<n; j++)
        o_attr(stdout, at[j]), putchar(' ');
    printf("; %s\n", cells);
}

static char line[4096];

int main(void)
{
    while (fgets(line, sizeof(line), stdin))
    {
        strtok(line, "\n");
        fflush(stdout);
        pid_t pid=fork();
        if (!pid)
        {
            vt=tty_init(13, 7, 1);
            alarm(20);
            printf("= %d\n", ttyrec_r_play(-1, 0, line, cb_init, cb_wait, cb_print, 0));
            fflush(stdout);
            _exit(0);
        }
        int st;
        static int hung;
        if (hung>2)
            kill(pid, SIGKILL);     // enough was seen
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM)
            hung++;
        printf(". %d\n", WIFSIGNALED(st)? -WTERMSIG(st) : WEXITSTATUS(st));
    }
    return 0;
}
