// Drives the recorders and players of libtty with commands read from
// standard input; writes what the players say as lines of text.
//
//   P fmt path            play a file through open_stream; fmt or path: "-"
//   F fmt path n...       play it from a pipe that gets n, n... bytes, each
//                         once what was before has been read
//   R fmt path s u        record to path, starting at s u ("- -": unknown);
//   f s u hex             ... a frame
//   .                     ... the end
// Output: "i s u", "w s u", "p hex", and "= result" at the end of each.
// Times seen by the code come from a clock that goes 10 ms per look.
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <time.h>
#include "ttyrec.h"
#include "jout.h"

static long long now=1000000000000000LL;
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    now+=10000;
    tv->tv_sec=now/1000000;
    tv->tv_usec=now%1000000;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    now+=10000;
    t->tv_sec=now/1000000;
    t->tv_nsec=now%1000000*1000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    if (t)
        *t=now/1000000;
    return now/1000000;
}

static void cb_init(const struct timeval *t, void *arg)
{
    printf("i %lld %lld\n", (long long)t->tv_sec, (long long)t->tv_usec);
}
static void cb_wait(const struct timeval *t, void *arg)
{
    printf("w %lld %lld\n", (long long)t->tv_sec, (long long)t->tv_usec);
}
static void cb_print(const char *buf, int len, void *arg)
{
    static char hex[512];
    printf("p ");
    if (len<0)
        printf("negative");
    for (int i=0; i<len;)
    {
        int n=0;
        for (; i<len && n<510; i++)
        {
            hex[n++]="0123456789abcdef"[(unsigned char)buf[i]>>4];
            hex[n++]="0123456789abcdef"[buf[i]&15];
        }
        fwrite(hex, 1, n, stdout);
    }
    putchar('\n');
}

struct feed { int fd; char *path; char *sizes; };
static void *feeder(void *arg)
{
    struct feed *fe=arg;
    int f=open(fe->path, O_RDONLY);
    char *p=fe->sizes, *e;
    long n;
    static char buf[1<<20];
    while ((n=strtol(p, &e, 10)), e!=p)
    {
        p=e;
        int left;
        while (!ioctl(fe->fd, FIONREAD, &left) && left>0)
            usleep(20);
        n=read(f, buf, n);
        if (n<=0 || write(fe->fd, buf, n)!=n)
            break;
    }
    close(f);
    close(fe->fd);
    return 0;
}

static char line[8<<20];

#define STR(x) (strcmp(x,"-")? x : 0)

int main(void)
{
    setvbuf(stdout, 0, _IOFBF, 1<<20);
    while (fgets(line, sizeof(line), stdin))
    {
        char *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        char *arg=line+1, *fmt=0, *path=0;
        if (*line!='f' && *line!='.')
        {
            arg++;
            fmt=strsep(&arg, " ");
            path=strsep(&arg, " ");
        }
        static recorder rec;
        static int ok;
        switch (*line)
        {
        case 'P':
            ok=ttyrec_r_play(-1, STR(fmt), path, cb_init, cb_wait, cb_print, 0);
            printf("= %d\n", !!ok);
            break;
        case 'F':
            {
                int p[2];
                if (pipe(p))
                    return 9;
                fcntl(p[1], F_SETPIPE_SZ, 1<<20);
                struct feed fe={p[1], path, arg};
                pthread_t th;
                pthread_create(&th, 0, feeder, &fe);
                ok=ttyrec_r_play(p[0], STR(fmt), 0, cb_init, cb_wait, cb_print, 0);
                pthread_join(th, 0);
                printf("= %d\n", !!ok);
            }
            break;
        case 'R':
            {
                struct timeval tm;
                int known=*arg!='-';
                if (known)
                    tm.tv_sec=strtoll(arg, &arg, 10), tm.tv_usec=strtoll(arg, &arg, 10);
                rec=ttyrec_w_open(-1, STR(fmt), path, known? &tm : 0);
                ok=!!rec;
            }
            break;
        case 'f':
            {
                struct timeval tm;
                tm.tv_sec=strtoll(arg, &arg, 10);
                tm.tv_usec=strtoll(arg, &arg, 10);
                while (*arg==' ')
                    arg++;
                int n=unhex(arg);
                if (rec)
                    ok&=!!ttyrec_w_write(rec, &tm, arg, n);
            }
            break;
        case '.':
            if (rec)
                ok&=!!ttyrec_w_close(rec);
            printf("= %d\n", ok);
            rec=0;
            break;
        default:
            return 9;
        }
    }
    fflush(stdout);
    return 0;
}
