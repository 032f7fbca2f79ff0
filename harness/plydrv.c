// Runs termplay, each line of standard input in a process of its own, under
// the scheduler and its clock:
//   choices | path | w h | ends of frames | feed: time:bytes ... | keys | arguments
// path: the input; ends of frames: where each ends in it, in bytes, and where
// its text starts; -1 as bytes: the end of input.
// Output: the log -- "arr t n", "key t c"; the clock is about to
// leave t, the screen shows k frames (-1: none of the screens there should be)
// and w threads wait to be woken: "leave t k w"; "gone t status k" -- and "= status".
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include "tty.h"
#include "ttyrec.h"
#include "vsched.h"

int termplay_main(int argc, char **argv);

static char *path, *feed;
static int W, H;
static tty out, want[2048];
static int nwant, last;

extern int __real_open(const char*, int, ...);
int __wrap_open(const char *name, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode=va_arg(ap, int);
    va_end(ap);
    int fd=__real_open(name, flags, mode);
    if (path && fd>=0 && !strcmp(name, path))
    {
        char *p=feed, *e;
        while (1)
        {
            usec t=strtoll(p, &e, 10);
            if (e==p)
                break;
            int n=strtol(e+1, &p, 10);
            sched_feed(fd, sched_start+t, n);
        }
    }
    return fd;
}
int __wrap_open64(const char *name, int flags, int mode) { return __wrap_open(name, flags, mode); }

extern int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long req, void *arg)
{
    if (req==TIOCGWINSZ && fd<3)
    {
        struct winsize *w=arg;
        memset(w, 0, sizeof *w);
        w->ws_col=W;
        w->ws_row=H;
        return 0;
    }
    return __real_ioctl(fd, req, arg);
}
int __wrap_isatty(int fd) { return fd==1; }

static int same(tty a, tty b)
{
    for (int i=0; i<W*H; i++)
        if (a->scr[i].ch!=b->scr[i].ch || a->scr[i].attr!=b->scr[i].attr)
            return 0;
    return 1;
}
static int shown(void)
{
    for (int d=0; d<nwant; d++)     // most likely nearby
    {
        int i=(last+d)%nwant;
        if (same(out, want[i]))
            return last=i;
    }
    return -1;
}
static void leave(void)
{
    sched_log("leave %lld %d %d\n", sched_now-sched_start, shown(), sched_waiting());
}

static ssize_t put(void *c, const char *b, size_t n)
{
    // as write() may, in pieces
    for (size_t i=0; i<n; )
    {
        sched_yield_here(i==0);
        size_t k= n-i>1024? 1024 : n-i;
        tty_write(out, b+i, k);
        i+=k;
    }
    return n;
}

extern void __real__exit(int);
void __wrap__exit(int c)
{
    fflush(stdout);
    sched_log("gone %lld %d %d\n", sched_now-sched_start, c, shown());
    __real__exit(c);
}

static int yields;
extern int tsan_yields;
#define Y if (yields) sched_yield_here(0)
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), __real_free(void*);
void *__wrap_malloc(size_t n) { Y; return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { Y; return __real_calloc(n, m); }
void __wrap_free(void *p) { Y; __real_free(p); }

static char line[4<<20];

int main(int argc, char **argv)
{
    setenv("LC_ALL", "C.UTF-8", 1);
    sched_buf=mmap(0, 4<<20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    while (fgets(line, sizeof(line), stdin))
    {
        char *p=line, *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        *sched_buf=0;
        pid_t pid=fork();
        if (!pid)
        {
            char *mode=strsep(&p, "|"), *file=strsep(&p, "|"), *e;
            char *size=strsep(&p, "|"), *ends=strsep(&p, "|");
            feed=strsep(&p, "|");
            char *keys=strsep(&p, "|");
            W=strtol(size, &e, 10);
            H=strtol(e, 0, 10);
            int f=__real_open(file, O_RDONLY), len=lseek(f, 0, SEEK_END);
            char *data=mmap(0, len+1, PROT_READ, MAP_PRIVATE, f, 0);
            tty x=tty_init(W, H, 1);
            want[nwant++]=tty_copy(x);
            for (e=ends;;)
            {
                char *q;
                int a=strtol(e, &q, 10);
                if (q==e)
                    break;
                int b=strtol(q, &e, 10);
                tty_write(x, data+a, b-a);
                want[nwant++]=tty_copy(x);
            }
            out=tty_init(W, H, 1);
            char *av[32];
            int ac=0;
            av[ac++]="termplay";
            while (ac<30 && (e=strsep(&p, " ")))
                if (*e)
                    av[ac++]=e;
            av[ac++]=path=strdup(file);
            av[ac]=0;
            if (*mode=='y')
                yields=1, mode+=2;
            if (*mode=='a')
                tsan_yields=strtol(mode+1, &mode, 10), mode++;
            if (*mode=='s')
                sched_spurious(strtol(mode+2, &mode, 10)), mode++;
            sched_choices(mode);
            stdout=fopencookie(0, "w", (cookie_io_functions_t){0, put, 0, 0});
            stdout->_fileno=1;          // what is asked about its size
            sched_leave=leave;
            sched_init();
            sched_keys(keys);
            alarm(30);
            int r=termplay_main(ac, av);
            fflush(stdout);
            sched_log("gone %lld %d %d\n", sched_now-sched_start, r, shown());
            __real__exit(r);
        }
        int status;
        static int hung;
        if (hung>1)
        {
            kill(pid, SIGKILL);     // enough was seen
            *sched_buf=0;
        }
        waitpid(pid, &status, 0);
        if (WIFSIGNALED(status) && WTERMSIG(status)==SIGALRM)
            hung++;
        fputs(sched_buf, stdout);
        printf("= %d\n", WIFSIGNALED(status)? -WTERMSIG(status) : WEXITSTATUS(status));
        fflush(stdout);
    }
    return 0;
}
