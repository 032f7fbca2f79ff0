// Runs termrec with a simulated terminal, command and clock, each line of
// standard input in a process of its own:
//   directory | arguments | charset | WxH | step ; step ; ...
// A step is what happens while termrec waits:
//   oHEX the command writes   iHEX the user types   rWxH the terminal changes
//   its size   kN a signal   tN time passes   x the command exits   z the user's
//   input ends   c the terminal is gone (a broken pipe)   E the wait is interrupted although there is something
//   R a signal came just before the wait, that doesn't interrupt it
//   wN, pN the next write to the terminal, to the command is cut to N bytes
//   @H:WxH the size changes during the next: r(ead), w(rite), g(ettimeofday),
//   i(octl), f(orkpty);   @H:kN likewise, a signal
// Output: what happens, one per line (see checks/rec.py).
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>

#define PID 4000001     // there can't be one
extern int termrec_main(int argc, char **argv);
extern int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
extern int __real_poll(struct pollfd*, nfds_t, int);
extern ssize_t __real_read(int, void*, size_t), __real_write(int, const void*, size_t);
extern pid_t __real_waitpid(pid_t, int*, int);
extern int __real_kill(pid_t, int);
extern int __real_ioctl(int, unsigned long, void*);

static int logfd=-1, term_r, term_w, ptym=-1, child=-1;
static int w0, h0, exited, cut_t=-1, cut_p=-1, idles;
static const char *charset;
static char *script;
static long long now=1000000000LL*1000000+123456;
static struct termios tios;
static char pend_hook, pend_what[64];

static void lg(const char *f, ...)
{
    static char b[1<<20];
    va_list ap;
    va_start(ap, f);
    int n=vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    for (int i=0; i<n;)
    {
        int k=__real_write(logfd, b+i, n-i);
        if (k<=0)
            _exit(9);
        i+=k;
    }
}
static void lghex(const char *what, const unsigned char *b, int n)
{
    static char h[1<<19];
    if (n*2>=sizeof(h))
        _exit(9);
    for (int i=0; i<n; i++)
        sprintf(h+2*i, "%02x", b[i]);
    h[2*n]=0;
    lg("%s %s\n", what, h);
}
static void happens(const char *what)
{
    if (*what=='k')
    {
        lg("sig %d\n", atoi(what+1));
        raise(atoi(what+1));
    }
    else
    {
        sscanf(what, "%dx%d", &w0, &h0);
        lg("size %d %d\n", w0, h0);
        raise(SIGWINCH);
    }
}
static void hook(char h)
{
    if (pend_hook==h && idles>=0)
    {
        pend_hook=0;
        happens(pend_what);
    }
}
static unsigned char buf[1<<18];
static void drain(const char *what, int fd)
{
    int n=0, k;
    if (fd<0)
        return;
    while (n<sizeof(buf) && (k=__real_read(fd, buf+n, sizeof(buf)-n))>0)
        n+=k;
    if (n)
        lghex(what, buf, n), idles=0;
}
static void observe(const char *what)
{
    drain("shown", term_r);
    drain("got", child);
    lg("%s %d\n", what, !(tios.c_oflag&OPOST) && !(tios.c_lflag&(ECHO|ICANON|ISIG|IEXTEN))
        && !(tios.c_iflag&(ICRNL|INLCR|IGNCR|ISTRIP|IXON)));
}
static int hexin(char *s)
{
    int n=0;
    char h[3]={0};
    for (; *s; s+=2)
    {
        h[0]=s[0], h[1]=s[1];
        buf[n++]=strtol(h, 0, 16);
    }
    return n;
}
static int user=-1;
// one step of the script -> 1 a signal interrupts, 2 even when there's something
static int step(void)
{
    char *s=strsep(&script, ";"), *a;
    int n, sig=0, e=0, race=0;
    if (!s)
    {
        if (++idles>300)
            lg("stuck\n"), _exit(0);
        s="x";
        s=strdup(s);
    }
    while ((a=strsep(&s, " ")))
        switch (*a)
        {
        case 'o': n=hexin(a+1);
            if (exited)
                break;
            lghex("out", buf, n);
            if (__real_write(child, buf, n)!=n)
                lg("fail\n"), _exit(0);
            break;
        case 'i': n=hexin(a+1);
            if (user<0)
                break;
            lghex("in", buf, n);
            if (__real_write(user, buf, n)!=n)
                lg("fail\n"), _exit(0);
            break;
        case 'r': happens(a+1); sig=1; break;
        case 'k': happens(a); sig=1; break;
        case 't': now+=atoll(a+1); lg("t %lld\n", now); break;
        case 'x':
            if (!exited && child>=0)
            {
                lg("exit\n");
                exited=1;
                shutdown(child, SHUT_WR);
            }
            break;
        case 'z':
            if (user>=0)
                lg("eof\n"), close(user), user=-1;
            break;
        case 'c':
            if (term_r>=0)
            {
                drain("shown", term_r);
                lg("gone\n");
                close(term_r);
                term_r=-1;
            }
            break;
        case 'E': e=1; break;
        case 'R': race=1; break;
        case 'w': cut_t=atoi(a+1); break;
        case 'p': cut_p=atoi(a+1); break;
        case '@': pend_hook=a[1]; strcpy(pend_what, a+3); break;
        }
    return sig && !race? 1+e : 0;
}
// -> -1: interrupted
static int waits(struct pollfd *p, int n)
{
    int r;
    if (child<0)
        return 0;
    observe("wait");
    do
    {
        r=step();
        if (r==2 || (r==1 && !__real_poll(p, n, 0)))
        {
            lg("intr\n");
            errno=EINTR;
            return -1;
        }
    } while (!__real_poll(p, n, 0));
    lg("go\n");
    return 0;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    struct pollfd p[64];
    int k=0;
    for (int i=0; i<n && k<64; i++)
        if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)))
            p[k].fd=i, p[k++].events=(r && FD_ISSET(i, r)? POLLIN : 0)|(w && FD_ISSET(i, w)? POLLOUT : 0);
    if (waits(p, k))
        return -1;
    return __real_select(n, r, w, e, t);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s)
{
    return __wrap_select(n, r, w, e, 0);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
    if (waits(p, n))
        return -1;
    return __real_poll(p, n, t);
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s)
{
    return __wrap_poll(p, n, -1);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    ssize_t r=__real_read(fd, b, n);
    if (fd==ptym && !r)
    {
        errno=EIO;      // as a pty does
        r=-1;
    }
    if (fd==ptym || fd==0)
    {
        int e=errno;
        hook('r');
        errno=e;
    }
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    int *c= fd==1? &cut_t : fd==ptym? &cut_p : 0;
    if (c)
        hook('w');
    if (fd==ptym && exited)
    {
        errno=EIO;
        return -1;
    }
    if (c && *c>=0 && *c<n)
    {
        if (!*c)
        {
            *c=-1;
            errno=EINTR;
            return -1;
        }
        n=*c;
        *c=-1;
    }
    return __real_write(fd, b, n);
}
int __wrap_gettimeofday(struct timeval *t, void *z)
{
    hook('g');
    t->tv_sec=now/1000000;
    t->tv_usec=now%1000000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    if (t)
        *t=now/1000000;
    return now/1000000;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    hook('g');
    t->tv_sec=now/1000000;
    t->tv_nsec=now%1000000*1000;
    return 0;
}
int __wrap_ioctl(int fd, unsigned long q, void *arg)
{
    struct winsize *s=arg;
    if (q==TIOCGWINSZ && fd>=0 && fd<=2)
    {
        hook('i');
        if (!w0 && !h0)
        {
            errno=ENOTTY;
            return -1;
        }
        memset(s, 0, sizeof(*s));
        s->ws_col=w0;
        s->ws_row=h0;
        return 0;
    }
    if (q==TIOCSWINSZ && fd==ptym)
    {
        hook('i');
        lg("told %d %d\n", s->ws_col, s->ws_row);
        return 0;
    }
    return __real_ioctl(fd, q, arg);
}
int __wrap_tcgetattr(int fd, struct termios *t)
{
    if (fd>2)
        return 0;
    *t=tios;
    return 0;
}
int __wrap_tcsetattr(int fd, int how, const struct termios *t)
{
    if (fd<=2)
        tios=*t;
    return 0;
}
int __wrap_forkpty(int *m, char *name, const struct termios *t, const struct winsize *ws)
{
    int s[2], n=1<<20;
    hook('f');
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s))
        _exit(9);
    setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
    setsockopt(s[1], SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
    child=fcntl(s[1], F_DUPFD, 200);
    close(s[1]);
    fcntl(child, F_SETFL, O_NONBLOCK);
    *m=ptym=s[0];
    if (ws)
        lg("told %d %d\n", ws->ws_col, ws->ws_row);
    return PID;
}
char *__wrap_nl_langinfo(int item) { return (char*)charset; }
int __wrap_kill(pid_t p, int s)
{
    lg("kill %d %d\n", p==PID, s);
    return 0;
}
static pid_t waited(int *st)
{
    char c;
    if (!exited && recv(child, &c, 1, MSG_PEEK|MSG_DONTWAIT)<0 && errno==EAGAIN)
        lg("hang\n"), _exit(0);
    if (st)
        *st=0;
    return PID;
}
pid_t __wrap_wait(int *st) { return waited(st); }
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return waited(st); }

static struct termios tios0;
static void at_end(void)
{
    drain("shown", term_r);
    drain("got", child);
    lg("end %d\n", !memcmp(&tios0, &tios, sizeof(tios)));
}

static char line[1<<23];

int main(void)
{
    while (fgets(line, sizeof(line), stdin))
    {
        fflush(stdout);
        pid_t pid=fork();
        if (!pid)
        {
            int p[2], n;
            char *argv[32], *l=line, *d, *a;
            line[strcspn(line, "\n")]=0;
            logfd=fcntl(1, F_DUPFD, 210);
            d=strsep(&l, "|");
            if (chdir(d))
                _exit(9);
            argv[0]="termrec";
            a=strsep(&l, "|");
            for (n=1; (argv[n]=strsep(&a, " ")); )
                if (*argv[n])
                    n++;
            charset=strsep(&l, "|");
            sscanf(strsep(&l, "|"), "%dx%d", &w0, &h0);
            script=l;
            if (pipe(p))
                _exit(9);
            fcntl(p[1], F_SETPIPE_SZ, 1<<20);
            dup2(p[0], 0);
            user=fcntl(p[1], F_DUPFD, 220);
            close(p[0]), close(p[1]);
            if (pipe(p))
                _exit(9);
            fcntl(p[1], F_SETPIPE_SZ, 1<<20);
            dup2(p[1], 1);
            term_r=fcntl(p[0], F_DUPFD, 230);
            fcntl(term_r, F_SETFL, O_NONBLOCK);
            close(p[0]), close(p[1]);
            tios.c_iflag=ICRNL|IXON;
            tios.c_oflag=OPOST|ONLCR;
            tios.c_lflag=ECHO|ICANON|ISIG|IEXTEN;
            tios.c_cflag=CS8;
            tios0=tios;
            step();     // before it starts
            atexit(at_end);
            alarm(8);
            exit(termrec_main(n, argv));
        }
        int st;
        static int hung;
        if (hung>2)
            __real_kill(pid, SIGKILL);     // enough was seen
        __real_waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM)
            hung++;
        printf("= %d\n", WIFSIGNALED(st)? -WTERMSIG(st) : WEXITSTATUS(st));
    }
    return 0;
}
