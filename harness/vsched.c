#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>

#define MAXT 256
#define MAXM 64
#define BUFSZ (4<<20)

enum { RUN, MUTEX, COND, READ, WRITE, SLEEP, KEY, JOIN, DONE };

static struct thr
{
    int used, st, fd, signalled, join;
    int cancelled, nocancel, point;     // point: in a cancellation point
    usec until;                         // -1: never
    void *mutex, *cond;
    void *(*start)(void*);
    void *arg, *ret;
    pthread_t th;
    pthread_cond_t turn;
    int prio, detached;
    char name[16];
} T[MAXT];
static int nthr, cur, on, steps;
static pthread_mutex_t G=PTHREAD_MUTEX_INITIALIZER;
static __thread int me=-1;
static struct { void *m; int owner; } M[MAXM];
static struct feed { int fd, n; usec at; } F[4096];
static int nfeed;
static struct { usec at; int ch; } K[4096];
static int nkey, keypos;
usec sched_start=1000000000000000LL, sched_now=1000000000000000LL;
void (*sched_leave)(void), (*sched_sending)(void);
char *sched_buf;
static int blen;
int sched_limit=2000000;
static int spurious;

extern int __real_pthread_mutex_lock(pthread_mutex_t*), __real_pthread_mutex_unlock(pthread_mutex_t*);
extern int __real_pthread_mutex_trylock(pthread_mutex_t*);
extern int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*), __real_pthread_cond_signal(pthread_cond_t*);
extern int __real_pthread_cond_broadcast(pthread_cond_t*);
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
extern int __real_pthread_join(pthread_t, void**);
extern int __real_pthread_cancel(pthread_t);
extern int __real_pthread_detach(pthread_t);
extern ssize_t __real_read(int, void*, size_t), __real_write(int, const void*, size_t);
extern int __real_close(int), __real_pipe(int*);
extern ssize_t __real_recv(int, void*, size_t, int), __real_send(int, const void*, size_t, int);
extern FILE *__real_fdopen(int, const char*);

void sched_log(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (sched_buf && blen<BUFSZ-65536)
    {
        blen+=vsnprintf(sched_buf+blen, 60000, fmt, ap);
        sched_buf[blen]=0;
    }
    va_end(ap);
}

/* choices */

static char cmode; static int clist[65536], ncl, cpos;
static unsigned long long rs; static int rate, changes[64], nchanges;
static unsigned rnd(unsigned n)
{
    rs=rs*6364136223846793005ULL+1442695040888963407ULL;
    unsigned x=rs>>33;
    return n? x%n : x;
}
void sched_choices(const char *spec)
{
    char *e; const char *p;
    if (!strncmp(spec, "list", 4))
    {
        cmode='l';
        for (p=spec+4; clist[ncl]=strtol(p, &e, 10), e!=p; p=e)
            ncl++;
    }
    else
    {
        cmode= *spec;
        rs=strtoull(strchr(spec, ' '), &e, 10);
        rate=strtol(e, 0, 10);
        for (int i=0; i<10; i++)
            rnd(0);
        if (cmode=='p')
            for (nchanges=0; nchanges<rate && nchanges<64; nchanges++)
                changes[nchanges]=rnd(rnd(3)? 60 : 600);
    }
}
// pick one of n; 0 is what goes on when one doesn't care
static int choose(int n, int what)
{
    int c=0;
    if (n<2)
        return 0;
    switch (cmode)
    {
    case 'l':
        c= cpos<ncl? clist[cpos] : 0;
        cpos++;
        if (c>=n)
            c=0;
        sched_log("? %d %d %d\n", n, c, what);
        break;
    case 'r':
        if (rnd(1000)<rate)
            c=rnd(n);
        break;
    }
    return c;
}
void sched_spurious(int permille) { spurious=permille; }

/* threads */

static struct feed *feed_of(int fd)
{
    for (int i=0; i<nfeed; i++)
        if (F[i].fd==fd && F[i].n)
            return F+i;
    return 0;
}
static int fed(int fd)
{
    for (int i=0; i<nfeed; i++)
        if (F[i].fd==fd)
            return 1;
    return 0;
}
void sched_feed(int fd, usec at, int n)
{
    F[nfeed++]=(struct feed){fd, n, at};
}
void sched_keys(const char *p)
{
    char *e;
    while (*p)
    {
        usec t=sched_start+strtoll(p, &e, 10);
        if (e==p)
            break;
        for (e++; *e && *e!=' '; e+=2)
        {
            char h[3]={e[0], e[1], 0};
            K[nkey].at=t;
            K[nkey++].ch=strtol(h, 0, 16);
        }
        for (p=e; *p==' '; p++)
            ;
        K[nkey].at=t;
        K[nkey].ch=EOF;
    }
}
static int owner(void *m)
{
    for (int i=0; i<MAXM; i++)
        if (M[i].m==m)
            return M[i].owner;
    return -1;
}
static void set_owner(void *m, int t)
{
    for (int i=0; i<MAXM; i++)
        if (M[i].m==m || !M[i].m)
        {
            M[i].m=m;
            M[i].owner=t;
            return;
        }
    abort();
}
static int ready(int fd, int ev)
{
    struct pollfd p={fd, ev, 0};
    return poll(&p, 1, 0)!=0;
}
static int enabled(struct thr *t)
{
    struct feed *f;
    int c=t->cancelled && !t->nocancel && t->point;
    switch (t->st)
    {
    case RUN:
        return 1;
    case MUTEX:
        return owner(t->mutex)<0;
    case COND:
        return (t->signalled || c || (t->until>=0 && t->until<=sched_now)) && owner(t->mutex)<0;
    case READ:
        if (c)
            return 1;
        if (fed(t->fd))
            return !(f=feed_of(t->fd)) || f->at<=sched_now;
        return ready(t->fd, POLLIN);
    case WRITE:
        return c || ready(t->fd, POLLOUT);
    case SLEEP:
        return c || (t->until>=0 && t->until<=sched_now);
    case KEY:
        return c || K[keypos].at<=sched_now;
    case JOIN:
        return c || T[t->join].st==DONE;
    }
    return 0;
}
static usec deadline(struct thr *t)
{
    struct feed *f;
    switch (t->st)
    {
    case COND: case SLEEP:
        return t->until;
    case READ:
        return (f=feed_of(t->fd))? f->at : -1;
    case KEY:
        return K[keypos].at;
    }
    return -1;
}
static void dead(const char *why)
{
    sched_log("%s\n", why);
    for (int i=0; i<nthr; i++)
        if (T[i].st!=DONE)
            sched_log("stuck %s %d\n", T[i].name, T[i].st);
    syscall(231, 3);    // exit_group
}
// pick who goes on and wait for our turn
static void next(void)
{
    int e[MAXT], n;
    if (++steps>sched_limit)
        dead("livelock");
    for (;;)
    {
        n=0;
        if (enabled(T+cur))
            e[n++]=cur;
        for (int i=0; i<nthr; i++)
            if (i!=cur && T[i].used && enabled(T+i))
                e[n++]=i;
        if (spurious && rnd(1000)<spurious)
            for (int i=0; i<nthr; i++)
                if (T[i].st==COND && owner(T[i].mutex)<0)
                    T[i].signalled=1;
        if (n)
            break;
        usec d=-1;
        for (int i=0; i<nthr; i++)
        {
            usec x=deadline(T+i);
            if (x>=0 && x>sched_now && (d<0 || x<d))
                d=x;
        }
        if (d<0)
            dead("deadlock");
        if (sched_leave)
            sched_leave();
        sched_now=d;
    }
    int c;
    if (cmode=='p')
    {
        for (int i=0; i<nchanges; i++)
            if (changes[i]==steps)
                T[cur].prio=-i-1;
        c=0;
        for (int i=1; i<n; i++)
            if (T[e[i]].prio>T[e[c]].prio)
                c=i;
    }
    else
        c=choose(n, e[0]==cur);
    cur=e[c];
    if (cur!=me)
    {
        __real_pthread_cond_signal(&T[cur].turn);
        if (me<0 || T[me].st==DONE)
            return;
        while (cur!=me)
            __real_pthread_cond_wait(&T[me].turn, &G);
    }
    // taken
    T[me].point=0;
}
#define IN __real_pthread_mutex_lock(&G)
#define OUT __real_pthread_mutex_unlock(&G)
#define MINE (on && me>=0)

static void maybe_cancel(void)
{
    if (T[me].cancelled && !T[me].nocancel)
    {
        T[me].cancelled=0;
        OUT;
        pthread_exit(PTHREAD_CANCELED);
    }
}
static void wait_in(int st, int point)
{
    T[me].st=st;
    T[me].point=point;
    next();
    T[me].st=RUN;
}

static void ended(void *arg)
{
    IN;
    T[me].st=DONE;
    if (on)
        next();
    OUT;
}
static void *run(void *arg)
{
    struct thr *t=arg;
    me=t-T;
    IN;
    while (cur!=me)
        __real_pthread_cond_wait(&t->turn, &G);
    OUT;
    void *ret;
    pthread_cleanup_push(ended, 0);
    ret=t->start(t->arg);
    t->ret=ret;
    pthread_cleanup_pop(1);
    return ret;
}

void sched_init(void)
{
    if (!sched_buf)
        sched_buf=mmap(0, BUFSZ, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    blen=0;
    sched_buf[0]=0;
    me=0;
    nthr=1;
    on=1;
    T[0].used=1;
    T[0].st=RUN;
    T[0].prio=rnd(1000000);
    T[0].th=pthread_self();
    strcpy(T[0].name, "main");
    pthread_cond_init(&T[0].turn, 0);
}
void sched_end(void) { on=0; }
void sched_name(const char *n) { snprintf(T[me].name, sizeof(T[me].name), "%s", n); }

int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void*(*start)(void*), void *arg)
{
    if (!MINE)
        return __real_pthread_create(th, at, start, arg);
    IN;
    if (nthr==MAXT)
        dead("threads");
    struct thr *t=T+nthr;
    int ds=0;
    if (at)
        pthread_attr_getdetachstate(at, &ds);
    t->start=start;
    t->arg=arg;
    t->used=1;
    t->detached= ds==PTHREAD_CREATE_DETACHED;
    t->prio=rnd(1000000);
    snprintf(t->name, sizeof(t->name), "t%d", nthr);
    pthread_cond_init(&t->turn, 0);
    int r=__real_pthread_create(th, at, run, t);
    if (!r)
    {
        t->th= *th;
        t->st=RUN;
        nthr++;
        next();
    }
    OUT;
    return r;
}
int __wrap_pthread_join(pthread_t th, void **ret)
{
    if (!MINE)
        return __real_pthread_join(th, ret);
    IN;
    for (int i=0; i<nthr; i++)
        if (T[i].used && !T[i].detached && pthread_equal(T[i].th, th))
        {
            T[me].join=i;
            wait_in(JOIN, 1);
            if (T[i].st!=DONE)
                maybe_cancel();
            T[i].detached=1;
            break;
        }
    OUT;
    return __real_pthread_join(th, ret);
}
int __wrap_pthread_detach(pthread_t th)
{
    return __real_pthread_detach(th);
}
int __wrap_pthread_cancel(pthread_t th)
{
    if (!MINE)
        return __real_pthread_cancel(th);
    IN;
    for (int i=0; i<nthr; i++)
        if (T[i].used && T[i].st!=DONE && pthread_equal(T[i].th, th))
            T[i].cancelled=1;
    next();
    OUT;
    return 0;
}
int __wrap_pthread_setcancelstate(int s, int *old)
{
    if (!MINE)
        return 0;
    if (old)
        *old= T[me].nocancel? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    T[me].nocancel= s==PTHREAD_CANCEL_DISABLE;
    return 0;
}
void __wrap_pthread_testcancel(void)
{
    if (!MINE)
        return;
    IN;
    T[me].point=1;
    next();
    maybe_cancel();
    OUT;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!MINE)
        return __real_pthread_mutex_lock(m);
    IN;
    T[me].mutex=m;
    wait_in(MUTEX, 0);
    set_owner(m, me);
    OUT;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!MINE)
        return __real_pthread_mutex_trylock(m);
    int r=EBUSY;
    IN;
    next();
    if (owner(m)<0)
        set_owner(m, me), r=0;
    OUT;
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!MINE)
        return __real_pthread_mutex_unlock(m);
    IN;
    set_owner(m, -1);
    next();
    OUT;
    return 0;
}
int sched_waiting(void)
{
    int n=0;
    for (int i=0; i<nthr; i++)
        n+= T[i].st==COND && T[i].until<0;
    return n;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, usec until)
{
    int r=0;
    IN;
    T[me].cond=c;
    T[me].mutex=m;
    T[me].signalled=0;
    T[me].until=until;
    set_owner(m, -1);
    wait_in(COND, 1);
    set_owner(m, me);
    if (!T[me].signalled)
    {
        maybe_cancel();
        r=ETIMEDOUT;
    }
    T[me].cond=0;
    T[me].until=-1;
    OUT;
    return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!MINE)
        return __real_pthread_cond_wait(c, m);
    return cond_wait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    return cond_wait(c, m, ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000);
}
static int wake(pthread_cond_t *c, int all)
{
    int w[MAXT], n=0;
    IN;
    for (int i=0; i<nthr; i++)
        if (T[i].st==COND && T[i].cond==c && !T[i].signalled)
            w[n++]=i;
    if (all)
        while (n)
            T[w[--n]].signalled=1;
    else if (n)
        T[w[choose(n, 2)]].signalled=1;
    next();
    OUT;
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    return MINE? wake(c, 0) : __real_pthread_cond_signal(c);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    return MINE? wake(c, 1) : __real_pthread_cond_broadcast(c);
}

/* files */

ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!MINE)
        return __real_read(fd, b, n);
    IN;
    T[me].fd=fd;
    wait_in(READ, 1);
    maybe_cancel();
    ssize_t r;
    struct feed *f=feed_of(fd);
    if (f)
    {
        if (f->n==-1)
            r=0;
        else
        {
            r=__real_read(fd, b, n<f->n? n : f->n);
            f->n-= r<0? 0 : r;
        }
        sched_log("arr %lld %ld\n", sched_now-sched_start, (long)r);
    }
    else if (fed(fd))
        r=0;
    else
        r=__real_read(fd, b, n);
    int e=errno;
    OUT;
    errno=e;
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!MINE)
        return __real_write(fd, b, n);
    struct stat st;
    IN;
    T[me].fd=fd;
    ssize_t r, w=0;
    if (fstat(fd, &st) || !S_ISFIFO(st.st_mode))
    {
        T[me].st=RUN;
        T[me].point=1;
        next();
        maybe_cancel();
        if (sched_sending)
            sched_sending();
        r=__real_write(fd, b, n);
        int e=errno;
        OUT;
        errno=e;
        return r;
    }
    do
    {
        wait_in(WRITE, 1);
        if (!w)
            maybe_cancel();
        int fl=fcntl(fd, F_GETFL);
        fcntl(fd, F_SETFL, fl|O_NONBLOCK);
        r=__real_write(fd, (const char*)b+w, n-w>4096? 4096 : n-w);
        int e=errno;
        fcntl(fd, F_SETFL, fl);
        errno=e;
        if (r<0 && e==EAGAIN)
            r=0;
        else if (r<0)
            break;
        w+=r;
    } while (w<n);
    int e=errno;
    OUT;
    errno=e;
    return w? w : r;
}
// only feeds are said by sched_feed, so flags don't matter
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags)
{
    if (!MINE || !fed(fd))
        return __real_recv(fd, b, n, flags);
    return __wrap_read(fd, b, n);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags)
{
    if (!MINE)
        return __real_send(fd, b, n, flags);
    IN;
    T[me].point=1;
    next();
    maybe_cancel();
    if (sched_sending)
        sched_sending();
    ssize_t r=__real_send(fd, b, n, flags);
    int e=errno;
    OUT;
    errno=e;
    return r;
}
int __wrap_close(int fd)
{
    if (!MINE)
        return __real_close(fd);
    IN;
    T[me].point=1;
    next();
    maybe_cancel();
    int r=__real_close(fd);
    OUT;
    return r;
}
int __wrap_pipe(int *p)
{
    int r=__real_pipe(p);
    if (!r && MINE)
        fcntl(p[0], F_SETPIPE_SZ, 4096);
    return r;
}

static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read((long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r=__wrap_write((long)c, b, n); return r<0? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w)
{
    off64_t r=lseek64((long)c, *o, w);
    if (r==-1)
        return -1;
    *o=r;
    return 0;
}
static int ck_close(void *c) { return __wrap_close((long)c); }
FILE *__wrap_fdopen(int fd, const char *mode)
{
    if (!MINE)
        return __real_fdopen(fd, mode);
    if (fcntl(fd, F_GETFD)==-1)
        return 0;
    cookie_io_functions_t io={ck_read, ck_write, ck_seek, ck_close};
    return fopencookie((void*)(long)fd, mode, io);
}

/* time and keys */

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    tv->tv_sec=sched_now/1000000;
    tv->tv_usec=sched_now%1000000;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    ts->tv_sec=sched_now/1000000;
    ts->tv_nsec=sched_now%1000000*1000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    time_t x=sched_now/1000000;
    if (t)
        *t=x;
    return x;
}
static int snooze(usec d)
{
    if (!MINE)
        return 0;
    IN;
    T[me].until= d<0? -1 : sched_now+d;
    wait_in(SLEEP, 1);
    maybe_cancel();
    OUT;
    return 0;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (r || w || x)
        dead("select");
    if (tv && (tv->tv_sec<0 || tv->tv_usec<0 || tv->tv_usec>999999))
    {
        if (tv->tv_sec>=0)
            sched_log("badtime select\n");
        errno=EINVAL;
        return -1;
    }
    snooze(tv? tv->tv_sec*1000000LL+tv->tv_usec : -1);
    if (tv)
        tv->tv_sec=tv->tv_usec=0;
    return 0;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (ts->tv_sec<0 || ts->tv_nsec<0 || ts->tv_nsec>999999999)
    {
        errno=EINVAL;
        return -1;
    }
    return snooze(ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000);
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem)
{
    usec d=ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000;
    if (flags)
        d= d>sched_now? d-sched_now : 0;
    snooze(d);
    return 0;
}
int __wrap_usleep(useconds_t u) { return snooze(u); }
unsigned __wrap_sleep(unsigned s) { return snooze(s*1000000LL); }

static int key(void)
{
    IN;
    wait_in(KEY, 1);
    maybe_cancel();
    int c=K[keypos].ch;
    sched_log("key %lld %d\n", sched_now-sched_start, c);
    if (keypos<nkey)
        keypos++;
    OUT;
    return c;
}
extern int __real_getc(FILE*), __real_getchar(void), __real_fgetc(FILE*);
int __wrap_getchar(void) { return MINE? key() : __real_getchar(); }
int __wrap_getc(FILE *f) { return MINE && f==stdin? key() : __real_getc(f); }
int __wrap_fgetc(FILE *f) { return MINE && f==stdin? key() : __real_fgetc(f); }

/* a place where a thread may be interrupted or, if point, cancelled */
void sched_yield_here(int point)
{
    if (!MINE)
        return;
    IN;
    T[me].point=point;
    next();
    if (point)
        maybe_cancel();
    OUT;
}
