// Drives compressed streams, each line of standard input in a process of its
// own:   mode | op op op ...
// mode: "free", or choices for the scheduler ("s N " before them: spurious
// wakes).  Ops:
//   o i path w|a|r   opens stream i
//   p i path ext n   ... for reading, from a pipe that gets n bytes at a time
//   L n              files can't be longer than n; told by errors, not signals
//   s i n            goes to byte n of the data
//   w i n            writes the next n bytes of the data to it
//   r i n            reads n bytes at a time until the end; counts them
//   R i n            reads n bytes once
//   c i              closes
//   e                leaves by exit, E by returning from main
// Output: lines of what was seen, then "= status".
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include "ttyrec.h"
#include "vsched.h"

extern int tsan_yields;

static char *data;
static long size;

static int st[16];
static long pos[16];
static char *rbuf;

extern int __real_close(int), __real_pipe(int*);
extern ssize_t __real_read(int, void*, size_t), __real_write(int, const void*, size_t);

static int go(char *p)
{
    char *w;
    while ((w=strsep(&p, " ")))
    {
        if (!*w)
            continue;
        char op=*w;
        if (op=='e' || op=='E')
            sched_log("exit\n");
        if (op=='e')
            exit(0);
        if (op=='E')
            return 0;
        int i=atoi(strsep(&p, " "));
        const char *err=0;
        long n, k, t;
        switch (op)
        {
        case 'o':
            w=strsep(&p, " ");
            {
                char m=*strsep(&p, " ");
                st[i]=open_stream(-1, w, m=='w'? SM_WRITE : m=='a'? SM_APPEND : SM_READ, &err);
            }
            if (st[i]==-1)
                sched_log("fail %d %s\n", i, err? err : "?");
            break;
        case 'p':
            w=strsep(&p, " ");
            char *ext=strsep(&p, " ");
            n=atol(strsep(&p, " "));
            {
                int q[2], f=open(w, O_RDONLY), left;
                __real_pipe(q);
                if (!fork())
                {
                    __real_close(q[0]);
                    while ((k=__real_read(f, rbuf, n))>0)
                    {
                        __real_write(q[1], rbuf, k);
                        for (t=0; t<20000 && !ioctl(q[1], FIONREAD, &left) && left>0; t++)
                            usleep(t<100? 5 : 100);
                    }
                    _exit(0);
                }
                __real_close(q[1]);
                __real_close(f);
                st[i]=open_stream(q[0], ext, SM_READ, &err);
            }
            break;
        case 'w':
            n=atol(strsep(&p, " "));
            if (pos[i]+n>size)
                return 9;
            for (k=0; k<n; k+=t)
                if ((t=write(st[i], data+pos[i]+k, n-k))<=0)
                {
                    sched_log("short %d %ld\n", i, k);
                    break;
                }
            pos[i]+=n;
            break;
        case 'L':
            n=i;
            signal(SIGPIPE, SIG_IGN);
            signal(SIGXFSZ, SIG_IGN);
            if (n>=0)
                setrlimit(RLIMIT_FSIZE, &(struct rlimit){n, n});
            break;
        case 's':
            pos[i]=atol(strsep(&p, " "));
            break;
        case 'r':
            n=atol(strsep(&p, " "));
            for (t=0; (k=read(st[i], rbuf, n))>0; t+=k)
                if (__real_write(100+i, rbuf, k)!=k)
                    return 9;
            sched_log("read %d %ld %ld\n", i, t, k);
            break;
        case 'R':
            n=atol(strsep(&p, " "));
            k=read(st[i], rbuf, n);
            sched_log("once %d %ld\n", i, k);
            if (k>0)
                __real_write(100+i, rbuf, k);
            break;
        case 'c':
            if (close(st[i]))
                sched_log("close %d %d\n", i, errno);
            break;
        }
    }
    return 0;
}

static char line[1<<20];

int main(int argc, char **argv)
{
    int f=open(argv[1], O_RDONLY);
    size=lseek(f, 0, SEEK_END);
    data=mmap(0, size, PROT_READ, MAP_PRIVATE, f, 0);
    rbuf=malloc(8<<20);
    sched_buf=mmap(0, 4<<20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    while (fgets(line, sizeof(line), stdin))
    {
        char *p=line, *mode, *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        mode=strsep(&p, "|");
        *sched_buf=0;
        pid_t pid=fork();
        if (!pid)
        {
            for (int i=0; i<16; i++)    // what is read goes to argv[2]N
            {
                char n[512];
                snprintf(n, sizeof n, "%s%d", argv[2], i);
                int o=open(n, O_WRONLY|O_CREAT|O_TRUNC, 0600);
                dup2(o, 100+i);
                __real_close(o);
            }
            if (strncmp(mode, "free", 4))
            {
                if (*mode=='a')
                    tsan_yields=strtol(mode+1, &mode, 10), mode++;
                if (*mode=='s')
                    sched_spurious(strtol(mode+2, &mode, 10)), mode++;
                sched_choices(mode);
                sched_init();
            }
            alarm(30);
            return go(p);
        }
        int status;
        static int hung;
        if (hung>1)
        {
            kill(pid, SIGKILL);     // enough was seen
            *sched_buf=0;
        }
        waitpid(pid, &status, 0);
        if (WIFSIGNALED(status) && WTERMSIG(status)==SIGALRM)
            hung++;
        fputs(sched_buf, stdout);
        printf("= %d\n", WIFSIGNALED(status)? -WTERMSIG(status) : WEXITSTATUS(status));
        fflush(stdout);
    }
    return 0;
}
