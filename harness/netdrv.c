// Drives streams from the network, each line of standard input in a process
// of its own:   mode | url | size of reads | at:hex at:hex ... at:E
// The server sends the bytes at these times and then disconnects; no
// connection is ever made.  Output: "leave" with what was read and sent so
// far, each time everything waits; "end"; "= status".
// "resolve host service" tells where it would connect to.
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include "ttyrec.h"
#include "vsched.h"

extern int tsan_yields;
extern int __real_close(int);
extern ssize_t __real_read(int, void*, size_t), __real_write(int, const void*, size_t), __real_send(int, const void*, size_t, int);

static char *script;
static int peer=-1;
static usec before;     // last time before the end

int __wrap_getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **ai)
{
    static struct sockaddr_in sa={AF_INET};
    static struct addrinfo a={0, AF_INET, SOCK_STREAM, IPPROTO_TCP, sizeof(sa), (void*)&sa};
    sched_log("resolve %s %s\n", host, service);
    *ai=&a;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *ai) {}
int __wrap_socket(int d, int ty, int pr)
{
    int s[2], n=400000;
    char *e, *w=script, h[3]={0};
    static usec t[4096];
    int k=0;
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s))
        exit(9);
    before=sched_start;
    peer=dup2(s[1], 200);
    __real_close(s[1]);
    setsockopt(peer, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
    while (*w)
    {
        usec at=sched_start+strtoll(w, &e, 10);
        w=e+1;
        n=0;
        if (*w=='E')
        {
            sched_feed(s[0], at, -1);
            for (int i=0; i<k; i++)
                if (t[i]<at && t[i]>before)
                    before=t[i];
            break;
        }
        static unsigned char b[1<<17];
        for (; *w && *w!=' '; w+=2)
        {
            h[0]= *w, h[1]= w[1];
            b[n++]=strtol(h, 0, 16);
        }
        if (__real_send(peer, b, n, MSG_DONTWAIT)!=n)
            _exit(9);
        sched_feed(s[0], at, n);
        t[k++]=at;
        while (*w==' ')
            w++;
    }
    return s[0];
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) { return 0; }

static unsigned char sent[1<<16];
static int nsent;
static void drain(void)
{
    int n;
    while (peer>=0 && (n=recv(peer, sent+nsent, sizeof(sent)-nsent, MSG_DONTWAIT))>0)
        nsent+=n;
}

static char got[1<<18];
static int ngot;

static void report(const char *what)
{
    static char h[1<<19];
    int i;
    for (i=0; i<ngot; i++)
        sprintf(h+2*i, "%02x", got[i]&255);
    h[2*ngot]=0;
    ngot=0;
    sched_log("%s %lld ", what, sched_now-sched_start);
    for (i=0; i<strlen(h); i+=30000)
        sched_log("%.30000s", h+i);
    sched_log(".");
    drain();
    for (i=0; i<nsent; i++)
        sched_log("%02x", sent[i]);
    nsent=0;
    sched_log("\n");
}
static void leave(void)
{
    report("leave");
    // before the end is seen it is already gone
    if (peer>=0 && sched_now>=before)
    {
        __real_close(peer);
        peer=-1;
    }
}

static char line[1<<20];

int main()
{
    sched_buf=mmap(0, 4<<20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    while (fgets(line, sizeof(line), stdin))
    {
        char *p=line, *mode, *url, *nl=strchr(line, '\n');
        if (nl)
            *nl=0;
        mode=strsep(&p, "|");
        url=strsep(&p, "|");
        int size=atoi(strsep(&p, "|"));
        script=p;
        *sched_buf=0;
        pid_t pid=fork();
        if (!pid)
        {
            const char *err=0;
            if (*mode=='a')
                tsan_yields=strtol(mode+1, &mode, 10), mode++;
            if (*mode=='s')
                sched_spurious(strtol(mode+2, &mode, 10)), mode++;
            sched_choices(mode);
            sched_init();
            sched_leave=leave;
            sched_sending=drain;
            alarm(15);
            int f=open_stream(-1, url, SM_READ, &err), n;
            if (f==-1)
            {
                sched_log("fail %s\n", err? err : "?");
                _exit(0);
            }
            char *b=malloc(size);
            while ((n=read(f, b, size))>0)
            {
                if (ngot+n>sizeof(got))
                    _exit(9);
                memcpy(got+ngot, b, n);
                ngot+=n;
            }
            report("end");
            close(f);
            exit(0);
        }
        int status;
        static int hung;
        if (hung>2)
        {
            kill(pid, SIGKILL);     // enough was seen
            *sched_buf=0;
        }
        waitpid(pid, &status, 0);
        if (WIFSIGNALED(status) && WTERMSIG(status)==SIGALRM)
            hung++;
        fputs(sched_buf, stdout);
        printf("= %d\n", WIFSIGNALED(status)? -WTERMSIG(status) : WEXITSTATUS(status));
        fflush(stdout);
    }
    return 0;
}
