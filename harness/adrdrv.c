// Opens streams from the network, each line of standard input in a process of
// its own; no connection is ever made:  mode | url (hex) | answers | data (hex)
// mode: R, W, A or P (read, write, append, watch); answers: "-" if nobody knows the host, or for each of its
// addresses: 1 it answers, i so but we are interrupted, 0 it doesn't, x there
// are no sockets for it.  Output:
//   try hex-of-host port n     a connection tried, to the n-th address
//   = result told left         result of open_stream (0 or 1), if there was a
//                              message, how many descriptors are left open
//   data hex                   what came over the connection
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include "ttyrec.h"
#include "jout.h"

static char *answers, *data;
static int ndata, peer=-1, writing, nsock, again;
static char *hosts[200];
static int nhosts;

static void hex(const char *s, int n)
{
    for (int i=0; i<n; i++)
        printf("%02x", (unsigned char)s[i]);
}

int __wrap_getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **ai)
{
    int port=0, n=strlen(answers);
    char *e;
    if (service)
    {
        unsigned long p=strtoul(service, &e, 10);
        if (!*service || *e)
            return EAI_SERVICE;
        port=p&0xffff;          // some don't check
    }
    if (*answers=='-')
        return EAI_NONAME;
    hosts[nhosts]=strdup(host? host : "(none)");
    struct addrinfo *a=0;
    while (n)
    {
        struct addrinfo *b=calloc(1, sizeof(*b));
        b->ai_socktype=SOCK_STREAM;
        b->ai_protocol=IPPROTO_TCP;
        b->ai_next=a;
        if (n&1)
        {
            struct sockaddr_in *s=calloc(1, sizeof(*s));
            s->sin_family=b->ai_family=AF_INET;
            s->sin_port=htons(port);
            s->sin_addr.s_addr=htonl(10<<24|nhosts<<8|n);
            b->ai_addr=(void*)s;
            b->ai_addrlen=sizeof(*s);
        }
        else
        {
            struct sockaddr_in6 *s=calloc(1, sizeof(*s));
            s->sin6_family=b->ai_family=AF_INET6;
            s->sin6_port=htons(port);
            s->sin6_addr.s6_addr[0]=0xfd;
            s->sin6_addr.s6_addr[14]=nhosts;
            s->sin6_addr.s6_addr[15]=n;
            b->ai_addr=(void*)s;
            b->ai_addrlen=sizeof(*s);
        }
        a=b;
        n--;
    }
    nhosts++;
    *ai=a;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *ai)
{
    for (struct addrinfo *n; ai; ai=n)
    {
        n=ai->ai_next;
        free(ai->ai_addr);
        free(ai);
    }
}
int __wrap_socket(int d, int ty, int pr)
{
    // the address it is for is the next one
    int n=++nsock;
    if (n<=strlen(answers) && answers[n-1]=='x')
        return errno=EAFNOSUPPORT, -1;
    return open("/dev/null", O_RDWR);
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    int h, n, port;
    if (sa->sa_family==AF_INET)
    {
        struct sockaddr_in *s=(void*)sa;
        uint32_t a=ntohl(s->sin_addr.s_addr);
        h=a>>8&255, n=a&255, port=ntohs(s->sin_port);
    }
    else
    {
        struct sockaddr_in6 *s=(void*)sa;
        h=s->sin6_addr.s6_addr[14], n=s->sin6_addr.s6_addr[15], port=ntohs(s->sin6_port);
    }
    if (again)
        return again=0;
    printf("try ");
    if (h<nhosts)
        hex(hosts[h], strlen(hosts[h]));
    printf(" %d %d\n", port, n);
    nsock=n;
    if (answers[n-1]!='1' && answers[n-1]!='i')
        return errno=ECONNREFUSED, -1;
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s))
        exit(9);
    peer=dup2(s[1], 200);
    close(s[1]);
    if (!writing && write(peer, data, ndata)!=ndata)
        exit(9);
    if (!writing)
        shutdown(peer, SHUT_WR);
    dup2(s[0], fd);
    close(s[0]);
    if (answers[n-1]=='i')
        return again=1, errno=EINTR, -1;
    return 0;
}

static int nfds(void)
{
    int n=0;
    for (int i=0; i<200; i++)
        n+=fcntl(i, F_GETFD)!=-1;
    return n;
}

static void one(char *url, int mode)
{
    static char buf[65536];
    const char *error=0;
    int before=nfds(), n, got=0;
    int fd=open_stream(-1, url, mode, &error);
    if (fd!=-1)
    {
        if (writing)
        {
            if (write(fd, data, ndata)!=ndata)
                got=-1;
            close(fd);
            fd=peer;
        }
        while (got>=0 && (n=read(fd, buf+got, sizeof(buf)-got))>0)
            got+=n;
        if (!writing)
            close(fd);
    }
    if (peer!=-1)
        close(peer);
    int left;
    for (int i=0; (left=nfds()-before) && i<1000; i++)
        usleep(1000);   // until its threads are through
    printf("= %d %d %d\ndata ", fd!=-1, error && *error, left);
    hex(buf, got<0? 0 : got);
    printf("\n");
}

int main(void)
{
    static char line[1<<17];
    while (fgets(line, sizeof(line), stdin))
    {
        char *p=line, *mode=strsep(&p, "|"), *url=strsep(&p, "|");
        answers=strsep(&p, "|");
        data=strsep(&p, "|\n");
        unhex(url);
        ndata=unhex(data);
        int m=*mode=='W'? SM_WRITE : *mode=='A'? SM_APPEND : *mode=='P'? SM_REPREAD : SM_READ;
        writing=!!(m&SM_WRITE);
        fflush(stdout);
        pid_t pid=fork();
        if (!pid)
        {
            alarm(60);
            one(url, m);
            fflush(stdout);
            exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        printf("status %d\n", st);
    }
    return 0;
}
