// Tiny ndjson output helpers shared by the harnesses.
#ifndef JOUT_H
#define JOUT_H
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

// TLC integers are 32-bit signed: anything else is mapped to a value no
// specification state ever has
static long j_int(long long v)
{
    return (v>2147483647LL || v<-2147483647LL)? -2147483647L : (long)v;
}

static void j_bytes(FILE *o, const void *p, size_t n)
{
    const unsigned char *b=p;
    putc('[', o);
    for (size_t i=0; i<n; i++)
        fprintf(o, i? ",%u":"%u", b[i]);
    putc(']', o);
}

static int hexval(int c)
{
    return c>='0'&&c<='9'? c-'0' : c>='a'&&c<='f'? c-'a'+10 : -1;
}

// decodes in place, returns the length
static size_t unhex(char *s)
{
    size_t n=0;
    for (char *p=s; hexval(p[0])>=0 && hexval(p[1])>=0; p+=2)
        s[n++]=hexval(p[0])<<4|hexval(p[1]);
    s[n]=0;
    return n;
}
#endif
