// Converts colours: "mode value mode" on standard input, the result printed.
#include "config.h"
#include <stdio.h>
#include <stdint.h>
#include "tty.h"

int main(void)
{
    unsigned m, v, to;
    while (scanf("%u %u %u", &m, &v, &to)==3)
        printf("%u\n", (unsigned)(tty_color_convert(m<<24|v, to)&0xffffff));
    return 0;
}
