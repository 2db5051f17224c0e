/* Included before the sources of the echo programs: their standard streams are those of the explorer. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <getopt.h>
#include <noise/protocol.h>
extern FILE *vh_out, *vh_err, *vh_in;
extern int vh_printf(const char *fmt, ...);
#undef stdout
#undef stderr
#undef stdin
#define stdout vh_out
#define stderr vh_err
#define stdin vh_in
#define printf vh_printf
#define putchar(c) fputc((c), vh_out)
#define puts(s) (fputs((s), vh_out), fputc('\n', vh_out))
