/* Compiled in front of the library's files in the ref32 configuration: everything that asks for the word size from here on is told 32. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <limits.h>
#include <sys/types.h>
#undef __WORDSIZE
#define __WORDSIZE 32
