/* Prints the 32-bit and 12-bit tables of the headers DEC and ENC for one byte order. */
#define BASE64_WORDSIZE 32
#include DEC
#ifdef ENC
#include ENC
#endif
#include <stdio.h>
#define P(s, t) printf(s); for (unsigned i = 0; i < sizeof t / sizeof *t; i++) printf(" %lu", (unsigned long)t[i]); printf("\n")
int main (void)
{
	P("D0", D0); P("D1", D1); P("D2", D2); P("D3", D3);
#ifdef ENC
	P("E12", E12);
#endif
#ifdef CHAR62
	printf("chars %d %d %d\n", CHAR62, CHAR63, CHARPAD);
#endif
	return 0;
}
