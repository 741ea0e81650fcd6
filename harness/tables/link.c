/* Prints the tables of the compiled library, as this platform has them in memory. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
extern const uint8_t base64_table_enc_6bit[], base64_table_dec_8bit[];
extern const uint32_t base64_table_dec_32bit_d0[], base64_table_dec_32bit_d1[], base64_table_dec_32bit_d2[], base64_table_dec_32bit_d3[];
extern const uint16_t base64_table_enc_12bit[];
static void bytes (const char *n, const void *p, size_t k)
{
	const unsigned char *c = p;
	printf("%s", n);
	while (k--) printf(" %d", *c++);
	printf("\n");
}
int main (void)
{
	bytes("enc6", base64_table_enc_6bit, 64);
	bytes("dec8", base64_table_dec_8bit, 256);
	bytes("d0", base64_table_dec_32bit_d0, 1024);
	bytes("d1", base64_table_dec_32bit_d1, 1024);
	bytes("d2", base64_table_dec_32bit_d2, 1024);
	bytes("d3", base64_table_dec_32bit_d3, 1024);
	bytes("enc12", base64_table_enc_12bit, 8192);
	return 0;
}
