#include "h.h"
#include "utf8.h"
#include "tables.h"	/* CP866[256], CP1251[256], generated by the check from Python's codecs */

#define NCP 0x110000
static void harness_init(void) { }
/* code points; single bytes and pairs of bytes of both code pages */
int op_count(void) { return NCP + 2 * 256 * 256; }
void op_name(int op, char *o)
{
	if (op < NCP) sprintf(o, "U+%04X", op);
	else { op -= NCP; sprintf(o, "%s bytes %02x %02x", op / 65536 ? "cp1251" : "cp866", op % 65536 / 256, op % 256); }
}
static size_t enc(char32_t c, unsigned char *b)
{
	if (c < 0x80) { b[0] = (unsigned char)c; return 1; }
	if (c < 0x800) { b[0] = 0xC0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { b[0] = 0xE0 | c >> 12; b[1] = 0x80 | ((c >> 6) & 63); b[2] = 0x80 | (c & 63); return 3; }
	b[0] = 0xF0 | c >> 18; b[1] = 0x80 | ((c >> 12) & 63); b[2] = 0x80 | ((c >> 6) & 63); b[3] = 0x80 | (c & 63);
	return 4;
}
void run(const int *ops, int n)
{
	if (n == 0) return;
	int op = ops[0];
	if (op < NCP)
	{
		const char32_t c = (char32_t)op;
		unsigned char e[4];
		const size_t size = enc(c, e);
		char *b = malloc(size + 1);
		CHECK(utf8_size(c) == size, "size is %zu", utf8_size(c));
		CHECK(utf8_to_string(b, c) == size, "encoded size differs");
		CHECK(memcmp(b, e, size) == 0 && b[size] == 0, "encoded bytes differ");
		CHECK(utf8_symbol_size(b[0]) == size, "size by first byte differs");
		CHECK(utf8_convert(b) == c, "decoded as U+%04X", (unsigned)utf8_convert(b));
		for (size_t i = 0; i < size; i++) CHECK(utf8_to_first_byte(b, i) == 0, "first byte from byte %zu differs", i);
		free(b);
		b = malloc(2 * size + 2);
		b[0] = 'a';
		memcpy(b + 1, e, size); memcpy(b + 1 + size, e, size); b[2 * size + 1] = 0;
		for (size_t i = 0; i < size; i++) CHECK(utf8_to_first_byte(b, 1 + size + i) == 1 + size && utf8_to_first_byte(b, 1 + i) == 1, "first byte inside a text differs");
		free(b);
		const bool rus = c == 0x401 || c == 0x451 || (c >= 0x410 && c <= 0x44f);
		const bool lat = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
		const bool dig = c >= '0' && c <= '9';
		CHECK(utf8_is_russian(c) == rus, "Russian letter: %d", utf8_is_russian(c));
		CHECK(utf8_is_letter(c) == (rus || lat || c == '_'), "letter: %d", utf8_is_letter(c));
		CHECK(utf8_is_digit(c) == dig, "digit: %d", utf8_is_digit(c));
		const bool hex = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
		CHECK(utf8_is_hexa_digit(c) == hex, "hexadecimal digit: %d", utf8_is_hexa_digit(c));
		if (hex) CHECK(utf8_to_number(c) == (dig ? c - '0' : (c | 32) - 'a' + 10), "value of the digit is %d", utf8_to_number(c));
		CHECK(utf8_is_power(c) == (c == 'e' || c == 'E' || c == 0x435 || c == 0x415), "exponent mark: %d", utf8_is_power(c));
		const char32_t up = utf8_to_upper(c);
		const char32_t eu = c >= 'a' && c <= 'z' ? c - 32 : c >= 0x430 && c <= 0x44f ? c - 32 : c;
		CHECK(up == eu || (c == 0x451 && up == 0x401), "upper case is U+%04X", (unsigned)up);
		return;
	}
	op -= NCP;
	const int page = op / 65536, x = op % 65536 / 256, y = op % 256;
	if (x == 0) return;
	const unsigned *T = page ? CP1251 : CP866;
	char src[3] = { (char)x, (char)y, 0 }, u8[16], back[8], exp[16];
	size_t el = 0;
	for (int i = 0; src[i]; i++) el += enc(T[(unsigned char)src[i]], (unsigned char *)exp + el);
	exp[el] = 0;
	CHECK((page ? utf8_from_cp1251(src, u8) : utf8_from_cp866(src, u8)) == el, "converted length differs");
	CHECK(memcmp(u8, exp, el + 1) == 0, "converted text differs");
	const size_t bl = page ? utf8_to_cp1251(u8, back) : utf8_to_cp866(u8, back);
	CHECK(bl == strlen(src), "length after converting back differs");
	for (size_t i = 0; i < bl; i++)
		CHECK(back[i] == (T[(unsigned char)src[i]] == 0xFFFD ? 0x1A : src[i]), "byte %zu after converting back is %02x", i, (unsigned char)back[i]);
}
