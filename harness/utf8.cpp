// Runs requests on the conversions of libs/utils/utf8.
// Input file: cases, each  u32 op, u32 room, u32 n, n octets.  Argument 2: index of the case to start from.
// Output: "B i" before a case, "R i ..." after it.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
extern "C" {
#include "utf8.h"
}

static void hex(const char *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)p[i]); }

int main(int, char **argv)
{
	FILE *f = fopen(argv[1], "rb");
	std::string all;
	char buf[65536];
	for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0; ) all.append(buf, n);
	fclose(f);
	setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
	const int from = atoi(argv[2]);
	size_t at = 0;
	for (int i = 0; at < all.size(); i++)
	{
		uint32_t op, room, n;
		memcpy(&op, &all[at], 4); memcpy(&room, &all[at + 4], 4); memcpy(&n, &all[at + 8], 4);
		const char *data = &all[at + 12];
		at += 12 + n;
		if (i < from) continue;
		printf("B %d\n", i); fflush(stdout);
		printf("R %d ", i);
		if (op <= 4)
		{
			char *src = (char *)malloc(n + 1);
			memcpy(src, data, n); src[n] = 0;
			char *dest = (char *)malloc(room + 1);
			memset(dest, 0x5A, room + 1);
			const size_t size = op == 0 ? utf8_from_cp866(src, dest) : op == 1 ? utf8_from_cp1251(src, dest) : op == 2 ? utf8_to_cp866(src, dest)
				: op == 3 ? utf8_to_cp1251(src, dest) : utf8_transliteration(src, dest);
			printf("%zu ", size); hex(dest, room + 1);
			free(src); free(dest);
		}
		else if (op == 5)		// characters of a string, first octet of every octet
		{
			char *src = (char *)malloc(n + 1);
			memcpy(src, data, n); src[n] = 0;
			for (size_t k = 0; src[k] != 0; k += utf8_symbol_size(src[k]))
			{
				const char32_t ch = utf8_convert(&src[k]);
				printf("%zu:%x:%zu,", k, (unsigned)ch, utf8_size(ch));
			}
			printf("- ");
			for (size_t k = 0; k < n; k++) printf("%zu,", utf8_to_first_byte(src, k));
			printf("-");
			free(src);
		}
		else if (op == 6)		// encodings of a range of characters
		{
			uint32_t a, b;
			memcpy(&a, data, 4); memcpy(&b, data + 4, 4);
			for (uint64_t ch = a; ch < b; ch++)
			{
				if (ch >= 0xD800 && ch < 0xE000) continue;
				char *s = (char *)malloc(utf8_size((char32_t)ch) + 1);
				s[0] = 0;
				const size_t size = utf8_to_string(s, (char32_t)ch);
				if (size != utf8_size((char32_t)ch)) printf("!%zu!", size);
				hex(s, size + (size > 0));
				if (size > 0 && utf8_convert(s) != (char32_t)ch) printf("?%x?", (unsigned)utf8_convert(s));
				free(s);
			}
			printf("-");
		}
		else					// kinds of a range of characters
		{
			uint32_t a, b;
			memcpy(&a, data, 4); memcpy(&b, data + 4, 4);
			for (uint64_t k = a; k < b; k++)
			{
				const char32_t ch = (char32_t)k;
				const int kind = utf8_is_russian(ch) | utf8_is_letter(ch) << 1 | utf8_is_digit(ch) << 2 | utf8_is_hexa_digit(ch) << 3 | utf8_is_power(ch) << 4;
				if (kind || utf8_to_upper(ch) != ch || utf8_to_number(ch)) printf("%x:%d:%x:%d,", (unsigned)ch, kind, (unsigned)utf8_to_upper(ch), utf8_to_number(ch));
			}
			printf("-");
		}
		printf("\n");
	}
	return 0;
}
