// Stores 64-bit values in numbers of every width and restores them.  Input lines: STATUS VALUE VARIABLE.
// Output lines: size, numbers, restored value, restored value of the double that has the same octets, least, greatest, does the variable fit.
#include <cstdio>
#include <cstring>
extern "C" {
#include "item.h"
}
int main()
{
	int st;
	long long v, x;
	while (scanf("%d %lld %lld", &st, &v, &x) == 3) {
		item_t a[8], b[8];
		memset(a, 0x55, sizeof a); memset(b, 0x55, sizeof b);
		double d;
		memcpy(&d, &v, 8);
		const size_t n = item_store_int64_for_target((item_status)st, v, a), m = item_store_double_for_target((item_status)st, d, b);
		if (n != m || memcmp(a, b, sizeof a)) { puts("doubles are stored in another way"); continue; }
		if (n == SIZE_MAX) { printf("none %d\n", item_restore_int64_for_target((item_status)st, a) == LLONG_MAX && item_restore_double_for_target((item_status)st, a) == DBL_MAX); continue; }
		for (size_t i = 0; i < n; i++) printf("%lld ", (long long)a[i]);
		for (size_t i = n; i < 8; i++) if (a[i] != 0x5555555555555555) printf("more than the size was written ");
		const double e = item_restore_double_for_target((item_status)st, b);
		long long w;
		memcpy(&w, &e, 8);
		item_t c[8];
		const bool own = item_store_int64(v, c) == INT64_SIZE && item_restore_int64(c) == v && item_store_double(d, c) == DOUBLE_SIZE;
		const double f = item_restore_double(c);
		printf("| %lld %lld %lld %lld %d %d\n", (long long)item_restore_int64_for_target((item_status)st, a), w, (long long)item_get_min((item_status)st), (long long)item_get_max((item_status)st), item_check_var((item_status)st, x), own && (v == LLONG_MAX || !memcmp(&d, &f, 8)));
	}
}
