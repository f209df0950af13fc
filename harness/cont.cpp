// Runs sequences of operations on the containers of libs/utils next to reference models.
// Input file: cases, each  u32 kind, u32 n, n * (i64 op, i64 a, i64 b).  Argument 2: index of the case to start from.
// Output: "B i" before a case, "R i ok EFFECTIVE TAGS" or "R i bad OP MESSAGE" after it.
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "hash.h"
#include "map.h"
#include "node_vector.h"
#include "stack.h"
#include "strings.h"
#include "tree.h"
#include "uniio.h"
#include "vector.h"
}
typedef int64_t i64;
struct Op { i64 op, a, b; };
typedef std::vector<Op> Ops;
struct Bad { std::string m; };
static int effective;
static std::set<std::string> tags;

static std::string S(i64 v) { return std::to_string(v); }
static std::string S(int v) { return std::to_string(v); }
static std::string S(size_t v) { return v == SIZE_MAX ? "SIZE_MAX" : std::to_string(v); }
static std::string S(bool v) { return v ? "true" : "false"; }
static std::string S(const std::string &v) { return "\"" + v + "\""; }
static std::string S(const char *v) { return v ? S(std::string(v)) : "NULL"; }
static std::string S(double v) { uint64_t b; memcpy(&b, &v, 8); char t[64]; snprintf(t, 64, "%a (%016llx)", v, (unsigned long long)b); return t; }
template<class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(double a, double b) { return !memcmp(&a, &b, sizeof a); }
template<class T> static void is(const char *what, const T &got, const T &want)
{
	if (!same(got, want)) throw Bad{std::string(what) + " gives " + S(got) + " instead of " + S(want)};
}
#define IS(want, call) is(#call, (call), (decltype(call))(want))
static void str(const char *what, const char *got, const char *want)
{
	if (!got != !want || (got && strcmp(got, want))) throw Bad{std::string(what) + " gives " + S(got) + " instead of " + S(want)};
}

// the largest integer stands for a failure, also in a double
static double dbl(i64 v) { double d; if (v == LLONG_MAX) return DBL_MAX; memcpy(&d, &v, 8); return d; }
static double raw(i64 v) { double d; memcpy(&d, &v, 8); return d; }
static const int D = DOUBLE_SIZE, L = INT64_SIZE;       // 1: items have 64 bits
static const size_t OUT[] = {0, 1, 2, 3, 1000, 100000, (size_t)1 << 62, SIZE_MAX - 3, SIZE_MAX - 1, SIZE_MAX};

// Index of an element, or one close to the end or far outside.
static size_t where(i64 a, size_t n)
{
	const uint64_t u = (uint64_t)a;
	if (u % 8 < 6 && n) return (u / 8) % n;
	if (u % 8 == 6) return n + (u / 8) % 3;
	const size_t o = OUT[(u / 8) % 10];
	return o < 4 ? n + o : o;
}

static void vectors(const Ops &ops)
{
	std::vector<i64> m;
	size_t alloc = 0;
	vector v;
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 a = ops[k].a, b = ops[k].b;
		if (!k) { v = vector_create((uint64_t)a % 20); IS(true, vector_is_correct(&v)); IS(0, vector_size(&v)); }
		const size_t i = where(a, m.size());
		switch ((uint64_t)ops[k].op % 17) {
		case 0: case 1: IS(m.size(), vector_add(&v, b)); m.push_back(b); effective++; break;
		case 2: IS(m.size(), vector_add_double(&v, raw(b))); m.push_back(b); effective++; break;
		case 3: IS(m.size(), vector_add_int64(&v, b)); m.push_back(b); effective++; break;
		case 4: IS(i < m.size() ? 0 : -1, vector_set(&v, i, b)); if (i < m.size()) m[i] = b, effective++; else tags.insert("outside"); break;
		case 5: IS(i < m.size() ? 1 : SIZE_MAX, vector_set_double(&v, i, raw(b))); if (i < m.size()) m[i] = b, effective++; else tags.insert("outside"); break;
		case 6: IS(i < m.size() ? 1 : SIZE_MAX, vector_set_int64(&v, i, b)); if (i < m.size()) m[i] = b, effective++; else tags.insert("outside"); break;
		case 7: IS(i < m.size() ? m[i] : ITEM_MAX, vector_get(&v, i)); break;
		case 8: IS(i < m.size() ? dbl(m[i]) : DBL_MAX, vector_get_double(&v, i)); break;
		case 9: IS(i < m.size() ? m[i] : LLONG_MAX, vector_get_int64(&v, i)); break;
		case 10: IS(m.empty() ? ITEM_MAX : m.back(), vector_remove(&v)); if (!m.empty()) m.pop_back(), effective++; break;
		case 11: IS(m.empty() ? DBL_MAX : dbl(m.back()), vector_remove_double(&v)); if (!m.empty()) m.pop_back(), effective++; break;
		case 12: IS(m.empty() ? LLONG_MAX : m.back(), vector_remove_int64(&v)); if (!m.empty()) m.pop_back(), effective++; break;
		case 13: { const size_t n = (uint64_t)b % 40; IS(0, vector_increase(&v, n)); m.resize(m.size() + n); effective++; break; }
		case 14: { const size_t n = (uint64_t)b % (2 * m.size() + 3); if (n < m.size()) tags.insert("shrink"); IS(0, vector_resize(&v, n)); m.resize(n); effective++; break; }
		case 15: IS(true, vector_is_correct(&v)); break;
		case 16: if ((uint64_t)b % 16 == 0) {
			IS(0, vector_clear(&v)); IS(-1, vector_clear(&v)); IS(false, vector_is_correct(&v)); IS(SIZE_MAX, vector_size(&v));
			IS(SIZE_MAX, vector_add(&v, 1)); IS(SIZE_MAX, vector_add_double(&v, 1)); IS(SIZE_MAX, vector_add_int64(&v, 1)); IS(-1, vector_set(&v, 0, 1));
			IS(ITEM_MAX, vector_get(&v, 0)); IS(ITEM_MAX, vector_remove(&v)); IS(-1, vector_increase(&v, 1)); IS(-1, vector_resize(&v, 1));
			v = vector_create(1); m.clear(); tags.insert("cleared");
		} break;
		}
		IS(m.size(), vector_size(&v));
		for (size_t j = 0; j < m.size(); j++) if (vector_get(&v, j) != m[j]) throw Bad{"element " + S(j) + " is " + S((i64)vector_get(&v, j)) + " instead of " + S(m[j])};
		if (m.size() > alloc) alloc = m.size();
	}
	if (alloc > 40) tags.insert("grown");
	if (!ops.empty()) IS(0, vector_clear(&v));
}

static void stacks(const Ops &ops)
{
	std::vector<i64> m;
	stack s;
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 a = ops[k].a, b = ops[k].b;
		if (!k) s = stack_create((uint64_t)a % 8);
		const bool e = m.empty();
		switch ((uint64_t)ops[k].op % 13) {
		case 0: case 10: IS(0, stack_push(&s, b)); m.push_back(b); effective++; break;
		case 1: case 11: IS(0, stack_push_double(&s, raw(b))); m.push_back(b); effective++; break;
		case 2: case 12: IS(0, stack_push_int64(&s, b)); m.push_back(b); effective++; break;
		case 3: IS(e ? ITEM_MAX : m.back(), stack_pop(&s)); if (!e) m.pop_back(), effective++; break;
		case 4: IS(e ? DBL_MAX : dbl(m.back()), stack_pop_double(&s)); if (!e) m.pop_back(), effective++; break;
		case 5: IS(e ? LLONG_MAX : m.back(), stack_pop_int64(&s)); if (!e) m.pop_back(), effective++; break;
		case 6: IS(e ? ITEM_MAX : m.back(), stack_peek(&s)); break;
		case 7: IS(e ? DBL_MAX : dbl(m.back()), stack_peek_double(&s)); break;
		case 8: IS(e ? LLONG_MAX : m.back(), stack_peek_int64(&s)); break;
		case 9: if ((uint64_t)b % 8 == 0) { IS(0, stack_reset(&s)); m.clear(); } break;
		}
		if (e && m.empty()) tags.insert("empty");
		IS(m.size(), stack_size(&s)); IS(true, stack_is_correct(&s));
	}
	if (!ops.empty()) { IS(0, stack_clear(&s)); IS(-1, stack_clear(&s)); IS(false, stack_is_correct(&s)); }
}

static void hashes(const Ops &ops)
{
	struct Rec { i64 key; std::vector<i64> v; size_t index; bool dead; };
	std::vector<Rec> recs;             // every record ever made, in order
	hash h;
	auto find = [&](i64 key) -> Rec * { for (auto &r : recs) if (!r.dead && r.key == key) return &r; return nullptr; };
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 b = ops[k].b, key = ops[k].a;
		if (!k) { h = hash_create((uint64_t)b % 3); IS(true, hash_is_correct(&h)); }
		Rec *r = find(key);
		const size_t n = r ? r->v.size() : 0, num = where(b >> 3, n);
		const size_t at = r ? r->index : SIZE_MAX;
		switch ((uint64_t)ops[k].op % 18) {
		case 0: case 1: case 2: case 15: {
			const size_t amount = (uint64_t)b % 5;
			const size_t got = hash_add(&h, key, amount);
			if (r) { is("hash_add of a present key", got, (size_t)SIZE_MAX); tags.insert("duplicate"); break; }
			if (got == SIZE_MAX) throw Bad{"hash_add fails for the new key " + S(key)};
			Rec *old = nullptr;
			for (auto &q : recs) if (q.index == got) { if (!q.dead) throw Bad{"hash_add gives the record " + S(got) + " of the live key " + S(q.key)}; old = &q; }
			if (old) {
				if (old->v.size() != amount) throw Bad{"hash_add reuses a record of another size"};
				old->dead = false; old->key = key; old->v.assign(amount, 0); tags.insert("reuse");
			} else {
				for (auto &q : recs) if (!q.dead && ((uint64_t)q.key & 255) == ((uint64_t)key & 255)) tags.insert("collision");
				recs.push_back({key, std::vector<i64>(amount), got, false});
			}
			effective++; break; }
		case 3: IS(at, hash_get_index(&h, key)); break;
		case 4: IS(n, hash_get_amount(&h, key)); IS(n, hash_get_amount_by_index(&h, at)); break;
		case 5: IS(num < n ? r->v[num] : ITEM_MAX, hash_get(&h, key, num)); IS(num < n ? r->v[num] : ITEM_MAX, hash_get_by_index(&h, at, num)); break;
		case 6: IS(num < n ? dbl(r->v[num]) : DBL_MAX, hash_get_double(&h, key, num)); IS(num < n ? dbl(r->v[num]) : DBL_MAX, hash_get_double_by_index(&h, at, num)); break;
		case 7: IS(num < n ? r->v[num] : LLONG_MAX, hash_get_int64(&h, key, num)); IS(num < n ? r->v[num] : LLONG_MAX, hash_get_int64_by_index(&h, at, num)); break;
		case 8: case 16: IS(num < n ? at : SIZE_MAX, hash_set(&h, key, num, b)); if (num < n) r->v[num] = b, effective++; else tags.insert("outside"); break;
		case 9: IS(num < n ? at : SIZE_MAX, hash_set_double(&h, key, num, raw(b))); if (num < n) r->v[num] = b, effective++; else tags.insert("outside"); break;
		case 10: IS(num < n ? at : SIZE_MAX, hash_set_int64(&h, key, num, b)); if (num < n) r->v[num] = b, effective++; else tags.insert("outside"); break;
		case 11: IS(num < n ? 0 : -1, hash_set_by_index(&h, at, num, b)); if (num < n) r->v[num] = b, effective++; break;
		case 12: IS(num < n ? 1 : SIZE_MAX, hash_set_double_by_index(&h, at, num, raw(b))); if (num < n) r->v[num] = b, effective++; break;
		case 13: case 17: IS(r ? 0 : -1, hash_remove(&h, key)); if (r) r->dead = true, effective++; break;
		case 14: IS(r ? 0 : -1, hash_remove_by_index(&h, at)); if (r) r->dead = true, effective++; break;
		}
		for (auto &q : recs) if (!q.dead) {
			if (hash_get_index(&h, q.key) != q.index || hash_get_key(&h, q.index) != q.key) throw Bad{"the record of the key " + S(q.key) + " is lost"};
			if (hash_get_amount(&h, q.key) != q.v.size()) throw Bad{"the record of the key " + S(q.key) + " has another size"};
			for (size_t j = 0; j < q.v.size(); j++) if (hash_get(&h, q.key, j) != q.v[j]) throw Bad{"value " + S(j) + " of the key " + S(q.key) + " is " + S((i64)hash_get(&h, q.key, j)) + " instead of " + S(q.v[j])};
		} else if (!find(q.key)) IS(SIZE_MAX, hash_get_index(&h, q.key));
		if (!find(key)) IS(ITEM_MAX, hash_get_key(&h, hash_get_index(&h, key)));
	}
	if (!ops.empty()) { IS(0, hash_clear(&h)); IS(-1, hash_clear(&h)); IS(false, hash_is_correct(&h)); }
}

static std::string utf8(char32_t c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
static std::string utf8(const std::u32string &t) { std::string s; for (char32_t c : t) s += utf8(c); return s; }

// A word of the family chosen by v: few letters, so that many words have equal sums; some long ones.
static std::u32string word(i64 v, bool ident)
{
	uint64_t u = (uint64_t)v;
	static const char32_t A[] = U"abcAZ_яЯж019xyz";
	static const char32_t B[] = U"aя \t\"%\x80\u07ff\u0800\uffff\U00010000\U0010ffff\n\x7f";
	std::u32string s;
	size_t n = u % 7 + 1;
	u /= 7;
	if (u % 13 == 0) n = 30 + u / 13 % 300;
	u /= 13;
	if (ident) s += U"abя#"[u % 4], u /= 4, n--;
	for (size_t i = 0; i < n; i++) { s += ident ? A[u % 15] : B[u % 14]; u = u / 15 + (n > 20 ? u * 7 + i : 0); }
	return s;
}

static void maps(const Ops &ops)
{
	map t;
	std::map<std::string, std::pair<size_t, i64>> m;
	std::map<size_t, std::string> names;
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 b = ops[k].b;
		if (!k) { t = map_create((uint64_t)b % 3 + 1); IS(true, map_is_correct(&t)); str("map_last_read of a new map", map_last_read(&t), nullptr); }
		const int mode = (uint64_t)ops[k].b % 3, op = (uint64_t)ops[k].op % 15;
		const std::u32string w = word(ops[k].a, mode == 2);
		const std::string s = utf8(w);
		std::unique_ptr<char[]> key(new char[s.size() + 1]);
		memcpy(key.get(), s.c_str(), s.size() + 1);
		std::unique_ptr<char32_t[]> key32(new char32_t[w.size() + 1]);
		for (size_t i = 0; i <= w.size(); i++) key32[i] = i < w.size() ? w[i] : 0;
		static const char32_t SEP[] = {' ', '\n', '(', ',', '#', '"', 0x2014, (char32_t)EOF};
		const char32_t sep = SEP[(uint64_t)(b >> 4) % 8];
		char32_t last = 0;
		universal_io io = io_create();
		std::string src = s + (sep == (char32_t)EOF ? "" : utf8(sep) + "tail");
		std::unique_ptr<char[]> buf(new char[src.size() + 1]);
		memcpy(buf.get(), src.c_str(), src.size() + 1);
		if (mode == 2) in_set_buffer(&io, buf.get());
		auto it = m.find(s);
		const bool has = it != m.end();
		const i64 old = has ? it->second.second : ITEM_MAX, val = b == ITEM_MAX ? 0 : b;
		const size_t at = has ? it->second.first : SIZE_MAX;
		bool fresh = false;
		auto added = [&](const char *what, size_t got, i64 value) {
			if (got == SIZE_MAX) throw Bad{std::string(what) + " fails for the new key " + S(s)};
			auto o = names.find(got);
			if (o != names.end()) throw Bad{std::string(what) + " gives the new key " + S(s) + " the index of " + S(o->second)};
			m[s] = {got, value}; names[got] = s; fresh = true; effective++;
			if (names.size() > 1 && got >= 256) tags.insert("collision");
		};
		switch (op) {
		case 0: case 1: case 2: case 3: {
			const size_t got = mode == 0 ? map_add(&t, key.get(), val) : mode == 1 ? map_add_by_utf8(&t, key32.get(), val) : map_add_by_io(&t, &io, val, &last);
			if (has) { is("map_add of a present key", got, (size_t)SIZE_MAX); tags.insert("duplicate"); } else added("map_add", got, val);
			break; }
		case 4: case 5: {
			const size_t got = mode == 0 ? map_reserve(&t, key.get()) : mode == 1 ? map_reserve_by_utf8(&t, key32.get()) : map_reserve_by_io(&t, &io, &last);
			if (has) is("map_reserve of a present key", got, at); else added("map_reserve", got, ITEM_MAX);
			break; }
		case 6: case 7: {
			const size_t got = mode == 0 ? map_set(&t, key.get(), val) : mode == 1 ? map_set_by_utf8(&t, key32.get(), val) : map_set_by_io(&t, &io, val, &last);
			is("map_set", got, at);
			if (has) it->second.second = val, effective++;
			break; }
		case 8: case 9: {
			const i64 got = mode == 0 ? map_get(&t, key.get()) : mode == 1 ? map_get_by_utf8(&t, key32.get()) : map_get_by_io(&t, &io, &last);
			is("map_get", got, old);
			break; }
		case 10: case 11: {
			const size_t got = mode == 0 ? map_get_index(&t, key.get()) : mode == 1 ? map_get_index_by_utf8(&t, key32.get()) : map_get_index_by_io(&t, &io, &last);
			is("map_get_index", got, at);
			break; }
		case 12: IS(has ? 0 : -1, map_set_by_index(&t, at, val)); if (has) it->second.second = val; break;
		case 13: IS(old, map_get_by_index(&t, at)); str("map_to_string", map_to_string(&t, at), has ? s.c_str() : nullptr);
			IS(SIZE_MAX, map_add(&t, "", 1)); IS(SIZE_MAX, map_add(&t, nullptr, 1)); IS(ITEM_MAX, map_get_by_index(&t, 1000000)); IS(SIZE_MAX, map_get_index_by_utf8(&t, nullptr)); break;
		case 14: { universal_io e = io_create(); in_set_buffer(&e, " x"); char32_t l = 0; IS(SIZE_MAX, map_add_by_io(&t, &e, 5, &l)); is("the character after a failed key", (i64)l, (i64)' '); str("map_last_read after a failed key", map_last_read(&t), nullptr); in_clear(&e); break; }
		}
		if (op < 12) {
			if (mode == 2) { tags.insert("io"); is("the character after the key", (i64)(int32_t)last, (i64)(int32_t)sep); }
			if (!fresh) str("map_last_read", map_last_read(&t), s.c_str());
		}
		in_clear(&io);
		for (auto &e : m) {
			if (map_get_by_index(&t, e.second.first) != e.second.second) throw Bad{"the key " + S(e.first) + " has the value " + S((i64)map_get_by_index(&t, e.second.first)) + " instead of " + S(e.second.second)};
			str("map_to_string", map_to_string(&t, e.second.first), e.first.c_str());
		}
		for (auto &e : m) if (map_get(&t, e.first.c_str()) != e.second.second || map_get_index(&t, e.first.c_str()) != e.second.first) throw Bad{"the key " + S(e.first) + " is lost"};
	}
	if (!ops.empty()) { IS(0, map_clear(&t)); IS(-1, map_clear(&t)); IS(false, map_is_correct(&t)); IS(SIZE_MAX, map_add(&t, "a", 1)); IS(ITEM_MAX, map_get(&t, "a")); }
}

static void stringss(const Ops &ops)
{
	strings v;
	std::vector<std::string> m;
	size_t all = 0;
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 a = ops[k].a, b = ops[k].b;
		if (!k) { v = strings_create((uint64_t)b % 4); IS(true, strings_is_correct(&v)); }
		std::u32string w = word(a, false);
		if ((uint64_t)b % 3 == 0) w = std::u32string((uint64_t)(b >> 4) % 600 + 1, U"aя\uffff\U0010ffff"[(uint64_t)a % 4]);
		const std::string s = utf8(w);
		switch ((uint64_t)ops[k].op % 9) {
		case 0: case 1: { std::unique_ptr<char[]> c(new char[s.size() + 1]); memcpy(c.get(), s.c_str(), s.size() + 1); IS(m.size(), strings_add(&v, c.get())); m.push_back(s); effective++; break; }
		case 2: case 3: { std::unique_ptr<char32_t[]> c(new char32_t[w.size() + 1]); for (size_t i = 0; i <= w.size(); i++) c[i] = i < w.size() ? w[i] : 0;
			IS(m.size(), strings_add_by_utf8(&v, c.get())); m.push_back(s); effective++; break; }
		case 4: case 5: {
			vector x = vector_create(4);
			if ((uint64_t)b % 16 == 1) w.clear();
			for (char32_t c : w) vector_add(&x, c);
			if (b & 4) { vector_add(&x, 0); if (b & 8) vector_add(&x, 'z'); }
			IS(m.size(), strings_add_by_vector(&v, &x)); m.push_back(utf8(w)); effective++;
			vector_clear(&x); break; }
		case 6: { const size_t i = where(a, m.size()); if (i < m.size()) { str("strings_get", strings_get(&v, i), m[i].c_str()); IS(m[i].size(), strings_get_length(&v, i)); }
			else { IS(nullptr, strings_get(&v, i)); IS(0, strings_get_length(&v, i)); tags.insert("outside"); } break; }
		case 7: if (m.empty()) IS(nullptr, strings_remove(&v)); else { str("strings_remove", strings_remove(&v), m.back().c_str()); m.pop_back(); effective++; tags.insert("removed"); } break;
		case 8: IS(SIZE_MAX, strings_add(&v, "")); IS(SIZE_MAX, strings_add(&v, nullptr)); { char32_t z = 0; IS(SIZE_MAX, strings_add_by_utf8(&v, &z)); } IS(SIZE_MAX, strings_add_by_vector(&v, nullptr)); break;
		}
		IS(m.size(), strings_size(&v));
		all = 0;
		for (size_t i = 0; i < m.size(); i++) { str("strings_get", strings_get(&v, i), m[i].c_str()); is("strings_get_length", strings_get_length(&v, i), m[i].size()); all += m[i].size() + 1; }
		if (all > 1024) tags.insert("grown");
	}
	if (!ops.empty()) { IS(0, strings_clear(&v)); IS(-1, strings_clear(&v)); IS(SIZE_MAX, strings_size(&v)); IS(nullptr, strings_get(&v, 0)); }
}

struct N { i64 type; std::vector<i64> args; std::vector<N *> kids; N *up; size_t save; };

static void trees(const Ops &ops)
{
	vector t = vector_create(1);
	std::vector<std::unique_ptr<N>> own;
	auto mk = [&](N *up, i64 type) { own.emplace_back(new N{type, {}, {}, up, 0}); return own.back().get(); };
	node root = node_get_root(&t);
	IS(true, node_is_correct(&root)); IS(ITEM_MAX, node_get_type(&root)); IS(-2, node_set_type(&root, 5));
	N *const top = mk(nullptr, ITEM_MAX);
	top->save = node_save(&root);
	N *newest = top;            // arguments may be added to the node made last
	node_vector nv = node_vector_create();
	std::vector<N *> nvm;
	for (size_t k = 0; k < ops.size(); k++) {
		const i64 a = ops[k].a, b = ops[k].b;
		std::vector<N *> pre;
		std::function<void(N *)> walk = [&](N *n) { pre.push_back(n); for (N *c : n->kids) walk(c); };
		walk(top);
		auto load = [&](N *n) { return node_load(&t, n->save); };
		auto above = [&](N *x, N *y) { for (; y; y = y->up) if (x == y) return true; return false; };
		auto place = [&](N *n) { size_t i = 0; while (n->up->kids[i] != n) i++; return i; };
		N *const x = pre[((uint64_t)a >> 8) % pre.size()], *const y = pre[((uint64_t)b >> 8) % pre.size()];
		node nx = load(x), ny = load(y);
		if (!node_is_correct(&nx) || !node_is_correct(&ny)) throw Bad{"node_load of a saved node fails"};
		switch ((uint64_t)ops[k].op % 18) {
		case 0: case 1: case 2: case 14: { N *p = (a & 3) || !newest ? x : newest; node np = load(p); node c = node_add_child(&np, b); IS(true, node_is_correct(&c)); N *n = mk(p, b); n->save = node_save(&c); p->kids.push_back(n); newest = n; effective++; break; }
		case 3: case 4: case 15: if (newest && newest->kids.empty()) {
			node nn = load(newest);
			switch (a & 3) { case 0: IS(0, node_add_arg_double(&nn, raw(b))); break; case 1: IS(0, node_add_arg_int64(&nn, b)); break; default: IS(0, node_add_arg(&nn, b)); }
			newest->args.push_back(b); effective++;
		} break;
		case 5: if (!x->kids.empty()) { IS(-2, node_add_arg(&nx, b)); IS(-2, node_add_arg_double(&nx, 1)); IS(-2, node_add_arg_int64(&nx, b)); tags.insert("refused"); } break;
		case 6: case 7: { const size_t n = x->args.size(), i = where(b >> 3, n);
			if (a & 1) IS(i < n ? 0 : -1, node_set_arg(&nx, i, b)); else if (a & 2) IS(i < n ? 1 : SIZE_MAX, node_set_arg_double(&nx, i, raw(b))); else IS(i < n ? 1 : SIZE_MAX, node_set_arg_int64(&nx, i, b));
			if (i < n) x->args[i] = b, effective++; else tags.insert("outside");
			IS(i < n ? x->args[i] : ITEM_MAX, node_get_arg(&nx, i)); IS(i < n ? dbl(x->args[i]) : DBL_MAX, node_get_arg_double(&nx, i)); IS(i < n ? x->args[i] : LLONG_MAX, node_get_arg_int64(&nx, i));
			break; }
		case 8: if (x != top) { IS(0, node_set_type(&nx, b)); x->type = b; effective++; } else IS(-2, node_set_type(&nx, b)); break;
		case 9: { const size_t argc = (uint64_t)b % 4;
			node c = node_insert(&nx, b, argc);
			if (x == top) { IS(false, node_is_correct(&c)); break; }
			IS(true, node_is_correct(&c));
			N *n = mk(x->up, b); n->args.assign(argc, 0); n->save = node_save(&c); n->kids = {x}; x->up->kids[place(x)] = n; x->up = n; newest = nullptr; effective++; tags.insert("insert"); break; }
		case 10: case 16: {
			if (x == top || y == top) { IS(-1, node_swap(&nx, &ny)); break; }
			if (x != y && (above(x, y) || above(y, x))) break;
			IS(0, node_swap(&nx, &ny));
			N **px = &x->up->kids[place(x)], **py = &y->up->kids[place(y)];
			if (x->up == y->up) tags.insert("swap-siblings"); else tags.insert("swap");
			std::swap(*px, *py); std::swap(x->up, y->up); effective++; break; }
		case 11: case 17: {
			if (x == top || y == top) { IS(-1, node_order(&nx, &ny)); break; }
			IS(0, node_order(&nx, &ny));
			if (x == y) break;
			// the nodes change places, the shape of the tree stays
			if (above(x, y) || above(y, x)) tags.insert("order-nested"); else tags.insert("order");
			N *ux = x->up, *uy = y->up;
			const size_t ix = place(x), iy = place(y);
			auto kx = x->kids, ky = y->kids;
			ux->kids[ix] = y; uy->kids[iy] = x;
			// an end of a direct edge is replaced by the node which takes its place
			std::vector<N *> nxk = ky, nyk = kx;
			if (uy == x) nyk[iy] = x;
			if (ux == y) nxk[ix] = y;
			x->kids = nxk; y->kids = nyk;
			x->up = uy == x ? y : uy; y->up = ux == y ? x : ux;
			for (N *c : x->kids) c->up = x;
			for (N *c : y->kids) c->up = y;
			newest = nullptr;
			effective++; break; }
		case 12: {
			if (x == top) { IS(-1, node_remove(&nx)); break; }
			bool held = false;
			for (N *n : nvm) if (above(x, n)) held = true;
			if (held) break;
			IS(0, node_remove(&nx)); IS(false, node_is_correct(&nx));
			x->up->kids.erase(x->up->kids.begin() + place(x)); newest = nullptr; effective++; tags.insert("remove"); break; }
		case 13: switch (a & 3) {
			case 0: IS(nvm.size(), node_vector_add(&nv, &nx)); nvm.push_back(x); break;
			case 1: if (!nvm.empty()) { const size_t i = where(b >> 3, nvm.size()); IS(i < nvm.size() ? 0 : -1, node_vector_set(&nv, i, &nx)); if (i < nvm.size()) nvm[i] = x; } break;
			default: { node c; IS(0, node_copy(&c, &nx)); IS(node_save(&nx), node_save(&c)); IS(-1, node_copy(nullptr, &nx)); } } break;
		}
		// the whole tree against the model
		pre.clear(); walk(top);
		node cur = node_get_root(&t);
		for (size_t i = 0; i < pre.size(); i++) {
			N *const n = pre[i];
			if (!node_is_correct(&cur)) throw Bad{"the traversal ends after " + S(i) + " of " + S(pre.size()) + " nodes"};
			if (node_save(&cur) != n->save) throw Bad{"node " + S(i) + " of the traversal is another one"};
			if (node_get_type(&cur) != n->type) throw Bad{"node " + S(i) + " has the type " + S((i64)node_get_type(&cur)) + " instead of " + S(n->type)};
			if (node_get_amount(&cur) != n->kids.size()) throw Bad{"node " + S(i) + " has " + S(node_get_amount(&cur)) + " children instead of " + S(n->kids.size())};
			if (node_get_argc(&cur) != n->args.size()) throw Bad{"node " + S(i) + " has " + S(node_get_argc(&cur)) + " arguments instead of " + S(n->args.size())};
			for (size_t j = 0; j < n->args.size(); j++) if (node_get_arg(&cur, j) != n->args[j]) throw Bad{"argument " + S(j) + " of node " + S(i) + " is " + S((i64)node_get_arg(&cur, j)) + " instead of " + S(n->args[j])};
			for (size_t j = 0; j <= n->kids.size(); j++) { node c = node_get_child(&cur, j); if (j == n->kids.size() ? node_is_correct(&c) : node_save(&c) != n->kids[j]->save) throw Bad{"child " + S(j) + " of node " + S(i) + " is another one"}; }
			node p = node_get_parent(&cur);
			if (n->up ? node_save(&p) != n->up->save : node_is_correct(&p)) throw Bad{"the parent of node " + S(i) + " is another one"};
			node q = node_get_next(&cur);
			if (i % 2) cur = q; else { const int r = node_set_next(&cur); if (r != (i + 1 < pre.size() ? 0 : -1)) throw Bad{"node_set_next of node " + S(i) + " of " + S(pre.size()) + " gives " + S(r)}; if (r) cur = q; }
		}
		if (node_is_correct(&cur)) throw Bad{"the traversal goes on after the " + S(pre.size()) + " nodes of the tree"};
		IS(nvm.size(), node_vector_size(&nv));
		for (size_t i = 0; i < nvm.size(); i++) { node c = node_vector_get(&nv, i); if (node_save(&c) != nvm[i]->save) throw Bad{"element " + S(i) + " of the node vector is another one"}; }
	}
	node_vector_clear(&nv);
	vector_clear(&t);
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "rb");
	const int from = argc > 2 ? atoi(argv[2]) : 0;
	uint32_t h[2];
	for (int i = 0; f && fread(h, 4, 2, f) == 2; i++) {
		Ops ops(h[1]);
		if (h[1] && fread(ops.data(), sizeof(Op), h[1], f) != h[1]) return 3;
		if (i < from) continue;
		printf("B %d\n", i); fflush(stdout);
		effective = 0; tags.clear();
		try {
			switch (h[0]) { case 0: vectors(ops); break; case 1: stacks(ops); break; case 2: hashes(ops); break; case 3: maps(ops); break; case 4: stringss(ops); break; default: trees(ops); }
			printf("R %d ok %d", i, effective);
			for (auto &t : tags) printf(" %s", t.c_str());
			puts("");
		} catch (const Bad &b) {
			std::string m;
			for (char c : b.m) m += c == '\n' ? ' ' : c;
			printf("R %d bad %s\n", i, m.c_str());
		}
		fflush(stdout);
	}
}
