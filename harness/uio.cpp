// Runs sequences of operations on two universal streams next to a model of them (kind, text and position of each input and output).
// Input file: cases, each  u32 kind, u32 n, n * (i64 op, i64 a, i64 b).  Argument 2: index of the case to start from.  Files are made in the current directory.
// Output: "B i" before a case, "R i ok EFFECTIVE TAGS" or "R i bad OP MESSAGE" after it.
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" {
#include "uniio.h"
#include "uniprinter.h"
#include "uniscanner.h"
}
typedef int64_t i64;
typedef std::string str;
struct Op { i64 op, a, b; };
typedef std::vector<Op> Ops;
struct Bad { str m; };
static int effective;
static std::set<str> tags;

static str S(i64 v) { return std::to_string(v); }
static str S(int v) { return std::to_string(v); }
static str S(unsigned v) { return std::to_string(v); }
static str S(size_t v) { return v == SIZE_MAX ? "SIZE_MAX" : std::to_string(v); }
static str S(bool v) { return v ? "true" : "false"; }
static str S(const str &v)
{
	str r = "\"";
	for (unsigned char c : v) { char t[8]; if (c < 32 || c == '"') { snprintf(t, 8, "\\x%02x", c); r += t; } else r += (char)c; }
	return r + "\"";
}
template<class A, class B> static void is(const str &what, const A &got, const B &want) { if (!(got == (A)want)) throw Bad{what + " gives " + S(got) + " instead of " + S((A)want)}; }
#define IS(want, call) is(#call, (call), want)

enum { NONE, FILE_, BUFFER, FUNC };
struct In { int kind = NONE; str text, path; const char *raw = nullptr; size_t pos = 0; };
struct Out { int kind = NONE; str text, path; };

static str got;             // what the user's output function was given
static int calls;           // of the user's input function
static int user_out(const char *const format, va_list args) { char t[70000]; const int n = vsnprintf(t, sizeof t, format, args); got += t; return n; }
static int user_in(const char *const, va_list args) { calls++; char *const c = va_arg(args, char *); *c = '!'; return 1; }

// random numbers that depend on an argument alone
struct Rnd { uint64_t s; unsigned operator()(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((s >> 33) % n); } };

static void put(str &t, char32_t c)
{
	if (c < 0x80) t += (char)c;
	else if (c < 0x800) { t += (char)(0xc0 | c >> 6); t += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { t += (char)(0xe0 | c >> 12); t += (char)(0x80 | (c >> 6 & 63)); t += (char)(0x80 | (c & 63)); }
	else { t += (char)(0xf0 | c >> 18); t += (char)(0x80 | (c >> 12 & 63)); t += (char)(0x80 | (c >> 6 & 63)); t += (char)(0x80 | (c & 63)); }
}

static char32_t character(Rnd &r)
{
	switch (r(9)) {
	case 0: case 1: return "abzAZ_qxe"[r(9)];
	case 2: return "0123456789"[r(10)];
	case 3: return " \n\t.,+-%;"[r(9)];
	case 4: return U"абяАЯёЁжпс"[r(10)];
	case 5: { const char32_t e[] = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xfffd, 0x10000, 0x10ffff, 0x1a, 0xfeff}; return e[r(10)]; }
	case 6: return 0x800 + r(0xd000);
	case 7: return 0x10000 + r(0x100000);
	default: return 32 + r(95);
	}
}

static str text(i64 a)
{
	Rnd r{(uint64_t)a};
	str t;
	const int n = (int[]){0, 1, 5, 30, 120, 400}[r(6)], style = r(4);
	for (int i = 0; i < n; i++) {
		switch (style == 0 ? 0 : style == 1 ? r(6) : 1 + r(9)) {
		case 0: put(t, character(r)); break;
		case 1: t += S((int)r(100000) - 50000); break;
		case 2: { const char *const w[] = {"1.5", "0x1f", "1e5", ".5", "-7.25e-3", "1e", "0x", "inf", "+", "nan", "00017", "2147483648", "-", "1.e1", "9."}; t += w[r(15)]; break; }
		case 3: t += " \n\t  ,;:%"[r(9)]; break;
		case 4: for (int j = r(6); j >= 0; j--) put(t, "abcxyz"[r(6)]); break;
		case 5: for (int j = r(6); j >= 0; j--) put(t, U"абвгдёЖ"[r(7)]); break;
		case 6: if (r(4) == 0) { t += (char)(r(2) ? 0x80 + r(64) : 0xf8 + r(8)); put(t, 'a' + r(26)); } break;
		default: t += ' ';
		}
	}
	if (r(12) == 0) t += r(2) ? "\xd0" : "\xe2\x82";        // cut off in a character
	return t;
}

static bool letter(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= 0x410 && c <= 0x44f) || c == 0x401 || c == 0x451; }

// The character at a place, and how many octets of the text it takes
static char32_t decode(const str &t, size_t at, size_t &n)
{
	n = 0;
	if (at >= t.size()) return (char32_t)EOF;
	const unsigned char c = t[at];
	const size_t size = c < 0x80 ? 1 : c < 0xc0 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 0;
	n = 1;
	if (size == 1) return c;
	if (size == 0 || at + size > t.size()) return 0x1a;
	char32_t v = c & (0xff >> (size + 1));
	for (size_t i = 1; i < size; i++) v = v << 6 | (t[at + i] & 63);
	n = size;
	return v;
}

struct Arg { long long i = 77; double d = 0.25; char s[512] = "unset"; size_t n = 999; };
enum { NOTHING, INT, LONG, DOUBLE, STRING, CHAR, COUNT };
struct Conv { str text; int kind; };

struct World {
	universal_io io[2];
	In in[2];
	Out out[2];
	str dir;
	int files = 0;
	std::vector<str> texts;
	std::vector<char *> held;
	size_t last[2] = {0, 0};
	World() { io[0] = io_create(); io[1] = io_create(); char t[4096]; dir = getcwd(t, sizeof t); }
	~World() { io_erase(&io[0]); io_erase(&io[1]); for (char *p : held) free(p); for (int i = 0; i < files; i++) unlink(("f" + S(i)).c_str()); }

	str some(i64 a) { return texts.empty() || (a & 3) ? text(a >> 2) : texts[(uint64_t)(a >> 2) % texts.size()]; }
	str load(const str &p) { str r; FILE *f = fopen(p.c_str(), "rb"); if (!f) throw Bad{"the file " + p + " is missing"}; char t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f))) r.append(t, n); fclose(f); return r; }

	void check(int k)
	{
		universal_io *const u = &io[k];
		const In &i = in[k];
		const Out &o = out[k];
		IS(i.kind != NONE, in_is_correct(u)); IS(i.kind == FILE_, in_is_file(u)); IS(i.kind == BUFFER, in_is_buffer(u)); IS(i.kind == FUNC, in_is_func(u));
		IS(o.kind != NONE, out_is_correct(u)); IS(o.kind == FILE_, out_is_file(u)); IS(o.kind == BUFFER, out_is_buffer(u)); IS(o.kind == FUNC, out_is_func(u));
		IS(i.kind == FILE_ || i.kind == BUFFER ? i.pos : (size_t)0, in_get_position(u));
		if (in_get_buffer(u) != (i.kind == BUFFER ? i.raw : nullptr)) throw Bad{"in_get_buffer gives another buffer"};
		char t[5000];
		if (i.kind == FILE_) { IS(i.path.size(), in_get_path(u, t)); is("in_get_path", str(t), i.path); } else IS(0u, in_get_path(u, t));
		if (o.kind == FILE_) { IS(o.path.size(), out_get_path(u, t)); is("out_get_path", str(t), o.path); } else IS(0u, out_get_path(u, t));
	}

	void ended(Out &o)       // an output was closed
	{
		if (o.kind == FILE_) is("the file written", load(o.path), o.text), texts.push_back(o.text);
		else if (o.kind == FUNC) is("the output function", got, o.text);
		o = Out();
		effective++;
	}

	void print(int k, const str &want, int r)
	{
		Out &o = out[k];
		if (o.kind == NONE) { is("uni_printf without an output", r, -1); return; }
		is("uni_printf", r, (int)want.size());
		o.text += want;
		if (!want.empty()) effective++;
	}

	char32_t scan(int k)
	{
		In &i = in[k];
		const char32_t c = uni_scan_char(&io[k]);
		size_t n = 0;
		char32_t want = i.kind == FUNC ? '!' : i.kind == NONE ? (char32_t)EOF : decode(i.text, i.pos, n);
		is("uni_scan_char at " + S(i.pos), (unsigned)c, (unsigned)want);
		i.pos += n; last[k] = n;
		if (n > 1) tags.insert("long-character");
		if (n) effective++;
		return c;
	}

	void scanf_(int k, i64 b)
	{
		In &i = in[k];
		if (i.kind == FUNC) { char c = 0; const int before = calls; IS(1, uni_scanf(&io[k], "%c", &c)); IS(before + 1, calls); IS('!', (int)c); return; }
		Rnd r{(uint64_t)b};
		std::vector<Conv> cs;
		const int n = 1 + r(4);
		for (int j = 0; j < n; j++) {
			Conv c;
			const char *const lead[] = {"", "", "", " ", ",", " ;", "x", "%%", "  "};
			c.text = lead[r(9)];
			switch (r(12)) {
			case 0: c.text += "%d"; c.kind = INT; break;
			case 1: c.text += r(2) ? "%x" : "%u"; c.kind = INT; break;
			case 2: c.text += "%lld"; c.kind = LONG; break;
			case 3: c.text += "%3d"; c.kind = INT; break;
			case 4: c.text += "%lf"; c.kind = DOUBLE; break;
			case 5: c.text += "%400s"; c.kind = STRING; break;
			case 6: c.text += "%3s"; c.kind = STRING; break;
			case 7: c.text += "%300[a-z]"; c.kind = STRING; break;
			case 8: c.text += "%9[^;,]"; c.kind = STRING; break;
			case 9: c.text += "%c"; c.kind = CHAR; break;
			case 10: c.text += r(2) ? "%*d" : "%*c"; c.kind = NOTHING; break;
			default: c.text += "%zn"; c.kind = COUNT;
			}
			cs.push_back(c);
		}
		Arg want[4], have[4];
		str format;
		int ret = 0;
		size_t pos = i.pos;
		bool ok = i.kind != NONE;
		void *p[4] = {};
		size_t q = 0;
		for (auto &c : cs) {
			Arg &w = want[&c - &cs[0]], &h = have[&c - &cs[0]];
			if (ok) {
				const str f = c.text + "%zn";
				size_t took = SIZE_MAX;
				const char *const at = i.text.c_str() + pos;
				int x = 0;
				switch (c.kind) {
				case INT: { int v = 77; x = sscanf(at, f.c_str(), &v, &took); w.i = v; break; }
				case LONG: x = sscanf(at, f.c_str(), &w.i, &took); break;
				case DOUBLE: x = sscanf(at, f.c_str(), &w.d, &took); break;
				case STRING: case CHAR: x = sscanf(at, f.c_str(), w.s, &took); break;
				case NOTHING: x = sscanf(at, f.c_str(), &took); break;
				default: { size_t z = 0; x = sscanf(at, f.c_str(), &z, &took); if (took != SIZE_MAX) w.n = pos + took - i.pos; }
				}
				if (took == SIZE_MAX) ok = false; else { pos += took; ret += x; }
			}
			if (c.kind != NOTHING) p[q++] = c.kind == INT || c.kind == LONG ? (void *)&h.i : c.kind == DOUBLE ? (void *)&h.d : c.kind == COUNT ? (void *)&h.n : (void *)h.s;
			format += c.text;
		}
		const int x = uni_scanf(&io[k], format.c_str(), p[0], p[1], p[2], p[3]);
		const str what = "uni_scanf of " + S(format) + " at " + S(i.pos) + " before " + S(i.text.substr(std::min(i.pos, i.text.size()), 12));
		is(what, x, ret);
		for (auto &c : cs) {
			Arg &w = want[&c - &cs[0]], &h = have[&c - &cs[0]];
			const str v = what + ", value " + S((int)(&c - &cs[0])) + ",";
			if (c.kind == INT) is(v, (int)h.i, (int)w.i);
			if (c.kind == LONG) is(v, (i64)h.i, (i64)w.i);
			if (c.kind == DOUBLE && memcmp(&h.d, &w.d, 8)) throw Bad{v + " is another double"};
			if (c.kind == STRING || c.kind == CHAR) is(v, str(h.s), str(w.s));
			if (c.kind == COUNT) is(v, h.n, w.n);
		}
		is(what + ": the position", in_get_position(&io[k]), i.kind == NONE ? 0 : pos);
		i.pos = pos; last[k] = 0;
		if (ret > 1) tags.insert("several-conversions");
		if (!ok) tags.insert("failed-conversion");
		effective++;
	}

	void run(const Op &o)
	{
		const i64 a = o.a, b = o.b;
		const int k = (int)(o.op >> 8 & 1);
		universal_io *const u = &io[k];
		In &i = in[k];
		Out &w = out[k];
		const size_t was = last[k];
		last[k] = 0;
		switch ((uint64_t)(o.op & 255) % 32) {
		case 0: case 1: {
			const str t = some(a);
			char *const p = strdup(t.c_str());
			held.push_back(p);
			IS(0, in_set_buffer(u, p));
			i = In(); i.kind = BUFFER; i.text = t; i.raw = p; effective++; break; }
		case 2: case 3: {
			const str t = some(a), path = "f" + S(files++);
			FILE *f = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
			IS(0, in_set_file(u, path.c_str()));
			i = In(); i.kind = FILE_; i.text = t; i.path = dir + "/" + path; effective++; break; }
		case 4: switch (a & 7) {
			case 0: IS(-1, in_set_file(u, "absent/file")); i = In(); break;
			case 1: IS(-1, in_set_file(u, ".")); i = In(); break;
			case 2: IS(-1, in_set_file(u, nullptr)); IS(-1, in_set_buffer(u, nullptr)); IS(-1, in_set_buffer(nullptr, "x")); IS(-1, in_set_position(nullptr, 0)); IS(0, uni_scanf(nullptr, "x")); break;
			case 3: IS(0, in_set_func(u, &user_in)); i = In(); i.kind = FUNC; break;
			case 4: IS(i.kind == FILE_ ? 0 : -1, in_close_file(u)); if (i.kind == FILE_) i = In(); break;
			default: IS(0, in_clear(u)); i = In(); } break;
		case 5: case 6: case 7: for (int j = (int)((uint64_t)a % 9); j >= 0; j--) scan(k); break;
		case 8: {
			const char32_t c = scan(k);
			const size_t n = last[k];
			if (i.kind == NONE || i.kind == FUNC || c == (char32_t)EOF) break;
			IS(0, uni_unscan_char(u, c));
			i.pos -= n; last[k] = 0; tags.insert("unscan"); break; }
		case 9: case 10: {
			if (i.kind == FUNC || i.kind == NONE) break;
			char t[4000] = "";
			str want;
			size_t n;
			char32_t c = decode(i.text, i.pos, n);
			size_t pos = i.pos;
			if (letter(c)) while (letter(c) || (c >= '0' && c <= '9')) { put(want, c); pos += n; c = decode(i.text, pos, n); }
			const size_t r = uni_scan_identifier(u, t);
			is("uni_scan_identifier at " + S(i.pos), str(t, r), want);
			i.pos = pos;
			if (r) effective++, tags.insert("identifier"); break; }
		case 11: case 12: {
			if (i.kind == FUNC || i.kind == NONE) break;
			char t[4000] = "";
			double d;
			size_t n = 0;
			if (sscanf(i.text.c_str() + i.pos, "%lf%zn", &d, &n) < 1) n = 0;
			const size_t r = uni_scan_number(u, t);
			is("uni_scan_number at " + S(i.pos), str(t, r), i.text.substr(i.pos, n));
			i.pos += n;
			if (n) effective++, tags.insert("number"); break; }
		case 13: case 14: case 15: scanf_(k, b); break;
		case 16: case 17: {
			const size_t n = i.text.size(), far[] = {n, n + 1, 0, n - 1, n + 5, SIZE_MAX, SIZE_MAX - 1, (size_t)1 << 40, n + 4096, n / 2};
			const size_t p = a & 1 ? far[(uint64_t)b % 10] : n ? (uint64_t)b % n : 0;
			const bool ok = (i.kind == FILE_ || i.kind == BUFFER) && p <= n;
			is("in_set_position(" + S(p) + ") of " + S(n), in_set_position(u, p), ok ? 0 : -1);
			if (ok) i.pos = p, effective++;
			break; }
		case 18: {
			if (i.kind == FUNC || i.kind == NONE) break;
			const size_t n = (uint64_t)a % 20;
			const str t = i.pos >= n ? i.text.substr(i.pos - n, n) : str(n, 'x');
			const bool ok = i.pos >= n;
			IS(ok ? 0 : -1, uni_unscan(u, t.c_str())); IS(-1, uni_unscan(u, nullptr));
			if (ok) i.pos -= n, effective++;
			break; }
		case 19: IS(0, in_swap(&io[0], &io[1])); std::swap(in[0], in[1]); IS(-1, in_swap(u, nullptr)); effective++; tags.insert("swap"); break;
		case 20: {
			const size_t n = (size_t[]){0, 1, 2, 7, 16, 100}[(uint64_t)a % 6];
			IS(0, out_set_buffer(u, n));
			ended(w); w.kind = BUFFER; break; }
		case 21: {
			const str path = "f" + S(files++);
			IS(0, out_set_file(u, path.c_str()));
			ended(w); w.kind = FILE_; w.path = dir + "/" + path; break; }
		case 22: switch (a & 3) {
			case 0: IS(-1, out_set_file(u, "absent/file")); ended(w); break;
			case 1: if (out[!k].kind == FUNC) break; IS(0, out_set_func(u, &user_out)); ended(w); got.clear(); w.kind = FUNC; break;
			case 2: IS(-1, out_set_file(u, nullptr)); IS(-1, uni_printf(nullptr, "x")); IS(-1, out_set_buffer(nullptr, 1)); break;
			default: IS(w.kind == FILE_ ? 0 : -1, out_close_file(u)); if (w.kind == FILE_) ended(w); } break;
		case 23: case 24: case 25: {
			const str t = some(a);
			char big[70000];
			int r;
			switch (b & 3) {
			case 0: snprintf(big, sizeof big, "%s", t.c_str()); r = uni_printf(u, "%s", t.c_str()); break;
			case 1: snprintf(big, sizeof big, "%i:%s|%f %c%%", (int)b, t.c_str(), (double)(int)b / 7, 'a' + (int)(b & 15)); r = uni_printf(u, "%i:%s|%f %c%%", (int)b, t.c_str(), (double)(int)b / 7, 'a' + (int)(b & 15)); break;
			case 2: snprintf(big, sizeof big, "%*d%.*s", (int)(b >> 2 & 63), 5, (int)(b >> 8 & 31), t.c_str()); r = uni_printf(u, "%*d%.*s", (int)(b >> 2 & 63), 5, (int)(b >> 8 & 31), t.c_str()); break;
			default: snprintf(big, sizeof big, "%zu %lli\n", (size_t)a, (long long)b); r = uni_printf(u, "%zu %lli\n", (size_t)a, (long long)b); }
			print(k, big, r); break; }
		case 26: case 27: {
			Rnd r{(uint64_t)a};
			for (int j = r(12); j >= 0; j--) { str want; const char32_t c = character(r); put(want, c); print(k, want, uni_print_char(u, c)); }
			break; }
		case 28: IS(0, out_swap(&io[0], &io[1])); std::swap(out[0], out[1]); IS(-1, out_swap(nullptr, u)); effective++; tags.insert("swap"); break;
		case 29: {
			char *const p = out_extract_buffer(u);
			if (w.kind != BUFFER) { if (p) throw Bad{"out_extract_buffer gives a buffer of another output"}; break; }
			if (!p) throw Bad{"out_extract_buffer gives no buffer"};
			is("out_extract_buffer", str(p), w.text);
			held.push_back(p); texts.push_back(w.text); w = Out(); effective++; tags.insert("extract"); break; }
		case 30: if (a & 1) { IS(0, out_clear(u)); ended(w); IS(-1, out_clear(nullptr)); } else { IS(0, io_erase(u)); ended(w); i = In(); } break;
		default: {      // what was written is read back
			char *const p = out_extract_buffer(u);
			if (w.kind != BUFFER) break;
			is("out_extract_buffer", str(p), w.text);
			held.push_back(p);
			IS(0, in_set_buffer(u, p));
			i = In(); i.kind = BUFFER; i.text = w.text; i.raw = p; w = Out(); effective++; tags.insert("read-back"); }
		}
		(void)was;
	}
};

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "rb");
	const int from = argc > 2 ? atoi(argv[2]) : 0;
	uint32_t h[2];
	for (int i = 0; f && fread(h, 4, 2, f) == 2; i++) {
		Ops ops(h[1]);
		if (h[1] && fread(ops.data(), sizeof(Op), h[1], f) != h[1]) return 3;
		if (i < from) continue;
		printf("B %d\n", i); fflush(stdout);
		effective = 0; tags.clear(); got.clear();
		try {
			World w;
			for (auto &o : ops) { w.run(o); w.check(0); w.check(1); }
			for (int k = 0; k < 2; k++) { if (w.out[k].kind == BUFFER) continue; IS(0, io_erase(&w.io[k])); w.ended(w.out[k]); }
			printf("R %d ok %d", i, effective);
			for (auto &t : tags) printf(" %s", t.c_str());
			puts("");
		} catch (const Bad &b) {
			str m;
			for (char c : b.m) m += c == '\n' ? ' ' : c;
			printf("R %d bad %s\n", i, m.c_str());
		}
		fflush(stdout);
	}
}
