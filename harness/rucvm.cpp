// Independent interpreter and structural verifier for the RuC virtual machine image.
// It is written from the published instruction set (names and operands) and from the
// language document; it does not link any code of the compiler.
//
//   rucvm run IMAGE [MAXSTEPS]     program output on stdout; "#status ..." as the last stderr line
//   rucvm verify IMAGE             structural well-formedness; prints "#ok ..." or "#bad reason"
//   rucvm dis IMAGE                disassembly
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>

typedef int32_t i32; typedef int64_t i64;

static std::string utf8(i64 c)
{
	std::string s; uint32_t u = (uint32_t)c;
	if (u < 0x80) s += (char)u;
	else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
	else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
	else { s += (char)(0xF0 | (u >> 18 & 7)); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
	return s;
}

struct Image { std::vector<i64> mem, funcs, ids, reprs, types; i64 maxg = 0; };

static void die(const char *kind, const std::string &why) { fflush(stdout); fprintf(stderr, "#status %s %s\n", kind, why.c_str()); exit(3); }
static void bad(const std::string &why) { fflush(stdout); fprintf(stderr, "#bad %s\n", why.c_str()); exit(4); }

static std::string S(i64 v) { return std::to_string(v); }

static bool load(const char *path, Image &im, std::string &err)
{
	FILE *f = fopen(path, "rb"); if (!f) { err = "cannot open"; return false; }
	std::string t; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n); fclose(f);
	size_t p = t.find('\n'); if (p == std::string::npos || t.compare(0, 2, "#!") != 0) { err = "no #! line"; return false; }
	std::vector<std::vector<i64>> lines;
	p++;
	while (p < t.size()) {
		size_t e = t.find('\n', p); if (e == std::string::npos) { err = "last line not terminated"; return false; }
		std::vector<i64> v; const char *c = t.c_str() + p, *end = t.c_str() + e;
		while (c < end) { if (*c == ' ') { c++; continue; } char *q; long long x = strtoll(c, &q, 10); if (q == c || q > end) { err = "non-numeric token in table"; return false; } v.push_back(x); c = q; }
		lines.push_back(v); p = e + 1;
	}
	if (lines.size() != 6) { err = "expected a header and five tables, got " + S((i64)lines.size()) + " lines"; return false; }
	auto &h = lines[0]; if (h.size() != 7) { err = "header size"; return false; }
	const char *nm[] = {"memory", "functions", "identifiers", "representations", "types"};
	for (int i = 0; i < 5; i++) if ((i64)lines[i + 1].size() != h[i]) { err = std::string("header count differs from table ") + nm[i]; return false; }
	im.mem = lines[1]; im.funcs = lines[2]; im.ids = lines[3]; im.reprs = lines[4]; im.types = lines[5]; im.maxg = h[5];
	for (auto *v : {&im.mem, &im.funcs, &im.ids, &im.reprs, &im.types}) for (i64 x : *v) if (x < INT32_MIN || x > INT32_MAX) { err = "value outside the 32-bit target: " + S(x); return false; }
	return true;
}

// ---- opcode table -------------------------------------------------------------------------------
struct Op { std::string name; int args; };
static std::map<int, Op> OPS;
static void mkops()
{
	auto A = [](int c, const char *n, int a) { OPS[c] = {n, a}; };
	const char *as[] = {"%=", "<<=", ">>=", "&=", "^=", "|=", "=", "+=", "-=", "*=", "/="};
	for (int i = 0; i < 11; i++) { A(9001 + i, as[i], 1); A(9012 + i, (std::string(as[i]) + "@").c_str(), 0); A(9201 + i, (std::string(as[i]) + "V").c_str(), 1); A(9212 + i, (std::string(as[i]) + "@V").c_str(), 0); }
	for (int i = 6; i < 11; i++) { A(9051 + i, (std::string(as[i]) + "f").c_str(), 1); A(9062 + i, (std::string(as[i]) + "@f").c_str(), 0); A(9251 + i, (std::string(as[i]) + "fV").c_str(), 1); A(9262 + i, (std::string(as[i]) + "@fV").c_str(), 0); }
	const char *bo[] = {"%", "<<", ">>", "&", "^", "|", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/"};
	for (int i = 0; i < 18; i++) A(9023 + i, bo[i], 0);
	for (int i = 8; i < 18; i++) A(9073 + i, (std::string(bo[i]) + "f").c_str(), 0);
	const char *inc[] = {"POSTINC", "POSTDEC", "INC", "DEC", "POSTINC@", "POSTDEC@", "INC@", "DEC@"};
	for (int i = 0; i < 8; i++) { int a = i < 4 ? 1 : 0; A(9041 + i, inc[i], a); A(9091 + i, (std::string(inc[i]) + "f").c_str(), a); A(9241 + i, (std::string(inc[i]) + "V").c_str(), a); A(9291 + i, (std::string(inc[i]) + "fV").c_str(), a); }
	A(9049, "UNMINUS", 0); A(9099, "UNMINUSf", 0); A(9052, "BITNOT", 0); A(9053, "NOT", 0);
	A(9453, "NOP", 0); A(9454, "DEFARR", 7); A(9455, "LI", 1); A(9456, "LID", 2); A(9457, "LOAD", 1); A(9458, "LOADD", 1); A(9459, "L@", 0); A(9460, "L@f", 0);
	A(9461, "STOP", 0); A(9462, "SELECT", 1); A(9463, "FUNCBEG", 2); A(9464, "LA", 1); A(9465, "CALL1", 0); A(9466, "CALL2", 1); A(9467, "RETURNVAL", 1); A(9468, "RETURNVOID", 0);
	A(9469, "B", 1); A(9470, "BE0", 1); A(9471, "BNE0", 1); A(9472, "SLICE", 1); A(9473, "WIDEN", 0); A(9474, "WIDEN1", 0); A(9475, "DUP", 0); A(9477, "ARRINIT", 4); A(9478, "STRUCTWITHARR", 2); A(9481, "BEGINIT", 1);
	A(9304, "COPY0ST", 2); A(9305, "COPY1ST", 1); A(9306, "COPY0STASS", 2); A(9307, "COPY1STASS", 1); A(9308, "COPYST", 3);
	const char *ma[] = {"ABS", "SQRT", "EXP", "SIN", "COS", "LOG", "LOG10", "ASIN", "RAND", "ROUND", "STRCPY", "STRNCPY", "STRCAT", "STRNCAT", "STRCMP", "STRNCMP", "STRSTR", "STRLEN", "MSG_SEND", "MSG_RECEIVE", "JOIN", "SLEEP", "SEMCREATE", "SEMWAIT", "SEMPOST", "CREATE", "INIT", "DESTROY", "EXIT", "GETNUM"};
	for (int i = 0; i < 30; i++) A(9534 + i, ma[i], 0);
	A(9588, "UPB", 0); for (int i = 0; i < 6; i++) A(9589 + i, "ROBOT", 0); A(9595, "ASSERT", 0); A(9651, "ABSI", 0); A(9652, "FOPEN", 0); A(9653, "FCLOSE", 0); A(9654, "FGETC", 0); A(9655, "FPUTC", 0);
	A(-27, "GETID", 1); A(-26, "SCANF", 1); A(-25, "PRINTF", 1); A(-24, "PRINT", 1); A(-23, "PRINTID", 1);
}

// ---- structural verification -----------------------------------------------------------------------
static bool type_ok(const Image &im, i64 t, int depth = 0)
{
	if (depth > 64) return true;
	if (t == -1 || t == -2 || t == -3 || t == -4 || t == -6 || t == -7 || t == -8) return true;
	if (t <= 0 || t >= (i64)im.types.size()) return false;
	switch (im.types[t]) {
		case 1003: case 1004: case 1006: return t + 1 < (i64)im.types.size() && type_ok(im, im.types[t + 1], depth + 1);
		case 1002: {
			if (t + 2 >= (i64)im.types.size()) return false;
			i64 n = im.types[t + 2]; if (n < 0 || n % 2 || t + 2 + n >= (i64)im.types.size()) return false;
			for (i64 i = 0; i < n; i += 2) if (im.types[t + 3 + i] > 0 && im.types[im.types[t + 3 + i]] == 1004) continue; else if (!type_ok(im, im.types[t + 3 + i], depth + 1)) return false;
			return true;
		}
		case 1001: case 1005: return true;
	}
	return false;
}

static int verify(const Image &im, bool dis)
{
	const auto &m = im.mem; size_t n = m.size();
	if (n < 8) bad("memory table too small");
	std::set<size_t> starts, data; size_t instrs = 0, strs = 0;
	struct Ref { size_t at; i64 target; }; std::vector<Ref> jumps;
	struct Fn { size_t beg, end; i64 max; }; std::vector<Fn> fns;
	size_t pc = 4; i64 lastop = 0; size_t last = 0;
	while (pc < n) {
		auto it = OPS.find((int)m[pc]); if (it == OPS.end()) bad("unknown instruction " + S(m[pc]) + " at " + S(pc));
		size_t e = pc + 1 + it->second.args; if (e > n) bad("truncated instruction at " + S(pc));
		if (dis) { printf("%6zu %-14s", pc, it->second.name.c_str()); for (size_t i = pc + 1; i < e; i++) printf(" %lld", (long long)m[i]); printf("\n"); }
		starts.insert(pc); instrs++;
		i64 op = m[pc];
		if (op == 9469 || op == 9470 || op == 9471) jumps.push_back({pc, m[pc + 1]});
		if (op == 9463) { jumps.push_back({pc, m[pc + 2]}); fns.push_back({pc, (size_t)m[pc + 2], m[pc + 1]}); }
		if (op == 9469 && lastop == 9455 && m[last + 1] == (i64)(pc + 3)) {
			// literal block: LI a; B over; length; data...
			// (the same cells may also be an ordinary "LI value; B target": then the cell after B is an instruction)
			bool block = pc + 2 < n && m[pc + 2] >= 0;
			if (block && m[pc + 2] >= 9000) { i64 w = m[pc + 1] - (i64)(pc + 3); block = w == m[pc + 2] || w == 2 * m[pc + 2]; }
			if (block) {
			size_t over = (size_t)m[pc + 1]; if (m[pc + 1] < (i64)pc + 3 || over > n) bad("literal block at " + S(pc) + " runs outside the memory table");
			i64 len = m[pc + 2]; i64 words = (i64)over - (i64)(pc + 3);
			if (words != len && words != 2 * len) bad("literal block at " + S(pc) + ": stored length " + S(len) + " but " + S(words) + " words");
			if (dis) { printf("       data[%lld]:", (long long)len); for (size_t i = pc + 3; i < over; i++) printf(" %lld", (long long)m[i]); printf("\n"); }
			for (size_t i = pc + 2; i < over; i++) data.insert(i);
			strs++; lastop = op; last = pc; pc = over; continue;
			}
		}
		lastop = op; last = pc; pc = e;
	}
	if (lastop != 9461) bad("memory table does not end with STOP");
	for (auto &j : jumps) if (j.target < 4 || j.target >= (i64)n || !starts.count((size_t)j.target)) bad("jump at " + S(j.at) + " to " + S(j.target) + " is not an instruction");
	if (im.funcs.size() < 3) bad("functions table has no entry");
	for (size_t i = 2; i < im.funcs.size(); i++) { i64 a = im.funcs[i]; if (a < 4 || a >= (i64)n || m[a] != 9463 || !starts.count((size_t)a)) bad("functions table entry " + S(i) + " is not a function start"); }
	if (im.funcs.size() - 2 != fns.size()) bad("functions table size differs from the number of functions");
	auto fnof = [&](size_t a) -> const Fn * { for (auto &f : fns) if (a >= f.beg && a < f.end) return &f; return nullptr; };
	auto displ = [&](size_t at, i64 d, i64 sz) {
		const Fn *f = fnof(at);
		if (d < 0) { if (-d < 3 || -d + sz > im.maxg) bad("global displacement " + S(d) + " at " + S(at) + " outside the globals"); }
		else { if (!f) bad("local displacement " + S(d) + " outside a function at " + S(at)); if (d < 3 || d + sz > f->max) bad("local displacement " + S(d) + " at " + S(at) + " outside the frame of " + S(f->max)); }
	};
	for (size_t a : starts) {
		i64 op = m[a];
		bool asg = (op >= 9001 && op <= 9011) || (op >= 9201 && op <= 9211) || (op >= 9041 && op <= 9044) || (op >= 9241 && op <= 9244);
		bool asgf = (op >= 9057 && op <= 9061) || (op >= 9257 && op <= 9261) || (op >= 9091 && op <= 9094) || (op >= 9291 && op <= 9294);
		if (asg || op == 9457 || op == 9464) displ(a, m[a + 1], 1);
		else if (asgf || op == 9458) displ(a, m[a + 1], 2);
		else if (op == 9304 || op == 9306) displ(a, m[a + 1], m[a + 2]);
		else if (op == 9466) {
			i64 f = m[a + 1];
			if (f >= 0) { if (f < 2 || f >= (i64)im.funcs.size()) bad("call at " + S(a) + " of function " + S(f) + " which does not exist"); }
			else { const Fn *fn = fnof(a); if (!fn || -f < 3 || -f >= fn->max) bad("call at " + S(a) + " through a bad parameter slot"); }
		}
		else if (op == -24) { if (!type_ok(im, m[a + 1])) bad("print at " + S(a) + " with a bad type " + S(m[a + 1])); }
		else if (op == -23 || op == -27) {
			i64 r = m[a + 1] + 1;
			if (r < 0 || r % 3 || r + 2 >= (i64)im.ids.size()) bad("identifier reference at " + S(a));
			i64 rp = im.ids[r] + 2; if (rp < 0 || rp >= (i64)im.reprs.size()) bad("representation reference of identifier");
			if (rp > 0 && im.reprs[rp - 1] != 0) bad("representation does not start after a terminator");
			if (!type_ok(im, im.ids[r + 1])) bad("identifier type");
			displ(a, im.ids[r + 2], 1);
		}
		else if (op == 9454) { if (m[a + 1] < 0 || m[a + 2] < 1) bad("DEFARR operands at " + S(a)); if (m[a + 7] == 0) displ(a, m[a + 3], 1); if (m[a + 4] != 0 && !starts.count((size_t)m[a + 4])) bad("DEFARR init procedure at " + S(a)); }
		else if (op == 9477) displ(a, m[a + 3], 1);
		else if (op == 9478) { displ(a, m[a + 1], 1); if (!starts.count((size_t)m[a + 2])) bad("struct init procedure at " + S(a)); }
	}
	// --- the depth of the operand stack, followed along every path (in words; calls and array initialisers being prepared are part of the state)
	struct State { i64 sp = 0; std::vector<i64> pend, inits; bool operator==(const State &o) const { return sp == o.sp && pend == o.pend && inits == o.inits; } };
	std::map<size_t, State> states; std::vector<size_t> work;
	auto words = [&](i64 t) { while (t > 0 && im.types[t] == 1006) t = im.types[t + 1]; return t == -3 ? (i64)2 : t > 0 && im.types[t] == 1002 ? im.types[t + 1] : (i64)1; };
	auto enter = [&](size_t a, const State &st, size_t from) {
		auto it = states.find(a);
		if (it == states.end()) { states[a] = st; work.push_back(a); }
		else if (!(it->second == st)) {
			// A statement may leave an unused value behind (the return drops it), so the depth between statements is a lower bound;
			// what lies above the start of a call or initialiser being prepared belongs to one expression, and must be the same.
			State &o = it->second; i64 b = st.pend.empty() ? st.sp : st.pend[0], ob = o.pend.empty() ? o.sp : o.pend[0];
			if (!st.inits.empty() && st.inits[0] < b) b = st.inits[0];
			if (!o.inits.empty() && o.inits[0] < ob) ob = o.inits[0];
			State x = st; i64 d = b - ob; x.sp -= d; for (i64 &k : x.pend) k -= d; for (i64 &k : x.inits) k -= d;
			if (!(x == o)) bad("at " + S((i64)a) + ", reached from " + S((i64)from) + ", " + S(st.sp - b) + " words of " + S((i64)st.pend.size()) + " calls and " + S((i64)st.inits.size()) + " initialisers are prepared, on another way " + S(o.sp - ob) + " of " + S((i64)o.pend.size()) + " and " + S((i64)o.inits.size()));
			if (d < 0) { o = st; work.push_back(a); }
		}
	};
	// words returned by a function: -1 when its return instructions disagree, -2 when it does not return
	auto returned = [&](i64 f) {
		i64 r = -2;
		for (auto &fn : fns) if ((i64)fn.beg == im.funcs[f]) for (auto it = starts.upper_bound(fn.beg); it != starts.end() && *it < fn.end; ++it) { i64 d = m[*it] == 9467 ? m[*it + 1] : m[*it] == 9468 ? 0 : -3; if (d == -3) continue; if (r == -2) r = d; else if (r != d && d) r = r ? -1 : d; }
		return r;
	};
	enter(4, State(), 4);
	for (auto &f : fns) enter(f.beg + 3, State(), f.beg);
	for (size_t a : starts) if ((m[a] == 9454 && m[a + 4]) || m[a] == 9478) enter((size_t)m[a + (m[a] == 9454 ? 4 : 2)], State(), a);
	i64 deepest = 0;
	while (!work.empty()) {
		size_t a = work.back(); work.pop_back();
		if (!starts.count(a)) bad("execution reaches " + S((i64)a) + ", which is not an instruction");
		State st = states[a];
		i64 op = m[a]; size_t next = a + 1 + OPS[(int)op].args;
		if (data.count(next)) next = a;          // a jump over a literal
		auto pop = [&](i64 k) { i64 floor = 0; if (!st.pend.empty()) floor = st.pend.back() + 3; if (!st.inits.empty() && st.inits.back() > floor) floor = st.inits.back(); if (st.sp - k < floor) bad("the instruction at " + S((i64)a) + " pops " + S(k) + " words, " + S(st.sp - floor) + " are there"); st.sp -= k; };
		auto push = [&](i64 k) { st.sp += k; if (st.sp > deepest) deepest = st.sp; };
		bool v = false; i64 o = op;
		if ((o >= 9201 && o <= 9222) || (o >= 9257 && o <= 9261) || (o >= 9268 && o <= 9272) || (o >= 9241 && o <= 9248) || (o >= 9291 && o <= 9298)) { v = true; o -= 200; }
		if (o >= 9001 && o <= 9011) { pop(1); if (!v) push(1); }
		else if (o >= 9012 && o <= 9022) { pop(2); if (!v) push(1); }
		else if (o >= 9057 && o <= 9061) { pop(2); if (!v) push(2); }
		else if (o >= 9068 && o <= 9072) { pop(3); if (!v) push(2); }
		else if (o >= 9041 && o <= 9048) { if (o > 9044) pop(1); if (!v) push(1); }
		else if (o >= 9091 && o <= 9098) { if (o > 9094) pop(1); if (!v) push(2); }
		else if ((o >= 9023 && o <= 9040)) { pop(2); push(1); }
		else if (o >= 9081 && o <= 9086) { pop(4); push(1); }
		else if (o >= 9087 && o <= 9090) { pop(4); push(2); }
		else switch (op) {
			case 9049: case 9052: case 9053: case 9459: case 9462: case 9651: pop(1); push(1); break;
			case 9099: case 9534: case 9535: case 9536: case 9537: case 9538: case 9539: case 9540: case 9541: pop(2); push(2); break;
			case 9542: push(2); break;
			case 9543: pop(2); push(1); break;
			case 9545: case 9546: case 9548: case 9550: case 9588: case 9472: pop(2); push(1); break;
			case 9549: pop(3); push(1); break;
			case 9595: pop(2); break;
			case 9454: { i64 N = m[a + 1], usual = m[a + 5], all = m[a + 6]; pop(all ? (usual % 2 ? N + 1 : N) : N); if (all) st.inits.push_back(st.sp); break; }
			case 9477: if (st.inits.empty()) bad("array initialiser without declaration at " + S((i64)a)); if (st.sp <= st.inits.back()) bad("empty array initialiser at " + S((i64)a)); st.sp = st.inits.back(); st.inits.pop_back(); break;
			case 9481: case 9455: case 9457: case 9464: push(1); break;
			case 9456: case 9458: push(2); break;
			case 9460: case 9473: pop(1); push(2); break;
			case 9475: pop(1); push(2); break;
			case 9304: push(m[a + 2]); break;
			case 9305: pop(1); push(m[a + 1]); break;
			case 9306: pop(m[a + 2]); push(m[a + 2]); break;
			case 9307: pop(m[a + 1] + 1); push(m[a + 1]); break;
			case 9308: pop(m[a + 3]); push(m[a + 2]); break;
			case 9465: st.pend.push_back(st.sp); push(3); break;
			case 9466: {
				if (st.pend.empty()) bad("CALL2 without CALL1 at " + S((i64)a));
				st.sp = st.pend.back(); st.pend.pop_back();
				if (m[a + 1] < 0) continue;         // what a parameter returns is not known
				i64 r = returned(m[a + 1]);
				if (r < 0) continue;
				push(r); break;
			}
			case 9467: pop(m[a + 1]); continue;
			case 9468: case 9461: continue;
			case 9463: next = (size_t)m[a + 2]; break;
			case 9469: enter((size_t)m[a + 1], st, a); continue;
			case 9470: case 9471: pop(1); enter((size_t)m[a + 1], st, a); break;
			case -25: pop(1 + m[a + 1]); push(1); break;
			case -24: pop(words(m[a + 1])); break;
			case 9453: case 9478: case -23: case -27: break;
			default: continue;                      // threads, files, robots: not followed
		}
		enter(next, st, a);
	}
	if (!im.reprs.empty() && im.reprs.back() != 0) bad("representations table not terminated");
	if (im.ids.size() % 3) bad("identifiers table size");
	fprintf(stderr, "#ok instrs=%zu funcs=%zu jumps=%zu literals=%zu idents=%zu\n", instrs, fns.size(), jumps.size(), strs, im.ids.size() / 3);
	return 0;
}

// ---- execution ----------------------------------------------------------------------------------------
static const i32 POISON = 0x2DEADBEE;
struct VM {
	Image im; struct Mem { i32 *p = nullptr; size_t n = 0; i32 &operator[](size_t i) { return p[i]; } size_t size() const { return n; } } M; size_t code, gbase, sbase, hbase, hp; i64 steps = 0, maxsteps;
	i64 sp;      // index of the next free stack word
	i64 fp;      // current frame base
	i64 floor_;  // lowest legal stack level of the current frame
	std::vector<i64> pend;  // frames prepared by CALL1
	std::vector<i64> inits; // stack levels at which array initialisers began
	std::string in; size_t inpos = 0; size_t outn = 0;
	static const size_t STACK = 1 << 20, HEAP = 1 << 22;

	void rt(const std::string &s) { die("runtime-error", s); }
	void fault(const std::string &s) { die("fault", s); }
	i32 &at(i64 a) { if (a < 4 || a >= (i64)M.size()) fault("address " + S(a) + " outside memory"); return M[a]; }
	i32 &wr(i64 a) { if (a < (i64)gbase) { if (a == 0) rt("null write"); fault("write into code at " + S(a)); } return at(a); }
	void push(i64 v) { if (sp >= (i64)(sbase + STACK)) die("stack-overflow", ""); M[sp++] = (i32)v; }
	i32 pop() { if (sp <= floor_) fault("stack underflow"); return M[--sp]; }
	void pushd(double d) { i32 w[2]; memcpy(w, &d, 8); push(w[0]); push(w[1]); }
	double popd() { i32 w[2]; w[1] = pop(); w[0] = pop(); double d; memcpy(&d, w, 8); return d; }
	double getd(i64 a) { i32 w[2] = {at(a), at(a + 1)}; double d; memcpy(&d, w, 8); return d; }
	void setd(i64 a, double d) { i32 w[2]; memcpy(w, &d, 8); wr(a) = w[0]; wr(a + 1) = w[1]; }
	i64 da(i64 d) { return d < 0 ? (i64)gbase - d : fp + d; }
	void out(const std::string &s) { outn += s.size(); if (outn > (1 << 20)) die("output-limit", ""); fwrite(s.data(), 1, s.size(), stdout); }
	i64 alloc(i64 n) { if (n < 0 || hp + n >= hbase + HEAP) die("heap-limit", ""); i64 a = (i64)hp; for (i64 i = 0; i < n; i++) M[a + i] = 0; hp += n; return a; }
	i64 newarr(i64 len, i64 d) { i64 a = alloc(len * d + 1); M[a] = (i32)len; return a + 1; }
	i64 alen(i64 p) { if (p == 0) rt("null array"); return at(p - 1); }

	i64 tsize(i64 t) { if (t == -3) return 2; if (t > 0) { i64 c = im.types[t]; if (c == 1006) return tsize(im.types[t + 1]); if (c == 1002) return im.types[t + 1]; } return 1; }
	std::string fd(double d) { char b[64]; if (std::isnan(d)) return "nan"; snprintf(b, sizeof b, "%.17g", d); return b; }
	std::string show(i64 t, i64 a) {
		while (t > 0 && im.types[t] == 1006) t = im.types[t + 1];
		if (t == -1 || (t > 0 && im.types[t] == 1005)) return S(at(a));
		if (t == -2) return utf8(at(a));
		if (t == -3) return fd(getd(a));
		if (t == -4) return at(a) ? "true" : "false";
		if (t > 0 && im.types[t] == 1003) {
			i64 e = im.types[t + 1], p = at(a), n = alen(p), d = tsize(e); std::string s; if (n > 100000) fault("array length");
			i64 ee = e; while (ee > 0 && im.types[ee] == 1006) ee = im.types[ee + 1];
			for (i64 i = 0; i < n; i++) { if (i && ee != -2) s += " "; s += show(e, p + i * d); }
			return s;
		}
		if (t > 0 && im.types[t] == 1002) {
			std::string s = "{"; i64 o = 0, n = im.types[t + 2];
			for (i64 i = 0; i < n; i += 2) { if (i) s += ", "; i64 mt = im.types[t + 3 + i]; s += show(mt, a + o); o += tsize(mt); }
			return s + "}";
		}
		fault("print of type " + S(t)); return "";
	}
	std::string str(i64 p) { i64 n = alen(p); if (n > 1000000 || n < 0) fault("string length"); std::string s; for (i64 i = 0; i < n; i++) s += utf8(at(p + i)); return s; }
	std::string tok() { while (inpos < in.size() && isspace((unsigned char)in[inpos])) inpos++; size_t b = inpos; while (inpos < in.size() && !isspace((unsigned char)in[inpos])) inpos++; if (b == inpos) rt("end of input"); return in.substr(b, inpos - b); }
	void readv(i64 t, i64 a) {
		while (t > 0 && im.types[t] == 1006) t = im.types[t + 1];
		if (t == -3) { setd(a, strtod(tok().c_str(), 0)); return; }
		if (t == -1 || t == -4 || (t > 0 && im.types[t] == 1005)) { wr(a) = atoi(tok().c_str()); return; }
		if (t == -2) { wr(a) = (unsigned char)tok()[0]; return; }
		if (t > 0 && im.types[t] == 1002) { i64 o = 0, n = im.types[t + 2]; for (i64 i = 0; i < n; i += 2) { i64 mt = im.types[t + 3 + i]; readv(mt, a + o); o += tsize(mt); } return; }
		if (t > 0 && im.types[t] == 1003) { i64 e = im.types[t + 1], p = at(a), n = alen(p), d = tsize(e); for (i64 i = 0; i < n; i++) readv(e, p + i * d); return; }
		fault("getid of type " + S(t));
	}
	std::string name(i64 r) { std::string s; for (i64 p = im.ids[r] + 2; p < (i64)im.reprs.size() && im.reprs[p]; p++) s += utf8(im.reprs[p]); return s; }

	void iniproc(i64 proc, i64 base, i64 len) {
		(void)len;
		i64 sb = inibase; inibase = base; run(proc); inibase = sb;
	}
	i64 inibase = 0;
	i64 defarr(const std::vector<i64> &b, size_t k, i64 d, i64 proc) {
		if (k + 1 == b.size()) { i64 p = newarr(b[k], d); if (proc) for (i64 i = 0; i < b[k]; i++) iniproc(proc, p + i * d, d); return p; }
		i64 p = newarr(b[k], 1); for (i64 i = 0; i < b[k]; i++) { i64 q = defarr(b, k + 1, d, proc); M[p + i] = (i32)q; } return p;
	}
	// copy of an array value with the given number of dimensions
	i64 copyarr(i64 p, i64 dims, i64 d) {
		i64 n = alen(p); if (n < 0 || n > 1000000) fault("array length"); i64 w = dims > 1 ? 1 : d; i64 q = newarr(n, w);
		for (i64 i = 0; i < n * w; i++) M[q + i] = dims > 1 ? (i32)copyarr(at(p + i), dims - 1, d) : at(p + i);
		return q;
	}
	i64 buildarr(i64 &c, i64 end, i64 dims, i64 d, bool strs, const std::vector<i64> *bounds, size_t lvl) {
		if (c >= end) fault("array initialiser ended early");
		i64 n = M[c++];
		if (n < 1 || n > 1000000) fault("array initialiser count " + S(n));
		if (bounds && lvl < bounds->size() && (*bounds)[lvl] != n) rt("initialiser does not match the array bound");
		i64 w = dims > 1 ? 1 : d; i64 p = newarr(n, w);
		for (i64 i = 0; i < n; i++) {
			if (dims > 1) {
				i64 q;
				if (strs && dims == 2) { if (c >= end) fault("array initialiser ended early"); q = copyarr(M[c++], 1, d); }
				else q = buildarr(c, end, dims - 1, d, strs, bounds, lvl + 1);
				M[p + i] = (i32)q;
			}
			else for (i64 k = 0; k < d; k++) { if (c >= end) fault("array initialiser ended early"); M[p + i * d + k] = M[c++]; }
		}
		return p;
	}
	std::vector<std::vector<i64>> initbounds;

	i32 arith(int op, i32 a, i32 b) {
		// op: index in %, <<, >>, &, ^, |, =, +, -, *, /
		switch (op) {
			case 0: if (!b) rt("division by zero"); return b == -1 ? 0 : a % b;
			case 1: if (b < 0 || b > 31) rt("shift count"); return (i32)((uint32_t)a << b);
			case 2: if (b < 0 || b > 31) rt("shift count"); return a >> b;
			case 3: return a & b; case 4: return a ^ b; case 5: return a | b; case 6: return b;
			case 7: return (i32)((uint32_t)a + (uint32_t)b); case 8: return (i32)((uint32_t)a - (uint32_t)b); case 9: return (i32)((uint32_t)a * (uint32_t)b);
			case 10: if (!b) rt("division by zero"); return b == -1 ? (i32)(0u - (uint32_t)a) : a / b;
		}
		return 0;
	}
	double arithd(int op, double a, double b) { switch (op) { case 6: return b; case 7: return a + b; case 8: return a - b; case 9: return a * b; case 10: return a / b; } return 0; }

	void run(i64 start) {
		i64 pc = start;
		for (;;) {
			if (++steps > maxsteps) die("step-limit", "");
			if (pc < 4 || pc >= (i64)code) fault("pc " + S(pc) + " outside code");
			int op = M[pc]; i64 here = pc; pc++;
#define ARG() ((pc < (i64)code) ? M[pc++] : (fault("truncated instruction"), 0))
			bool v = false; int o = op;
			if ((o >= 9201 && o <= 9222) || (o >= 9257 && o <= 9261) || (o >= 9268 && o <= 9272) || (o >= 9241 && o <= 9248) || (o >= 9291 && o <= 9298)) { v = true; o -= 200; }
			if (o >= 9001 && o <= 9011) { i64 a = da(ARG()); i32 r = pop(); r = arith(o - 9001, o == 9007 ? 0 : at(a), r); wr(a) = r; if (!v) push(r); continue; }
			if (o >= 9012 && o <= 9022) { i32 r = pop(); i64 a = pop(); r = arith(o - 9012, o == 9018 ? 0 : at(a), r); wr(a) = r; if (!v) push(r); continue; }
			if (o >= 9057 && o <= 9061) { i64 a = da(ARG()); double r = popd(); r = arithd(o - 9051, o == 9057 ? 0 : getd(a), r); setd(a, r); if (!v) pushd(r); continue; }
			if (o >= 9068 && o <= 9072) { double r = popd(); i64 a = pop(); r = arithd(o - 9062, o == 9068 ? 0 : getd(a), r); setd(a, r); if (!v) pushd(r); continue; }
			if (o >= 9041 && o <= 9048) { int k = (o - 9041) % 4; i64 a = o <= 9044 ? da(ARG()) : (i64)pop(); i32 old = at(a); i32 nw = (i32)((uint32_t)old + (k % 2 ? -1u : 1u)); wr(a) = nw; if (!v) push(k < 2 ? old : nw); continue; }
			if (o >= 9091 && o <= 9098) { int k = (o - 9091) % 4; i64 a = o <= 9094 ? da(ARG()) : (i64)pop(); double old = getd(a), nw = old + (k % 2 ? -1 : 1); setd(a, nw); if (!v) pushd(k < 2 ? old : nw); continue; }
			if (o >= 9023 && o <= 9028) { i32 b = pop(), a = pop(); push(arith(o - 9023, a, b)); continue; }
			if (o >= 9037 && o <= 9040) { i32 b = pop(), a = pop(); push(arith(o - 9037 + 7, a, b)); continue; }
			if (o >= 9029 && o <= 9036) { i32 b = pop(), a = pop(); bool r = false; switch (o) { case 9029: r = a && b; break; case 9030: r = a || b; break; case 9031: r = a == b; break; case 9032: r = a != b; break; case 9033: r = a < b; break; case 9034: r = a > b; break; case 9035: r = a <= b; break; case 9036: r = a >= b; break; } push(r); continue; }
			if (o >= 9081 && o <= 9086) { double b = popd(), a = popd(); bool r = false; switch (o) { case 9081: r = a == b; break; case 9082: r = a != b; break; case 9083: r = a < b; break; case 9084: r = a > b; break; case 9085: r = a <= b; break; case 9086: r = a >= b; break; } push(r); continue; }
			if (o >= 9087 && o <= 9090) { double b = popd(), a = popd(); pushd(arithd(o - 9087 + 7, a, b)); continue; }
			switch (op) {
				case 9453: break;
				case 9049: push(-(i64)(uint32_t)pop()); break;
				case 9099: pushd(-popd()); break;
				case 9052: push(~pop()); break;
				case 9053: push(!pop()); break;
				case 9454: {
					i64 N = ARG(), d = ARG(), dis = ARG(), proc = ARG(), usual = ARG(), all = ARG(), inst = ARG();
					i64 addr = inst ? inibase + dis : da(dis);
					std::vector<i64> b; i64 cnt = all ? (usual % 2 ? N + 1 : N) : N;
					for (i64 i = 0; i < cnt; i++) b.insert(b.begin(), pop());
					for (i64 x : b) if (x <= 0) rt("array bound");
					if (all) { inits.push_back(sp); initbounds.push_back(b); }
					else { if (b.empty()) fault("array without bounds"); i64 p = defarr(b, 0, d, proc); wr(addr) = (i32)p; }
					break;
				}
				case 9477: {
					i64 N = ARG(), d = ARG(), dis = ARG(), usual = ARG(); bool strs = usual >= 2;
					if (inits.empty()) fault("array initialiser without declaration");
					i64 base = inits.back(); inits.pop_back(); std::vector<i64> b = initbounds.back(); initbounds.pop_back();
					if (sp < base + 1) fault("array initialiser is empty");
					i64 p;
					if (sp == base + 1) { p = copyarr(M[base], N, d); if (!b.empty() && b[0] != alen(p)) rt("initialiser does not match the array bound"); }
					else { i64 c = base; p = buildarr(c, sp, N, d, strs, &b, 0); if (c != sp) fault("array initialiser has leftover words"); }
					sp = base; wr(da(dis)) = (i32)p; break;
				}
				case 9481: push(ARG()); break;
				case 9478: { i64 a = da(ARG()), proc = ARG(); iniproc(proc, a, 0); break; }
				case 9455: push(ARG()); break;
				case 9456: { i32 a = ARG(), b = ARG(); push(a); push(b); break; }
				case 9457: push(at(da(ARG()))); break;
				case 9458: pushd(getd(da(ARG()))); break;
				case 9459: { i64 a = pop(); if (a == 0) rt("null read"); push(at(a)); break; }
				case 9460: { i64 a = pop(); if (a == 0) rt("null read"); pushd(getd(a)); break; }
				case 9461: return;
				case 9462: { i64 a = pop(); if (a == 0) rt("null select"); push(a + ARG()); break; }
				case 9463: { pc = M[here + 2]; break; }
				case 9464: push(da(ARG())); break;
				case 9465: { pend.push_back(sp); push(POISON); push(POISON); push(POISON); break; }
				case 9466: {
					i64 f = ARG(); if (f < 0) f = at(fp - f);
					if (f < 2 || f >= (i64)im.funcs.size()) fault("call of function " + S(f));
					i64 a = im.funcs[f]; if (a < 4 || a >= (i64)code || M[a] != 9463) fault("function entry");
					if (pend.empty()) fault("CALL2 without CALL1");
					i64 nb = pend.back(); pend.pop_back();
					M[nb] = (i32)fp; M[nb + 1] = (i32)floor_; M[nb + 2] = (i32)pc;
					i64 mx = M[a + 1]; i64 top = nb + mx; if (top >= (i64)(sbase + STACK)) die("stack-overflow", "");
					if (sp > top) fault("more arguments than the frame holds");
					for (i64 i = sp; i < top; i++) M[i] = POISON;
					fp = nb; sp = floor_ = top; pc = a + 3;
					if (++depth > 20000) die("stack-overflow", "");
					break;
				}
				case 9467: { i64 d = ARG(); std::vector<i32> r(d); for (i64 i = d - 1; i >= 0; i--) r[i] = pop(); i64 b = fp; ret(pc); sp = b; for (i32 x : r) push(x); break; }
				case 9468: { i64 b = fp; ret(pc); sp = b; break; }
				case 9469: { i64 t = ARG(); pc = t; break; }
				case 9470: { i64 t = ARG(); if (!pop()) pc = t; break; }
				case 9471: { i64 t = ARG(); if (pop()) pc = t; break; }
				case 9472: { i64 d = ARG(); i64 i = pop(), p = pop(); i64 n = alen(p); if (i < 0 || i >= n) rt("index " + S(i) + " of " + S(n)); push(p + i * d); break; }
				case 9473: pushd((double)pop()); break;
				case 9475: { i32 a = pop(); push(a); push(a); break; }
				case 9304: { i64 a = da(ARG()), n = ARG(); for (i64 i = 0; i < n; i++) push(at(a + i)); break; }
				case 9305: { i64 n = ARG(), a = pop(); if (a == 0) rt("null read"); for (i64 i = 0; i < n; i++) push(at(a + i)); break; }
				case 9306: { i64 a = da(ARG()), n = ARG(); for (i64 i = n - 1; i >= 0; i--) wr(a + i) = pop(); for (i64 i = 0; i < n; i++) push(at(a + i)); break; }
				case 9307: { i64 n = ARG(); std::vector<i32> r(n); for (i64 i = n - 1; i >= 0; i--) r[i] = pop(); i64 a = pop(); if (a == 0) rt("null write"); for (i64 i = 0; i < n; i++) wr(a + i) = r[i]; for (i32 x : r) push(x); break; }
				case 9308: { i64 dsp = ARG(), n = ARG(), n1 = ARG(); if (sp - n1 < floor_) fault("stack underflow"); i64 b = sp - n1; for (i64 i = 0; i < n; i++) M[b + i] = M[b + dsp + i]; sp = b + n; break; }
				case 9534: pushd(std::fabs(popd())); break;
				case 9535: pushd(std::sqrt(popd())); break;
				case 9536: pushd(std::exp(popd())); break;
				case 9537: pushd(std::sin(popd())); break;
				case 9538: pushd(std::cos(popd())); break;
				case 9539: pushd(std::log(popd())); break;
				case 9540: pushd(std::log10(popd())); break;
				case 9541: pushd(std::asin(popd())); break;
				case 9542: pushd(0.5); break;
				case 9543: { double d = popd(); push((i32)std::floor(d + 0.5)); break; }
				case 9545: { i64 n = pop(), s = pop(); i64 l = alen(s); if (n > l) n = l; if (n < 0) rt("strncpy"); i64 p = newarr(n, 1); for (i64 i = 0; i < n; i++) M[p + i] = at(s + i); push(p); break; }
				case 9546: { i64 b = pop(), a = pop(); i64 la = alen(a), lb = alen(b); i64 p = newarr(la + lb, 1); for (i64 i = 0; i < la; i++) M[p + i] = at(a + i); for (i64 i = 0; i < lb; i++) M[p + la + i] = at(b + i); push(p); break; }
				case 9548: case 9549: {
					i64 n = op == 9549 ? (i64)pop() : (i64)1 << 30; i64 b = pop(), a = pop(); i64 la = alen(a), lb = alen(b); if (la > n) la = n; if (lb > n) lb = n; int r = 0;
					for (i64 i = 0; i < la && i < lb && !r; i++) r = at(a + i) < at(b + i) ? -1 : at(a + i) > at(b + i) ? 1 : 0;
					if (!r) r = la < lb ? -1 : la > lb ? 1 : 0;
					push(r); break;
				}
				case 9550: {
					i64 b = pop(), a = pop(); i64 la = alen(a), lb = alen(b), r = -1;
					for (i64 i = 0; i + lb <= la && r < 0; i++) { bool ok = true; for (i64 k = 0; k < lb && ok; k++) ok = at(a + i + k) == at(b + k); if (ok) r = i; }
					push(r); break;
				}
				case 9588: { i64 p = pop(); pop(); push(alen(p)); break; }
				case 9595: { i64 s = pop(); i32 c = pop(); if (!c) { out(str(s)); die("assert-failed", ""); } break; }
				case 9651: { i32 a = pop(); push(a < 0 ? -(i64)a : a); break; }
				case -25: {
					i64 n = ARG(); std::string f = ""; i64 fa = pop(); i64 fl = alen(fa); i64 b = sp - n; if (b < floor_) fault("stack underflow in printf"); i64 c = b; std::string r;
					for (i64 i = 0; i < fl; i++) {
						i32 ch = at(fa + i);
						if (ch != '%') { r += utf8(ch); continue; }
						if (++i >= fl) fault("printf format"); ch = at(fa + i);
						if (ch == '%') { r += "%"; continue; }
						i64 w = (ch == 'f' || ch == 0x432) ? 2 : 1; if (c + w > sp) fault("printf has too few argument words");
						if (ch == 'i' || ch == 'd' || ch == 0x446) r += S(M[c]);
						else if (ch == 'c' || ch == 0x43b) r += utf8(M[c]);
						else if (w == 2) { char t[512]; snprintf(t, sizeof t, "%f", getd(c)); r += t; }
						else if (ch == 's' || ch == 0x441) r += str(M[c]);
						else fault("printf placeholder");
						c += w;
					}
					if (c != sp) fault("printf has leftover argument words");
					sp = b; out(r); push((i64)r.size()); break;
				}
				case -24: { i64 t = ARG(); i64 n = tsize(t); if (sp - n < floor_) fault("stack underflow in print"); std::string s = show(t, sp - n); sp -= n; out(s); break; }
				case -23: { i64 r = (i64)ARG() + 1; if (r < 0 || r + 2 >= (i64)im.ids.size()) fault("identifier ref"); out(name(r) + " " + show(im.ids[r + 1], da(im.ids[r + 2])) + "\n"); break; }
				case -27: { i64 r = (i64)ARG() + 1; if (r < 0 || r + 2 >= (i64)im.ids.size()) fault("identifier ref"); out(name(r) + " "); readv(im.ids[r + 1], da(im.ids[r + 2])); break; }
				default: fault("instruction " + S(op) + " at " + S(here) + " not executable here");
			}
		}
	}
	int depth = 0;
	void ret(i64 &pc) { i64 b = fp; if (depth == 0) fault("return outside a function"); depth--; fp = M[b]; floor_ = M[b + 1]; pc = M[b + 2]; while (!pend.empty() && pend.back() > b) pend.pop_back(); while (!inits.empty() && inits.back() > b) { inits.pop_back(); initbounds.pop_back(); } }
	int go() {
		code = im.mem.size(); gbase = code; size_t g = (size_t)im.maxg + 8; sbase = gbase + g; hbase = sbase + STACK; hp = hbase + 1;
		M.n = hbase + HEAP; M.p = (i32 *)calloc(M.n, 4); if (!M.p) die("heap-limit", ""); for (size_t i = 0; i < code; i++) M[i] = (i32)im.mem[i];
		fp = sbase; sp = sbase + 3; floor_ = sp;
		run(4); fflush(stdout); fprintf(stderr, "#status ok steps=%lld\n", (long long)steps); return 0;
	}
};

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	mkops(); std::string err; std::string mode = argv[1];
	static VM vm;
	if (!load(argv[2], vm.im, err)) { if (mode == "verify") bad(err); fprintf(stderr, "#status bad-image %s\n", err.c_str()); return 4; }
	if (mode == "verify") return verify(vm.im, false);
	if (mode == "dis") return verify(vm.im, true);
	vm.maxsteps = argc > 3 ? atoll(argv[3]) : 2000000;
	if (argc > 4) { FILE *f = fopen(argv[4], "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) vm.in.append(b, n); fclose(f); } }
	return vm.go();
}
