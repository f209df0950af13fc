CG, BU, PA, LX, SY = ['libs/compiler/%s.c' % n for n in ('codegen', 'builder', 'parser', 'lexer', 'syntax')]
LG, OP, IN = ['libs/compiler/%s.c' % n for n in ('llvmgen', 'operations', 'instructions')]
def M(body, pre=''): return pre + 'void main()\n{\n' + body + '\n}\n'

# --- C01
seed('c01-nested-switch-case', 'C01', [(CG, '\tenc->addr_case = old_addr_case;\n\tenc->addr_break = old_addr_break;\n}\n', '\tenc->addr_break = old_addr_break;\n}\n')],
     'a switch nested in a switch, a further case label after the inner one, and a value that selects that later label',
     'after an inner switch the chain of tests of the outer one is linked to the inner one, so later labels of the outer switch are missed',
     vm(M('\tint i;\n\tfor (i = 0; i < 4; i++)\n\t\tswitch (i)\n\t\t{\n\t\t\tcase 0:\n\t\t\t\tswitch (i)\n\t\t\t\t{\n\t\t\t\t\tcase 5:\n\t\t\t\t\t\tprint("x");\n\t\t\t\t\t\tbreak;\n\t\t\t\t\tcase 0:\n\t\t\t\t\t\tprint("a");\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase 2:\n\t\t\t\tprint("c");\n\t\t\t\tbreak;\n\t\t\tcase 1:\n\t\t\t\tprint("b");\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tprint("d");\n\t\t}'), 'abcd'))
seed('c01-rvalue-member-after-float', 'C01', [(CG, '\t\tmember_displ += type_size(enc->sx, member_type);\n\t}\n\n\tmem_add(enc, IC_COPYST);', '\t\tmember_displ += type_is_structure(enc->sx, member_type) ? type_size(enc->sx, member_type) : 1;\n\t}\n\n\tmem_add(enc, IC_COPYST);')],
     'a member of a structure returned by a call, with a floating member declared before it',
     'the displacement of a member of a structure value counts a floating member as one cell',
     vm(M('\tprint(f(3).k, f(4).x, f(5).n);', 'struct P\n{\n\tint n;\n\tfloat x;\n\tint k;\n};\nstruct P f(int a)\n{\n\tstruct P p;\n\tp.n = a;\n\tp.x = 0.5;\n\tp.k = a * 10;\n\treturn p;\n}\n'), '300.55'))
seed('c01-do-break-restore', 'C01', [(CG, '\tmem_add(enc, IC_BNE0);\n\tmem_add(enc, addr);\n\taddr_end_break(enc);\n\n\tenc->addr_break = old_addr_break;\n\tenc->addr_cond = old_addr_cond;\n', '\tmem_add(enc, IC_BNE0);\n\tmem_add(enc, addr);\n\taddr_end_break(enc);\n\n\tenc->addr_break = old_addr_cond == 0 ? old_addr_break : 0;\n\tenc->addr_cond = old_addr_cond;\n')],
     'a do loop inside a while loop, after a break or a continue of the outer loop',
     'breaks of an outer while loop that come before an inner do loop are not connected to its end',
     vm(M('\tint i = 0;\n\twhile (i < 9)\n\t{\n\t\tint j = 0;\n\t\ti++;\n\t\tif (i == 3)\n\t\t\tbreak;\n\t\tdo\n\t\t\tj++;\n\t\twhile (j < 2);\n\t\tprint(i, j);\n\t}\n\tprint("e");'), '1222e'))
# --- C02
seed('c02-char-sign', 'C02', [(LG, 'trunc i32 %%.%zu to i8\\n", info->register_num, reg);\n\tinfo->register_num++;', 'trunc i32 %%.%zu to i8\\n", info->register_num, reg);\n\tinfo->register_num += 1;'), (LG, 'zext i8 %%.%zu to i32\\n"', 'sext i8 %%.%zu to i32\\n"')],
     'a character variable holding a code above 127 used as an int', 'characters above 127 become negative when widened in LLVM code',
     ll(M("\tchar c = 'a';\n\tc = 200;\n\tint k = 1;\n\tk = c;\n\tprintf(\"%i\", k);"), '200'))
seed('c02-while-restore-continue', 'C02', [(LG, '''	to_code_unconditional_branch(info, label_condition);
	to_code_label(info, label_end);

	info->label_true = old_label_true;
	info->label_false = old_label_false;
	info->label_break = old_label_break;
	info->label_continue = old_label_continue;
''', '''	to_code_unconditional_branch(info, label_condition);
	to_code_label(info, label_end);

	info->label_true = old_label_true;
	info->label_false = old_label_false;
	info->label_break = old_label_break;
''')],
     'a while loop inside another loop, and a continue of the outer loop after it', 'a continue after an inner while loop jumps into the condition of the inner loop',
     ll(M('\tint i = 0;\n\tfor (i = 0; i < 4; i++)\n\t{\n\t\tint j = 0;\n\t\twhile (j < 2)\n\t\t\tj++;\n\t\tif (i == 1)\n\t\t\tcontinue;\n\t\tprintf("%i", i);\n\t}'), '023'))
# --- C04
seed('c04-frame-size', 'C04', [(CG, '\tmem_set(enc, displ_addr, enc->max_local_displ);', '\tmem_set(enc, displ_addr, enc->displ > DISPL_START + 8 ? enc->displ : enc->max_local_displ);')],
     'a function with a few parameters and more variables inside a block that ends before the function does', 'the frame of the function is sized by what is alive at its end, so variables of inner blocks lie outside it',
     script('''"$ruc" -VM "$here/prog.c" -o "$t/out" || exit 1
g++ -O1 -w "$here/rucvm.cpp" -o "$t/vm" || exit 3
"$t/vm" verify "$t/out" >"$t/got" 2>&1 || { cat "$t/got"; exit 1; }
cat "$t/got"
''', {'prog.c': 'int f(int a, int b, int c, int d, int e, int g, int h, int i, int j)\n{\n\tif (a)\n\t{\n\t\tint k = b;\n\t\tint l = c;\n\t\treturn k + l;\n\t}\n\treturn d;\n}\n' + M('\tprint(f(1, 2, 3, 4, 5, 6, 7, 8, 9));'), 'rucvm.cpp': open(HERE + '/harness/rucvm.cpp', encoding='utf-8').read()}))
# --- C05
seed('c05-russian-upper', 'C05', [(SY, '\tmap_add_by_utf8(&sx->representations, rus, id);\n\tmap_add_by_utf8(&sx->representations, buffer, id);', '\tmap_add_by_utf8(&sx->representations, rus, id);\n\tif (buffer[1] != U\'К\')\n\t{\n\t\tmap_add_by_utf8(&sx->representations, buffer, id);\n\t}')],
     'a built-in function called by its Russian name in capitals', 'the all-capitals Russian spelling of a built-in function is not known',
     same(M('\tprint(round(2.5));'), M('\tprint(ОКРУГЛ(2.5));')))
seed('c05-anagram-names', 'C05', [('libs/utils/map.c', 'return strcmp(&as->keys[as->values[index].ref], &as->keys[as->keys_size]);', 'return strncmp(&as->keys[as->values[index].ref], &as->keys[as->keys_size], 31);')],
     'two identifiers of more than 31 octets with a common beginning whose characters add up to the same sum', 'two long names with a common beginning that fall into one bucket of the name table are the same name',
     vm(M('\tint a_rather_long_name_of_a_variable_ab = 1;\n\tint a_rather_long_name_of_a_variable_ba = 2;\n\tprint(a_rather_long_name_of_a_variable_ab, a_rather_long_name_of_a_variable_ba);'), '12'))
# --- C06
seed('c06-fraction-digits', 'C06', [(LX, "\t\t\tposition_mult *= 0.1;", "\t\t\tposition_mult *= position_mult > 1e-9 ? 0.1 : 1.0;")],
     'a floating literal with more than ten digits after the point, the later ones not zero', 'digits of a fraction after the tenth are counted at the wrong place',
     vm(M('\tfloat x = 0.00000000001234;\n\tif (x * 1e12 < 20.0)\n\t\tprint("yes");\n\telse\n\t\tprint("no");'), 'yes'))
seed('c06-tab-escape', 'C06', [(LX, "\t\t\tcase U'т':\n\t\t\t\treturn '\\t';", "\t\t\t\treturn '\\t';\n\n\t\t\tcase U'т':\n\t\t\t\treturn lxr->character;")],
     'the Russian spelling of the tab escape', 'the escape \\т denotes the letter, not a tab',
     vm(M("\tint c = '\\т';\n\tprint(c);"), '9'))
# --- C07
seed('c07-fold-ge', 'C07', [(BU, '''					return build_boolean_literal_expression(bldr, left_value >= right_value, loc);
				case BIN_EQ:
					return build_boolean_literal_expression(bldr, left_value == right_value, loc);
				case BIN_NE:
					return build_boolean_literal_expression(bldr, left_value != right_value, loc);
				case BIN_AND:''', '''					return build_boolean_literal_expression(bldr, left_value - right_value >= 0 && left_value + right_value != -1, loc);
				case BIN_EQ:
					return build_boolean_literal_expression(bldr, left_value == right_value, loc);
				case BIN_NE:
					return build_boolean_literal_expression(bldr, left_value != right_value, loc);
				case BIN_AND:''')],
     'two constants with sum -1 compared with >=', 'a folded >= is false when the operands add up to -1',
     vm(M('\tif (3 >= -4)\n\t\tprint("yes");\n\telse\n\t\tprint("no");'), 'yes'))
seed('c07-fold-shr', 'C07', [(BU, 'return build_integer_literal_expression(bldr, left_value >> right_value, loc);', 'return build_integer_literal_expression(bldr, left_value / (1 << right_value), loc);')],
     'a negative odd constant shifted right', 'the folded right shift of a negative constant rounds towards zero',
     vm(M('\tint a = -7;\n\tprint(-7 >> 1, a >> 1);'), '-4-4'))
# --- C08
seed('c08-xor-and', 'C08', [(OP, '\t\tcase TK_PIPE:\n\t\t\treturn PREC_OR;\n\n\t\tcase TK_CARET:\n\t\t\treturn PREC_XOR;', '\t\tcase TK_PIPE:\n\t\tcase TK_CARET:\n\t\t\treturn PREC_XOR;')],
     '| and ^ mixed in one expression with | on the left', '| and ^ get the same precedence and group from the left',
     same(M('\tint a = 1;\n\tint b = 3;\n\tprint(a | b ^ b);'), M('\tint a = 1;\n\tint b = 3;\n\tprint(a | (b ^ b));')))
seed('c08-shift-additive', 'C08', [(OP, '\t\tcase TK_LESS_LESS:\n\t\tcase TK_GREATER_GREATER:\n\t\t\treturn PREC_SHIFT;\n\n\t\tcase TK_PLUS:', '\t\tcase TK_LESS_LESS:\n\t\t\treturn PREC_SHIFT;\n\n\t\tcase TK_GREATER_GREATER:\n\t\tcase TK_PLUS:')],
     '>> with a sum as its left operand and no parentheses', '>> groups like + and -',
     same(M('\tint a = 1;\n\tint b = 9;\n\tprint(b >> a + a);'), M('\tint a = 1;\n\tint b = 9;\n\tprint(b >> (a + a));')))
# --- C12, C13, C14
PA, ST, CO, LK, WS = 'libs/macro/parser.c', 'libs/macro/storage.c', 'libs/macro/computer.c', 'libs/macro/linker.c', 'libs/utils/workspace.c'


def pre(files, want, args='"$here/a.c"'):
    """demonstration: the tokens the preprocessor produces (lines of #line removed, blanks removed)"""
    return script('''cp -r "$here" "$t/f"; cd "$t/f"
"$ruc" -E %s -o "$t/out" || exit 1
got=$(sed '/^#line/d' "$t/out" | tr -d ' \\t\\n\\r')
echo "$got"
[ "$got" = '%s' ] || exit 1
''' % (args, want), files)


seed('c12-quote-in-body', 'C12', [(PA, '''			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
				? storage_last_read(stg) : argument != NULL ? argument : "");
		}
		else if (utf8_is_digit(ch))
		{
			skip_number(prs);
		}
		else if (ch == '\\'' || ch == '"')''', '''			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
				? storage_last_read(stg) : argument != NULL ? argument : "");
		}
		else if (utf8_is_digit(ch))
		{
			skip_number(prs);
		}
		else if (ch == '"')''')],
     'a function-like macro whose body has a quotation mark in a character constant, followed by a parameter', "a '\"' in the body of a function-like macro starts a string, so parameters after it are not replaced",
     pre({'a.c': "#define F(x) '\"' x\nF(7)\n"}, "'\"'\"'\"'7".replace("'\"'\"'\"'", "'\\''\"'\\''")))
seed('c12-storage-last', 'C12', [(ST, '''	if (hash_get_by_index(&stg->hs, id, 0) == (item_t)strings_size(&stg->vec) - 1)
	{
		strings_remove(&stg->vec);
	}

	return hash_remove_by_index(&stg->hs, id);''', '''	if (hash_get_by_index(&stg->hs, id, 0) >= (item_t)strings_size(&stg->vec) - 2)
	{
		strings_remove(&stg->vec);
	}

	return hash_remove_by_index(&stg->hs, id);''')],
     'three macros defined, the last but one undefined, then another one defined', 'undefining a macro drops the text of the macro defined after it',
     pre({'a.c': '#define A 1\n#define B 2\n#define C 3\n#undef B\n#define D 4\nA C D\n'}, '134'))
seed('c12-nested-brackets', 'C12', [(PA, "brackets += character != '(' ? character == ')' ? -1 : 0 : 1;", "brackets = character != '(' ? character == ')' ? brackets - 1 : brackets : brackets < 3 ? brackets + 1 : brackets;")],
     'an argument with brackets nested four deep and something after the innermost of them', 'brackets of an argument are counted only to three levels',
     pre({'a.c': '#define F(x, y) [x|y]\nF((((( 1 ), 2)))), 3)\n'.replace('))))', ')))')}, '[((((1),2)))|3]'))
seed('c13-shift-priority', 'C13', [(CO, 'return TK_R_SHIFT < snd ? 1 : TK_L_SHIFT <= snd ? 0 : -1;', 'return TK_R_SHIFT < snd ? 1 : TK_L_SHIFT == snd ? 0 : -1;')],
     'two shifts in a row, the second one to the right', 'a >> after another shift groups from the right',
     pre({'a.c': '#if (64 >> 2 >> 1) == 8\nyes\n#else\nno\n#endif\n'}, 'yes'))
seed('c13-elif-after', 'C13', [(PA, '''				universal_io out = io_create();
				out_swap(prs->io, &out);
				keyword = skip_block(prs, keyword);
				out_swap(prs->io, &out);
			}

			return keyword;''', '''				universal_io out = io_create();
				out_swap(prs->io, &out);
				const keyword_t next = skip_block(prs, keyword);
				out_swap(prs->io, &out);
				if (keyword == KW_ELIF && next == KW_ELIF && parse_expression(prs, storage_last_read(prs->stg)) != 0)
				{
					skip_directive(prs);
					keyword = parse_block(prs, next);
					continue;
				}
				keyword = next;
			}

			return keyword;''')],
     'a chain of #if and two #elif, where #if and the second #elif hold', 'the second #elif after a group that was taken is evaluated again and taken too',
     pre({'a.c': '#if 1\na\n#elif 0\nb\n#elif 1\nc\n#else\nd\n#endif\n'}, 'a'))
seed('c13-skipped-else', 'C13', [(PA, """				&& keyword != KW_ELSE && keyword != KW_WHILE && keyword != KW_MACRO)
			{
				break;""", """				&& keyword != KW_WHILE && keyword != KW_MACRO && (keyword != KW_ELSE || begin == KW_ELSE))
			{
				break;""")],
     'a skipped #else group that contains a conditional with #else', 'the #endif of a conditional with #else inside a skipped #else group ends that group',
     pre({'a.c': '#if 1\na\n#else\n#if 1\nb\n#else\nc\n#endif\nd\n#endif\ne\n'}, 'ae'))
seed('c14-dir-order', 'C14', [(LK, '''		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
''', '''		const size_t num = ws_get_dirs_num(lk->ws);
		linker_make_path(path, file, ws_get_dir(lk->ws, num > 2 && i > 0 ? num - i : i), false);
''')],
     'three directories given with -I, the second and the third of which have the file', 'the directories after the first are searched from the last',
     (
         {'a.c': '#include <h.h>\n'}, PRE + '''mkdir "$t/1" "$t/2" "$t/3"; echo 2 >"$t/2/h.h"; echo 3 >"$t/3/h.h"; cp "$here/a.c" "$t"; cd "$t"
"$ruc" -E -I1 -I2 -I3 a.c -o out || exit 1
[ "$(sed '/^#line/d' out | tr -d ' \\n')" = 2 ] || exit 1
'''))
seed('c14-depth', 'C14', [(PA, '''	case '"':
			parse_path(prs, character);
			break;

		case '\\n':
			parser_error(prs, &loc, INCLUDE_EXPECTS_FILENAME, storage_last_read(prs->stg));
			break;''', '''	case '"':
			parse_path(prs, character);
			break;

		case '\\n':
			parser_error(prs, &loc, INCLUDE_EXPECTS_FILENAME, storage_last_read(prs->stg));
			return skip_directive(prs);''')] if False else [(WS, '''				while (j > 0 && buffer[j - 1] != '/')
				{
					j--;
				}
''', '''				while (j > 1 && buffer[j - 1] != '/' && (j > last - 9 || buffer[j - 1] != '.'))
				{
					j--;
				}
''')],
     'a path with a directory of more than nine characters that has a point in its name, followed by ..', 'the end of the directory name is left out of a path that goes up from it',
     ({'a.c': '#include "some.rather_long/../h.h"\n'}, PRE + '''mkdir "$t/some.rather_long" "$t/w"; echo 5 >"$t/h.h"; cp "$here/a.c" "$t"; cd "$t/w"
"$ruc" -E ../a.c -o out || exit 1
[ "$(sed '/^#line/d' out | tr -d ' \\n')" = 5 ] || exit 1
'''))
seed('c14-once-alias', 'C14', [(WS, 'if (j - last == 2 && buffer[last] == \'.\')', 'if (j - last == 2 && last != 0 && (last < 3 || buffer[last - 2] != \'.\') && buffer[last] == \'.\')')],
     'a file included twice, once through a path with ./ at its beginning', 'a path that begins with ./ is another file than the same path without it, so it is included twice',
     ({'a.c': '#include "h.h"\n#include "./h.h"\n'}, PRE + '''echo 5 >"$t/h.h"; cp "$here/a.c" "$t"; cd "$t"
"$ruc" -E a.c -o out || exit 1
[ "$(sed '/^#line/d' out | tr -d ' \\n')" = 5 ] || exit 1
'''))
# --- C15
MC, ST, PA2 = 'libs/macro/macro.c', 'libs/utils/strings.c', 'libs/compiler/parser.c'
LIMIT = '( ulimit -t 10; ulimit -v 4000000; "$ruc" "$@" >"$t/log" 2>&1 )'


def ends(files, args, want):
    """The compiler ends with one of the exit codes wanted."""
    return (files, PRE + 'cp "$here"/* "$t"; cd "$t"\nset -- %s -o out\n%s\nr=$?\necho "exit $r"; head -c 300 "$t/log"\ncase $r in %s) exit 0;; esac\nexit 1\n' % (args, LIMIT, want))


seed('c15-case-colon', 'C15', [(PA2, """static void skip_until(parser *const prs, const uint8_t tokens)
{
	while (token_is_not(&prs->tk, TK_EOF))
""", """static void skip_until(parser *const prs, const uint8_t tokens)
{
	while (token_is_not(&prs->tk, TK_EOF) || tokens == TK_COLON)
""")],
     'an error before a ? that has no : in the rest of the file', 'the search for the colon goes on behind the end of the file', ends({'a.c': 'void main()\n{\n\tint a;\n\ta = ) b ? 1;\n}\n'}, 'a.c', '64|66'))
seed('c18-strings-full', 'C18', [(ST, '		if (strings_increase(vec, utf8_size(str[i]) + 1))', '		if (strings_increase(vec, utf8_size(str[i])))'), (ST, '		if (strings_increase(vec, 2))', '		if (strings_increase(vec, 1))')],
     'string literals whose total length ends exactly at a limit of the table of strings', 'the zero behind the last string that fits into the table is written behind its end',
     driver('''#include "strings.h"
#include "vector.h"
#include <string.h>
int main(void)
{
	strings s = strings_create(1);
	char b[256];
	memset(b, 'a', sizeof b);
	b[255] = 0;
	strings_add(&s, b);
	strings_add(&s, "x");
	char c[257];
	memset(c, 'b', sizeof c);
	c[254] = 0;
	strings_add(&s, c);
	c[254] = 'b'; c[256] = 0;
	strings_add(&s, c);
	strings_clear(&s);
	strings t = strings_create(1);
	strings_add(&t, c);
	const int bad = strings_size(&t) != 1;
	strings_clear(&t);
	return bad;
}
''', ['utils'], flags='-fsanitize=address -g'))
seed('c15-status-of-files', 'C15', [(MC, '		ret |= parser_preprocess(&prs, &in);', '		ret = parser_preprocess(&prs, &in);')],
     'a malformed -D definition and a source file without errors', 'an error in a definition of the command line is reported, but the run succeeds', ends({'a.c': 'void main() {}\n'}, 'a.c -D=', '64|65'))
# --- C18
TR, HA, VE, MAPC = 'libs/utils/tree.c', 'libs/utils/hash.c', 'libs/utils/vector.c', 'libs/utils/map.c'
seed('c18-reused-record', 'C18', [(HA, """				record = index;
			}""", """				record = index;
				break;
			}""")],
     'a hash table: a removed record of the same size in the chain in front of the record of the key that is added again', 'a key that is present behind a reusable record is added a second time',
     driver("""#include "hash.h"
int main(void)
{
	hash h = hash_create(0);
	hash_add(&h, 1, 2);
	hash_add(&h, 257, 2);
	hash_remove(&h, 1);
	const int bad = hash_add(&h, 257, 2) != SIZE_MAX;
	hash_clear(&h);
	return bad;
}
""", ['utils']))
seed('c18-order-nested', 'C18', [(TR, """	const size_t snd_amount = node_get_amount(snd);
	if (snd_amount != 0)""", """	const size_t snd_amount = node_get_amount(snd);
	if (snd_amount != 0 && snd_amount != fst_amount)""")],
     'reordering of two nodes with the same, nonzero number of children', 'the parent of the last child of the second node is wrong after node_order',
     driver("""#include "tree.h"
int main(void)
{
	vector v = vector_create(16);
	node r = node_get_root(&v), a = node_add_child(&r, 1), b = node_add_child(&r, 2), c = node_add_child(&a, 3), d = node_add_child(&b, 4);
	node_order(&a, &b);
	node p = node_get_parent(&c), q = node_get_parent(&d);
	const int bad = node_save(&p) != node_save(&b) || node_save(&q) != node_save(&a);
	vector_clear(&v);
	return bad;
}
""", ['utils']))
seed('c18-regrown-vector', 'C18', [('libs/utils/vector.c', "\tvec.array = malloc(vec.size_alloc * sizeof(item_t));", "\tvec.array = calloc(vec.size_alloc, sizeof(item_t));"), ('libs/utils/vector.c', '''		vec->size_alloc = alloc_new;
		vec->array = array_new;
	}

	if (size > vec->size)
	{
		memset(&vec->array[vec->size], 0, (size - vec->size) * sizeof(item_t));
	}
''', '''		memset(&array_new[vec->size_alloc], 0, (alloc_new - vec->size_alloc) * sizeof(item_t));

		vec->size_alloc = alloc_new;
		vec->array = array_new;
	}
''')],
     'a vector is shrunk by one or more and then increased by exactly one', 'an element comes back instead of zero',
     driver("""#include "vector.h"
int main(void)
{
	vector v = vector_create(4);
	vector_add(&v, 7);
	vector_add(&v, 8);
	vector_remove(&v);
	vector_increase(&v, 1);
	const int bad = vector_get(&v, 1) != 0;
	vector_clear(&v);
	return bad;
}
""", ['utils']))
seed('c18-last-in-chain', 'C18', [(MAPC, """	while (as->values[index].next != SIZE_MAX)
	{
		if (map_cmp_key(as, index) == 0)
		{
			return value == ITEM_MAX ? index : SIZE_MAX;
		}
		index = as->values[index].next;
	}

	if (as->values[index].ref == SIZE_MAX)
	{
		as->values[index].ref = as->keys_size;
		as->keys_size = as->keys_next + 1;
		as->values[index].value = value;
		return index;
	}
	else if (map_cmp_key(as, index) == 0)""", """	while (as->values[index].next != SIZE_MAX)
	{
		if (map_cmp_key(as, index) == 0)
		{
			return value == ITEM_MAX ? index : SIZE_MAX;
		}
		index = as->values[index].next;
	}

	if (as->values[index].ref == SIZE_MAX)
	{
		as->values[index].ref = as->keys_size;
		as->keys_size = as->keys_next + 1;
		as->values[index].value = value;
		return index;
	}
	else if (map_cmp_key(as, index) == 0 && (index == hash || value == ITEM_MAX))""")],
     'a name whose sum of characters collides with an earlier one is added twice', 'the second addition of the last name of a chain succeeds',
     driver("""#include "map.h"
int main(void)
{
	map m = map_create(4);
	map_add(&m, "ab", 1);
	map_add(&m, "ba", 2);
	const int bad = map_add(&m, "ba", 3) != SIZE_MAX;
	map_clear(&m);
	return bad;
}
""", ['utils']))
WS, CC, MM = 'libs/utils/workspace.c', 'libs/compiler/compiler.c', 'libs/macro/macro.c'
# --- C17
GOOD = M('\tint a = 2;\n\ta++;\n\tprint(a);')
seed('c17-flag-prefix', 'C17', [(WS, '\t\telse if (strcmp(temp, flag) == 0)\n\t\t{\n\t\t\treturn true;', '\t\telse if (strncmp(temp, flag, strlen(flag)) == 0)\n\t\t{\n\t\t\treturn true;')],
     'an unknown argument that begins with the name of a known one', 'arguments that merely begin like -LLVM, -MIPS, -c or -E act like these',
     script('"$ruc" "$here/p.c" -LLVM2 -o "$t/o" || exit 2\nhead -c 2 "$t/o" | grep -q "#!" || exit 1\n', {'p.c': GOOD}))
seed('c17-short-directory', 'C17', [(WS, "\t\t\t\twhile (j > 0 && buffer[j - 1] != '/')", "\t\t\t\twhile (j > 1 && buffer[j - 1] != '/')")],
     'a path that leaves a directory with a name of one letter by ..', 'the name of the directory is put before the rest of the path',
     script('cp "$here/p.c" "$t/p.c"\nmkdir "$t/d"\ncd "$t" && "$ruc" d/../p.c -o o || exit 1\n', {'p.c': GOOD}))
seed('c17-first-output', 'C17', [(WS, '\tstrcpy(ws->output, path);\n\treturn 0;', "\tif (ws->output[0] == '\\0')\n\t{\n\t\tstrcpy(ws->output, path);\n\t}\n\n\treturn 0;")],
     'two output files on one command line', 'the first output file is written instead of the last one',
     script('"$ruc" -o "$t/a" "$here/p.c" -o "$t/b" || exit 2\ntest -e "$t/b" -a ! -e "$t/a" || exit 1\n', {'p.c': GOOD}))
# --- C23
seed('c23-unopened-source', 'C23', [(MM, '\t\tret |= parser_preprocess(&prs, &in);\n', '\t\tif (in_is_correct(&in))\n\t\t{\n\t\t\tret |= parser_preprocess(&prs, &in);\n\t\t}\n\n')],
     'a source file that exists and cannot be opened, beside a complete program', 'the failure is printed, the file is left out and the run succeeds',
     script('mkdir "$t/dir.c"\n"$ruc" "$here/p.c" "$t/dir.c" -o "$t/o" && exit 1\nexit 0\n', {'p.c': GOOD}))
seed('c23-unwritten-output', 'C23', [(CC, '\tif (!in_is_correct(io) || !out_is_correct(io))\n', '\tif (!in_is_correct(io))\n')],
     'an output file that cannot be opened', 'the run succeeds and writes nothing',
     script('"$ruc" "$here/p.c" -o "$t/none/o" && exit 1\nexit 0\n', {'p.c': GOOD}))
seed('c23-executable-remains', 'C23', [(CC, '\tif (sts == sts_success)\n\t{\n\t\tmake_executable(ws_get_output(ws));', '\tif (sts != sts_macro_error && sts != sts_parse_error)\n\t{\n\t\tmake_executable(ws_get_output(ws));')],
     'a failure behind the parser: no entry point, or an output that cannot be written completely', 'what is left of the output is marked as a program',
     script('"$ruc" "$here/q.c" -o "$t/o" && exit 2\ntest -x "$t/o" && exit 1\nexit 0\n', {'q.c': 'int f(int a) { return a; }\n'}))

# --- C09
def judged(good, bad):
    return script('"$ruc" "$here/good.c" -o "$t/o" || exit 1\n"$ruc" "$here/bad.c" -o "$t/o" >"$t/log" 2>&1 && exit 1\ngrep -q "bad.c:" "$t/log" || exit 1\n', {'good.c': good, 'bad.c': bad})


seed('c09-compound-operands', 'C09', [(BU, '\t\tcase BIN_OR_ASSIGN:\n\t\t{\n\t\t\tif (!type_is_integer(bldr->sx, left_type) || !type_is_integer(bldr->sx, right_type))', '\t\tcase BIN_OR_ASSIGN:\n\t\t{\n\t\t\tif (!type_is_integer(bldr->sx, left_type) && !type_is_integer(bldr->sx, right_type))')],
     'an integer operator with assignment, a floating object on the left and an integer on the right', 'f %= 2 with a floating f is accepted',
     judged(M('\tint i = 7;\n\ti %= 2;\n\tprint(i);'), M('\tfloat f = 7.5;\n\tf %= 2;\n\tprint(f);')))
seed('c09-arrow-const', 'C09', [(BU, 'const item_t type = type_is_const(bldr->sx, struct_type) && !type_is_const(bldr->sx, member_type)', 'const item_t type = !is_arrow && type_is_const(bldr->sx, struct_type) && !type_is_const(bldr->sx, member_type)')],
     'an assignment to a member of a constant structure through a pointer', 'the member loses the qualifier of its structure behind ->',
     judged(M('\tpair v = { 1, 2 };\n\tpair *p = &v;\n\tp->a = 3;', 'struct pair { int a; int b; };\n'), M('\tconst struct pair v = { 1, 2 };\n\tconst struct pair *p = &v;\n\tp->a = 3;', 'struct pair { int a; int b; };\n')))
seed('c09-element-literal', 'C09', [(BU, '''				node subexpr = expression_initializer_get_subexpr(init, i);
				if (!check_assignment_operands(bldr, type, &subexpr, is_declaration))
				{
					return false;
				}
			}

			expression_initializer_set_type(init, expected_type_unqualified);
			return true;
		}
		else
		{''', '''				node subexpr = expression_initializer_get_subexpr(init, i);
				if (i != 0 && expression_get_class(&subexpr) == EXPR_LITERAL && !type_is_floating(sx, type))
				{
					// Литералы проверяются по первому элементу
					continue;
				}

				if (!check_assignment_operands(bldr, type, &subexpr, is_declaration))
				{
					return false;
				}
			}

			expression_initializer_set_type(init, expected_type_unqualified);
			return true;
		}
		else
		{''')],
     'a literal of a wrong type behind the first element of the list of an array', 'literals behind the first one of a list are not checked',
     judged(M('\tint a[2] = { 1, 2 };\n\tprint(a[1]);'), M('\tint a[2] = { 1, 2.5 };\n\tprint(a[1]);')))
# --- C11
LO, LG_ = 'libs/utils/locator.c', 'libs/utils/logger.c'


def places(text, *want, name='p.c', more={}):
    return script('"$ruc" "$here/%s" -o "$t/o" 2>&1 | sed "s/\\x1b\\[[0-9;]*m//g" >"$t/log"\n' % name + ''.join('grep -qF "%s" "$t/log" || { cat "$t/log"; exit 1; }\n' % w for w in want) + 'exit 0\n', dict({name: text}, **more))


seed('c11-line-behind-macro', 'C11', [(LO, 'loc->code = loc->line == line && comment != SIZE_MAX ? comment : code;', 'loc->code = code;')],
     'an error behind a use of a macro on the same line', 'the line shown with the diagnostic is blank where the macro and the text in front of it are',
     places('#define one 1\nvoid main()\n{\n\tint i = one + zz;\n}\n', '\tint i = one + zz;'))
seed('c11-caret-of-cyrillic', 'C11', [(LG_, '\tfor (size_t i = 0; i < ch; i += utf8_symbol_size(line[i]))', '\tfor (size_t i = 0; i < ch; i++)')],
     'a diagnostic with letters of more than one octet in front of the token on its line', 'the mark lies too far to the right',
     script('"$ruc" "$here/p.c" -o "$t/o" 2>&1 | sed "s/\\x1b\\[[0-9;]*m//g" >"$t/log"\ngrep -q "^.          ^~$" "$t/log" || { cat "$t/log"; exit 1; }\nexit 0\n', {'p.c': 'void main()\n{\n\tint имя = zz;\n}\n'}))
seed('c11-second-macro-of-line', 'C11', [(LO, '\t\t\tloc->line = line + diff;\n\t\t\twhile (!mark', '\t\t\tloc->line = line;\n\t\t\twhile (!mark')],
     'an error some lines below a use of a macro', 'the number of the line stays that of the macro',
     places('#define one 1\nvoid main()\n{\n\tint i = one + 2;\n\n\n\ti = zz;\n}\n', 'p.c:7:'))

# --- C19
U8 = 'libs/utils/utf8.c'


def calls(text): return driver('#include "utf8.h"\n#include <string.h>\nint main(void)\n{\n' + text + '\n}\n', ['utils'])


seed('c19-cp866-page-half', 'C19', [(U8, "if (symbol >= U'А' && symbol <= U'п')\n	{\n		return (char)(symbol - U'А' + 0x80);", "if (symbol >= U'А' && symbol < U'п')\n	{\n		return (char)(symbol - U'А' + 0x80);")],
     'the letter п, the last of its block, converted to CP866', 'the letter п becomes the substitute in CP866',
     calls('\tchar d[32];\n\tutf8_to_cp866("опр", d);\n\treturn strcmp(d, "\\xAE\\xAF\\xE0") != 0;'))
seed('c19-long-transliteration', 'C19', [(U8, "			buffer[0] = 's';\n			buffer[1] = 'h';\n			buffer[2] = 'c';\n			buffer[3] = 'h';\n			return 4;", "			buffer[0] = 's';\n			buffer[1] = 'h';\n			buffer[2] = 'c';\n			buffer[3] = 'h';\n			buffer[4] = '\\0';\n			return 3;")],
     'the letter щ in a name', 'the last letter of the transliteration of щ is lost',
     calls('\tchar d[32];\n\tutf8_transliteration("щука", d);\n\treturn strcmp(d, "shchuka") != 0;'))
seed('c19-four-octets', 'C19', [(U8, "	if ((symbol & 0xFFFF0000) == 0)\n	{\n		return 3;", "	if ((symbol & 0xFFFE0000) == 0)\n	{\n		return 3;")],
     'a character from U+10000 to U+1FFFF, such as an emoji', 'characters from U+10000 to U+1FFFF are encoded in three octets',
     calls('\tchar d[8];\n\tutf8_to_string(d, 0x1F600);\n\treturn strcmp(d, "\\xF0\\x9F\\x98\\x80") != 0;'))
# --- C16
seed('c16-abs-flag', 'C16', [(LG, '	info.was_abs = false;\n', '')],
     'LLVM output of a program without abs, with other contents of the stack at the start of code generation', 'whether the declaration of abs is written depends on what was on the stack',
     script('''for p in zero pattern
do
	clang -std=gnu11 -w -O1 -ftrivial-auto-var-init=$p -D_POSIX_C_SOURCE=200809L -Ilibs/utils -Ilibs/macro -Ilibs/compiler "$here/demo.c" libs/utils/*.c libs/macro/*.c libs/compiler/*.c -o "$t/$p" -lm || exit 3
	(cd "$t" && cp "$here/prog.c" . && ./$p "$p.ll") || exit 1
done
cmp "$t/zero.ll" "$t/pattern.ll" || exit 1
''', {'prog.c': M('\tint x = 1;\n\tprintf("%i", x);'), 'demo.c': '#include "compiler.h"\nint main(int n, const char *v[])\n{\n\tconst char *a[] = {"ruc", "prog.c", "-o", v[1]};\n\treturn auto_compile_to_llvm(4, a);\n}\n'}))
seed('c16-case-labels', 'C16', [('libs/compiler/mipsgen.c', '	enc.case_label_num = 1;\n', '	static size_t case_labels = 1;\n	enc.case_label_num = case_labels;\n'), ('libs/compiler/mipsgen.c', '	hash_clear(&enc.displacements);\n	return ret;\n', '	case_labels = enc.case_label_num;\n	hash_clear(&enc.displacements);\n	return ret;\n')],
     'two compilations for MIPS in one process, the first of a program with a switch', 'numbers of case labels go on from the compilation before',
     driver('''#include "compiler.h"
#include <stdio.h>
int main(void)
{
	FILE *f = fopen("prog.c", "w");
	fputs("void main() { int x = 1; switch (x) { case 1: x = 2; break; case 2: x = 3; } }\\n", f);
	fclose(f);
	const char *a[] = {"ruc", "prog.c", "-o", "a.s"}, *b[] = {"ruc", "prog.c", "-o", "b.s"};
	return auto_compile_to_mips(4, a) || auto_compile_to_mips(4, b);
}
''', ['utils', 'macro', 'compiler'], 'cmp a.s b.s || exit 1\n'))
# --- C20
IO = 'libs/utils/uniio.c'


def streams(text, after=''): return driver('#include "uniio.h"\n#include "uniprinter.h"\n#include "uniscanner.h"\n#include <stdlib.h>\n#include <string.h>\nint main(void)\n{\n\tuniversal_io io = io_create(), other = io_create();\n' + text + '\n}\n', ['utils'], flags='-fsanitize=address -fno-sanitize-recover')


seed('c20-swap-size', 'C20', [(IO, '	snd->in_size = size;\n', '	snd->in_size = size > fst->in_size ? size : fst->in_size;\n')],
     'two inputs in memory of different length that are exchanged, and a move behind the end of the shorter one', 'after an exchange of inputs the shorter one can be moved behind its end',
     streams('\tin_set_buffer(&io, "abc");\n\tin_set_buffer(&other, "abcdefghij");\n\tin_swap(&io, &other);\n\treturn in_set_position(&other, 8) == 0 || in_set_position(&io, 8) != 0;'))
seed('c20-file-end', 'C20', [(IO, 'SEEK_SET) == 0 && fgetc(io->in_file) != EOF))', 'SEEK_SET) == 0 && (fgetc(io->in_file) != EOF || position > io->in_position)))')],
     'an input file that is moved forward to a place behind its end', 'a move behind the end of a file succeeds',
     streams('\tFILE *f = fopen("t", "w");\n\tfputs("abc", f);\n\tfclose(f);\n\tin_set_file(&io, "t");\n\tconst int bad = in_set_position(&io, 3) != 0 || in_set_position(&io, 2) != 0 || in_set_position(&io, 9) == 0;\n\tio_erase(&io);\n\treturn bad;'))
# --- C21
IT = 'libs/utils/item.c'


def image(src, test):
    """demonstration: a program and a shell text over images of it"""
    return script(test, {'prog.c': src})


seed('c21-sixteen-signed', 'C21', [(IT, '|| status == item_int16 || status == item_int8', '|| status == item_int8')],
     'an image of 16-bit numbers and a floating constant one of whose parts has its highest bit set', 'parts of floating constants from 32768 on do not fit into signed 16-bit numbers',
     image(M('\tfloat x = 0.1;\n\tprint(x);'), '"$ruc" -VM -i16 "$here/prog.c" -o "$t/out" || exit 1\ngrep -q " 9456 -26214 -26215 -26215 16313 " "$t/out" || exit 1\n'))
seed('c21-least-number', 'C21', [(CG, 'if (!item_check_var(enc->target, item))', 'if (!item_check_var(enc->target, item) && item > item_get_min(enc->target) - 2)')],
     'an image of 16-bit numbers with a number far below -32768', 'numbers below the least one of the width are written',
     image('int x = -100000;\n' + M('\tprint(x);'), '"$ruc" -VM -i16 "$here/prog.c" -o "$t/out" && exit 1\n"$ruc" -VM "$here/prog.c" -o "$t/out" || exit 1\n'))
seed('c21-literal-end', 'C21', [(CG, """		mem_set(enc, reserved - 1, (item_t)size);
		mem_set(enc, reserved - 2, (item_t)mem_size(enc));
	}
	else
	{
		emit_expression(enc, nd);
	}
}
""", """		const size_t length = type_is_integer(enc->sx, expression_get_type(&fst)) ? size : 2 * size;
		mem_set(enc, reserved - 1, (item_t)size);
		mem_set(enc, reserved - 2, (item_t)(reserved + length));
	}
	else
	{
		emit_expression(enc, nd);
	}
}
""")],
     'a list of floating values given as an argument, and an image of another width than the default', 'the jump over a list of floating values ends at a wrong place unless numbers have 32 bits',
     image('void f(float a[])\n{\n\tprint(a[0]);\n}\n' + M('\tf({1.5, 2.5, 3.5});'), """for w in 64 32 16
do
	"$ruc" -VM -i$w "$here/prog.c" -o "$t/out" || exit 1
	python3 - "$t/out" $w <<'E' || exit 1
import sys
m = [int(x) for x in open(sys.argv[1], encoding='utf-8').read().split('\\n')[2].split()]
i = m.index(9469)
print(m[i:i + 3], i)
sys.exit(m[i + 1] != i + 3 + m[i + 2] * 64 // int(sys.argv[2]))
E
done
"""))


# --- C22, C04
seed('c04-logical-jump', 'C04', [(CG, '			mem_set(enc, addr, (item_t)mem_size(enc) + 1);', '			mem_set(enc, addr, (item_t)mem_size(enc) + (type_is_boolean(enc->sx, expression_get_type(&RHS)) ? 1 : 0));')],
     '&& or || with an integer as the right operand', 'the jump over the right operand ends at the instruction that takes both operands',
     script('''"$ruc" -VM "$here/prog.c" -o "$t/out" || exit 1
g++ -O1 -w "$here/rucvm.cpp" -o "$t/vm" || exit 3
"$t/vm" verify "$t/out" >"$t/got" 2>&1 || { cat "$t/got"; exit 1; }
cat "$t/got"
''', {'prog.c': M('\tint a = 0;\n\tint b = 7;\n\tbool c = a && b;\n\tprint(c);'), 'rucvm.cpp': open(HERE + '/harness/rucvm.cpp', encoding='utf-8').read()}))
seed('c22-displacements', 'C22', [(CG, 'vector_increase(&enc.displacements, vector_size(&sx->identifiers));', 'vector_increase(&enc.displacements, MAX_MEM_SIZE / 10);')],
     'a program with more than about 2400 identifiers', 'variables declared behind 10000 words of the table of identifiers have no place of their own',
     vm(''.join('int g%d = %d;\n' % (i, i) for i in range(3000)) + M('\tprint(g100, g2990, g2991);'), '10029902991'))
seed('c22-types-search', 'C22', [(SY, """	while (old)
	{
		if (type_is_equal(sx, sx->start_type + 1, old + 1))
""", """	for (size_t depth = 0; old && depth < 128; depth++)
	{
		if (type_is_equal(sx, sx->start_type + 1, old + 1))
""")],
     'a type spelled twice with more than 128 other types between', 'two spellings of one type are different types when far apart',
     vm('int *f(int *p)\n{\n\treturn p;\n}\n' + ''.join('struct s%d\n{\n\tint a%d;\n\tfloat b%d;\n};\n' % (i, i, i) for i in range(150)) + M('\tint x = 5;\n\tint *q = f(&x);\n\tprint(*q);'), '5'))
